import re
from ..rsx import *
from ..verus import Unit
from ..rw import *
from .c01 import need_only
from .. import cou, ndu, rnd, visu
H = 'askama/src/helpers.rs'
NOTE = ('TemplateLoop::{new, next} are proved for every iterator: the k-th call yields the k-th item with index k, first iff k = 0, last iff no item follows. '
        'Trusted: Enumerate and Peekable by contract. '
        'Loop::parse is proved to put target, iterator, condition, body and else branch at their places in the node. write_loop is proved to emit, for every loop node, one pass over the items in the scope of its variables and the else branch exactly when nothing was iterated; that the emitted statements mean that is also checked against a reference semantics (bounded).')
SPEC = r'''
/// an iterator that will yield `rest`, in order, and then nothing (core::iter)
pub trait Iter: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}
pub trait IterExt: Iter { fn enumerate(self) -> (r: Enumerate<Self>) ensures r.items() == self.rest(), r.pos() == 0; }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Enumerate<I: Iter> { i: I }
impl<I: Iter> Enumerate<I> {
    pub uninterp spec fn items(&self) -> Seq<I::Item>;
    pub uninterp spec fn pos(&self) -> int;
    /// core panics where the count would overflow: no sequence is that long
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<I>) ensures r.items() == self.items(), r.pos() == self.pos(), self.pos() == 0, self.items().len() < usize::MAX { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I: Iter> { i: I }
impl<I: Iter> Peekable<I> {
    pub uninterp spec fn items(&self) -> Seq<I::Item>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, I::Item)>)
        ensures old(self).items().len() == 0 ==> r is None && *final(self) == *old(self),
            old(self).items().len() > 0 ==> r == Some((old(self).pos() as usize, old(self).items()[0])) && final(self).items() == old(self).items().skip(1) && final(self).pos() == old(self).pos() + 1
    { unimplemented!() }
    /// bounds on what is left: exact ones only where the iterator says so
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= self.items().len(), r.1 matches Some(n) ==> self.items().len() <= n { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, I::Item)>)
        ensures *final(self) == *old(self), r is None <==> old(self).items().len() == 0
    { unimplemented!() }
}
'''
CLIENT = r'''
/// what the generated `for (item, _loop_item) in TemplateLoop::new(iter)` sees: every item once, in order, with its numbers
pub fn visits<I: IterExt>(it: I) -> (r: Vec<(I::Item, LoopItem)>)
    ensures r.len() == it.rest().len(),
        forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0 == it.rest()[k] && r[k].1.index == k && r[k].1.first == (k == 0) && r[k].1.last == (k == it.rest().len() - 1)
{
    let mut l = TemplateLoop::new(it); let mut v: Vec<(I::Item, LoopItem)> = Vec::new();
    loop
        invariant_except_break l.iter.pos() == v.len()
        invariant
            v.len() + l.iter.items().len() == it.rest().len(), it.rest().len() < usize::MAX,
            l.iter.items() =~= it.rest().skip(v.len() as int),
            forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == it.rest()[k] && v[k].1.index == k && v[k].1.first == (k == 0) && v[k].1.last == (k == it.rest().len() - 1)
        ensures l.iter.items().len() == 0
        decreases l.iter.items().len()
    {
        match l.next() { Some(x) => { v.push(x); } None => { break; } }
    }
    v
}
'''
def loop_unit(repo):
    u = Unit('c12_loop'); s = Src(repo, H)
    u.raw(SPEC); u.trust('core::iter::{Enumerate, Peekable} by contract: items in order with their positions; peek looks at the next item without consuming it; no sequence has usize::MAX items')
    st = s.find(r'pub\s+struct\s+TemplateLoop')
    if not re.search(r'\{\s*iter: Peekable<Enumerate<I>>,?\s*\}', strip_comments(st.text)): raise Lost('TemplateLoop')
    u.raw('#[verifier::reject_recursive_types(I)]\npub struct TemplateLoop<I: Iter> { pub iter: Peekable<I> }')
    li = s.find(r'pub\s+struct\s+LoopItem')
    if not re.search(r'pub index: usize', li.text): raise Lost('LoopItem')
    u.raw(strip_comments(li.text))
    f = [i for i in s.iter(r'impl<I>\s+TemplateLoop<I>')][0].sub(r'pub\s+fn\s+new\b'); a = re.search(r'\((\w+): I\)', f.head).group(1)
    u.fn('TemplateLoop::new', f, f'pub fn new({a}: I) -> (r: Self)', strip_comments(f.body), ensures=[f'r.iter.items() =~= {a}.rest()', 'r.iter.pos() == 0', f'{a}.rest().len() < usize::MAX'],
         before='impl<I: IterExt> TemplateLoop<I> {', after='')
    im = s.find(r'impl<I>\s+Iterator\s+for\s+TemplateLoop<I>')
    if need_only(im, ['next']) - {'size_hint'} != {'next'}: raise Lost('TemplateLoop overrides other methods of Iterator')
    f = im.sub(r'fn\s+next\b')
    u.fn('TemplateLoop::next', f, 'pub fn next(&mut self) -> (r: Option<(I::Item, LoopItem)>)', opt_map(strip_comments(f.body)),
         requires=['old(self).iter.pos() >= 0', 'old(self).iter.pos() + old(self).iter.items().len() < usize::MAX'],
         ensures=['old(self).iter.items().len() == 0 ==> r is None && final(self).iter.items().len() == 0',
                  'old(self).iter.items().len() > 0 ==> (r matches Some(x) && x.0 == old(self).iter.items()[0] && x.1.index == old(self).iter.pos() && x.1.first == (old(self).iter.pos() == 0) && x.1.last == (old(self).iter.items().len() == 1))',
                  'old(self).iter.items().len() > 0 ==> final(self).iter.items() == old(self).iter.items().skip(1) && final(self).iter.pos() == old(self).iter.pos() + 1'], after='}')
    u.raw(CLIENT)
    u.drop('Peekable<Enumerate<I>> -> Peekable<I> (abstract type); `o.map(|p| b)` -> match')
    return u
UNITS = [('TemplateLoop', loop_unit), ('statements', lambda repo: cou.unit(repo, 'C12')), ('loop variables', lambda repo: visu.unit(repo, 'C12')), ('node parsers', lambda repo: ndu.unit(repo, 'C12'))]
def companion(tier): return rnd.c12(tier)
