import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
NOTE = ('join and JoinFilter::fmt are proved for every iterable, separator and destination: a successful display is exactly the items with the separator strictly between. '
        'Trusted: core::fmt by contract; IntoIterator yields its items in order; Cell::take by contract (modelled with exclusive access).')
SPEC = r'''
pub trait IntoIter { type Item: Display; spec fn items(&self) -> Seq<Self::Item>; fn collect(self) -> (v: Vec<Self::Item>) where Self: Sized ensures v@ == self.items(); }
pub open spec fn joined<T: Display>(s: Seq<T>, sep: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { s[0].text() }
    else { joined(s.drop_last(), sep) + sep + s.last().text() }
}
/// core::cell::Cell: take leaves the default
pub struct Cell<T> { pub v: Option<T> }
impl<T> Cell<T> {
    pub fn new(v: Option<T>) -> (r: Self) ensures r.v == v { Cell { v } }
    pub fn take(&mut self) -> (r: Option<T>) ensures r == old(self).v, final(self).v is None { self.v.take() }
}
'''
def nest(kind, dest, pieces):
    if kind not in ('write',): raise Lost(kind)
    def one(k, p): return f'{dest}.write_str("{p}")' if k == 'lit' else f'fmt::write_display({dest}, &{p})'
    r = one(*pieces[-1])
    for k, p in reversed(pieces[:-1]): r = f'(match {one(k, p)} {{ Ok(()) => {r}, Err(e_) => Err(e_) }})'
    return r
def write_fmts(b):
    """f.write_fmt(format_args!(..)) -> write!(f, ..)"""
    while True:
        m = mask(b); mm = re.search(r'\b(\w+)\.write_fmt\(\s*format_args!\(', m)
        if not mm: return b
        o = m.index('(', m.index('.write_fmt', mm.start())); c = match_close(m, o); i = mm.end() - 1; ic = match_close(m, i)
        b = b[:mm.start()] + f'write!({mm.group(1)}, {b[i+1:ic]})' + b[c+1:]
def unit(repo):
    u = Unit('c09'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.FMT + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.FMT_TRUST); u.trust('IntoIterator: into_iter().enumerate() yields the items in order with their positions; Cell::take by contract')
    st = s.find(r'struct\s+JoinFilter')
    if not re.search(r'\(Cell<Option<\(I, S\)>>\)', strip_comments(st.text)): raise Lost('JoinFilter')
    u.raw('pub struct JoinFilter<I, S>(pub Cell<(I, S)>);')
    imp = s.find(r'impl<I,\s*S>\s+fmt::Display\s+for\s+JoinFilter'); f = imp.sub(r'fn\s+fmt\b')
    fa = re.search(r'(\w+): &mut fmt::Formatter', f.head).group(1)
    b = format_to(write_fmts(strip_comments(f.body)), nest)
    g = re.search(r'let\s+Some\(\(\s*(\w+)\s*,\s*(\w+)\s*\)\)\s*=\s*self\.0\.take\(\)', b)
    if not g: raise Lost('take')
    it, sep = g.groups()
    m = mask(b); mm = re.search(rf'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*{it}(?:\.into_iter\(\))?\.enumerate\(\)\s*\{{', m)
    if mm: i, tok = mm.groups(); pat = f'let {i} = k_; let {tok} = &items_[k_];'
    else: raise Lost('loop')
    o = mm.end() - 1
    b = (b[:mm.start()] + f'let ghost its_ = {it}.items(); let items_ = {it}.collect(); let mut k_: usize = 0; while k_ < items_.len() {{ {pat} k_ += 1; proof {{ assert(its_.subrange(0, k_ as int).drop_last() =~= its_.subrange(0, k_ - 1)); assert(its_.subrange(0, 0) =~= Seq::empty()); }}' + b[mm.end():])
    b = re.sub(rf'&{tok}\b(?!_)', tok, b) if False else b.replace(f'write_display({fa}, &{tok})', f'write_display({fa}, {tok})')
    b = add_invariants(b, [f'invariant k_ <= items_.len(), items_@ == its_, {fa}.bytes() =~= old({fa}).bytes() + joined(its_.subrange(0, k_ as int), {sep}.text())\n decreases items_.len() - k_'])
    k = loop_positions(b)[0][2]; e = match_close(mask(b), k) + 1
    b = b[:e] + ' proof { assert(its_.subrange(0, k_ as int) =~= its_); }' + b[e:]
    u.fn('JoinFilter::fmt', f, f"fn fmt_(&mut self, {fa}: &mut fmt::Formatter<'_>) -> (r: fmt::Result)", b,
         ensures=[f'r.is_ok() && old(self).0.v is Some ==> final({fa}).bytes() == old({fa}).bytes() + joined((old(self).0.v->0).0.items(), (old(self).0.v->0).1.text())'],
         before='impl<I: IntoIter, S: Display> JoinFilter<I, S> {', after='}', attrs='#[verifier::loop_isolation(false)]')
    f = s.find(r'pub\s+fn\s+join<'); (a, _), (c, _) = params(f.head)
    u.fn('join', f, f'pub fn join<I: IntoIter, S: Display>({a}: I, {c}: S) -> (r: Result<JoinFilter<I, S>, Infallible>)', strip_comments(f.body),
         ensures=['r.is_ok()', f'r.unwrap().0.v == Some(({a}, {c}))'])
    u.drop('`&self` of the filter with its Cell -> `&mut self`; `for (i, t) in it.into_iter().enumerate()` -> counting while loop over the collected items; f.write_fmt(format_args!("{a}{b}")) -> the writes in order until one fails; `impl Display` named')
    return u
UNITS = [('join', unit)]
def companion(tier): return run_harness('rt', 'C09', tier)
