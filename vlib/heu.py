"""Inheritance: Heritage::new under contract (C20)."""
import re
from .rsx import *
from .rw import *
from . import gen
from .verus import Unit
H = 'askama_derive/src/heritage.rs'
SPEC = r'''
/// a path, as the key of a template (Rc<Path>)
#[verifier::external_body]
pub struct PathKey { x: u8 }
/// a block definition and the rest of a template
#[verifier::external_body]
pub struct BlockDef { x: u8 }
/// HashMap<&str, &BlockDef>
#[verifier::external_body]
pub struct Defs<'a> { x: &'a u8 }
impl<'a> Defs<'a> { pub uninterp spec fn view(&self) -> Map<Seq<char>, &'a BlockDef>; }
pub struct Context<'a> { pub extends: Option<PathKey>, pub blocks: Defs<'a> }
/// the entries of a map, in some order
pub open spec fn lists<'a>(m: Map<Seq<char>, &'a BlockDef>, v: Seq<(&'a str, &'a BlockDef)>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0@) && m[v[i].0@] == v[i].1)
    && (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@)
    && (forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n)
}
#[verifier::external_body]
pub fn entries<'a>(d: &Defs<'a>) -> (r: Vec<(&'a str, &'a BlockDef)>) ensures lists(d@, r@) { unimplemented!() }
/// HashMap<&Rc<Path>, Context>
#[verifier::external_body]
pub struct Contexts<'a> { x: &'a u8 }
pub uninterp spec fn at<'a>(c: &Contexts<'a>, p: PathKey) -> &'a Context<'a>;
#[verifier::external_body]
pub fn context_at<'a>(c: &'a Contexts<'a>, p: &PathKey) -> (r: &'a Context<'a>) ensures r == at(c, *p) { unimplemented!() }
/// HashMap<&str, Vec<(&Context, &BlockDef)>>
#[verifier::external_body]
pub struct Ancestry<'a> { x: &'a u8 }
impl<'a> Ancestry<'a> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<(&'a Context<'a>, &'a BlockDef)>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<(&'a Context<'a>, &'a BlockDef)>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_(&mut self, e: (&'a str, Vec<(&'a Context<'a>, &'a BlockDef)>)) ensures final(self)@ == old(self)@.insert(e.0@, e.1@) { unimplemented!() }
    /// entry(n).or_default().push(x)
    #[verifier::external_body]
    pub fn push_default(&mut self, n: &'a str, x: (&'a Context<'a>, &'a BlockDef)) ensures final(self)@ == old(self)@.insert(n@, got(old(self)@, n@).push(x)) { unimplemented!() }
}
pub open spec fn got<'a>(m: Map<Seq<char>, Seq<(&'a Context<'a>, &'a BlockDef)>>, n: Seq<char>) -> Seq<(&'a Context<'a>, &'a BlockDef)> { if m.contains_key(n) { m[n] } else { Seq::empty() } }
pub struct Heritage<'a> { pub root: &'a Context<'a>, pub blocks: Ancestry<'a> }
/// the k-th ancestor of c
pub open spec fn anc<'a>(c: &'a Context<'a>, cs: &Contexts<'a>, k: nat) -> &'a Context<'a> decreases k { if k == 0 { c } else { match anc(c, cs, (k - 1) as nat).extends { Some(p) => at(cs, p), None => arbitrary() } } }
/// the definitions of block n in c and its first k ancestors, the most derived one first
pub open spec fn defs<'a>(c: &'a Context<'a>, cs: &Contexts<'a>, k: nat, n: Seq<char>) -> Seq<(&'a Context<'a>, &'a BlockDef)> decreases k {
    let a = anc(c, cs, k); let here = if a.blocks@.contains_key(n) { seq![(a, a.blocks@[n])] } else { Seq::empty() };
    if k == 0 { here } else { defs(c, cs, (k - 1) as nat, n) + here }
}
/// the root is k levels above c
pub open spec fn root_at<'a>(c: &'a Context<'a>, cs: &Contexts<'a>, k: nat) -> bool { anc(c, cs, k).extends is None && forall|j: nat| j < k ==> (#[trigger] anc(c, cs, j)).extends is Some }
/// the entries that have been seen
pub open spec fn seen(v: Seq<(&str, &BlockDef)>, i: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < i && j < v.len() && (#[trigger] v[j]).0@ == n }
'''
CLIENT = r'''
/// C20: the first definition in the chain is the one of the most derived template that defines the block, and the next ones (super) follow in order of the chain
proof fn most_derived<'a>(c: &'a Context<'a>, cs: &Contexts<'a>, k: nat, j: nat, n: Seq<char>)
    requires j <= k, anc(c, cs, j).blocks@.contains_key(n), forall|i: nat| i < j ==> !(#[trigger] anc(c, cs, i)).blocks@.contains_key(n)
    ensures defs(c, cs, k, n).len() > 0, defs(c, cs, k, n)[0] == (anc(c, cs, j), anc(c, cs, j).blocks@[n])
    decreases k
{ if k == j { none_before(c, cs, j, n); } else { most_derived(c, cs, (k - 1) as nat, j, n); } }
proof fn none_before<'a>(c: &'a Context<'a>, cs: &Contexts<'a>, j: nat, n: Seq<char>) requires forall|i: nat| i < j ==> !(#[trigger] anc(c, cs, i)).blocks@.contains_key(n) ensures j > 0 ==> defs(c, cs, (j - 1) as nat, n).len() == 0 decreases j
{ if j > 0 { none_before(c, cs, (j - 1) as nat, n); assert(!anc(c, cs, (j - 1) as nat).blocks@.contains_key(n)); } }
'''
def unit(repo):
    u = Unit('c20_heritage'); s = Src(repo, H)
    st = s.find(r'struct\s+Heritage\b')
    if not re.search(r"root: &'a Context<'a>,\s*pub\(crate\) blocks: BlockAncestry<'a>", strip_comments(st.body)): raise Lost('Heritage')
    if not re.search(r"type\s+BlockAncestry<'a>\s*=\s*HashMap<&'a str, Vec<\(&'a Context<'a>, &'a BlockDef<'a>\)>>;", s.text): raise Lost('BlockAncestry')
    c = strip_comments(s.find(r'struct\s+Context\b').body)
    for x in ("extends: Option<Rc<Path>>", "blocks: HashMap<&'a str, &'a BlockDef<'a>>"):
        if x not in c: raise Lost('Context')
    u.raw(SPEC); u.raw(CLIENT)
    u.trust('HashMap by contract: iteration visits each entry once, entry().or_default().push() appends; every ancestor has a context (indexing)')
    u.drop('HashMap iteration -> loop over the entries in an unknown order; `.iter().map(f).collect()` -> the same loop with inserts; other fields of Context left out; termination of the walk up the chain is C21')
    f = s.find(r'impl\s+Heritage').sub(r'fn\s+new\b')
    g = re.search(r"mut (\w+): &'n Context<'n>,\s*(\w+): &'n HashMap<&'n Rc<Path>, Context<'n>>", f.head)
    if not g: raise Lost('Heritage::new')
    C, CS = g.groups(); b = strip_comments(f.body)
    # the initial map
    g = re.search(r"let mut (\w+)(?:: BlockAncestry<'n>)?\s*=\s*", b)
    if not g: raise Lost('Heritage::new: blocks')
    B = g.group(1); e = b.index(';', g.end()); init = b[g.end():e]; fs = []
    def col(x, a):
        h = re.match(r'^(.*?)\.\s*iter\(\)$', x.strip(), re.S)
        if not h: raise Lost('map on ' + x)
        p, c = closure(a[0]); p = p.strip('()').split(','); fs.append((re.sub(r'\s', '', h.group(1)), [q.strip() for q in p], c)); return '@'
    if re.sub(r'\s', '', method_calls(init, 'map', col)) != '@.collect()' or len(fs) != 1: raise Lost('Heritage::new: initial blocks')
    src, (pn, pd), cl = fs[0]
    if src != f'{C}.blocks': raise Lost('Heritage::new: initial blocks of ' + src)
    cl = cl.replace('vec![', 'vec1_(').replace(']', ')') if 'vec![' in cl else cl
    head = f'let mut {B} = Ancestry::new(); let es = entries(&{C}.blocks); let mut i_: usize = 0; while i_ < es.len() {{ let ({pn}, {pd}) = (&es[i_].0, &es[i_].1); i_ += 1; {B}.insert_({cl}); }}'
    rest = b[e+1:]
    # the walk
    g = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+&(\w+)\.blocks\s*\{', mask(rest))
    if not g: raise Lost('Heritage::new: walk')
    x = g.group(3); rest = rest[:g.start()] + f'let es = entries(&{x}.blocks); let ghost b0 = {B}@; let mut i_: usize = 0; while i_ < es.len() {{ let ({g.group(1)}, {g.group(2)}) = (es[i_].0, es[i_].1); i_ += 1;' + rest[g.end():]
    rest = re.sub(rf'{B}\s*\.\s*entry\((\w+)\)\s*\.\s*or_default\(\)\s*\.\s*push\(', rf'{B}.push_default(\1, ', rest)
    rest = re.sub(rf'&{CS}\[(\w+)\]', rf'context_at({CS}, \1)', rest)
    w = re.search(r'while let Some\((\w+)\) = &(\w+)\.extends\s*\{', rest)
    if not w or w.group(2) != C: raise Lost('Heritage::new: while')
    wc = match_close(mask(rest), w.end() - 1)
    body = rest[w.end():wc]
    # inner loop invariant
    k = '(k_ + 1) as nat'
    lp = loop_positions(body)
    if len(lp) != 1: raise Lost('Heritage::new: loops')
    body = add_invariants(body, [f'invariant i_ <= es.len(), lists({x}.blocks@, es@), forall|n: Seq<char>| #[trigger] got({B}@, n) == got(b0, n) + (if seen(es@, i_ as int, n) {{ seq![({x}, {x}.blocks@[n])] }} else {{ Seq::empty() }})\n decreases es.len() - i_'])
    o = loop_positions(body)[0][2]; c = match_close(mask(body), o)
    st_ = f' let ghost b1 = {B}@;'; en = f' proof {{ assert forall|n: Seq<char>| #[trigger] got({B}@, n) == got(b0, n) + (if seen(es@, i_ as int, n) {{ seq![({x}, {x}.blocks@[n])] }} else {{ Seq::empty() }}) by {{ assert(got(b1, n) == got(b0, n) + (if seen(es@, i_ - 1, n) {{ seq![({x}, {x}.blocks@[n])] }} else {{ Seq::empty() }})); if n == es@[i_ - 1].0@ {{ assert(!seen(es@, i_ - 1, n)); assert(seen(es@, i_ as int, n)) by {{ assert(es@[i_ - 1].0@ == n); }} assert(got({B}@, n) =~= got(b0, n) + seq![({x}, {x}.blocks@[n])]); }} else {{ assert(seen(es@, i_ as int, n) == seen(es@, i_ - 1, n)); }} }} }}'
    bf = f' proof {{ assert forall|n: Seq<char>| #[trigger] got({B}@, n) == got(b0, n) + (if seen(es@, 0, n) {{ seq![({x}, {x}.blocks@[n])] }} else {{ Seq::empty() }}) by {{ assert(!seen(es@, 0, n)); assert(got(b0, n) =~= got(b0, n) + Seq::empty()); }} }} '
    body = body[:o+1] + st_ + body[o+1:c] + en + body[c:]
    ws = loop_positions(body)[0][1]; body = body[:ws] + bf + body[ws:]
    tail = f' proof {{ k_ = {k}; assert forall|n: Seq<char>| #[trigger] got({B}@, n) == defs(c0_, {CS}, k_, n) by {{ assert(seen(es@, i_ as int, n) == {x}.blocks@.contains_key(n)) by {{ if {x}.blocks@.contains_key(n) {{ let i = choose|i: int| 0 <= i < es@.len() && (#[trigger] es@[i]).0@ == n; }} }} assert(got(b0, n) == defs(c0_, {CS}, (k_ - 1) as nat, n)); assert(got({B}@, n) =~= defs(c0_, {CS}, k_, n)); }} }} '
    inv = f'\ninvariant {C} == anc(c0_, {CS}, k_), forall|j: nat| j < k_ ==> (#[trigger] anc(c0_, {CS}, j)).extends is Some, forall|n: Seq<char>| #[trigger] got({B}@, n) == defs(c0_, {CS}, k_, n)\n'
    i0 = f'invariant i_ <= es.len(), lists({C}.blocks@, es@), forall|n: Seq<char>| #[trigger] got({B}@, n) =~= (if seen(es@, i_ as int, n) {{ seq![({C}, {C}.blocks@[n])] }} else {{ Seq::empty() }})\n decreases es.len() - i_'
    head = add_invariants(head, [i0]); o = loop_positions(head)[0][2]; c = match_close(mask(head), o)
    en = f' proof {{ assert forall|n: Seq<char>| #[trigger] got({B}@, n) =~= (if seen(es@, i_ as int, n) {{ seq![({C}, {C}.blocks@[n])] }} else {{ Seq::empty() }}) by {{ if n == es@[i_ - 1].0@ {{ assert(seen(es@, i_ as int, n)) by {{ assert(es@[i_ - 1].0@ == n); }} }} else {{ assert(got(b1, n) =~= (if seen(es@, i_ - 1, n) {{ seq![({C}, {C}.blocks@[n])] }} else {{ Seq::empty() }})); assert(seen(es@, i_ as int, n) == seen(es@, i_ - 1, n)); }} }} }}'
    head = head[:o+1] + f' let ghost b1 = {B}@;' + head[o+1:c] + en + head[c:]
    head += f' proof {{ assert forall|n: Seq<char>| #[trigger] got({B}@, n) == defs(c0_, {CS}, 0, n) by {{ assert(seen(es@, i_ as int, n) == {C}.blocks@.contains_key(n)) by {{ if {C}.blocks@.contains_key(n) {{ let i = choose|i: int| 0 <= i < es@.len() && (#[trigger] es@[i]).0@ == n; }} }} assert(got({B}@, n) =~= defs(c0_, {CS}, 0, n)); }} }}'
    b = f' let ghost c0_ = {C}; let ghost mut k_: nat = 0; {head} ' + rest[:w.start()] + rest[w.start():w.end()-1] + inv + '{' + body + tail + '}' + f' assert(root_at(c0_, {CS}, k_)); ' + rest[wc+1:]
    b = b.replace(f'{C} = context_at', 'this_ = context_at').replace(f'&{C}.extends', '&this_.extends') if False else b
    u.raw("pub fn vec1_<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }")
    u.fn('Heritage::new', f, f"pub fn new_<'n>(ctx0: &'n Context<'n>, {CS}: &'n Contexts<'n>) -> (r: Heritage<'n>)", f' let mut {C} = ctx0;' + b, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]',
         ensures=[f'exists|k: nat| #[trigger] root_at(ctx0, {CS}, k) && r.root == anc(ctx0, {CS}, k) && forall|n: Seq<char>| #[trigger] got(r.blocks@, n) == defs(ctx0, {CS}, k, n)'])
    return u
