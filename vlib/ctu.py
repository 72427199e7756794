"""What a template defines: Context::new under contract (C20)."""
import re
from .rsx import *
from .rw import *
from .verus import Unit
from . import cyu
H = 'askama_derive/src/heritage.rs'
SPEC = r'''
/// the path of a template
#[verifier::external_body]
pub struct Key { x: u8 }
pub struct CompileError { pub x: u8 }
#[verifier::external_body]
pub fn error_() -> (r: CompileError) { unimplemented!() }
/// the file that a name refers to in the template at a path, if there is one (C23)
pub uninterp spec fn look(name: Seq<char>, from: Key) -> Option<Key>;
pub struct Config { pub x: u8 }
impl Config {
    #[verifier::external_body]
    pub fn find_template(&self, name: &str, from: Option<&Key>) -> (r: Result<Key, CompileError>) ensures r matches Ok(k) ==> (from matches Some(f) ==> look(name@, *f) == Some(k)), r is Err ==> (from matches Some(f) ==> look(name@, *f) is None) { unimplemented!() }
}
/// HashMap<&str, V>
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Table<V> { x: V }
impl<V> Table<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: &str, v: V) ensures final(self)@ == old(self)@.insert(n@, v) { unimplemented!() }
}
pub struct Context<'a> { pub nodes: &'a Vec<Node<'a>>, pub extends: Option<Key>, pub blocks: Table<&'a BlockDef<'a>>, pub macros: Table<&'a Macro<'a>>, pub imports: Table<Key>, pub path: Option<&'a Key> }
@SIZES@
/// x stands in the list, or in a statement of it, however deep (filter blocks and macros excepted)
pub open spec fn inside<'a>(n: Vec<Node<'a>>, x: Node<'a>) -> bool decreases n { exists|k: int| 0 <= k < n@.len() && (n@[k] == x || within(#[trigger] n@[k], x)) }
pub open spec fn within<'a>(y: Node<'a>, x: Node<'a>) -> bool decreases y {
    match y {
        Node::BlockDef(b) => inside(b.nodes, x),
        Node::If(i) => exists|j: int| 0 <= j < i.branches@.len() && inside((#[trigger] i.branches@[j]).nodes, x),
        Node::Loop(l) => inside(l.body, x) || inside(l.else_nodes, x),
        Node::Match(m) => exists|j: int| 0 <= j < m.arms@.len() && inside((#[trigger] m.arms@[j]).nodes, x),
        _ => false,
    }
}
pub open spec fn nested_in<'a>(n: Seq<Node<'a>>, i: int, x: Node<'a>) -> bool { exists|k: int| i <= k < n.len() && within(#[trigger] n[k], x) }
pub open spec fn rest_in<'a>(n: Seq<Node<'a>>, i: int, x: Node<'a>) -> bool { exists|k: int| i <= k < n.len() && (n[k] == x || within(#[trigger] n[k], x)) }
/// these may stand at the top level only
pub open spec fn top_only(x: Node) -> bool { x is Extends || x is Macro || x is Import }
/// what has been recorded about a statement
pub open spec fn recorded<'a>(b: Map<Seq<char>, &'a BlockDef<'a>>, x: Node<'a>) -> bool { x matches Node::BlockDef(d) ==> b.contains_key(d.name@) }
/// the parent: of exactly one extends at the top level, or none
pub open spec fn parent<'a>(n: Seq<Node<'a>>, m: int, p: Key, e: Option<Key>) -> bool {
    match e {
        None => forall|k: int| 0 <= k < m ==> !((#[trigger] n[k]) is Extends),
        Some(q) => exists|k: int| #[trigger] is_parent(n, k, p, q) && 0 <= k < m && forall|j: int| 0 <= j < m && j != k ==> !((#[trigger] n[j]) is Extends),
    }
}
pub open spec fn is_parent<'a>(n: Seq<Node<'a>>, k: int, p: Key, q: Key) -> bool { 0 <= k < n.len() && (n[k] matches Node::Extends(e) && look(e.path@, p) == Some(q)) }
pub open spec fn macros_of<'a>(n: Seq<Node<'a>>, m: int, t: Map<Seq<char>, &'a Macro<'a>>) -> bool {
    &&& forall|k: int| 0 <= k < m ==> ((#[trigger] n[k]) matches Node::Macro(x) ==> t.contains_key(x.name@))
    &&& forall|s: Seq<char>| #[trigger] t.contains_key(s) ==> exists|k: int| 0 <= k < m && #[trigger] n[k] == Node::Macro(*t[s]) && t[s].name@ == s
}
pub open spec fn imports_of<'a>(n: Seq<Node<'a>>, m: int, p: Key, t: Map<Seq<char>, Key>) -> bool {
    &&& forall|k: int| 0 <= k < m ==> ((#[trigger] n[k]) matches Node::Import(x) ==> t.contains_key(x.scope@))
    &&& forall|s: Seq<char>| #[trigger] t.contains_key(s) ==> exists|k: int| 0 <= k < m && is_import(#[trigger] n[k], p, s, t[s])
}
pub open spec fn is_import<'a>(x: Node<'a>, p: Key, s: Seq<char>, q: Key) -> bool { x matches Node::Import(i) && i.scope@ == s && look(i.path@, p) == Some(q) }
/// the definitions of blocks that are recorded do stand in the template
pub open spec fn blocks_in<'a>(all: Vec<Node<'a>>, b: Map<Seq<char>, &'a BlockDef<'a>>) -> bool { forall|s: Seq<char>| #[trigger] b.contains_key(s) ==> inside(all, Node::BlockDef(*b[s])) && b[s].name@ == s }
/// the context is that of the template
pub open spec fn describes<'a>(c: Context<'a>, n: Vec<Node<'a>>, p: Key) -> bool {
    &&& *c.nodes == n && (c.path matches Some(q) && *q == p)
    &&& parent(n@, n@.len() as int, p, c.extends) && macros_of(n@, n@.len() as int, c.macros@) && imports_of(n@, n@.len() as int, p, c.imports@)
    &&& blocks_in(n, c.blocks@) && forall|x: Node| #[trigger] inside(n, x) ==> recorded(c.blocks@, x)
    &&& forall|x: Node| #[trigger] nested_in(n@, 0, x) ==> !top_only(x)
}
/// what is refused: a file that is missing, a second extends, or extends, import and macro below the top level
pub open spec fn refused<'a>(n: Seq<Node<'a>>, p: Key) -> bool {
    ||| exists|k: int| 0 <= k < n.len() && (((#[trigger] n[k]) matches Node::Extends(e) && look(e.path@, p) is None) || (n[k] matches Node::Import(i) && look(i.path@, p) is None))
    ||| exists|j: int, k: int| 0 <= j < k < n.len() && (#[trigger] n[j]) is Extends && (#[trigger] n[k]) is Extends
    ||| exists|x: Node| #[trigger] nested_in(n, 0, x) && top_only(x)
}
// ---- the walk
pub open spec fn waits<'a>(w: Seq<&Vec<Node<'a>>>, x: Node<'a>) -> bool { exists|j: int| 0 <= j < w.len() && inside(*#[trigger] w[j], x) }
proof fn waits_push<'a>(n: Seq<&Vec<Node<'a>>>, x: &Vec<Node<'a>>) ensures tot(n.push(x)) == tot(n) + size(*x), forall|e: Node| #[trigger] waits(n.push(x), e) <==> waits(n, e) || inside(*x, e)
{
    assert(n.push(x).drop_last() =~= n);
    assert forall|e: Node| #[trigger] waits(n.push(x), e) <==> waits(n, e) || inside(*x, e) by {
        if waits(n, e) { let j = choose|j: int| 0 <= j < n.len() && inside(*#[trigger] n[j], e); assert(n.push(x)[j] == n[j]); }
        if inside(*x, e) { assert(n.push(x)[n.len() as int] == x); }
        if waits(n.push(x), e) { let j = choose|j: int| 0 <= j < n.push(x).len() && inside(*#[trigger] n.push(x)[j], e); if j < n.len() { assert(n[j] == n.push(x)[j]); } }
    }
}
/// what is nested in the template has been recorded, or waits, or stands in the rest of the list
pub open spec fn found<'a>(b: Map<Seq<char>, &'a BlockDef<'a>>, w: Seq<&Vec<Node<'a>>>, l: Seq<Node<'a>>, i: int, top: bool, all: Seq<Node<'a>>) -> bool {
    forall|x: Node| #[trigger] nested_in(all, 0, x) ==> (recorded(b, x) && !top_only(x)) || waits(w, x) || (if top { nested_in(l, i, x) } else { rest_in(l, i, x) })
}
pub open spec fn sound<'a>(w: Seq<&Vec<Node<'a>>>, all: Seq<Node<'a>>) -> bool { forall|x: Node| #[trigger] waits(w, x) ==> nested_in(all, 0, x) }
pub open spec fn list_ok<'a>(l: Seq<Node<'a>>, top: bool, all: Seq<Node<'a>>) -> bool { if top { l == all } else { forall|x: Node| #[trigger] rest_in(l, 0, x) ==> nested_in(all, 0, x) } }
proof fn found_pop<'a>(b: Map<Seq<char>, &'a BlockDef<'a>>, w: Seq<&Vec<Node<'a>>>, x: &Vec<Node<'a>>, all: Seq<Node<'a>>)
    requires forall|e: Node| #[trigger] nested_in(all, 0, e) ==> (recorded(b, e) && !top_only(e)) || waits(w.push(x), e), sound(w.push(x), all) ensures found(b, w, x@, 0, false, all), list_ok(x@, false, all), sound(w, all)
{
    waits_push(w, x);
    assert forall|e: Node| #[trigger] nested_in(all, 0, e) implies (recorded(b, e) && !top_only(e)) || waits(w, e) || rest_in(x@, 0, e) by { if inside(*x, e) { let k = choose|k: int| 0 <= k < x@.len() && (x@[k] == e || within(#[trigger] x@[k], e)); assert(x@[k] == e || within(x@[k], e)); } }
    assert forall|e: Node| #[trigger] rest_in(x@, 0, e) implies nested_in(all, 0, e) by { let k = choose|k: int| 0 <= k < x@.len() && (x@[k] == e || within(#[trigger] x@[k], e)); assert(x@[k] == e || within(x@[k], e)); assert(inside(*x, e)); assert(waits(w.push(x), e)); }
    assert forall|e: Node| #[trigger] waits(w, e) implies nested_in(all, 0, e) by { assert(waits(w.push(x), e)); }
}
/// one statement further
proof fn found_next<'a>(b0: Map<Seq<char>, &'a BlockDef<'a>>, w0: Seq<&Vec<Node<'a>>>, b1: Map<Seq<char>, &'a BlockDef<'a>>, w1: Seq<&Vec<Node<'a>>>, l: Seq<Node<'a>>, i: int, top: bool, all: Seq<Node<'a>>)
    requires 0 <= i < l.len(), found(b0, w0, l, i, top, all), sound(w0, all), list_ok(l, top, all), forall|s: Seq<char>| b0.contains_key(s) ==> #[trigger] b1.contains_key(s), forall|e: Node| #[trigger] waits(w1, e) <==> waits(w0, e) || within(l[i], e), recorded(b1, l[i]), top || !top_only(l[i])
    ensures found(b1, w1, l, i + 1, top, all), sound(w1, all)
{
    assert forall|x: Node| #[trigger] nested_in(all, 0, x) implies (recorded(b1, x) && !top_only(x)) || waits(w1, x) || (if top { nested_in(l, i + 1, x) } else { rest_in(l, i + 1, x) }) by {
        if recorded(b0, x) { assert(recorded(b1, x)); }
        if waits(w0, x) || within(l[i], x) { assert(waits(w1, x)); }
        else if top { if nested_in(l, i, x) { let k = choose|k: int| i <= k < l.len() && within(#[trigger] l[k], x); assert(within(l[k], x)); } }
        else if rest_in(l, i, x) { let k = choose|k: int| i <= k < l.len() && (l[k] == x || within(#[trigger] l[k], x)); if k > i { assert(l[k] == x || within(l[k], x)); } else { assert(l[i] == x); } }
    }
    assert forall|x: Node| #[trigger] waits(w1, x) implies nested_in(all, 0, x) by { if within(l[i], x) { if top { assert(within(all[i], x)); } else { assert(rest_in(l, 0, x)) by { assert(l[i] == x || within(l[i], x)); } } } }
}
proof fn in_list<'a>(all: Vec<Node<'a>>, l: Seq<Node<'a>>, i: int, top: bool) requires 0 <= i < l.len(), list_ok(l, top, all@) ensures inside(all, l[i]), !top ==> nested_in(all@, 0, l[i])
{
    if top { assert(all@[i] == l[i] || within(all@[i], l[i])); } else { assert(l[i] == l[i] || within(l[i], l[i])); assert(rest_in(l, 0, l[i])); nested_inside(all, l[i]); }
}
proof fn nested_inside<'a>(all: Vec<Node<'a>>, x: Node<'a>) requires nested_in(all@, 0, x) ensures inside(all, x) { let k = choose|k: int| 0 <= k < all@.len() && within(#[trigger] all@[k], x); assert(all@[k] == x || within(all@[k], x)); }
'''
def unit(repo):
    u = Unit('c20_context'); s = Src(repo, H); u.use('use vstd::string::*;'); cyu.node_types(repo, u); u.raw(SPEC.replace('@SIZES@', cyu.SIZES))
    u.trust('HashMap by contract; find_template gives one answer per name and place (C23)')
    u.drop('slices of nodes -> &Vec; for loops -> while loops; texts of errors')
    c = re.sub(r'\s+', ' ', strip_comments(s.find(r'struct\s+Context\b').body)).replace('pub(crate) ', '')
    for x in ("nodes: &'a [Node<'a>]", "extends: Option<Rc<Path>>", "blocks: HashMap<&'a str, &'a BlockDef<'a>>", "macros: HashMap<&'a str, &'a Macro<'a>>", "imports: HashMap<&'a str, Rc<Path>>", "path: Option<&'a Path>"):
        if x not in c: raise Lost('Context: ' + x)
    f = s.find(r"impl\s+Context<'_>").sub(r'fn\s+new\b'); b = strip_comments(f.body)
    g = re.search(r"\(\s*(\w+): &Config<'_>,\s*(\w+): &'n Path,\s*(\w+): &'n \[Node<'n>\]", f.head)
    if not g: raise Lost('Context::new')
    CFG, PATH, NODES = g.groups()
    b = re.sub(r'Err\(\s*"[^"]*"\s*\.into\(\)\s*,?\s*\)', 'Err(error_())', b)
    ty = {'blocks': "Table<&'n BlockDef<'n>>", 'macros': "Table<&'n Macro<'n>>", 'imports': 'Table<Key>'}
    def new(q):
        if q.group(1) not in ty: raise Lost('Context::new: ' + q.group(1))
        return f'let mut {q.group(1)}: {ty[q.group(1)]} = Table::new();'
    b = re.sub(r'let\s+mut\s+(\w+)(?::[^=;]*)?\s*=\s*HashMap::new\(\);', new, b)
    b = re.sub(r'let\s+mut\s+extends(?::[^=;]*)?\s*=\s*None;', 'let mut extends: Option<Key> = None;', b)
    # or-patterns with a guard -> one arm each
    while True:
        q = re.search(r'((?:Node::\w+\([^()|]*\)\s*\|\s*)+Node::\w+\([^()|]*\))\s+if\s+([^{}=]*?)\s*=>\s*\{', b)
        if not q: break
        e = match_close(mask(b), q.end() - 1); blk = b[q.end()-1:e+1]
        b = b[:q.start()] + ' '.join(f'{x.strip()} if {q.group(2)} => {blk}' for x in q.group(1).split('|')) + b[e+1:]
    nn = re.search(r'let\s+mut\s+nested\s*=\s*vec!\[(\w+)\];', b)
    if not nn or nn.group(1) != NODES: raise Lost('Context::new: nested')
    b = b[:nn.start()] + f"let mut nested: Vec<&'n Vec<Node<'n>>> = Vec::new(); nested.push({NODES}); proof {{ waits_push(Seq::empty(), {NODES}); assert(nested@ =~= Seq::<&Vec<Node>>::empty().push({NODES})); }}" + b[nn.end():]
    w = re.search(r'while\s+let\s+Some\((\w+)\)\s*=\s*nested\.pop\(\)\s*\{', mask(b))
    if not w: raise Lost('Context::new: while')
    L = w.group(1); wc = match_close(mask(b), w.end() - 1); body = b[w.end():wc]
    h = re.search(r'for\s+(\w+)\s+in\s+(\w+)\s*\{', mask(body))
    if not h or h.group(2) != L: raise Lost('Context::new: for')
    n = h.group(1); hc = match_close(mask(body), h.end() - 1); inner = body[h.end():hc]
    if not re.search(r'let\s+mut\s+top\s*=\s*true;', b): raise Lost('Context::new: top')
    k = 0
    while True:
        q = re.search(r'for\s+(\w+)\s+in\s+(&?)(\w+(?:\.\w+)*)\s*\{', mask(inner))
        if not q: break
        k += 1; qc = match_close(mask(inner), q.end() - 1); e = q.group(3); kind = e.split('.')[-1]
        if kind not in ('branches', 'arms'): raise Lost('Context::new: for over ' + e)
        inner = (inner[:q.start()] + f'let mut j{k}_: usize = 0; while j{k}_ < {e}.len() invariant j{k}_ <= {e}.len(), forall|x: Node| waits(w0_, x) ==> #[trigger] waits(nested@, x), forall|j: int, x: Node| 0 <= j < j{k}_ && inside((#[trigger] {e}@[j]).nodes, x) ==> #[trigger] waits(nested@, x), '
                 f'forall|x: Node| #[trigger] waits(nested@, x) ==> waits(w0_, x) || exists|j: int| 0 <= j < j{k}_ && inside((#[trigger] {e}@[j]).nodes, x), tot(nested@) <= tot(w0_) + size_of_{kind}({"*" if "." not in e else ""}{e}, j{k}_ as nat) decreases {e}.len() - j{k}_ {{ let {q.group(1)} = &{e}[j{k}_]; j{k}_ += 1; {inner[q.end():qc]} }}' + inner[qc+1:])
    inner = re.sub(r'nested\.push\(([^;]*)\);', lambda q: f'{{ let ghost n0_ = nested@; nested.push({q.group(1)}); proof {{ waits_push(n0_, nested@.last()); assert(nested@ == n0_.push(nested@.last())); }} }}', inner)
    AT = f'extends == extends && blocks_in(*all_, blocks@) && parent(all_@, M, {PATH}0, extends) && macros_of(all_@, M, macros@) && imports_of(all_@, M, {PATH}0, imports@) && (forall|k: int| 0 <= k < M ==> recorded(blocks@, #[trigger] all_@[k]))'.replace('extends == extends && ', '').replace(f'{PATH}0', '*p_')
    LI = f'invariant i_ <= {L}.len(), found(blocks@, nested@, {L}@, i_ as int, top, all_@), sound(nested@, all_@), list_ok({L}@, top, all_@), top ==> ' + AT.replace('M', 'i_ as int') + ', !top ==> ' + AT.replace('M', 'all_@.len() as int') + f', tot(nested@) + 1 <= t0_ + size_to(*{L}, i_ as nat)\n decreases {L}.len() - i_'
    pre = f'let {n} = &{L}[i_]; let ghost w0_ = nested@; let ghost b0_ = blocks@; let ghost e0_ = extends; let ghost mc0_ = macros@; let ghost im0_ = imports@; proof {{ in_list(*all_, {L}@, i_ as int, top); }} i_ += 1;'
    post = (f' proof {{ assert(*{n} == {L}@[i_ - 1]); assert(size_to(*{L}, i_ as nat) == size_to(*{L}, (i_ - 1) as nat) + size_in(*{n})); assert(tot(nested@) <= tot(w0_) + size_in(*{n})); assert forall|e: Node| #[trigger] waits(nested@, e) <==> waits(w0_, e) || within(*{n}, e) by {{}} found_next(b0_, w0_, blocks@, nested@, {L}@, i_ - 1, top, all_@); '
            f'if top {{ parent_next(all_@, i_ - 1, *p_, e0_, extends); macros_next(all_@, i_ - 1, mc0_, macros@); imports_next(all_@, i_ - 1, *p_, im0_, imports@); }} }}')
    body = body[:h.start()] + f'let ghost t0_ = tot(nested@); let mut i_: usize = 0; while i_ < {L}.len()\n{LI}\n{{ {pre} {inner} {post} }}' + body[hc+1:]
    done_ = AT.replace('M', 'all_@.len() as int')
    WN = f'invariant n1_ == nested@, top ==> nested@.len() == 1 && *nested@[0] == *all_ && {AT.replace("M", "0")}, !top ==> sound(nested@, all_@) && (forall|x: Node| #[trigger] nested_in(all_@, 0, x) ==> (recorded(blocks@, x) && !top_only(x)) || waits(nested@, x)) && {done_}\n decreases tot(nested@)'
    start = f' proof {{ assert(n1_ =~= nested@.push({L})); waits_push(nested@, {L}); if top {{ assert(nested@ =~= Seq::empty()); assert forall|x: Node| !#[trigger] waits(nested@, x) by {{}} }} else {{ found_pop(blocks@, nested@, {L}, all_@); }} }} '
    tail = f' proof {{ assert forall|x: Node| #[trigger] nested_in(all_@, 0, x) implies (recorded(blocks@, x) && !top_only(x)) || waits(nested@, x) by {{ assert(!nested_in({L}@, {L}@.len() as int, x) && !rest_in({L}@, {L}@.len() as int, x)); }} n1_ = nested@; }} '
    b = (f'let ghost all_ = {NODES}; let ghost p_ = {PATH}; ' + b[:w.start()] + ' let ghost mut n1_ = nested@; ' + b[w.start():w.end()-1] + '\n' + WN + '\n{' + start + body + tail + '}'
         + f' proof {{ assert forall|x: Node| !#[trigger] waits(nested@, x) by {{}} assert(!top ==> forall|x: Node| #[trigger] inside(*all_, x) ==> recorded(blocks@, x)) by {{ if !top {{ assert forall|x: Node| #[trigger] inside(*all_, x) implies recorded(blocks@, x) by {{ let k = choose|k: int| 0 <= k < all_@.len() && (all_@[k] == x || within(#[trigger] all_@[k], x)); if within(all_@[k], x) {{ assert(nested_in(all_@, 0, x)); }} else {{ assert(recorded(blocks@, all_@[k])); }} }} }} }} }} ' + b[wc+1:])
    u.raw(LEMMAS)
    u.fn('Context::new', f, f"pub fn new<'n>({CFG}: &Config, {PATH}: &'n Key, {NODES}: &'n Vec<Node<'n>>) -> (r: Result<Context<'n>, CompileError>)", b, before="impl<'c> Context<'c> {", after='}', attrs='#[verifier::loop_isolation(false)]',
         ensures=[f'r matches Ok(c) ==> describes(c, *{NODES}, *{PATH})', f'r is Err ==> refused({NODES}@, *{PATH})'])
    return u
LEMMAS = r'''
proof fn parent_next<'a>(n: Seq<Node<'a>>, i: int, p: Key, e0: Option<Key>, e1: Option<Key>)
    requires 0 <= i < n.len(), parent(n, i, p, e0), n[i] matches Node::Extends(e) ==> e0 is None && (e1 matches Some(q) && look(e.path@, p) == Some(q)), !(n[i] is Extends) ==> e1 == e0 ensures parent(n, i + 1, p, e1)
{
    if n[i] is Extends { assert(is_parent(n, i, p, e1->Some_0)); } else if let Some(q) = e0 { let k = choose|k: int| #[trigger] is_parent(n, k, p, q) && 0 <= k < i && forall|j: int| 0 <= j < i && j != k ==> !((#[trigger] n[j]) is Extends); assert(is_parent(n, k, p, q)); }
}
proof fn macros_next<'a>(n: Seq<Node<'a>>, i: int, t0: Map<Seq<char>, &'a Macro<'a>>, t1: Map<Seq<char>, &'a Macro<'a>>)
    requires 0 <= i < n.len(), macros_of(n, i, t0), n[i] matches Node::Macro(x) ==> t1 == t0.insert(x.name@, t1[x.name@]) && *t1[x.name@] == x, !(n[i] is Macro) ==> t1 == t0
    ensures macros_of(n, i + 1, t1)
{
    if n[i] is Macro {
        assert forall|s: Seq<char>| #[trigger] t1.contains_key(s) implies exists|k: int| 0 <= k < i + 1 && #[trigger] n[k] == Node::Macro(*t1[s]) && t1[s].name@ == s by {
            if s == n[i]->Macro_0.name@ { assert(n[i] == Node::Macro(*t1[s])); } else { assert(t0.contains_key(s)); let k = choose|k: int| 0 <= k < i && #[trigger] n[k] == Node::Macro(*t0[s]) && t0[s].name@ == s; assert(t1[s] == t0[s]); assert(n[k] == Node::Macro(*t1[s])); }
        }
    } else {
        assert forall|s: Seq<char>| #[trigger] t1.contains_key(s) implies exists|k: int| 0 <= k < i + 1 && #[trigger] n[k] == Node::Macro(*t1[s]) && t1[s].name@ == s by { let k = choose|k: int| 0 <= k < i && #[trigger] n[k] == Node::Macro(*t0[s]) && t0[s].name@ == s; assert(n[k] == Node::Macro(*t1[s])); }
    }
}
proof fn imports_next<'a>(n: Seq<Node<'a>>, i: int, p: Key, t0: Map<Seq<char>, Key>, t1: Map<Seq<char>, Key>)
    requires 0 <= i < n.len(), imports_of(n, i, p, t0), n[i] matches Node::Import(x) ==> (look(x.path@, p) matches Some(q) && t1 == t0.insert(x.scope@, q)), !(n[i] is Import) ==> t1 == t0
    ensures imports_of(n, i + 1, p, t1)
{
    assert forall|s: Seq<char>| #[trigger] t1.contains_key(s) implies exists|k: int| 0 <= k < i + 1 && is_import(#[trigger] n[k], p, s, t1[s]) by {
        if n[i] is Import && s == n[i]->Import_0.scope@ { assert(is_import(n[i], p, s, t1[s])); } else { assert(t0.contains_key(s)); let k = choose|k: int| 0 <= k < i && is_import(#[trigger] n[k], p, s, t0[s]); assert(is_import(n[k], p, s, t1[s])); }
    }
}
'''
