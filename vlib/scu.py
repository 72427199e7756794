"""Scopes of template variables: MapChain and LocalMeta under contract."""
import re
from .rsx import *
from .rw import *
from . import gen
from .verus import Unit

SPEC = r'''
pub struct LocalMeta { pub refs: Option<String>, pub initialized: bool }
/// what is known of a variable: the code it stands for, if it is not its own name, and whether it has a value
pub struct Meta { pub refs: Option<Seq<char>>, pub initialized: bool }
pub open spec fn mv(m: LocalMeta) -> Meta { Meta { refs: match m.refs { Some(s) => Some(s@), None => None }, initialized: m.initialized } }
/// HashMap<Cow<str>, LocalMeta>
#[verifier::external_body]
pub struct Names { x: u8 }
impl Names {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Meta>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Meta>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Key<'_>) -> (r: Option<&LocalMeta>) ensures r matches Some(m) ==> self@.contains_key(k@) && self@[k@] == mv(*m), r is None ==> !self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key<'_>, v: LocalMeta) -> (r: Option<LocalMeta>) ensures final(self)@ == old(self)@.insert(k@, mv(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Key<'_>) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
}
/// Cow<str>
#[verifier::external_body]
pub struct Key<'k> { x: &'k str }
impl<'k> Key<'k> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn borrowed(s: &'k str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn owned(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
pub struct MapChain<'a> { pub parent: Option<&'a MapChain<'a>>, pub scopes: Vec<Names> }
/// innermost first
pub open spec fn find_in(s: Seq<Names>, n: Seq<char>) -> Option<Meta> decreases s.len() {
    if s.len() == 0 { None } else if s.last()@.contains_key(n) { Some(s.last()@[n]) } else { find_in(s.drop_last(), n) }
}
/// the innermost enclosing definition of n
pub open spec fn def(c: MapChain, n: Seq<char>) -> Option<Meta> decreases c {
    match find_in(c.scopes@, n) { Some(m) => Some(m), None => match c.parent { Some(p) => def(*p, n), None => None } }
}
pub open spec fn nothing() -> Map<Seq<char>, Meta> { Map::empty() }
/// the same scopes, apart from the innermost
pub open spec fn outer_same(a: MapChain, b: MapChain) -> bool { a.parent == b.parent && a.scopes@.len() == b.scopes@.len() && a.scopes@.drop_last() == b.scopes@.drop_last() }
pub fn runtime_assert(c: bool) requires c {}
fn insert_last<'k>(v: &mut Vec<Names>, k: Key<'k>, m: LocalMeta) requires old(v)@.len() > 0
    ensures final(v)@.len() == old(v)@.len(), final(v)@.drop_last() == old(v)@.drop_last(), final(v)@.last()@ == old(v)@.last()@.insert(k@, mv(m))
{ let mut x = v.pop().unwrap(); let _ = x.insert(k, m); v.push(x); assert(v@.drop_last() =~= old(v)@.drop_last()); }
#[verifier::external_body]
pub fn to_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn clone_str(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub fn unwrap_or_(o: Option<String>, d: String) -> (r: String) ensures r@ == (match o { Some(s) => s@, None => d@ }) { match o { Some(s) => s, None => d } }
/// the name in Rust (C17)
pub uninterp spec fn norm(n: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn normalize_identifier(n: &str) -> (r: &str) ensures r@ == norm(n@) { unimplemented!() }
/// normalizing a normalized name changes nothing (C17: r#x is no keyword)
#[verifier::external_body]
pub proof fn norm_twice(n: Seq<char>) ensures norm(norm(n)) == norm(n) {}
pub open spec fn code_of(m: Meta, n: Seq<char>) -> Seq<char> { match m.refs { Some(x) => x, None => n } }
/// what a name is in the emitted code: its innermost definition, or else the field
pub open spec fn look(c: MapChain, n: Seq<char>) -> Option<Seq<char>> { match def(c, norm(n)) { Some(m) => Some(code_of(m, norm(n))), None => None } }
pub open spec fn look_or_self(c: MapChain, n: Seq<char>) -> Seq<char> { match look(c, n) { Some(x) => x, None => "self."@ + norm(n) } }
'''
CLIENT = r'''
/// C19: whatever is defined in a scope has no effect after its end, and shadows what is outside until then
proof fn scoping(c0: MapChain, c1: MapChain, n: Seq<char>)
    requires c1.parent == c0.parent, c1.scopes@.len() == c0.scopes@.len() + 1, c1.scopes@.drop_last() == c0.scopes@
    ensures c1.scopes@.last()@.contains_key(n) ==> def(c1, n) == Some(c1.scopes@.last()@[n]), !c1.scopes@.last()@.contains_key(n) ==> def(c1, n) == def(c0, n)
{ }
fn scope_ends(c: &mut MapChain<'_>, k: Key<'_>, m: LocalMeta, o: Key<'_>) requires old(c).scopes@.len() > 0
    ensures final(c).parent == old(c).parent, final(c).scopes@ == old(c).scopes@, forall|n: Seq<char>| #[trigger] def(*final(c), n) == def(*old(c), n)
{
    let ghost c0 = *c; let ghost mk = mv(m);
    c.push();
    proof { scoping(c0, *c, o@); assert(def(*c, o@) == def(c0, o@)); }
    c.insert(k, m);
    proof { scoping(c0, *c, k@); assert(def(*c, k@) == Some(mk)); if o@ != k@ { scoping(c0, *c, o@); assert(def(*c, o@) == def(c0, o@)); } }
    c.pop();
    assert(c.scopes@ =~= c0.scopes@);
}
/// an included template sees the variables around it, a block does not (MapChain::default)
fn include_sees(c: &MapChain<'_>, n: &Key<'_>) { let i = MapChain::with_parent(c); assert(def(i, n@) == def(*c, n@)) by { assert(i.scopes@.last()@ =~= nothing()); reveal_with_fuel(find_in, 2); } }
fn block_sees_nothing(n: &Key<'_>) { let b = MapChain::default(); assert(def(b, n@) is None) by { reveal_with_fuel(find_in, 2); } }
'''
def keys(b):
    b = re.sub(r'\bCow::Borrowed\b', 'Key::borrowed', b); return re.sub(r'\bCow::Owned\b', 'Key::owned', b)
def find_maps(b):
    """V.iter()[.rev()].find_map(|x| e) -> loop"""
    def f(e, a):
        p, c = closure(a[0]); g = re.match(r'^([\w.]+?)\s*\.\s*iter\(\)(\s*\.\s*rev\(\))?$', e, re.S)
        if not g:
            g = re.match(r'^(\w+)$', e)
            if not g: raise Lost('find_map on ' + e)
            d = re.search(rf'let mut {e} = ([\w.]+?)\s*\.\s*iter\(\)(\s*\.\s*rev\(\))?\s*;', b)
            if not d: raise Lost('find_map on ' + e)
            g = d
        v = g.group(1)
        if g.group(2): init, test, nxt = f'{v}.len()', 'i_ > 0', f'i_ -= 1; let {p} = &{v}[i_];'
        else: init, test, nxt = '0', f'i_ < {v}.len()', f'let {p} = &{v}[i_]; i_ += 1;'
        return f'({{ let mut i_: usize = {init}; let mut f_: Option<&LocalMeta> = None; while f_.is_none() && {test} {{ {nxt} f_ = {c}; }} f_ }})'
    b2 = method_calls(b, 'find_map', f)
    return re.sub(r'let mut (\w+) = [\w.]+?\s*\.\s*iter\(\)(\s*\.\s*rev\(\))?\s*;\s*', '', b2)
def or_elses(b):
    def f(e, a):
        p, c = closure(a[0]); return f'(match {e} {{ Some(x_) => Some(x_), None => {c} }})'
    b = method_calls(b, 'or_else', f)
    def g(e, a):
        p, c = closure(a[0]); return f'(match {e} {{ Some({p}) => {c}, None => None }})'
    return method_calls(b, 'and_then', g)
def chain(u, s, own=None):
    """adds LocalMeta and MapChain"""
    st = s.find(r'struct\s+LocalMeta\b')
    if dict(re.findall(r'(\w+): ([\w<>]+)', strip_comments(st.body))) != {'refs': 'Option<String>', 'initialized': 'bool'}: raise Lost('LocalMeta')
    if 'Default' not in s.text[max(0, st.start - 200):st.start]: raise Lost('LocalMeta: Default')
    st = s.find(r'struct\s+MapChain\b')
    if re.sub(r'\s', '', strip_comments(st.body)) != "parent:Option<&'aMapChain<'a,K,V>>,scopes:Vec<HashMap<K,V>>,": raise Lost('MapChain')
    u.raw(SPEC)
    u.trust('HashMap<Cow<str>, _> by contract (a map from texts); normalize_identifier abstract (C17), idempotent')
    u.drop('MapChain for its only instance (Cow<str>, LocalMeta); closures of Option and iterator methods -> match and loops')
    im = s.find(r'impl\s+LocalMeta\b')
    f = im.sub(r'fn\s+initialized\b'); u.fn('LocalMeta::initialized', f, 'pub fn initialized() -> (r: Self)', strip_comments(f.body), ensures=['mv(r) == (Meta { refs: None, initialized: true })'], before='impl LocalMeta {\n pub fn default() -> (r: Self) ensures mv(r) == (Meta { refs: None, initialized: false }) { LocalMeta { refs: None, initialized: false } }', own=own)
    f = im.sub(r'fn\s+with_ref\b'); a = re.search(r'\((\w+): String', f.head).group(1)
    u.fn('LocalMeta::with_ref', f, f'pub fn with_ref({a}: String) -> (r: Self)', strip_comments(f.body), ensures=[f'mv(r) == (Meta {{ refs: Some({a}@), initialized: true }})'], after='}', own=own)
    im = s.find(r"impl<'a,\s*K:\s*'a,\s*V:\s*'a>\s+MapChain<'a,\s*K,\s*V>")
    fs = {n: im.sub(rf'fn\s+{n}\b') for n in ('with_parent', 'get', 'insert', 'insert_with_default', 'push', 'pop')}
    if {re.match(r'(?:pub(?:\(crate\))? )?fn\s+(\w+)', x.head).group(1) for x in im.subs(r'fn\s+\w+')} != set(fs): raise Lost('methods of MapChain')
    def body(f):
        b = keys(strip_comments(f.body)).replace('HashMap::new()', 'Names::new()')
        b = re.sub(r'V::default\(\)', 'LocalMeta::default()', b)
        b = re.sub(r'\bassert!\(', 'runtime_assert(', b)
        b = re.sub(r'(self\.scopes)\s*\.\s*last_mut\(\)\s*\.\s*unwrap\(\)\s*\.\s*insert\(', r'insert_last(&mut \1, ', b)
        return or_elses(find_maps(b))
    f = fs['with_parent']; a = re.search(r"\((\w+): &'p", f.head).group(1)
    u.fn('MapChain::with_parent', f, f"pub fn with_parent<'p>({a}: &'p MapChain<'p>) -> (r: MapChain<'p>)", body(f).replace('vec![Names::new()]', '{ let mut v_ = Vec::new(); v_.push(Names::new()); v_ }'), ensures=[f'r.parent == Some(&*{a})', 'r.scopes@.len() == 1', 'r.scopes@[0]@ == nothing()'], before="impl<'a> MapChain<'a> {", own=own)
    f = fs['get']; a = re.search(r'(\w+): &K', f.head).group(1); b = body(f)
    if loop_positions(b):
        b = add_invariants(b, [f'invariant i_ <= self.scopes.len(), f_ matches Some(m) ==> find_in(self.scopes@, {a}@) == Some(mv(*m)), f_ is None ==> find_in(self.scopes@, {a}@) == find_in(self.scopes@.take(i_ as int), {a}@)\n decreases i_'])
        o = loop_positions(b)[0][2]; c = match_close(mask(b), o)
        b = b[:o+1] + ' proof { if i_ > 0 { assert(self.scopes@.take(i_ as int).drop_last() =~= self.scopes@.take(i_ - 1)); assert(self.scopes@.take(i_ as int).last() == self.scopes@[i_ - 1]); } }' + b[o+1:]
        k = b.index('= None; ') + len('= None; '); b = b[:k] + ' proof { assert(self.scopes@.take(i_ as int) =~= self.scopes@); }' + b[k:]
    u.fn('MapChain::get', f, f"pub fn get(&self, {a}: &Key<'_>) -> (r: Option<&LocalMeta>)", b, ensures=[f'r matches Some(m) ==> def(*self, {a}@) == Some(mv(*m))', f'r is None ==> def(*self, {a}@) is None'], decreases='*self', own=own)
    f = fs['insert']; a = re.findall(r'(\w+): [KV]\b', f.head)
    u.fn('MapChain::insert', f, f"pub fn insert(&mut self, {a[0]}: Key<'_>, {a[1]}: LocalMeta)", body(f), requires=['old(self).scopes@.len() > 0'],
         ensures=['outer_same(*final(self), *old(self))', f'final(self).scopes@.last()@ == old(self).scopes@.last()@.insert({a[0]}@, mv({a[1]}))'], own=own)
    f = fs['insert_with_default']; a = re.findall(r'(\w+): [KV]\b', f.head)
    u.fn('MapChain::insert_with_default', f, f"pub fn insert_with_default(&mut self, {a[0]}: Key<'_>)", body(f), requires=['old(self).scopes@.len() > 0'],
         ensures=['outer_same(*final(self), *old(self))', f'final(self).scopes@.last()@ == old(self).scopes@.last()@.insert({a[0]}@, Meta {{ refs: None, initialized: false }})'], own=own)
    u.fn('MapChain::push', fs['push'], 'pub fn push(&mut self)', body(fs['push']), ensures=['final(self).parent == old(self).parent', 'final(self).scopes@.len() == old(self).scopes@.len() + 1', 'final(self).scopes@.drop_last() =~= old(self).scopes@', 'final(self).scopes@.last()@ == nothing()'], own=own)
    u.fn('MapChain::pop', fs['pop'], 'pub fn pop(&mut self)', body(fs['pop']), requires=['old(self).scopes@.len() > 1'], ensures=['final(self).parent == old(self).parent', 'final(self).scopes@ =~= old(self).scopes@.drop_last()'], after='}', own=own)
    im = s.find(r"impl\s+MapChain<'_,\s*Cow<'_,\s*str>,\s*LocalMeta>")
    def rbody(f):
        b = keys(strip_comments(f.body))
        b = method_calls(b, 'map', lambda e, a: (lambda pc: f'(match {e} {{ Some({pc[0]}) => Some({pc[1]}), None => None }})')(closure(a[0])))
        b = method_calls(b, 'unwrap_or_else', lambda e, a: f'unwrap_or_({e}, {closure(a[0])[1]})')
        b = method_calls(b, 'clone', lambda e, a: f'clone_str({e})'); b = method_calls(b, 'to_string', lambda e, a: f'to_str({e})')
        return gen.formats(b)
    for k, (n, rt, ens) in enumerate((('resolve', 'Option<String>', 'r matches Some(s) ==> look(*self, {a}@) == Some(s@); r is None ==> look(*self, {a}@) is None'), ('resolve_or_self', 'String', 'r@ == look_or_self(*self, {a}@)'))):
        f = im.sub(rf'fn\s+{n}\b'); a = re.search(r'(\w+): &str', f.head).group(1)
        b = rbody(f)
        if n == 'resolve_or_self': b = re.sub(r'^', f' proof {{ norm_twice({a}@); assert("self."@ + norm({a}@) =~= "self."@ + norm({a}@)); }} ', b)
        u.fn('MapChain::' + n, f, f'pub fn {n}(&self, {a}: &str) -> (r: {rt})', b, ensures=[x.replace('{a}', a) for x in ens.split('; ')], before="impl<'a> MapChain<'a> {" if k == 0 else '', own=own)
    df = [i for i in s.iter(r'impl<K[^>]*>\s+Default\s+for\s+MapChain')]
    if len(df) != 1: raise Lost('Default for MapChain')
    f = df[0].sub(r'fn\s+default\b')
    u.fn('MapChain::default', f, 'pub fn default() -> (r: Self)', keys(strip_comments(f.body)).replace('HashMap::new()', 'Names::new()').replace('vec![Names::new()]', '{ let mut v_ = Vec::new(); v_.push(Names::new()); v_ }'), ensures=['r.parent is None', 'r.scopes@.len() == 1', 'r.scopes@[0]@ == nothing()'], after='}', own=own)

TARGET = r'''
pub enum Target<'a> { Name(&'a str), Tuple(Vec<&'a str>, Vec<Target<'a>>), Struct(Vec<&'a str>, Vec<(&'a str, Target<'a>)>), NumLit(&'a str), StrLit(&'a str), CharLit(&'a str), BoolLit(&'a str), Path(Vec<&'a str>), OrChain(Vec<Target<'a>>) }
/// the names that a pattern binds, in order
pub open spec fn names(t: Target) -> Seq<Seq<char>> decreases t {
    match t {
        Target::Name(n) => if n@ == "_"@ { Seq::empty() } else { seq![norm(n@)] },
        Target::Tuple(_, v) => names_v(v, v@.len() as int), Target::OrChain(v) => names_v(v, v@.len() as int),
        Target::Struct(_, v) => names_s(v, v@.len() as int),
        _ => Seq::empty(),
    }
}
pub open spec fn names_v(v: Vec<Target>, i: int) -> Seq<Seq<char>> decreases v, i { if i <= 0 || i > v@.len() { Seq::empty() } else { names_v(v, i - 1) + names(v@[i - 1]) } }
pub open spec fn names_s(v: Vec<(&str, Target)>, i: int) -> Seq<Seq<char>> decreases v, i { if i <= 0 || i > v@.len() { Seq::empty() } else { names_s(v, i - 1) + names(v@[i - 1].1) } }
pub open spec fn bind(m: Map<Seq<char>, Meta>, ns: Seq<Seq<char>>, init: bool) -> Map<Seq<char>, Meta> decreases ns.len() { if ns.len() == 0 { m } else { bind(m, ns.drop_last(), init).insert(ns.last(), Meta { refs: None, initialized: init }) } }
pub broadcast proof fn bind_add(m: Map<Seq<char>, Meta>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, init: bool) ensures #[trigger] bind(m, a + b, init) == bind(bind(m, a, init), b, init) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { bind_add(m, a, b.drop_last(), init); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
/// a definition that hides an earlier meaning of one of the names: it is not the first assignment to a declared variable
pub open spec fn hides(c: MapChain, t: Target) -> bool decreases t {
    match t {
        Target::Name(n) => match def(c, norm(n@)) { None => true, Some(m) => m.initialized },
        Target::Tuple(_, v) => exists|i: int| 0 <= i < v@.len() && hides(c, #[trigger] v@[i]),
        Target::Struct(_, v) => exists|i: int| 0 <= i < v@.len() && hides(c, (#[trigger] v@[i]).1),
        _ => false,
    }
}
pub struct CompileError { pub m: Ghost<int> }
#[verifier::external_body]
pub fn err_() -> CompileError { unimplemented!() }
/// the output is looked at elsewhere (C25, C16)
pub struct Buffer { }
impl Buffer { pub fn write(&mut self, s: &str) { } }
pub struct Generator<'a> { pub locals: MapChain<'a>, pub rest: Ghost<int> }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
pub fn first_<'x, T>(v: &'x Vec<T>) -> (r: Option<&'x T>) ensures r matches Some(x) ==> v@.len() > 0 && *x == v@[0], r is None ==> v@.len() == 0 { if v.len() > 0 { Some(&v[0]) } else { None } }
pub fn other_visitor() { }
'''
def for_loops(b, pat=r'for\s+(\w+|\([^)]*\))\s+in\s+(&?)(\w+)(\[1\.\.\])?\s*\{'):
    """for x in v -> while loop over indices; -> (body, [(index, v, start)])"""
    vs = []
    while True:
        g = re.search(pat, mask(b))
        if not g: return b, vs
        n = f'n{len(vs)}_'; x, v = g.group(1), g.group(3); st = '1' if g.group(4) else '0'; vs.append((n, v, st))
        x2 = f'let {x} = &{v}[{n}];'
        b = b[:g.start()] + f'let mut {n}: usize = {st}; while {n} < {v}.len() {{ {x2} {n} += 1;' + b[g.end():]
def targets(u, s, repo, own=None):
    e = Src(repo, gen.N).find(r"pub\s+enum\s+Target<'a>")
    want = re.sub(r'\s', '', re.search(r'pub enum Target[^\n]*', TARGET).group(0).split('{', 1)[1].rsplit('}', 1)[0])
    if re.sub(r'\s', '', strip_comments(e.body)).rstrip(',') != want: raise Lost('Target')
    u.raw(TARGET)
    im = s.find(r"impl<'a>\s+Generator<'a>")
    f = im.sub(r'fn\s+visit_target\b')
    from .filt import params
    ps = [p for p in params(f.head) if p[0] != '&mut self']
    if [p[1] for p in ps] != ['&mut Buffer', 'bool', 'bool', "&Target<'a>"]: raise Lost('visit_target')
    a = [p[0] for p in ps]; B, I, L, T = a
    b = keys(strip_comments(f.body))
    b = re.sub(r'Target::Name\("(\w+)"\) =>', r'Target::Name(x_) if str_eq(x_, "\1") =>', b)
    b = re.sub(rf'{B}\.write\(&(\w+)\.join\("::"\)\)', f'{B}.write("")', b)
    b = re.sub(r'self\.visit_\w+_lit\([^;]*?\);', 'other_visitor();', b); b = re.sub(r'self\.visit_path\([^;]*?\);', 'other_visitor();', b)
    b = method_calls(b, 'first', lambda e, x: f'first_({e})' if not x else None)
    b, vs = for_loops(b)
    if len(vs) != 3: raise Lost('visit_target: loops')
    invs = []
    for n, v, st in vs:
        k = len(invs); fn = 'names_s' if '(' in re.search(rf'let (\(?)[^=]*= &{v}\[{n}\]', b).group(0) else 'names_v'
        invs.append(f'invariant {n} <= {v}.len(), self.rest == old(self).rest, outer_same(self.locals, old(self).locals), self.locals.scopes@.len() > 0, self.locals.scopes@.last()@ =~= bind(old(self).locals.scopes@.last()@, {fn}(*{v}, {n} as int), {I})\n decreases {v}.len() - {n}')
    b = add_invariants(b, invs)
    for kw, st_, o in reversed(loop_positions(b)): b = b[:o+1] + ' broadcast use bind_add;' + b[o+1:]
    b = ' broadcast use bind_add; proof { reveal_with_fuel(bind, 2); reveal_with_fuel(names_v, 2); }' + b
    u.fn('Generator::visit_target', f, f"pub fn visit_target(&mut self, {B}: &mut Buffer, {I}: bool, {L}: bool, {T}: &Target<'_>)", b, requires=['old(self).locals.scopes@.len() > 0'],
         ensures=['final(self).rest == old(self).rest', 'outer_same(final(self).locals, old(self).locals)', f'final(self).locals.scopes@.last()@ =~= bind(old(self).locals.scopes@.last()@, names(*{T}), {I})'],
         attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]', before="impl<'a> Generator<'a> {", own=own)
    f = im.sub(r'fn\s+is_shadowing_variable\b'); T = re.search(r"(\w+): &Target<'a>", f.head).group(1)
    b = gen.errs(keys(strip_comments(f.body)))
    b, vs = for_loops(b)
    if len(vs) != 2: raise Lost('is_shadowing_variable: loops')
    b = add_invariants(b, [f'invariant {n} <= {v}.len(), forall|i: int| 0 <= i < {n} ==> !hides(self.locals, #[trigger] {v}@[i]' + ('.1' if k else '').join(['', '']) + f')\n decreases {v}.len() - {n}' if not k else f'invariant {n} <= {v}.len(), forall|i: int| 0 <= i < {n} ==> !hides(self.locals, (#[trigger] {v}@[i]).1)\n decreases {v}.len() - {n}' for k, (n, v, st) in enumerate(vs)])
    u.fn('Generator::is_shadowing_variable', f, f"pub fn is_shadowing_variable(&self, {T}: &Target<'_>) -> (r: Result<bool, CompileError>)", b, ensures=[f'r matches Ok(x) ==> x == hides(self.locals, *{T})'], attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]', after='}', own=own)
    u.drop('visit_target: the written text (contracts of the expression visitors, C25); `for x in v` -> while loop')
def unit(repo):
    u = Unit('c19_scopes'); s = Src(repo, gen.G)
    u.raw(gen.SHOW.replace('pub open spec fn CRATE', 'pub open spec fn CRATE'))
    u.trust(gen.SHOW_TRUST)
    chain(u, s); u.raw(CLIENT); targets(u, s, repo)
    return u
