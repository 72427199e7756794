"""The statements of the generator: if, match, for, let, filter blocks, blocks, and the walk over the nodes."""
import re
from .rsx import *
from .rw import *
from . import gen, visu, wsu
from .filt import params
from .verus import Unit

TREE = ('If', 'Cond', 'CondTest', 'Match', 'When', 'Loop', 'Let', 'BlockDef', 'FilterBlock', 'Macro', 'Raw', 'Import', 'Extends', 'Include', 'Call', 'Lit', 'Comment')
def tree(repo):
    """the syntax tree, as it stands in the parser"""
    n = Src(repo, gen.N); out = [gen.expr_types(repo)]
    for x in TREE: out.append(strip_comments(n.find(rf'pub\s+struct\s+{x}\b').text))
    for x in ('Node', 'Target'): out.append(strip_comments(n.find(rf'pub\s+enum\s+{x}\b').text))
    if not re.search(r'struct Ws\(pub Option<Whitespace>, pub Option<Whitespace>\);', n.text): raise Lost('Ws')
    out.append('#[derive(Clone, Copy)]\npub struct Ws(pub Option<Whitespace>, pub Option<Whitespace>);\n' + wsu.enum(repo, gen.N, 'Whitespace', ('Preserve', 'Suppress', 'Minimize')))
    return '\n'.join(out)

SPEC = r'''
/// what was written, without layout: characters, ends of lines, and statements that display what was pending
pub enum Op { C(char), NL, Out(Seq<Item>, Env) }
#[verifier::opaque]
pub open spec fn cs(s: Seq<char>) -> Seq<Op> { Seq::new(s.len(), |i: int| Op::C(s[i])) }
/// the text
pub open spec fn unc(x: Seq<Op>) -> Seq<char> { choose|s: Seq<char>| cs(s) == x }
pub broadcast proof fn unc_cs(s: Seq<char>) ensures #[trigger] unc(cs(s)) == s { reveal(cs); let u = unc(cs(s)); assert(cs(u) == cs(s)); assert(u.len() == s.len()) by { assert(cs(u).len() == u.len()); } assert forall|i: int| 0 <= i < s.len() implies u[i] == s[i] by { assert(cs(u)[i] == Op::C(u[i])); assert(cs(s)[i] == Op::C(s[i])); } assert(u =~= s); }
pub open spec fn nl() -> Seq<Op> { seq![Op::NL] }
pub open spec fn t(s: &str) -> Seq<Op> { cs(s@) }
/// x is written after i, unless output is discarded
#[verifier::opaque]
pub open spec fn ap(d: bool, i: Seq<Op>, x: Seq<Op>) -> Seq<Op> { if d { i } else { i + x } }
pub broadcast proof fn ap_add(d: bool, i: Seq<Op>, a: Seq<Op>, b: Seq<Op>) ensures #[trigger] ap(d, i, a + b) == ap(d, ap(d, i, a), b) { reveal(ap); assert(i + (a + b) =~= i + a + b); }
pub broadcast proof fn ap_cs(d: bool, i: Seq<Op>, a: Seq<char>, b: Seq<char>) ensures #[trigger] ap(d, i, cs(a + b)) == ap(d, ap(d, i, cs(a)), cs(b)) { reveal(ap); reveal(cs); assert(i + cs(a + b) =~= i + cs(a) + cs(b)); }
pub broadcast proof fn ap_ap(d: bool, i: Seq<Op>, a: Seq<Op>, b: Seq<Op>) ensures #[trigger] ap(d, i, ap(false, a, b)) == ap(d, ap(d, i, a), b) { reveal(ap); assert(i + (a + b) =~= i + a + b); }
pub broadcast proof fn ap_empty(d: bool, i: Seq<Op>) ensures #[trigger] ap(d, i, Seq::empty()) == i { reveal(ap); assert(i + Seq::<Op>::empty() =~= i); }
pub broadcast proof fn ap_first(x: Seq<Op>) ensures #[trigger] ap(false, Seq::empty(), x) == x { reveal(ap); assert(Seq::<Op>::empty() + x =~= x); }
pub broadcast proof fn chars_empty(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
/// what waits to be displayed: text that is not only whitespace, expressions, code
pub enum Item { L(Seq<char>), E(Expr<'static>), G(Seq<Op>, DisplayWrap) }
pub enum DisplayWrap { Wrapped, Unwrapped }
/// what is known of a variable (C19)
#[verifier::external_body]
pub struct Meta { x: u8 }
pub type Frame = Map<Seq<char>, Meta>;
/// the variables in scope
pub type Env = Map<Seq<char>, Meta>;
/// scopes, innermost last; the first stands for all that come from outside
#[verifier::opaque]
pub open spec fn vis(f: Seq<Frame>) -> Env decreases f.len() { if f.len() == 0 { Map::empty() } else { vis(f.drop_last()).union_prefer_right(f.last()) } }
/// a scope without variables changes nothing
pub broadcast proof fn vis_push(f: Seq<Frame>) ensures #[trigger] vis(f.push(Map::empty())) == vis(f) { reveal_with_fuel(vis, 2); assert(f.push(Map::empty()).drop_last() =~= f); assert(vis(f.push(Map::empty())) =~= vis(f)); }
pub broadcast proof fn push_pop(f: Seq<Frame>, x: Frame) ensures #[trigger] f.push(x).drop_last() == f { assert(f.push(x).drop_last() =~= f); }
/// the state of the generator, as far as it matters for what is emitted; the text that is pending counts without whitespace (C03, C04)
pub struct State { pub loc: Seq<Frame>, pub pend: Seq<Item>, pub wd: bool, pub sup: Option<(Seq<char>, int)>, pub d: bool }
/// a state, and all that was written until then
pub struct R { pub ink: Seq<Op>, pub s: State }
/// what does not change: the input, the parsed templates and the chain of blocks
pub struct K { pub input: Input, pub contexts: Contexts, pub heritage: Option<Heritage> }
#[verifier::external_body] pub struct Input { x: u8 }
#[verifier::external_body] pub struct Contexts { x: u8 }
#[verifier::external_body] pub struct Heritage { x: u8 }
pub struct Context<'a> { pub nodes: &'a [Node<'a>], pub rest: Names }
/// blocks, macros and imports
#[verifier::external_body] pub struct Names { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
#[derive(Clone, Copy)]
pub struct LocalMeta { pub m: Ghost<Meta> }
pub uninterp spec fn initialized() -> Meta;
pub uninterp spec fn declared() -> Meta;
pub uninterp spec fn stands_for(x: Seq<char>) -> Meta;
impl LocalMeta {
    #[verifier::external_body]
    pub fn initialized() -> (r: Self) ensures r.m@ == initialized() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.m@ == declared() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_ref(x: String) -> (r: Self) ensures r.m@ == stands_for(x@) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum AstLevel { Top, Block, Nested }
'''
LOC = r'''
#[verifier::external_body]
pub struct Key<'k> { x: &'k str }
impl<'k> Key<'k> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn borrowed(s: &'k str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn owned(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
/// MapChain (its methods have these contracts: C19)
pub struct Locals { pub f: Ghost<Seq<Frame>> }
#[verifier::external_body]
pub fn nth_var_<'k>(v: &Vec<(&'k str, LocalMeta)>, i: usize) -> (r: (&'k str, LocalMeta)) requires i < v@.len() ensures r.0@ == v@[i as int].0@, r.1.m@ == v@[i as int].1.m@ { unimplemented!() }
impl Locals {
    #[verifier::external_body]
    pub fn push(&mut self) ensures final(self).f@ == old(self).f@.push(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) requires old(self).f@.len() > 1 ensures final(self).f@ == old(self).f@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Key<'_>) -> (r: Option<&LocalMeta>) ensures r is Some <==> vis(self.f@).contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key<'_>, v: LocalMeta) requires old(self).f@.len() > 0 ensures final(self).f@ == define(old(self).f@, k@, v.m@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_parent(p: &Locals) -> (r: Self) ensures r.f@ == p.f@.push(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve(&self, n: &str) -> (r: Option<String>) ensures r matches Some(x) ==> look(vis(self.f@), n@) == Some(x@), r is None ==> look(vis(self.f@), n@) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve_or_self(&self, n: &str) -> (r: String) ensures r@ == look_or_self(vis(self.f@), n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.f@ == seq![Map::<Seq<char>, Meta>::empty()] { unimplemented!() }
}
/// the code that a name stands for (C19)
pub uninterp spec fn look(e: Env, n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn look_or_self(e: Env, n: Seq<char>) -> Seq<char>;
pub open spec fn define(f: Seq<Frame>, n: Seq<char>, m: Meta) -> Seq<Frame> { f.drop_last().push(f.last().insert(n, m)) }
pub struct CompileError { pub m: Ghost<int> }
#[verifier::external_body]
pub fn err_() -> CompileError { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
pub uninterp spec fn starts(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub fn starts_with_(a: &String, b: &str) -> (r: bool) ensures r == starts(a@, b@) { unimplemented!() }
pub uninterp spec fn norm(n: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn normalize_identifier(n: &str) -> (r: &str) ensures r@ == norm(n@) { unimplemented!() }
/// size hints (C09 does not depend on them)
#[verifier::external_body]
pub fn sum_(a: usize, b: usize) -> usize { a }
#[verifier::external_body]
pub fn any_() -> usize { 0 }
#[verifier::external_body]
pub fn inc_(a: usize) -> (r: usize) ensures r == a + 1 { a + 1 }
/// the output of the generator (the methods have these contracts: C25; line breaks that writeln adds are NL, indentation is layout)
pub struct Buffer { pub discard: bool, pub indent: usize, pub ink: Ghost<Seq<Op>> }
impl Buffer {
    pub open spec fn w(&self, o: &Buffer, x: Seq<Op>) -> bool { self.discard == o.discard && self.ink@ == ap(o.discard, o.ink@, x) }
    #[verifier::external_body]
    pub fn new(indent: usize) -> (r: Self) ensures r.ink@ == Seq::<Op>::empty(), !r.discard { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, s: &str) ensures final(self).w(old(self), cs(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn writeln(&mut self, s: &str) -> (r: Result<(), CompileError>) ensures r is Ok ==> final(self).w(old(self), cs(s@) + nl()) { unimplemented!() }
    #[verifier::external_body]
    pub fn dedent(&mut self) -> (r: Result<(), CompileError>) ensures final(self).discard == old(self).discard, final(self).ink == old(self).ink { unimplemented!() }
    #[verifier::external_body]
    pub fn indent(&mut self) ensures final(self).discard == old(self).discard, final(self).ink == old(self).ink { unimplemented!() }
    /// the text of the buffer: what was written to it (and indentation)
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures cs(r@) == self.ink@, r@ == unc(self.ink@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_text(self) -> (r: String) ensures cs(r@) == self.ink@, r@ == unc(self.ink@) { unimplemented!() }
    #[verifier::external_body]
    pub fn no_text(&self) -> (r: bool) ensures r <==> self.ink@.len() == 0 { unimplemented!() }
}
/// code of an expression (the visitors: C25), of a pattern, of a filter with its arguments, where these variables are in scope
pub uninterp spec fn xp(e: Expr, env: Env) -> Seq<char>;
pub uninterp spec fn xattr(o: Expr, a: Seq<char>, env: Env) -> Seq<char>;
pub uninterp spec fn pat(t: Target, init: bool, first: bool) -> Seq<char>;
pub uninterp spec fn fcode(name: Seq<char>, args: Seq<Expr>, env: Env) -> Seq<Op>;
pub uninterp spec fn fwrap(name: Seq<char>) -> DisplayWrap;
/// the scope after the variables of a pattern (C19)
pub uninterp spec fn binds(f: Frame, t: Target, init: bool) -> Frame;
/// whether an assignment hides an earlier meaning of one of the names (C19)
pub uninterp spec fn hidden(env: Env, t: Target) -> bool;
/// whether a variable has a value
pub uninterp spec fn has_value(m: Meta) -> bool;
pub open spec fn hides(env: Env, t: Target) -> bool { match t { Target::Name(n) => !env.contains_key(norm(n@)) || has_value(env[norm(n@)]), _ => hidden(env, t) } }
pub struct WritableBuffer<'a> { pub discard: bool, pub items: Ghost<Seq<Item>>, pub x: Ghost<&'a u8> }
pub enum Writable<'a> { Lit(&'a str), Expr(&'a Expr<'a>), Generated(String, DisplayWrap) }
/// the item (without the whitespace around it)
pub uninterp spec fn expr_item(e: Expr) -> Item;
pub open spec fn item(w: Writable) -> Item { match w { Writable::Lit(s) => Item::L(s@), Writable::Expr(e) => expr_item(*e), Writable::Generated(s, d) => Item::G(cs(s@), d) } }
impl<'a> WritableBuffer<'a> {
    #[verifier::external_body]
    pub fn push(&mut self, w: Writable<'a>) ensures final(self).discard == old(self).discard, final(self).items@ == (if old(self).discard { old(self).items@ } else { old(self).items@.push(item(w)) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn mem_take<'a>(w: &mut WritableBuffer<'a>) -> (r: WritableBuffer<'a>) ensures r == *old(w), final(w).items@.len() == 0, !final(w).discard { unimplemented!() }
pub fn mem_replace(b: &mut bool, v: bool) -> (r: bool) ensures r == *old(b), *final(b) == v { let r = *b; *b = v; r }
pub struct Generator<'a> { pub k: Ghost<K>, pub input: &'a Input, pub contexts: &'a Contexts, pub heritage: Option<&'a Heritage>, pub locals: Locals, pub next_ws: Option<&'a str>, pub skip_ws: Skip, pub super_block: Option<(&'a str, usize)>, pub buf_writable: WritableBuffer<'a> }
#[derive(Clone, Copy)]
pub struct Skip { pub x: u8 }
#[verifier::external_body]
pub fn skip_into_(s: Skip) -> Whitespace { unimplemented!() }
pub open spec fn sup_(s: Option<(&str, usize)>) -> Option<(Seq<char>, int)> { match s { Some((n, g)) => Some((n@, g as int)), None => None } }
pub open spec fn rr(g: &Generator, b: &Buffer) -> R { R { ink: b.ink@, s: State { loc: g.locals.f@, pend: g.buf_writable.items@, wd: g.buf_writable.discard, sup: sup_(g.super_block), d: b.discard } } }
pub open spec fn kk(g: &Generator) -> K { K { input: *g.input, contexts: *g.contexts, heritage: match g.heritage { Some(h) => Some(*h), None => None } } }
/// text is written
pub open spec fn wr(r: R, x: Seq<Op>) -> R { R { ink: ap(r.s.d, r.ink, x), ..r } }
pub open spec fn wl(r: R, s: &str) -> R { wr(r, t(s) + nl()) }
/// what is pending is displayed
pub open spec fn fl(r: R) -> R { R { ink: ap(r.s.d, r.ink, out(r.s.pend, vis(r.s.loc))), s: State { pend: Seq::empty(), ..r.s } } }
pub open spec fn out(p: Seq<Item>, e: Env) -> Seq<Op> { if p.len() == 0 { Seq::empty() } else { seq![Op::Out(p, e)] } }
pub open spec fn push(r: R) -> R { R { s: State { loc: r.s.loc.push(Map::empty()), ..r.s }, ..r } }
pub open spec fn pop(r: R) -> R { R { s: State { loc: r.s.loc.drop_last(), ..r.s }, ..r } }
pub open spec fn add(r: R, i: Item) -> R { if r.s.wd { r } else { R { s: State { pend: r.s.pend.push(i), ..r.s }, ..r } } }
/// a pattern is written, and its variables are in scope
pub open spec fn tgt(r: R, p: Target, init: bool) -> R { R { s: State { loc: r.s.loc.drop_last().push(binds(r.s.loc.last(), p, init)), ..r.s }, ..wr(r, cs(pat(p, init, true))) } }
pub open spec fn xc(r: R, e: Expr) -> Seq<Op> { cs(xp(e, vis(r.s.loc))) }
/// the walk over the nodes inside: what it writes and the state after it
pub uninterp spec fn chain(h: Heritage, n: Seq<char>, g: int) -> Option<(Context<'static>, BlockDef<'static>)>;
/// the context of a block, with the macros and imports of the one that it is in, as far as they have other names
pub uninterp spec fn merged(a: Context, b: Context) -> Context<'static>;
#[verifier::external_body]
pub fn merged_<'a>(a: &Context<'a>, b: &Context<'a>) -> (r: Context<'a>) ensures r == merged(*a, *b) { unimplemented!() }
#[verifier::external_body]
pub fn ancestor_<'a>(h: &'a Heritage, n: &str, g: usize) -> (r: Option<(&'a Context<'a>, &'a BlockDef<'a>)>)
    ensures match r { Some(x) => chain(*h, n@, g as int) == Some((*x.0, *x.1)), None => chain(*h, n@, g as int) is None } { unimplemented!() }
/// the block that the template is asked to be
pub uninterp spec fn asked_for(i: Input) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn block_is_(i: &Input, n: Option<&str>) -> (r: bool) ensures r <==> asked_for(*i) == (match n { Some(s) => Some(s@), None => None }) { unimplemented!() }
/// the file that a path means in a template (C21)
pub uninterp spec fn found(i: Input, p: Seq<char>, c: Context) -> Option<Path>;
#[verifier::external_body]
pub fn find_(i: &Input, p: &str, c: &Context<'_>) -> (r: Result<Path, CompileError>) ensures r matches Ok(x) ==> found(*i, p@, *c) == Some(x) { unimplemented!() }
/// the statement that makes the code depend on the file
pub uninterp spec fn depends(p: Path) -> Seq<char>;
#[verifier::external_body]
pub fn depends_(p: &Path) -> (r: &'static str) ensures r@ == depends(*p) { unimplemented!() }
pub uninterp spec fn parsed_at(c: Contexts, p: Path) -> Option<Context<'static>>;
#[verifier::external_body]
pub fn context_at_<'a>(c: &'a Contexts, p: &Path) -> (r: &'a Context<'a>) ensures parsed_at(*c, *p) == Some(*r) { unimplemented!() }
#[verifier::external_body]
pub fn context_<'a>(c: &'a Contexts, p: &Path) -> (r: Option<&'a Context<'a>>) ensures match r { Some(x) => parsed_at(*c, *p) == Some(*x), None => parsed_at(*c, *p) is None } { unimplemented!() }
pub uninterp spec fn imported(c: Context, s: Seq<char>) -> Option<Path>;
#[verifier::external_body]
pub fn import_<'x>(c: &'x Context<'_>, s: &str) -> (r: Option<&'x Path>) ensures match r { Some(x) => imported(*c, s@) == Some(*x), None => imported(*c, s@) is None } { unimplemented!() }
pub uninterp spec fn macro_of(c: Context, n: Seq<char>) -> Option<Macro<'static>>;
#[verifier::external_body]
pub fn macro_<'x, 'a>(c: &'x Context<'a>, n: &str) -> (r: Option<&'a Macro<'a>>) ensures match r { Some(x) => macro_of(*c, n@) == Some(*x), None => macro_of(*c, n@) is None } { unimplemented!() }
pub uninterp spec fn blockless(c: Context) -> bool;
pub uninterp spec fn extending(c: Context) -> bool;
#[verifier::external_body]
pub fn blockless_(c: &Context<'_>) -> (r: bool) ensures r == blockless(*c) { unimplemented!() }
#[verifier::external_body]
pub fn extending_(c: &Context<'_>) -> (r: bool) ensures r == extending(*c) { unimplemented!() }
/// Heritage::new (C20)
pub uninterp spec fn heritage_of(c: Context, all: Contexts) -> Heritage;
pub uninterp spec fn root_of(h: Heritage) -> Context<'static>;
impl Heritage {
    #[verifier::external_body]
    pub fn new(c: &Context<'_>, all: &Contexts) -> (r: Self) ensures r == heritage_of(*c, *all) { unimplemented!() }
    #[verifier::external_body]
    pub fn root_(&self) -> (r: &Context<'_>) ensures *r == root_of(*self) { unimplemented!() }
}
pub fn as_ref_<'x>(o: &'x Option<Heritage>) -> (r: Option<&'x Heritage>) ensures match *o { Some(h) => r == Some(&h), None => r is None } { match o { Some(h) => Some(h), None => None } }
#[verifier::external_body]
pub fn has_block_(i: &Input) -> (r: bool) ensures r == (asked_for(*i) is Some) { unimplemented!() }
pub fn buffer_<'a>(d: bool) -> (r: WritableBuffer<'a>) ensures r.discard == d, r.items@.len() == 0 { WritableBuffer { discard: d, items: Ghost(Seq::empty()), x: Ghost(arbitrary()) } }
#[verifier::external_body]
pub fn preserve_() -> Skip { unimplemented!() }
/// HashMap<Cow<str>, &Expr>
#[verifier::external_body]
pub struct Given<'a> { x: &'a u8 }
impl<'a> Given<'a> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Expr<'static>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Expr<'static>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key<'_>, e: &'a Expr<'a>) ensures final(self)@ == old(self)@.insert(k@, *e) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Key<'_>) -> (r: Option<&'a Expr<'a>>) ensures match r { Some(e) => self@.contains_key(k@) && *e == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
}
#[verifier::external_body]
pub fn any_eq_(v: &Vec<&str>, n: &str) -> bool { unimplemented!() }
pub fn last_<'x, T>(v: &'x Vec<T>) -> (r: Option<&'x T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 } { if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
/// the parser makes no if and no match without a branch
#[verifier::external_body]
pub proof fn parsed(n: Node) ensures n matches Node::If(i) ==> i.branches@.len() > 0, n matches Node::Match(m) ==> m.arms@.len() > 0 {}
pub uninterp spec fn hd_ink(k: K, c: Context, ns: Seq<Node>, l: AstLevel, s: State) -> Seq<Op>;
pub uninterp spec fn hd_state(k: K, c: Context, ns: Seq<Node>, l: AstLevel, s: State) -> State;
pub open spec fn hd(r: R, k: K, c: Context, ns: Seq<Node>, l: AstLevel) -> R { R { ink: ap(false, r.ink, hd_ink(k, c, ns, l, r.s)), s: hd_state(k, c, ns, l, r.s) } }
/// variables that are defined inside are in the innermost scope
pub open spec fn keeps(a: State, b: State) -> bool { b.loc.len() == a.loc.len() && b.loc.drop_last() == a.loc.drop_last() && b.wd == a.wd && b.sup == a.sup && b.d == a.d }
impl<'a> Generator<'a> {
    #[verifier::external_body]
    pub fn handle_ws(&mut self, ws: Ws) ensures final(self).same(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_ws(&mut self, ws: Ws) ensures final(self).same(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn prepare_ws(&mut self, ws: Ws) ensures final(self).same(old(self)) { unimplemented!() }
    /// whitespace may have been added to what is pending, which does not count here (C03, C04)
    pub open spec fn same(&self, o: &Self) -> bool { kk(self) == kk(o) && self.locals == o.locals && self.super_block == o.super_block && self.buf_writable == o.buf_writable }
    #[verifier::external_body]
    pub fn visit_lit(&mut self, l: &'a Lit<'_>) ensures kk(final(self)) == kk(old(self)), final(self).locals == old(self).locals, final(self).super_block == old(self).super_block, final(self).buf_writable.discard == old(self).buf_writable.discard, final(self).buf_writable.items@ == (if old(self).buf_writable.discard || l.val@.len() == 0 { old(self).buf_writable.items@ } else { old(self).buf_writable.items@.push(Item::L(l.val@)) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_buf_writable(&mut self, buf: &mut Buffer) -> (r: Result<usize, CompileError>) ensures kk(final(self)) == kk(old(self)), r is Ok ==> rr(final(self), final(buf)) == fl(rr(old(self), old(buf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_expr(&mut self, buf: &mut Buffer, e: &Expr<'_>) -> (r: Result<DisplayWrap, CompileError>) ensures *final(self) == *old(self), r is Ok ==> final(buf).w(old(buf), cs(xp(*e, vis(old(self).locals.f@)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_expr_root(&mut self, e: &Expr<'_>) -> (r: Result<String, CompileError>) ensures *final(self) == *old(self), r matches Ok(s) ==> s@ == xp(*e, vis(old(self).locals.f@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_attr(&mut self, buf: &mut Buffer, o: &Expr<'_>, a: &str) -> (r: Result<DisplayWrap, CompileError>) ensures *final(self) == *old(self), r is Ok ==> final(buf).w(old(buf), cs(xattr(*o, a@, vis(old(self).locals.f@)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_filter(&mut self, buf: &mut Buffer, name: &str, args: &[Expr<'_>]) -> (r: Result<DisplayWrap, CompileError>) ensures *final(self) == *old(self), r is Ok ==> r->Ok_0 == fwrap(name@) && final(buf).w(old(buf), fcode(name@, args@, vis(old(self).locals.f@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn visit_target(&mut self, buf: &mut Buffer, init: bool, first: bool, p: &Target<'_>) requires old(self).locals.f@.len() > 0
        ensures final(self).same_but_locals(old(self)), final(buf).w(old(buf), cs(pat(*p, init, first))), final(self).locals.f@ == old(self).locals.f@.drop_last().push(binds(old(self).locals.f@.last(), *p, init)) { unimplemented!() }
    pub open spec fn same_but_locals(&self, o: &Self) -> bool { kk(self) == kk(o) && self.super_block == o.super_block && self.buf_writable == o.buf_writable }
    #[verifier::external_body]
    pub fn is_shadowing_variable(&self, p: &Target<'_>) -> (r: Result<bool, CompileError>) ensures r matches Ok(x) ==> x == hides(vis(self.locals.f@), *p) { unimplemented!() }
    /// the recursive calls: handle as it is proved below (the claims hold for what ends)
    #[verifier::external_body]
    pub fn handle(&mut self, ctx: &Context<'a>, nodes: &'a [Node<'_>], buf: &mut Buffer, level: AstLevel) -> (r: Result<usize, CompileError>)
        requires old(self).locals.f@.len() > 0
        ensures kk(final(self)) == kk(old(self)), r is Ok ==> rr(final(self), final(buf)) == hd(rr(old(self), old(buf)), kk(old(self)), *ctx, nodes@, level) && keeps(rr(old(self), old(buf)).s, rr(final(self), final(buf)).s)
    { unimplemented!() }
}
pub trait Cloned: Sized { fn cl(&self) -> (r: Self) ensures r == *self; }
impl<'x> Cloned for Vec<Expr<'x>> { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
impl Cloned for String { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn first_mut_<'x, 'y>(v: &'x mut Vec<Expr<'y>>) -> (r: Option<&'x mut Expr<'y>>)
    ensures r matches Some(e) ==> old(v)@.len() > 0 && *e == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(e)), r is None ==> old(v)@.len() == 0 && final(v)@ == old(v)@ { v.first_mut() }
#[verifier::external_body]
pub fn median(v: &mut Vec<usize>) -> usize { unimplemented!() }
'''
X = r'''
/// if, else if, else: each condition is looked at after those before it, in the scope outside; its variables are known in its body only
pub open spec fn cond_code(r: R, e: Expr, p: Option<Target>) -> R {
    match p {
        None => wr(wr(wr(r, t("*(&(")), xc(r, e)), t(") as &bool)")),
        Some(p) => {
            let r0 = wr(r, t("let "));
            match e {
                Expr::BinOp(op, a, b) => if op@ == "||"@ || op@ == "&&"@ {
                        // the right operand sees the variables
                        let r1 = tgt(r0, p, true);
                        wr(wr(wr(wr(wr(r1, t(" = &")), xc(r0, *a)), t(" ") + cs(op@) + t(" ")), xc(r1, *b)), Seq::empty())
                    } else { wr(wr(tgt(r0, p, true), t(" = &")), xc(r0, e)) },
                _ => wr(wr(tgt(r0, p, true), t(" = &")), xc(r0, e)),
            }
        }
    }
}
pub open spec fn s_branch(r: R, k: K, c: Context, b: Cond, first: bool) -> R {
    let r = push(if first { fl(r) } else { pop(fl(r)) });
    let r = match b.cond { Some(x) => cond_code(wr(r, if first { t("if ") } else { t("} else if ") }), x.expr, x.target), None => wr(r, t("} else")) };
    hd(wl(r, " {"), k, c, b.nodes@, AstLevel::Nested)
}
pub open spec fn s_branches(r: R, k: K, c: Context, v: Seq<Cond>, n: int) -> R decreases n { if n <= 0 { r } else { s_branch(s_branches(r, k, c, v, n - 1), k, c, v[n - 1], n == 1) } }
pub open spec fn if_code(r: R, k: K, c: Context, i: If) -> R { pop(wl(fl(s_branches(r, k, c, i.branches@, i.branches@.len() as int)), "}")) }
/// match: the arms in their order
pub open spec fn s_arm(r: R, k: K, c: Context, a: When, first: bool) -> R {
    let r = push(if first { r } else { pop(wl(fl(r), "}")) });
    hd(wl(tgt(r, a.target, true), " => {"), k, c, a.nodes@, AstLevel::Nested)
}
pub open spec fn s_arms(r: R, k: K, c: Context, v: Seq<When>, n: int) -> R decreases n { if n <= 0 { r } else { s_arm(s_arms(r, k, c, v, n - 1), k, c, v[n - 1], n == 1) } }
pub open spec fn match_head(r: R, m: Match) -> R { let r0 = fl(r); wr(r0, t("match &") + xc(r0, m.expr) + t(" {") + nl()) }
pub open spec fn match_code(r: R, k: K, c: Context, m: Match) -> R {
    let r1 = match_head(r, m);
    wl(pop(wl(fl(s_arms(r1, k, c, m.arms@, m.arms@.len() as int)), "}")), "}")
}
/// for: the sequence is looked at in the scope outside
pub open spec fn iter_code(e: Expr, x: Seq<char>) -> Seq<Op> {
    (match e {
        Expr::Range(_, _, _) => t("let _iter = ") + cs(x) + t(";"),
        Expr::Array(_) => t("let _iter = ") + cs(x) + t(".iter();"),
        Expr::Call(_, _) => t("let _iter = (") + cs(x) + t(").into_iter();"),
        Expr::Index(_, _) => t("let _iter = (") + cs(x) + t(").into_iter();"),
        _ => if starts(x, "self."@) || e is Attr { t("let _iter = (&") + cs(x) + t(").into_iter();") } else { t("let _iter = (") + cs(x) + t(").into_iter();") },
    }) + nl()
}
pub open spec fn loop_code(r: R, k: K, c: Context, l: Loop) -> R {
    let x = xp(l.iter, vis(r.s.loc)); let els = l.else_nodes@.len() > 0;
    let r = wl(push(fl(r)), "{");
    let r = if els { wl(r, "let mut _did_loop = false;") } else { r };
    let r = wr(r, iter_code(l.iter, x));
    let r = match l.cond {
        Some(e) => { let r = tgt(wr(push(r), t("let _iter = _iter.filter(|")), l.var, true); pop(wr(wr(wr(r, t("| -> bool {")), xc(r, e)), t("});") + nl())) },
        None => r,
    };
    let r = tgt(wr(push(r), t("for (")), l.var, true);
    let r = wr(wr(r, t(", _loop_item) in ")), cs(CRATE()) + t("::helpers::TemplateLoop::new(_iter) {") + nl());
    let r = if els { wl(r, "_did_loop = true;") } else { r };
    let r = wl(pop(fl(hd(r, k, c, l.body@, AstLevel::Nested))), "}");
    let r = if els { wl(pop(fl(hd(push(wl(r, "if !_did_loop {")), k, c, l.else_nodes@, AstLevel::Nested))), "}") } else { fl(r) };
    pop(wl(r, "}"))
}
/// let: the value is looked at before the variables are known, after everything that is pending was displayed
pub open spec fn let_code(r: R, l: Let) -> R {
    let r = fl(r);
    match l.val {
        None => wl(tgt(wr(r, t("let ")), l.var, false), ";"),
        Some(e) => {
            let kw = l.var is Name ==> hides(vis(r.s.loc), l.var);
            wr(tgt(if kw { wr(r, t("let ")) } else { r }, l.var, true), t(" = ") + xc(r, e) + t(";") + nl())
        }
    }
}
/// a filter block: what the body displays becomes the first argument of the innermost filter; the result is displayed once, where the block is
pub open spec fn fbn(id: int) -> Seq<char> { "__filter_block"@ + dec(id) }
/// the first arguments lead to the place that the parser left for the text
pub open spec fn holed(a: Vec<Expr>) -> bool decreases a { if 0 < a@.len() { match a@[0] { Expr::Filter(f) => holed(f.arguments), Expr::Generated(_) => true, _ => false } } else { false } }
/// b is a with the name n in that place
pub open spec fn ins(a: Vec<Expr>, b: Vec<Expr>, n: Seq<char>) -> bool decreases a {
    b@.len() == a@.len() && (forall|i: int| 1 <= i < a@.len() ==> #[trigger] b@[i] == a@[i])
    && (if 0 < a@.len() { match a@[0] {
        Expr::Filter(f) => b@[0] matches Expr::Filter(g) && g.name == f.name && ins(f.arguments, g.arguments, n),
        _ => b@[0] matches Expr::Generated(s) && s@ == n,
    } } else { false })
}
pub open spec fn filter_code(r: R, e: R, k: K, c: Context, f: FilterBlock, id: int, args: Vec<Expr>) -> bool {
    let n = fbn(id); let r0 = fl(r);
    let r1 = wl(wl(wl(wr(r0, t("let ") + cs(n) + t(" = {") + nl()), "let mut body = ::std::string::String::new();"), "{"), "let writer: &mut dyn ::std::fmt::Write = &mut body;");
    let r2 = wl(wl(wl(pop(fl(hd(push(r1), k, c, f.nodes@, AstLevel::Nested))), "}"), "body"), "};");
    let r3 = add(r2, Item::G(fcode(f.filters.name@, args@, vis(r2.s.loc)), fwrap(f.filters.name@)));
    // a name that nothing else has
    &&& !vis(r.s.loc).contains_key(n)
    &&& holed(f.filters.arguments) ==> ins(f.filters.arguments, args, n)
    &&& e == R { s: State { loc: define(r3.s.loc, n, initialized()), ..r3.s }, ..r3 }
}

/// which definition of a block is meant: the first for a block, the next one for super() inside of it
pub open spec fn which(name: Option<Seq<char>>, sup: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> {
    match (name, sup) { (Some(n), None) => Some((n, 0)), (Some(n), Some(p)) => if n == p.0 { None } else { Some((n, 0)) }, (None, Some(p)) => Some((p.0, p.1 + 1)), (None, None) => None }
}
/// a block: in a scope of its own; written if it is the one that is asked for, whatever is around it
pub open spec fn block_code(r: R, k: K, c: Context, name: Option<Seq<char>>) -> Option<R> {
    match which(name, r.s.sup) {
        None => None,
        Some(cur) => match k.heritage {
            None => None,
            Some(h) => match chain(h, cur.0, cur.1) {
                None => None,
                Some(x) => {
                    let asked = asked_for(k.input) == name && r.s.wd; let wd = r.s.wd && !asked; let r1 = fl(r);
                    let r2 = R { ink: r1.ink, s: State { loc: seq![Map::empty()], pend: r1.s.pend, wd: wd, sup: Some(cur), d: wd } };
                    let r3 = wl(fl(hd(wl(r2, "{"), k, merged(x.0, c), x.1.nodes@, AstLevel::Block)), "}");
                    Some(R { ink: r3.ink, s: State { loc: r.s.loc, pend: r3.s.pend, wd: r.s.wd, sup: r.s.sup, d: r.s.d } })
                }
            }
        }
    }
}
/// the found template in place of the include: with all variables, and with the macros and imports, as far as it has no own of the name
pub open spec fn heritage_for(c: Context, all: Contexts) -> Option<Heritage> { if !blockless(c) || extending(c) { Some(heritage_of(c, all)) } else { None } }
pub open spec fn include_code(r: R, k: K, c: Context, i: Include) -> Option<R> {
    match found(k.input, i.path@, c) {
        None => None,
        Some(p) => match parsed_at(k.contexts, p) {
            None => None,
            Some(x) => {
                let cc = merged(x, c); let h = heritage_for(cc, k.contexts); let root = match h { Some(h) => root_of(h), None => cc };
                let r1 = wl(wr(fl(r), cs(depends(p)) + nl()), "{");
                let r2 = R { ink: r1.ink, s: State { loc: r.s.loc.push(Map::empty()), pend: Seq::empty(), wd: r.s.wd, sup: None, d: r.s.d } };
                let r3 = wl(fl(hd(r2, K { input: k.input, contexts: k.contexts, heritage: h }, root, root.nodes@, AstLevel::Top)), "}");
                Some(R { ink: r3.ink, s: r1.s })
            }
        }
    }
}
/// the macro that is called: of the imported template, or of this one
pub open spec fn called(k: K, c: Context, x: Call) -> Option<(Macro<'static>, Context<'static>)> {
    match x.scope {
        None => match macro_of(c, x.name@) { Some(m) => Some((m, c)), None => None },
        Some(s) => match imported(c, s@) { None => None, Some(p) => match parsed_at(k.contexts, p) { None => None, Some(y) => match macro_of(y, x.name@) { Some(m) => Some((m, y)), None => None } } },
    }
}
/// the arguments with names: the last ones
pub open spec fn named_from(v: Seq<Expr>, n: int) -> int decreases n { if n > 0 && n <= v.len() && v[n - 1] is NamedArgument { named_from(v, n - 1) } else { n } }
pub open spec fn given(v: Seq<Expr>, k: int) -> Map<Seq<char>, Expr<'static>> decreases v.len() - k { if k < 0 || k >= v.len() { Map::empty() } else { match v[k] { Expr::NamedArgument(n, _) => given(v, k + 1).insert(n@, v[k]), _ => given(v, k + 1) } } }
pub open spec fn named(v: Seq<Expr>) -> Map<Seq<char>, Expr<'static>> { given(v, named_from(v, v.len() as int)) }
pub open spec fn arg_of(v: Seq<Expr>, p: Seq<char>, i: int) -> Expr<'static> { if named(v).contains_key(p) { named(v)[p] } else { v[i] } }
/// parameters that become variables with their values, and what each parameter stands for
pub struct Passed { pub names: Seq<Op>, pub values: Seq<Op>, pub vars: Seq<(Seq<char>, Meta)>, pub first: bool }
pub open spec fn ap0(i: Seq<Op>, x: Seq<Op>) -> Seq<Op> { ap(false, i, x) }
/// an argument is looked at in the scope of the call
pub open spec fn pass(a: Passed, env: Env, p: Seq<char>, e: Expr) -> Passed {
    { match e {
        Expr::Var(n) if n@ != "self"@ => Passed { vars: a.vars.push((norm(p), stands_for(look_or_self(env, n@)))), ..a },
        Expr::Attr(o, n) => { let x = xattr(*o, n@, env); Passed { vars: a.vars.push((norm(p), stands_for(match look(env, x) { Some(y) => y, None => x }))), ..a } },
        _ => {
            let n0 = if a.first { a.names } else { ap0(a.names, t(", ")) }; let v0 = if a.first { a.values } else { ap0(a.values, t(", ")) };
            Passed { names: ap0(n0, cs(norm(p))), values: ap0(v0, t("(") + cs(xp(e, env)) + t(")")), vars: a.vars.push((norm(p), declared())), first: false }
        }
    } }
}
pub open spec fn passed(env: Env, ps: Seq<&str>, v: Seq<Expr>, n: int) -> Passed decreases n { if n <= 0 { Passed { names: Seq::empty(), values: Seq::empty(), vars: Seq::empty(), first: true } } else { pass(passed(env, ps, v, n - 1), env, ps[n - 1]@, arg_of(v, ps[n - 1]@, n - 1)) } }
pub open spec fn defines(f: Seq<Frame>, v: Seq<(Seq<char>, Meta)>, n: int) -> Seq<Frame> decreases n { if n <= 0 { f } else { define(defines(f, v, n - 1), v[n - 1].0, v[n - 1].1) } }
/// a call: the parameters in a scope of their own, the nodes of the macro in the template where it is defined
pub open spec fn call_code(r: R, k: K, c: Context, x: Call) -> Option<R> {
    if x.name@ == "super"@ { block_code(r, k, c, None) } else {
        match called(k, c, x) {
            None => None,
            Some(m) => if x.args@.len() != m.0.args@.len() { None } else {
                let a = passed(vis(r.s.loc), m.0.args@, x.args@, m.0.args@.len() as int);
                let r1 = wl(fl(push(r)), "{");
                let r2 = R { s: State { loc: defines(r1.s.loc, a.vars, a.vars.len() as int), ..r1.s }, ..r1 };
                let r3 = if a.names.len() > 0 { wr(r2, t("let (") + a.names + t(") = (") + a.values + t(");") + nl()) } else { r2 };
                Some(pop(wl(fl(hd(r3, k, m.1, m.0.nodes@, AstLevel::Nested)), "}")))
            }
        }
    }
}
pub proof fn defines_len(f: Seq<Frame>, v: Seq<(Seq<char>, Meta)>, n: int) requires f.len() > 0 ensures defines(f, v, n).len() == f.len(), defines(f, v, n).drop_last() == f.drop_last() decreases n { if n > 0 { defines_len(f, v, n - 1); assert(defines(f, v, n).drop_last() =~= f.drop_last()); } }
pub open spec fn lit(r: R, l: Lit) -> R { if l.val@.len() == 0 { r } else { add(r, Item::L(l.val@)) } }
pub open spec fn filter_rel(r: R, e: R, k: K, c: Context, f: FilterBlock) -> bool { exists|id: int, args: Vec<Expr>| #[trigger] filter_code(r, e, k, c, f, id, args) }
/// one node
pub open spec fn step(r: R, e: R, k: K, c: Context, n: Node, l: AstLevel) -> bool {
    match n {
        Node::Lit(x) => e == lit(r, x), Node::Comment(_) => e == r, Node::Expr(_, x) => e == add(r, expr_item(x)),
        Node::Let(x) => e == let_code(r, x), Node::If(x) => e == if_code(r, k, c, x), Node::Match(x) => e == match_code(r, k, c, x), Node::Loop(x) => e == loop_code(r, k, c, *x),
        Node::BlockDef(b) => block_code(r, k, c, Some(b.name@)) == Some(e),
        Node::Include(i) => include_code(r, k, c, i) == Some(e), Node::Call(x) => call_code(r, k, c, x) == Some(e), Node::FilterBlock(f) => filter_rel(r, e, k, c, f),
        Node::Macro(_) => l is Top && e == r, Node::Import(_) => l is Top && e == r, Node::Extends(_) => l is Top && e == r,
        Node::Raw(w) => e == lit(r, w.lit), Node::Break(_) => e == wl(fl(r), "break;"), Node::Continue(_) => e == wl(fl(r), "continue;"),
    }
}
/// all nodes, in their order: the states before each of them, and after the last
pub open spec fn walk(tr: Seq<R>, k: K, c: Context, ns: Seq<Node>, l: AstLevel) -> bool { tr.len() == ns.len() + 1 && forall|i: int| 0 <= i < ns.len() ==> step(#[trigger] tr[i], tr[i + 1], k, c, ns[i], l) }
pub open spec fn walks(r: R, e: R, tr: Seq<R>, k: K, c: Context, ns: Seq<Node>, l: AstLevel) -> bool { walk(tr, k, c, ns, l) && tr[0] == r && e == (if l is Top { fl(tr.last()) } else { tr.last() }) }
'''
def common(b):
    b = gen.errs(b).replace('MapChain::', 'Locals::')
    b = re.sub(r'\bref\s+(?=\w)', '', b)
    b = re.sub(r'\bCow::Borrowed\b', 'Key::borrowed', b); b = re.sub(r'\bCow::Owned\b', 'Key::owned', b)
    b = re.sub(r'\b(\w+) \+= ([^;]*);', r'\1 = sum_(\1, \2);', b)
    b = re.sub(r'\.push\((\w+) \+ (self\.[^;]*)\);', r'.push(sum_(\1, \2));', b)
    b = re.sub(r'&(\w+_buf)\.buf\b', r'\1.text()', b); b = re.sub(r'\b(\w+_buf)\.buf\b', r'\1.into_text()', b)
    b = re.sub(r'\*(\w+) == ("[^"]*")', r'str_eq(*\1, \2)', b)
    b = re.sub(r'\b(\w+)\.starts_with\(("[^"]*")\)', r'starts_with_(&\1, \2)', b)
    b = re.sub(r'!(\w+(?:\.\w+)*)\.is_empty\(\)', r'(\1.len() > 0)', b)
    # the result is a size hint
    g = re.search(r'\bOk\((?!\(\))([^;{}]*)\)\s*$', b)
    if g:
        x = re.sub(r'median\(&mut \w+\)', '', g.group(1))
        if 'self' in x or 'buf' in x: raise Lost('a result with effects')
        b = b[:g.start()] + 'Ok(any_())'
    return gen.formats(b)
def enumerates(b):
    vs = []
    while True:
        g = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+(&?)(\w+(?:\.\w+)*)\.iter\(\)\.enumerate\(\)\s*\{', mask(b))
        if not g: return b, vs
        n = f'n{len(vs)}_'; i, x, v = g.group(1), g.group(2), g.group(4); vs.append((n, v))
        b = b[:g.start()] + f'let mut {n}: usize = 0; while {n} < {v}.len() {{ let {x} = &{v}[{n}]; let {i} = {n}; {n} += 1;' + b[g.end():]
def destructure(b):
    """let S { a, ref b, .. } = *e; -> one let for each field"""
    while True:
        g = re.search(r'\blet\s+(\w+)\s*\{', mask(b))
        if not g: return b
        c = match_close(mask(b), g.end() - 1); e = re.match(r'\s*=\s*(\*|&)([\w.]+)\s*;', b[c+1:])
        if not e: raise Lost('let ' + g.group(1))
        out = ''
        for f in split_args(b[g.end():c]):
            if f == '..': continue
            h = re.match(r'^(ref\s+)?(\w+)(?:\s*:\s*(ref\s+)?(\w+))?$', f)
            if not h: raise Lost('pattern ' + f)
            n = h.group(4) or h.group(2); r = e.group(1) == '&' or h.group(1) or h.group(3)
            out += f'let {n} = {"&" if r else ""}{e.group(2)}.{h.group(2)}; '
        b = b[:g.start()] + out + b[c+1+e.end():]
INV = '{n} <= {v}.len(), kk(self) == kk(old(self)), self.locals.f@.len() == old(self).locals.f@.len() + (if {n} > 0 {{ 1int }} else {{ 0 }}), keeps_(rr(old(self), old({B})).s, rr(self, {B}).s, {n} > 0)'
def unit(repo, pid):
    u = Unit('stmt_' + pid.lower()); s = Src(repo, gen.G)
    u.use('use vstd::string::*;')
    u.raw(tree(repo) + SPEC + gen.SHOW + LOC + X + '''
pub open spec fn view_(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
impl<'a> Generator<'a> {
    #[verifier::external_body]
    pub fn write_comment(&mut self, c: &'a Comment<'_>) ensures final(self).same(old(self)) { unimplemented!() }
}
/// the scopes outside are the same
pub open spec fn keeps_(a: State, b: State, more: bool) -> bool { if more { b.loc.len() == a.loc.len() + 1 && b.loc.drop_last() == a.loc && b.wd == a.wd && b.sup == a.sup && b.d == a.d } else { keeps(a, b) } }
''')
    im = s.find(r"impl<'a>\s+Generator<'a>")
    def get(n, tys):
        f = im.sub(rf'fn\s+{n}\b'); ps = [p for p in params(f.head) if p[0] not in ('&mut self', '&self')]
        if [p[1] for p in ps] != tys: raise Lost(f'{n}: {[p[1] for p in ps]}')
        return f, [p[0] for p in ps], strip_comments(f.body)
    BR = ' broadcast use ap_add, ap_cs, ap_ap, ap_empty, ap_first, unc_cs, chars_empty, vis_push, push_pop; '
    CT, BT = "&Context<'a>", '&mut Buffer'
    def put(n, f, sig, b, ens, req=(), own=None, loops_inv=(), **kw):
        if loops_inv:
            b = add_invariants(b, list(loops_inv))
            for kwd, st, o in reversed(loop_positions(b)): b = b[:o+1] + BR + b[o+1:]
        u.fn(n, f, sig, BR + b, requires=list(req), ensures=['kk(final(self)) == kk(old(self))'] + ens + [f'r is Ok ==> keeps(rr(old(self), old(buf)).s, rr(final(self), final(buf)).s)'.replace('buf', re.search(r'(\w+): &mut Buffer', sig).group(1))], attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]', own=own, **kw)
    def ghost(x): p = u.parts[-1][1]; p['body'] = x + p['body']
    def result_match(b):
        """match e {..}?; -> the match by reference, then ?"""
        i = 0
        while True:
            g = re.compile(r'\bmatch\s+([\w.]+)\s*\{').search(mask(b), i)
            if not g: return b
            c = match_close(mask(b), g.end() - 1); i = g.end(); h = re.match(r'\s*\?\s*;', b[c+1:])
            if h: b = b[:g.start()] + f'let r_: Result<(), CompileError> = match &{g.group(1)} {{' + b[g.end():c] + '}; r_?;' + b[c+1+h.end():]
    def put_match():
        f, a, b = get('write_match', [CT, BT, "&'a Match<'a>"]); C, B, M = a
        b, vs = enumerates(common(destructure(b)))
        if len(vs) != 1: raise Lost('write_match: loops')
        n, v = vs[0]
        put('write_match', f, f"pub fn write_match(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {M}: &'a Match<'a>) -> (r: Result<usize, CompileError>)", b,
            [f'r is Ok ==> rr(final(self), final({B})) == match_code(rr(old(self), old({B})), kk(old(self)), *{C}, *{M})'], [f'{M}.arms@.len() > 0', 'old(self).locals.f@.len() > 0'], own=('C25', 'C19'),
            loops_inv=[f'invariant {INV.format(n=n, v=v, B=B)}, {v}@ == {M}.arms@, rr(self, {B}) == s_arms(match_head(rr(old(self), old({B})), *{M}), kk(old(self)), *{C}, {v}@, {n} as int), \n'])
    def put_loop():
        f, a, b = get('write_loop', [CT, BT, "&'a Loop<'_>"]); C, B, L = a
        b = result_match(common(b))
        if loop_positions(b): raise Lost('write_loop: loops')
        put('write_loop', f, f"pub fn write_loop(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {L}: &'a Loop<'_>) -> (r: Result<usize, CompileError>)", b,
            [f'r is Ok ==> rr(final(self), final({B})) == loop_code(rr(old(self), old({B})), kk(old(self)), *{C}, *{L})'], ['old(self).locals.f@.len() > 0'], own=('C12', 'C19'))
    def put_let():
        f, a, b = get('write_let', [BT, "&'a Let<'_>"]); B, L = a
        b = re.sub(r'self\.locals\.get\(&Cow::Borrowed\(normalize_identifier\((\w+)\)\)\)', r'self.locals.get(&Cow::Borrowed(normalize_identifier(\1)))', b)
        put('write_let', f, f"pub fn write_let(&mut self, {B}: &mut Buffer, {L}: &'a Let<'_>) -> (r: Result<(), CompileError>)", common(b),
            [f'r is Ok ==> rr(final(self), final({B})) == let_code(rr(old(self), old({B})), *{L})'], ['old(self).locals.f@.len() > 0'], own=('C25',))
    def put_filter():
        f = s.find(r'fn\s+insert_first_filter_argument\b'); ps = params(f.head)
        if [p[1] for p in ps] != ["&mut Vec<Expr<'_>>", 'String']: raise Lost('insert_first_filter_argument')
        A, V = ps[0][0], ps[1][0]
        b = method_calls(strip_comments(f.body), 'first_mut', lambda e, x: f'first_mut_({e})' if not x else None)
        u.raw('}')
        u.fn('insert_first_filter_argument', f, f"pub fn insert_first_filter_argument({A}: &mut Vec<Expr<'_>>, {V}: String)", b, ensures=[f'holed(*old({A})) ==> ins(*old({A}), *final({A}), {V}@)'], attrs='#[verifier::exec_allows_no_decreases_clause]', own=('C26',))
        f, a, b = get('write_filter_block', [CT, BT, "&'a FilterBlock<'_>"]); C, B, F = a
        b = re.sub(r'(\w+)\.clone\(\)', r'\1.cl()', b)
        b = common(destructure(b))
        g = re.search(r'for (\w+) in 0\.\. \{', b)
        if not g or len(loop_positions(b)) != 1: raise Lost('write_filter_block: loop')
        b = b[:g.start()] + f'let mut id_: usize = 0; #[verifier::allow_complex_invariants] loop {{ let {g.group(1)} = id_; id_ = inc_(id_);' + b[g.end():]
        g = re.search(r'let mut (\w+) = \w+\.cl\(\)', b)
        if not g: raise Lost('write_filter_block: arguments')
        k = b.rindex('Ok(')
        b = b[:k] + f' proof {{ assert(filter_code(rr(old(self), old({B})), rr(self, {B}), kk(old(self)), *{C}, *{F}, id_ - 1, {g.group(1)})); }} ' + b[k:]
        put('write_filter_block', f, f"pub fn write_filter_block(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {F}: &'a FilterBlock<'_>) -> (r: Result<usize, CompileError>)", b,
            [f'r is Ok ==> filter_rel(rr(old(self), old({B})), rr(final(self), final({B})), kk(old(self)), *{C}, *{F})'], ['old(self).locals.f@.len() > 0'], own=('C26', 'C19'),
            loops_inv=[f'invariant kk(self) == kk(old(self)), rr(self, {B}) == rr(old(self), old({B})), ensures id_ > 0, var_name@ == fbn(id_ - 1), !vis(self.locals.f@).contains_key(var_name@), \n'], before="impl<'a> Generator<'a> {")
    def put_block():
        f, a, b = get('write_block', [CT, BT, "Option<&'a str>", 'Ws']); C, B, N, W = a
        b = re.sub(r'\bif (\w+) == (\w+) =>', r'if str_eq(\1, \2) =>', b); b = re.sub(r'(\w+) \+ 1\b', r'inc_(\1)', b)
        b = re.sub(rf'self\.input\.block == {N}\b', f'block_is_(self.input, {N})', b)
        b = b.replace('mem::replace(', 'mem_replace(').replace('mem::take(', 'mem_take(').replace('MapChain::default()', 'Locals::default()')
        b = re.sub(r'\*(\w+)\.blocks\[(\w+)\.0\]\s*\.get\(\2\.1\)', r'ancestor_(\1, \2.0, \2.1)', b)
        b = method_calls(b, 'ok_or_else', lambda e, x: f'(match {e} {{ Some(x__) => Ok(x__), None => Err(err_()) }})')
        b = merges(b, rf'let mut (\w+) = (\w+)\.clone\(\);', C)
        put('write_block', f, f"pub fn write_block(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {N}: Option<&'a str>, {W}: Ws) -> (r: Result<usize, CompileError>)", common(b),
            [f'r is Ok ==> block_code(rr(old(self), old({B})), kk(old(self)), *{C}, view_({N})) == Some(rr(final(self), final({B})))'], ['old(self).locals.f@.len() > 0'], own=('C20',))
    def merges(b, pat, C, ref=''):
        g = re.search(pat, b)
        if not g: raise Lost('merging of contexts')
        v = g.group(1)
        want = f"for(name,mac)in&{C}.macros{{{v}.macros.entry(name).or_insert(mac);}}for(name,import)in&{C}.imports{{{v}.imports.entry(name).or_insert_with(||import.clone());}}"
        k = g.end(); j = k; x = ''
        while len(x) < len(want) and j < len(b):
            if not b[j].isspace(): x += b[j]
            j += 1
        if x != want: raise Lost('merging of contexts')
        return b[:g.start()] + f'let {v} = {ref}merged_({g.group(2)}, {C});' + b[j:]
    def put_new():
        f = im.sub(r'fn\s+new\b'); a = re.findall(r'(\w+)\s*:\s', re.sub(r"<[^()]*?>\s*\(", '(', f.head))
        if len(a) != 4: raise Lost('Generator::new: ' + str(a))
        b = strip_comments(f.body)
        b = re.sub(r'\bWritableBuffer \{\s*discard: ([^,]*),\s*\.\.Default::default\(\)\s*,?\s*\}', r'buffer_(\1)', b)
        b = re.sub(r'(\w+)\.block\.is_some\(\)', r'has_block_(\1)', b); b = re.sub(r'\bnamed: 0,?', '', b); b = b.replace('WhitespaceHandling::Preserve', 'preserve_()')
        g = re.search(r'\bGenerator \{', b)
        if not g: raise Lost('Generator::new')
        b = b[:g.end()] + ' k: Ghost(arbitrary()),' + b[g.end():]
        u.fn('Generator::new', f, f"pub fn new<'n>({a[0]}: &'n Input, {a[1]}: &'n Contexts, {a[2]}: Option<&'n Heritage>, {a[3]}: Locals) -> (r: Generator<'n>)", b,
            ensures=[f'r.input == {a[0]}', f'r.contexts == {a[1]}', f'r.heritage == {a[2]}', f'r.locals == {a[3]}', 'r.super_block is None', 'r.buf_writable.items@ =~= Seq::<Item>::empty()', f'r.buf_writable.discard == (asked_for(*{a[0]}) is Some)'], own=('C20',))
        f, a, b = get('write_expr', ['Ws', "&'a Expr<'a>"])
        u.fn('write_expr', f, f"pub fn write_expr(&mut self, {a[0]}: Ws, {a[1]}: &'a Expr<'a>)", b, ensures=['kk(final(self)) == kk(old(self))', 'final(self).locals == old(self).locals', 'final(self).super_block == old(self).super_block', 'final(self).buf_writable.discard == old(self).buf_writable.discard', f'final(self).buf_writable.items@ == (if old(self).buf_writable.discard {{ old(self).buf_writable.items@ }} else {{ old(self).buf_writable.items@.push(expr_item(*{a[1]})) }})'], own=('C25',))
    def put_include():
        f, a, b = get('handle_include', [CT, BT, "&'a Include<'_>"]); C, B, I = a
        b = re.sub(rf'self\s*\.input\s*\.config\s*\.find_template\({I}\.path, {C}\.path\.or\(Some\(&self\.input\.path\)\)\)', f'find_(self.input, {I}.path, {C})', b)
        g = re.search(r'\{\s*let (\w+) = (\w+)\.canonicalize\(\)\.unwrap\(\);', b)
        if not g: raise Lost('handle_include: dependency')
        e = match_close(mask(b), g.start()); x = re.sub(r'\s', '', b[g.end():e]); h = re.match(rf'let(\w+)={g.group(1)}\.to_str\(\)\.unwrap\(\);{B}\.writeln\(&quote!\{{include_bytes!\(#(\w+)\);\}}\.to_string\(\),?\)\?;$', x)
        if not h or h.group(1) != h.group(2): raise Lost('handle_include: dependency')
        b = b[:g.start()] + f'{B}.writeln(depends_(&{g.group(2)}))?;' + b[e+1:]
        b = re.sub(r'&mut self\.contexts\[&(\w+)\]\.clone\(\)', r'context_at_(self.contexts, &\1).clone()', b)
        b = merges(b, r'let (\w+) = (context_at_\(self\.contexts, &\w+\))\.clone\(\);', C, '&')
        b = re.sub(r'(\w+)\.blocks\.is_empty\(\)', r'blockless_(\1)', b); b = re.sub(r'(\w+)\.extends\.is_some\(\)', r'extending_(\1)', b)
        b = re.sub(r'\b(\w+)\.root\b', r'\1.root_()', b); b = re.sub(r'\b(\w+)\.as_ref\(\)', r'as_ref_(&\1)', b); b = b.replace('MapChain::with_parent', 'Locals::with_parent')
        put('handle_include', f, f"pub fn handle_include(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {I}: &'a Include<'_>) -> (r: Result<usize, CompileError>)", common(b),
            [f'r is Ok ==> include_code(rr(old(self), old({B})), kk(old(self)), *{C}, *{I}) == Some(rr(final(self), final({B})))'], ['old(self).locals.f@.len() > 0'], own=('C20', 'C19'))
    def put_call():
        f, a, b = get('write_call', [CT, BT, "&'a Call<'_>"]); C, B, X = a
        b = destructure(b)
        b = re.sub(r'\b(\w+) == ("[^"]*")', r'str_eq(\1, \2)', b)
        b = re.sub(r'(\w+)\s*\.\s*imports\s*\.\s*get\(', r'import_(\1, ', b); b = re.sub(r'(\w+)\s*\.\s*macros\s*\.\s*get\(', r'macro_(\1, ', b); b = re.sub(r'self\s*\.\s*contexts\s*\.\s*get\(', r'context_(self.contexts, ', b)
        b = method_calls(b, 'ok_or_else', lambda e, x: f'(match {e} {{ Some(x__) => Ok(x__), None => Err(err_()) }})')
        i = 0
        while True:
            g = re.compile(r'Err\(CompileError::from\(').search(mask(b), i)
            if not g: break
            c = match_close(mask(b), g.start() + 3); b = b[:g.start()] + 'Err(err_())' + b[c+1:]; i = g.end() - 20
        b = re.sub(r'debug_assert_eq!\([^;]*\);', '', b)
        b = re.sub(r'(\w+)\.args\s*\.iter\(\)\.any\(\|(\w+)\| \2 == (\w+)\)', r'any_eq_(&\1.args, \3)', b)
        b = re.sub(r'(\w+)\.last\(\)', r'last_(\1)', b).replace('HashMap::new()', 'Given::new()')
        b = re.sub(r'&Expr::Var\((\w+)\) if \1 != ("[^"]*") =>', r'Expr::Var(\1) if !str_eq(\1, \2) =>', b)
        b = re.sub(r'\b(names|values)\.buf\.is_empty\(\)', r'\1.no_text()', b); b = re.sub(r'\b(names|values)\.buf\b', r'\1.text()', b)
        b = method_calls(b, 'unwrap_or', lambda e, x: f'(match {e} {{ Some(x__) => x__, None => {x[0]} }})')
        b = re.sub(r'Vec::with_capacity\([^;]*\);', 'Vec::<(&str, LocalMeta)>::new();', b)
        g = re.search(r'for (\w+) in (\w+)\.iter\(\)\.rev\(\) \{', b); h = re.search(r'for \((\w+), (\w+)\) in (\w+) \{', b)
        if not g or not h: raise Lost('write_call: loops')
        V, AR = h.group(3), g.group(2)
        b = b[:h.start()] + f'let mut v_: usize = 0; while v_ < {V}.len() {{ let ({h.group(1)}, {h.group(2)}) = nth_var_(&{V}, v_); v_ = v_ + 1;' + b[h.end():]
        b = b[:g.start()] + f'let mut m_: usize = {AR}.len(); #[verifier::allow_complex_invariants] while m_ > 0 {{ m_ = m_ - 1; let {g.group(1)} = &{AR}[m_];' + b[g.end():]
        b, vs = enumerates(common(b))
        if len(vs) != 1 or len(loop_positions(b)) != 3: raise Lost('write_call: loops')
        n, v = vs[0]; D = v.split('.')[0]
        nm = re.search(r'let mut (\w+) = Given::new\(\)', b); fi = re.search(r'let mut (\w+) = true;', b)
        if not nm or not fi: raise Lost('write_call')
        nm = nm.group(1); fi = fi.group(1); ENV = 'vis(old(self).locals.f@)'
        P = f'passed({ENV}, {D}.args@, {X}.args@, {n} as int)'
        common_inv = f'kk(self) == kk(old(self)), self.locals.f@ == old(self).locals.f@.push(Map::empty()), rr(self, {B}) == wl(fl(push(rr(old(self), old({B})))), "{{")'
        b = add_invariants(b, [
            f'invariant_except_break {nm}@ == given({AR}@, m_ as int), named_from({AR}@, {AR}@.len() as int) == named_from({AR}@, m_ as int), invariant m_ <= {AR}@.len(), {common_inv}, ensures {nm}@ == named({AR}@), \n',
            f'invariant {n} <= {v}.len(), {common_inv}, names.ink@ == {P}.names, values.ink@ == {P}.values, !names.discard, !values.discard, {fi} == {P}.first, {V}@.len() == {P}.vars.len(), forall|i: int| 0 <= i < {V}@.len() ==> (#[trigger] {V}@[i]).0@ == {P}.vars[i].0 && {V}@[i].1.m@ == {P}.vars[i].1, \n',
            f'invariant v_ <= {V}.len(), {V}@.len() == ps_.len(), forall|i: int| 0 <= i < {V}@.len() ==> (#[trigger] {V}@[i]).0@ == ps_[i].0 && {V}@[i].1.m@ == ps_[i].1, kk(self) == kk(old(self)), self.same_but_locals(&g_), self.locals.f@ == defines(g_.locals.f@, ps_, v_ as int), self.locals.f@.len() == g_.locals.f@.len(), self.locals.f@.drop_last() == g_.locals.f@.drop_last() \n decreases {V}.len() - v_'])
        k = re.search(r'let mut v_: usize = 0;', b); b = b[:k.start()] + f' let ghost g_ = *self; let ghost ps_ = passed({ENV}, {D}.args@, {X}.args@, {D}.args@.len() as int).vars; ' + b[k.start():]
        put('write_call', f, f"pub fn write_call(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {X}: &'a Call<'_>) -> (r: Result<usize, CompileError>)", b,
            [f'r is Ok ==> call_code(rr(old(self), old({B})), kk(old(self)), *{C}, *{X}) == Some(rr(final(self), final({B})))'], ['old(self).locals.f@.len() > 0'], own=('C19',))
        p = u.parts[-1][1]; p['body'] = re.sub(r'(#\[verifier::allow_complex_invariants\] )', r'\1', p['body'])
    def put_handle():
        f, a, b = get('handle', [CT, "&'a [Node<'_>]", BT, 'AstLevel']); C, N, B, L = a
        g = re.search(rf'for (\w+) in {N} \{{\s*match \*\1 \{{', b)
        if not g or len(loop_positions(b)) != 1: raise Lost('handle: loop')
        x = g.group(1)
        def arm(m):
            vs = [v.strip() for v in m.group(2).split(',')]
            return f'Node::{m.group(1)}({", ".join(v.replace("ref ", "") for v in vs)}) => {{' + ''.join(f' let {v} = *{v};' for v in vs if not v.startswith('ref ') and v != '_')
        head, tail = b[:g.start()], b[g.end():]
        tail = re.sub(r'Node::(\w+)\(([^()]*)\) => \{', arm, tail)
        b = head + f'let mut n0_: usize = 0; while n0_ < {N}.len() {{ let {x} = &{N}[n0_]; n0_ = n0_ + 1; proof {{ parsed(*{x}); }} match {x} {{' + tail
        b = b.replace('self.skip_ws.into()', 'skip_into_(self.skip_ws)')
        b = re.sub(r'return Err\("[^"]*"\.into\(\)\)', 'return Err(err_())', b)
        b = common(b)
        b = add_invariants(b, [f'invariant n0_ <= {N}.len(), kk(self) == kk(old(self)), keeps(rr(old(self), old({B})).s, rr(self, {B}).s), tr_.len() == n0_ + 1, tr_[0] == rr(old(self), old({B})), tr_.last() == rr(self, {B}), forall|i: int| 0 <= i < n0_ ==> step(#[trigger] tr_[i], tr_[i + 1], kk(old(self)), *{C}, {N}@[i], {L}), \n'])
        l = loop_positions(b)[0]; c = match_close(mask(b), l[2])
        b = b[:c] + f' proof {{ let o_ = tr_; assert(step(tr_.last(), rr(self, {B}), kk(old(self)), *{C}, {N}@[n0_ - 1], {L})); tr_ = tr_.push(rr(self, {B})); assert(forall|i: int| 0 <= i < o_.len() ==> tr_[i] == o_[i]); }} ' + b[c:]
        b = f' let ghost mut tr_: Seq<R> = seq![rr(self, {B})]; ' + b
        k = b.rindex('Ok(')
        b = b[:k] + f' proof {{ assert(walks(rr(old(self), old({B})), rr(self, {B}), tr_, kk(old(self)), *{C}, {N}@, {L})); }} ' + b[k:]
        put('handle', f, f"pub fn handle_(&mut self, {C}: &Context<'a>, {N}: &'a [Node<'_>], {B}: &mut Buffer, {L}: AstLevel) -> (r: Result<usize, CompileError>)", b,
            [f'r is Ok ==> exists|tr: Seq<R>| walks(rr(old(self), old({B})), rr(final(self), final({B})), tr, kk(old(self)), *{C}, {N}@, {L})'], ['old(self).locals.f@.len() > 0'], own=('C25', 'C20'))
    # if
    f, a, b = get('write_if', [CT, BT, "&'a If<'_>"]); C, B, I = a
    b, vs = enumerates(common(b))
    if len(vs) != 1 or vs[0][1] != f'{I}.branches': raise Lost('write_if: loops')
    n, v = vs[0]
    put('write_if', f, f"pub fn write_if(&mut self, {C}: &Context<'a>, {B}: &mut Buffer, {I}: &'a If<'_>) -> (r: Result<usize, CompileError>)", b,
        [f'r is Ok ==> rr(final(self), final({B})) == if_code(rr(old(self), old({B})), kk(old(self)), *{C}, *{I})'], [f'{I}.branches@.len() > 0', 'old(self).locals.f@.len() > 0'], own=('C25', 'C19'),
        loops_inv=[f'invariant {INV.format(n=n, v=v, B=B)}, rr(self, {B}) == s_branches(rr(old(self), old({B})), kk(old(self)), *{C}, ib_, {n} as int), \n'], before="impl<'a> Generator<'a> {")
    ghost(f' let ghost ib_ = {I}.branches@; ')
    put_match(); put_loop(); put_let(); put_filter(); put_new(); put_block(); put_include(); put_call(); put_handle()
    u.raw('}')
    u.trust('a nested call of handle is used by its contract alone (it keeps the scopes outside and the kind of output): the contract is proved of handle here, termination is not (partial correctness)')
    u.trust('writing of pending text and of expressions (write_buf_writable, visit_expr_root, visit_condition, visit_attr, visit_target) by contract: an uninterpreted text of the nodes and the visible names (what it is: C01, C08, C19, C25); MapChain: C19; handle_ws and the rest of whitespace control: C03, C04; Heritage::new: C20; prepare_ws leaves the output alone')
    u.trust('HashMap by contract (contexts, imports, macros, blocks, named arguments); a Context and an Expr are equal to their clones; the parser makes no if without a branch; indentation and loop counters do not overflow')
    u.drop('texts are runs of characters and ends of lines without layout (indentation: the Buffer unit of C25); size hints are any number; error values and debug_assert dropped; matches with && or guards on texts -> calls; `for … in v.iter().enumerate()` -> while loop; the statement with include_bytes and the merge of contexts in handle_include are recognized as a whole and named')
    return u
