"""The expression visitors of the generator, with a contract on the Rust code that they emit."""
import re
from .rsx import *
from .rw import *
from . import gen, pre, wsu
from .filt import params
from .verus import Unit

INK = r'''
/// what was written, without layout: characters, and ends of lines that writeln made
pub enum Op { C(char), NL }
#[verifier::opaque]
pub open spec fn cs(s: Seq<char>) -> Seq<Op> { Seq::new(s.len(), |i: int| Op::C(s[i])) }
pub open spec fn nl() -> Seq<Op> { seq![Op::NL] }
pub broadcast proof fn cs_add(a: Seq<char>, b: Seq<char>) ensures #[trigger] cs(a + b) == cs(a) + cs(b) { reveal(cs); assert(cs(a + b) =~= cs(a) + cs(b)); }
pub broadcast proof fn cs_empty() ensures #[trigger] cs(Seq::empty()) == Seq::<Op>::empty() { reveal(cs); assert(cs(Seq::empty()) =~= Seq::<Op>::empty()); }
pub broadcast proof fn ink_assoc(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn ink_empty(a: Seq<Op>) ensures #[trigger] (Seq::<Op>::empty() + a) == a { assert(Seq::<Op>::empty() + a =~= a); }
pub broadcast proof fn chars_empty(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn ink_empty2(a: Seq<Op>) ensures #[trigger] (a + Seq::<Op>::empty()) == a { assert(a + Seq::<Op>::empty() =~= a); }
pub broadcast proof fn prefix_trans(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) requires #[trigger] a.is_prefix_of(b), #[trigger] b.is_prefix_of(c) ensures a.is_prefix_of(c) { assert(c.take(b.len() as int) =~= b); assert(b.take(a.len() as int) =~= a); assert(a =~= c.take(a.len() as int)); }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
/// the text is what was written, with spaces inserted only at the beginning of lines
pub open spec fn lays(t: Seq<char>, o: Seq<Op>) -> bool decreases o.len() {
    if o.len() == 0 { exists|n: int| n >= 0 && t == #[trigger] spaces(n) }
    else { match o.last() {
        Op::NL => exists|k: int| 0 <= k < t.len() && t[k] == '\n' && lays(#[trigger] t.take(k), o.drop_last()) && t.skip(k + 1) =~= spaces(t.len() - k - 1),
        Op::C(c) => t.len() > 0 && t.last() == c && lays(t.drop_last(), o.drop_last()),
    } }
}
pub open spec fn line_start(o: Seq<Op>) -> bool { o.len() == 0 || o.last() == Op::NL }
proof fn lays_pad(t: Seq<char>, o: Seq<Op>, k: int) requires lays(t, o), line_start(o), k >= 0 ensures lays(t + spaces(k), o) {
    if o.len() == 0 { let n = choose|n: int| n >= 0 && t == #[trigger] spaces(n); assert(t + spaces(k) =~= spaces(n + k)); }
    else { let x = t + spaces(k); let j = choose|j: int| 0 <= j < t.len() && t[j] == '\n' && lays(#[trigger] t.take(j), o.drop_last()) && t.skip(j + 1) =~= spaces(t.len() - j - 1); assert(x.take(j) =~= t.take(j)); assert(x[j] == '\n'); assert forall|i: int| 0 <= i < x.len() - j - 1 implies #[trigger] x.skip(j + 1)[i] == ' ' by { if i < t.len() - j - 1 { assert(x.skip(j + 1)[i] == t.skip(j + 1)[i]); assert(spaces(t.len() - j - 1)[i] == ' '); } } assert(x.skip(j + 1) =~= spaces(x.len() - j - 1)); }
}
proof fn lays_add(t: Seq<char>, o: Seq<Op>, s: Seq<char>) requires lays(t, o) ensures lays(t + s, o + cs(s)) decreases s.len() { reveal(cs);
    if s.len() == 0 { assert(t + s =~= t); assert(o + cs(s) =~= o); }
    else { lays_add(t, o, s.drop_last()); assert((t + s).drop_last() =~= t + s.drop_last()); assert((o + cs(s)).drop_last() =~= o + cs(s.drop_last())); assert((o + cs(s)).last() == Op::C(s.last())); assert((t + s).last() == s.last()); }
}
proof fn lays_nl(t: Seq<char>, o: Seq<Op>) requires lays(t, o) ensures lays(t + "\n"@, o.push(Op::NL)) { reveal_strlit("\n"); let x = t + "\n"@; assert(o.push(Op::NL).drop_last() =~= o); assert(x.take(t.len() as int) =~= t); assert(x[t.len() as int] == '\n'); assert(x.skip(t.len() as int + 1) =~= spaces(0)); }
pub struct CompileError { pub m: Ghost<int> }
#[verifier::external_body]
pub fn err_() -> CompileError { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
#[verifier::external_body]
pub fn ends_with_char(a: &str, c: char) -> (r: bool) ensures r <==> a@.len() > 0 && a@.last() == c { a.ends_with(c) }
#[verifier::external_body]
pub fn str_empty(a: &str) -> (r: bool) ensures r <==> a@.len() == 0 { a.is_empty() }
pub struct Buffer { pub buf: String, pub indent: usize, pub start: bool, pub discard: bool, pub ink: Ghost<Seq<Op>> }
impl Buffer {
    pub open spec fn laid(&self) -> bool { lays(self.buf@, self.ink@) && (self.start ==> line_start(self.ink@)) }
    /// self is o after x was written
    pub open spec fn ink_(&self, o: &Buffer, x: Seq<Op>) -> bool { self.discard == o.discard && (o.laid() ==> self.laid()) && self.ink@ == (if o.discard { o.ink@ } else { o.ink@ + x }) }
    /// something was appended
    pub open spec fn more(&self, o: &Buffer) -> bool { self.discard == o.discard && (o.laid() ==> self.laid()) && o.ink@.is_prefix_of(self.ink@) }
}
'''
def buffer(u, s):
    st = s.find(r'struct\s+Buffer\b'); flds = dict(re.findall(r'(\w+): (\w+),', strip_comments(st.text)))
    if flds != {'buf': 'String', 'indent': 'usize', 'start': 'bool', 'discard': 'bool'}: raise Lost(f'Buffer: {flds}')
    u.raw(INK)
    u.trust('String, str::ends_with, equality of texts by contract; indentation stays below 2^28 levels (assumed in Buffer: machine arithmetic)')
    u.drop('Buffer gets a ghost field that records what is written')
    im = s.find(r'impl\s+Buffer\b'); fs = {n: im.sub(rf'fn\s+{n}\b') for n in ('new', 'writeln', 'write', 'indent', 'dedent')}
    a = {n: re.search(r'(\w+): (?:&str|usize)', f.head) for n, f in fs.items()}
    x = a['new'].group(1); b = strip_comments(fs['new'].body); b, k = re.subn(r'Self\s*\{', 'Self { ink: Ghost(Seq::empty()),', b)
    if k != 1: raise Lost('Buffer::new')
    u.fn('Buffer::new', fs['new'], f'pub fn new({x}: usize) -> (r: Self)', b + '', ensures=['r.ink@.len() == 0', 'r.buf@.len() == 0', 'r.start', '!r.discard'], before='impl Buffer {')
    x = a['write'].group(1); b = gen.range_while(strip_comments(fs['write'].body)); o = 'old(self)'
    if loop_positions(b):
        b = add_invariants(b, ['invariant rep1_ <= rep1_end, self.start == old(self).start || !self.start, self.discard == old(self).discard, self.ink@ == old(self).ink@, self.buf@ =~= old(self).buf@ + spaces(rep1_ as int)\n decreases rep1_end - rep1_'])
    b = re.sub(r'(self\.buf\.push_str\()', rf'proof {{ if old(self).laid() {{ if old(self).start && !self.start {{ let n = self.buf@.len() - old(self).buf@.len(); assert(self.buf@ =~= old(self).buf@ + spaces(n)); lays_pad(old(self).buf@, old(self).ink@, n); }} else {{ assert(self.buf@ =~= old(self).buf@); }} lays_add(self.buf@, old(self).ink@, {x}@); }} }} self.ink = Ghost(self.ink@ + cs({x}@)); \1', b, count=1)
    b = b.replace('self.indent * 4', '{ assume(self.indent < 0x1000_0000); self.indent * 4 }')
    u.fn('Buffer::write', fs['write'], f'pub fn write(&mut self, {x}: &str)', b, ensures=[f'final(self).ink_(old(self), cs({x}@))', 'final(self).more(old(self))'], no_vacuity=True)
    x = a['writeln'].group(1); b = gen.str_eqs(strip_comments(fs['writeln'].body), [x])
    b = re.sub(rf"\b{x}\.ends_with\('(.)'\)", rf"ends_with_char({x}, '\1')", b); b = re.sub(rf'\b{x}\.is_empty\(\)', f'str_empty({x})', b)
    b, k = re.subn(r"(self\.buf\.push\('\\n'\);)", lambda m: """ proof { reveal_strlit("\\n"); assert("\\n"@ =~= seq!['\\n']); assert(self.buf@.push('\\n') =~= self.buf@ + "\\n"@); if self.laid() { lays_nl(self.buf@, self.ink@); } } self.ink = Ghost(self.ink@.push(Op::NL)); """ + m.group(1), b)
    b = re.sub(r'Ok\(\(\)\)\s*$', f'proof {{ reveal(cs); }} assert(self.ink@ =~= (if old(self).discard {{ old(self).ink@ }} else {{ old(self).ink@ + (cs({x}@) + nl()) }})); Ok(())', b)
    u.fn('Buffer::writeln', fs['writeln'], f'pub fn writeln(&mut self, {x}: &str) -> (r: Result<(), CompileError>)', gen.errs(b), ensures=[f'r is Ok ==> final(self).ink_(old(self), cs({x}@) + nl())', 'r is Ok ==> final(self).more(old(self))'])
    u.fn('Buffer::indent', fs['indent'], 'pub fn indent(&mut self)', ' assume(self.indent < 0x1000_0000); ' + strip_comments(fs['indent'].body), ensures=['final(self).ink_(old(self), Seq::empty()) && final(self).buf@ == old(self).buf@'], no_vacuity=True)
    u.fn('Buffer::dedent', fs['dedent'], 'pub fn dedent(&mut self) -> (r: Result<(), CompileError>)', gen.errs(strip_comments(fs['dedent'].body)), ensures=['r is Ok ==> final(self).ink_(old(self), Seq::empty()) && final(self).buf@ == old(self).buf@'], after='}')

SPEC = r'''
/// the rest of the generator: variables in scope and settings
#[verifier::external_body]
pub struct Locals { x: u8 }
#[verifier::external_body]
pub struct Escapers { x: u8 }
pub struct Config { pub escapers: Escapers }
pub struct TemplateInput<'a> { pub escaper: &'a str, pub config: &'a Config }
pub struct Generator<'a> { pub input: &'a TemplateInput<'a>, pub locals: Locals }
/// what MapChain::resolve and resolve_or_self find (C19)
pub uninterp spec fn look(l: Locals, n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn look_or_self(l: Locals, n: Seq<char>) -> Seq<char>;
impl Locals {
    #[verifier::external_body]
    pub fn resolve(&self, n: &str) -> (r: Option<String>) ensures r matches Some(s) ==> look(*self, n@) == Some(s@), r is None ==> look(*self, n@) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve_or_self(&self, n: &str) -> (r: String) ensures r@ == look_or_self(*self, n@) { unimplemented!() }
}
/// the name in Rust (C17)
pub uninterp spec fn norm(n: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn normalize_identifier(n: &str) -> (r: &str) ensures r@ == norm(n@) { unimplemented!() }
pub uninterp spec fn builtin(n: Seq<char>) -> bool;
#[verifier::external_body]
pub fn builtin_(n: &str) -> (r: bool) ensures r == builtin(n@) { unimplemented!() }
/// whether an argument is passed by value
pub uninterp spec fn copyable(e: Expr) -> bool;
#[verifier::external_body]
pub fn is_copyable(e: &Expr<'_>) -> (r: bool) ensures r == copyable(*e) { unimplemented!() }
#[verifier::external_body]
pub fn feature_(n: &str) -> bool { unimplemented!() }
/// the escaper of the first entry with the name (C24)
pub uninterp spec fn escaper_named(e: Escapers, n: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn find_escaper<'x>(e: &'x Escapers, n: &str) -> (r: Option<&'x str>) ensures r matches Some(s) ==> escaper_named(*e, n@) == Some(s@), r is None ==> escaper_named(*e, n@) is None { unimplemented!() }
pub fn is_var(e: &Expr<'_>, n: &str) -> (r: bool) ensures r <==> (e matches Expr::Var(v) && v@ == n@) { match e { Expr::Var(v) => str_eq(v, n), _ => false } }
pub fn get_<'x, T>(v: &'x [T], i: usize) -> (r: Option<&'x T>) ensures r matches Some(x) ==> i < v@.len() && *x == v@[i as int], r is None ==> i >= v@.len() { if i < v.len() { Some(&v[i]) } else { None } }
pub fn deref_<'x, 'y>(o: &'x Option<Box<Expr<'y>>>) -> (r: Option<&'x Expr<'y>>) ensures *o matches Some(b) ==> r == Some(&*b), *o is None ==> r is None { match o { Some(b) => Some(&**b), None => None } }
pub open spec fn t(s: &str) -> Seq<Op> { cs(s@) }
/// the separated pieces
pub open spec fn join(v: Seq<Seq<Op>>, sep: Seq<Op>) -> Seq<Op> decreases v.len() { if v.len() == 0 { Seq::empty() } else { join(v.drop_last(), sep) + (if v.len() > 1 { sep } else { Seq::empty() }) + v.last() } }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<Op>> { Seq::new(v.len(), |i: int| cs(v[i]@)) }
/// an argument: by reference unless it is copied; results of calls of methods in a block of their own
pub open spec fn arg1(e: Expr, c: Seq<Op>) -> Seq<Op> {
    let x = match e { Expr::Call(f, _) => if *f is Path { c } else { t("{") + nl() + c + (t("}") + nl()) }, _ => c };
    if copyable(e) { x } else { t("&(") + x + t(")") }
}
pub open spec fn args_(es: Seq<Expr>, c: Seq<Seq<Op>>) -> Seq<Op> { join(Seq::new(es.len(), |i: int| arg1(es[i], c[i])), t(", ")) }
proof fn args_step(a: Seq<Expr>, c: Seq<Seq<Op>>, k: int) requires 0 <= k < a.len(), a.len() == c.len()
    ensures args_(a.take(k + 1), c.take(k + 1)) == args_(a.take(k), c.take(k)) + ((if k > 0 { t(", ") } else { Seq::empty() }) + arg1(a[k], c[k])) {
    let f1 = Seq::new(a.take(k + 1).len(), |i: int| arg1(a.take(k + 1)[i], c.take(k + 1)[i])); let f0 = Seq::new(a.take(k).len(), |i: int| arg1(a.take(k)[i], c.take(k)[i]));
    assert(f1.drop_last() =~= f0); assert(f1.last() == arg1(a[k], c[k]));
    assert(args_(a.take(k + 1), c.take(k + 1)) =~= args_(a.take(k), c.take(k)) + ((if k > 0 { t(", ") } else { Seq::empty() }) + arg1(a[k], c[k])));
}
/// join(a, b): coerces a to something that can be iterated
pub open spec fn join_args(c: Seq<Seq<Op>>) -> Seq<Op> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { join_args(c.drop_last()) + (if c.len() > 1 { t(", &") } else { Seq::empty() }) + c.last() + (if c.len() == 1 { t(").into_iter()") } else { Seq::empty() }) }
}
/// (a, b,)
pub open spec fn tuple_(c: Seq<Seq<Op>>) -> Seq<Op> decreases c.len() { if c.len() == 0 { Seq::empty() } else { tuple_(c.drop_last()) + (if c.len() > 1 { t(" ") } else { Seq::empty() }) + c.last() + t(",") } }
pub open spec fn opt_(o: Option<Seq<Op>>) -> Seq<Op> { match o { Some(x) => x, None => Seq::empty() } }
pub open spec fn str_lit(s: Seq<char>) -> Seq<Op> { t("\"") + cs(s) + t("\"") }
pub open spec fn var_code(g: &Generator, s: Seq<char>) -> Seq<Op> { if s == "self"@ { cs(s) } else { cs(norm(look_or_self(g.locals, s))) } }
pub open spec fn loop_attr(a: Seq<char>) -> Option<Seq<Op>> {
    if a == "index"@ { Some(t("(_loop_item.index + 1)")) } else if a == "index0"@ { Some(t("_loop_item.index")) } else if a == "first"@ { Some(t("_loop_item.first")) } else if a == "last"@ { Some(t("_loop_item.last")) } else { None }
}
pub open spec fn attr_code(obj: Expr, c: Seq<Op>, a: Seq<char>) -> Seq<Op> {
    if obj matches Expr::Var(v) && v@ == "loop"@ { opt_(loop_attr(a)) } else { c + (t(".") + cs(norm(a))) }
}
pub open spec fn is_loop(e: Expr) -> bool { e matches Expr::Var(v) && v@ == "loop"@ }
pub open spec fn callee(g: &Generator, e: Expr, c: Seq<Op>) -> Seq<Op> { match e {
    Expr::Var(n) => match look(g.locals, n@) { Some(x) => cs(x), None => t("(&self.") + cs(norm(n@)) + t(")") },
    _ => c,
} }
/// loop.cycle(x)
pub open spec fn cycle_code(c: Seq<Op>) -> Seq<Op> {
    t("({") + t("let _cycle = &(") + c + (t(");") + nl()) + (t("let _len = _cycle.len();") + nl()) + (t("if _len == 0 {") + nl()) + t("return ::core::result::Result::Err(") + cs(CRATE()) + (t("::Error::Fmt(::core::fmt::Error));") + nl()) + (t("}") + nl()) + (t("_cycle[_loop_item.index % _len]") + nl()) + (t("})") + nl())
}
pub open spec fn call_code(g: &Generator, f: Expr, fc: Seq<Op>, args: Seq<Expr>, c: Seq<Seq<Op>>) -> Seq<Op> {
    if f matches Expr::Attr(o, m) && is_loop(*o) { if c.len() == 1 { cycle_code(c[0]) } else { Seq::empty() } } else { callee(g, f, fc) + t("(") + args_(args, c) + t(")") }
}
pub open spec fn esc_name(g: &Generator, args: Seq<Expr>) -> Seq<char> {
    if args.len() >= 2 { match args[1] { Expr::StrLit(n) => match escaper_named(g.input.config.escapers, n@) { Some(x) => x, None => Seq::empty() }, _ => Seq::empty() } } else { g.input.escaper@ }
}
pub open spec fn filter_code(g: &Generator, n: Seq<char>, args: Seq<Expr>, c: Seq<Seq<Op>>) -> Seq<Op> {
    if n == "as_ref"@ { t("&") + c[0] }
    else if n == "deref"@ { t("*") + c[0] }
    else if n == "escape"@ || n == "e"@ { cs(CRATE()) + t("::filters::escape(") + cs(esc_name(g, args)) + t(", ") + args_(args.take(1), c.take(1)) + t(")?") }
    else if n == "fmt"@ { t("::std::format!(") + lit_of(args[1]) + t(", ") + args_(args.take(1), c.take(1)) + t(")") }
    else if n == "format"@ { t("::std::format!(") + lit_of(args[0]) + (if args.len() > 1 { t(", ") + args_(args.skip(1), c.skip(1)) } else { Seq::empty() }) + t(")") }
    else if n == "join"@ { cs(CRATE()) + t("::filters::join((&") + join_args(c) + t(")?") }
    else if n == "json"@ || n == "tojson"@ { cs(CRATE()) + t("::filters::json(") + args_(args, c) + t(")?") }
    else if n == "safe"@ { cs(CRATE()) + t("::filters::safe(") + cs(g.input.escaper@) + t(", ") + args_(args, c) + t(")?") }
    else { (if builtin(n) { cs(CRATE()) + t("::filters::") } else { t("filters::") }) + cs(n) + t("(") + args_(args, c) + t(")?") }
}
pub open spec fn lit_of(e: Expr) -> Seq<Op> { match e { Expr::StrLit(s) => str_lit(s@), _ => Seq::empty() } }
/// the Rust expression: operators, brackets and operands of the template expression in their order
#[verifier::opaque]
pub open spec fn code(g: &Generator, e: Expr) -> Seq<Op> decreases e {
    match e {
        Expr::BoolLit(s) => cs(s@), Expr::NumLit(s) => cs(s@), Expr::StrLit(s) => str_lit(s@), Expr::CharLit(s) => t("'") + cs(s@) + t("'"),
        Expr::Var(s) => var_code(g, s@), Expr::Path(p) => join(texts(p@), t("::")),
        Expr::Array(v) => t("[") + join(codes_v(g, v), t(", ")) + t("]"),
        Expr::Attr(o, a) => attr_code(*o, code(g, *o), a@),
        Expr::Index(o, k) => t("&") + code(g, *o) + t("[") + code(g, *k) + t("]"),
        Expr::Filter(f) => filter_code(g, f.name@, f.arguments@, codes_v(g, f.arguments)),
        Expr::Unary(op, x) => cs(op@) + code(g, *x),
        Expr::BinOp(op, l, r) => code(g, *l) + (t(" ") + cs(op@) + t(" ")) + code(g, *r),
        Expr::Range(op, l, r) => (match l { Some(x) => code(g, *x), None => Seq::empty() }) + cs(op@) + (match r { Some(x) => code(g, *x), None => Seq::empty() }),
        Expr::Group(x) => t("(") + code(g, *x) + t(")"),
        Expr::Tuple(v) => t("(") + tuple_(codes_v(g, v)) + t(")"),
        Expr::Call(f, v) => call_code(g, *f, code(g, *f), v@, codes_v(g, v)),
        Expr::RustMacro(p, a) => join(texts(p@), t("::")) + t("!(") + cs(a@) + t(")"),
        Expr::Try(x) => t("::core::result::Result::map_err(") + code(g, *x) + t(", |err| ") + cs(CRATE()) + t("::shared::Error::Custom(::core::convert::Into::into(err)))?"),
        Expr::NamedArgument(_, x) => code(g, *x),
        Expr::Generated(s) => cs(s@),
    }
}
pub open spec fn codes_v(g: &Generator, v: Vec<Expr>) -> Seq<Seq<Op>> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { code(g, v@[i]) } else { Seq::empty() }) }
pub open spec fn codes(g: &Generator, v: Seq<Expr>) -> Seq<Seq<Op>> { Seq::new(v.len(), |i: int| code(g, v[i])) }
proof fn codes_law(g: &Generator, v: Vec<Expr>) ensures codes_v(g, v) == codes(g, v@) { reveal_with_fuel(code, 2); assert(codes_v(g, v) =~= codes(g, v@)); }
proof fn codes_laws(g: &Generator, e: Expr) ensures e matches Expr::Array(v) ==> codes_v(g, v) == codes(g, v@), e matches Expr::Tuple(v) ==> codes_v(g, v) == codes(g, v@), e matches Expr::Call(_, v) ==> codes_v(g, v) == codes(g, v@), e matches Expr::Filter(f) ==> codes_v(g, f.arguments) == codes(g, f.arguments@) { match e { Expr::Array(v) => codes_law(g, v), Expr::Tuple(v) => codes_law(g, v), Expr::Call(_, v) => codes_law(g, v), Expr::Filter(f) => codes_law(g, f.arguments), _ => {} } }
proof fn fnames() ensures "as_ref"@.len() == 6, "as_ref"@[0] == 'a', "deref"@.len() == 5, "escape"@.len() == 6, "escape"@[0] == 'e', "e"@.len() == 1, "fmt"@.len() == 3, "format"@.len() == 6, "format"@[0] == 'f', "join"@.len() == 4, "join"@[1] == 'o', "json"@.len() == 4, "json"@[1] == 's', "tojson"@.len() == 6, "tojson"@[0] == 't', "safe"@.len() == 4, "safe"@[1] == 'a' { reveal_strlit("as_ref"); reveal_strlit("deref"); reveal_strlit("escape"); reveal_strlit("e"); reveal_strlit("fmt"); reveal_strlit("format"); reveal_strlit("join"); reveal_strlit("json"); reveal_strlit("tojson"); reveal_strlit("safe"); }
/// a call of the function of CRATE for the escaper
pub open spec fn esc_call(o: &Buffer, n: &Buffer, head: Seq<Op>) -> bool { !o.discard ==> (o.ink@ + head).is_prefix_of(n.ink@) && n.ink@.len() > 1 && n.ink@[n.ink@.len() - 2] == Op::C(')') && n.ink@.last() == Op::C('?') }
pub open spec fn safe_head(g: &Generator) -> Seq<Op> { cs(CRATE()) + t("::filters::safe(") + cs(g.input.escaper@) + t(", ") }
pub open spec fn escape_head(g: &Generator, args: Seq<Expr>) -> Seq<Op> { cs(CRATE()) + t("::filters::escape(") + cs(esc_name(g, args)) + t(", ") }
/// C02: what needs no escaping
pub open spec fn wrapof(e: Expr) -> DisplayWrap { match e { Expr::Filter(f) => wrap_name(f.name@), _ => DisplayWrap::Unwrapped } }
pub open spec fn wrap_name(n: Seq<char>) -> DisplayWrap { if n == "safe"@ || n == "escape"@ || n == "e"@ { DisplayWrap::Wrapped } else { DisplayWrap::Unwrapped } }
'''
def arms(t):
    """arms of a match: [(pattern, guard, body)]"""
    m = mask(t); out = []; i = 0
    while t[i:].strip():
        j = i
        while not m.startswith('=>', j):
            if m[j] in PAIR: j = match_close(m, j)
            j += 1
        p = t[i:j].strip(); k = j + 2
        while t[k].isspace(): k += 1
        if m[k] == '{':
            e = match_close(m, k) + 1; body = t[k+1:e-1]
            # a block may go on as an expression
            while e < len(t) and t[e].isspace(): e += 1
            if e < len(t) and m[e] == ',': e += 1
        else:
            e = k
            while e < len(m) and m[e] != ',':
                if m[e] in PAIR: e = match_close(m, e)
                e += 1
            body = t[k:e]; e += 1
        g = re.search(r'\bif\b', mask(p)); gd = None
        if g and not p.startswith('['): p, gd = p[:g.start()].strip(), p[g.end():].strip()
        out.append((p, gd, body.strip())); i = e
    return out
def str_matches(b):
    """match on texts -> comparisons"""
    start = 0
    while True:
        m = mask(b); mm = None
        for g in re.finditer(r'\bmatch\s+(\*?\w+)\s*\{', m):
            if g.start() < start: continue
            c = match_close(m, g.end() - 1); first = b[g.end():c].lstrip()
            if first.startswith('"') or first.startswith('['): mm = g; break
        if not mm: return b
        c = match_close(m, mm.end() - 1); a = arms(b[mm.end():c]); s = mm.group(1)
        def chain(a):
            if not a: raise Lost('match on a text without a last arm')
            p, gd, body = a[0]
            if gd: raise Lost('guard')
            if p == '_': return '{ ' + body + ' }'
            if re.match(r'^\w+$', p): return f'{{ let {p} = {s}; {body} }}'
            if p.startswith('['):
                els = split_args(p[1:-1]); rest = bool(els) and els[-1] == '..'; els = els[:-1] if rest else els
                inner = '{ ' + body + ' }'
                for k in range(len(els) - 1, -1, -1):
                    if els[k] == '_': continue
                    if re.match(r'^\w+$', els[k]): inner = f'{{ let {els[k]} = &{s}[{k}]; {inner} }}'
                    elif re.match(r'^Expr::\w+\(\w+\)$', els[k]): inner = f'match &{s}[{k}] {{ {els[k]} => {inner}, _ => {chain(a[1:])} }}'
                    else: raise Lost('slice pattern ' + p)
                return f'{{ if {s}.len() {">=" if rest else "=="} {len(els)} {{ {inner} }} else {chain(a[1:])} }}'
            alts = [x.strip() for x in p.split('|')]
            if not all(re.match(r'^"[^"]*"$', x) for x in alts): raise Lost('pattern ' + p)
            return '{ if ' + ' || '.join(f'str_eq({s}, {x})' for x in alts) + ' { ' + body + ' } else ' + chain(a[1:]) + ' }'
        b = b[:mm.start()] + chain(a) + b[c+1:]
def loops(b):
    """for (i, x) in v.iter().enumerate() -> while loop; v as iterated"""
    vs = []
    while True:
        g = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+(\w+)\.iter\(\)\.enumerate\(\)\s*\{|for\s+(\w+)\s+in\s+(\w+)(?:\.iter\(\))?\s*\{', mask(b))
        if not g: return b, vs
        i, x, v = (g.group(1), g.group(2), g.group(3)) if g.group(1) else ('ix_', g.group(4), g.group(5))
        n = f'n{len(vs)}_'; vs.append((n, v))
        b = b[:g.start()] + f'let mut {n}: usize = 0; while {n} < {v}.len() {{ let {i} = {n}; let {x} = &{v}[{n}]; {n} += 1;' + b[g.end():]
def common(b):
    b = gen.errs(b)
    b = re.sub(r'CompileError::from\(\s*"[^"]*"\s*\)', 'err_()', b)
    b = re.sub(r'cfg!\(not\(feature = "([^"]*)"\)\)', r'!feature_("\1")', b); b = re.sub(r'cfg!\(feature = "([^"]*)"\)', r'feature_("\1")', b)
    b = re.sub(r'crate::BUILT_IN_FILTERS\.contains\(&(\w+)\)', r'builtin_(\1)', b)
    b = re.sub(r'\*\*(\w+)\s*==\s*Expr::Var\("(\w+)"\)', r'is_var(&**\1, "\2")', b)
    b = method_calls(b, 'as_ref', lambda e, a: f'**{e}' if not a else None)
    b = method_calls(b, 'as_deref', lambda e, a: f'deref_({e})' if not a else None)
    b = method_calls(b, 'get', lambda e, a: f'get_({e}, {a[0]})' if e == 'args' or re.match(r'^\w+$', e) else None)
    b = re.sub(r'&(\w+)\[\.\.(\d+)\]', r'slice_to(\1, \2)', b); b = re.sub(r'&(\w+)\[(\d+)\.\.\]', r'slice_from(\1, \2)', b)
    b = str_matches(b)
    b = gen.str_eqs(b, ['name', 'attr', 's', 'op'])
    return gen.formats(b)
SLICE = r'''
#[verifier::external_body]
pub fn slice_to<'x, T>(v: &'x [T], n: usize) -> (r: &'x [T]) ensures n <= v@.len(), r@ == v@.take(n as int) { &v[..n] }
#[verifier::external_body]
pub fn slice_from<'x, T>(v: &'x [T], n: usize) -> (r: &'x [T]) ensures n <= v@.len(), r@ == v@.skip(n as int) { &v[n..] }
'''
# name: (types of the parameters after &mut self, result is a Result, value, code)
V = {
 'visit_expr': (('&mut Buffer', "&Expr<'_>"), True, 'wrapof(*{1})', 'code(old(self), *{1})'),
 'visit_try': (('&mut Buffer', "&Expr<'_>"), True, 'U', 't("::core::result::Result::map_err(") + code(old(self), *{1}) + t(", |err| ") + cs(CRATE()) + t("::shared::Error::Custom(::core::convert::Into::into(err)))?")'),
 'visit_rust_macro': (('&mut Buffer', '&[&str]', '&str'), False, 'U', 'join(texts({1}@), t("::")) + t("!(") + cs({2}@) + t(")")'),
 'visit_filter': (('&mut Buffer', '&str', "&[Expr<'_>]"), True, 'wrap_name({1}@)', 'filter_code(old(self), {1}@, {2}@, codes(old(self), {2}@))'),
 '_visit_as_ref_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "as_ref"@, {1}@, codes(old(self), {1}@))'),
 '_visit_deref_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "deref"@, {1}@, codes(old(self), {1}@))'),
 '_visit_json_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "json"@, {1}@, codes(old(self), {1}@))'),
 '_visit_safe_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'W', 'filter_code(old(self), "safe"@, {1}@, codes(old(self), {1}@))'),
 '_visit_escape_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'W', 'filter_code(old(self), "escape"@, {1}@, codes(old(self), {1}@))'),
 '_visit_format_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "format"@, {1}@, codes(old(self), {1}@))'),
 '_visit_fmt_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "fmt"@, {1}@, codes(old(self), {1}@))'),
 '_visit_join_filter': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 'filter_code(old(self), "join"@, {1}@, codes(old(self), {1}@))'),
 '_visit_args': (('&mut Buffer', "&[Expr<'_>]"), True, None, 'args_({1}@, codes(old(self), {1}@))'),
 'visit_attr': (('&mut Buffer', "&Expr<'_>", '&str'), True, 'U', 'attr_code(*{1}, code(old(self), *{1}), {2}@)'),
 'visit_index': (('&mut Buffer', "&Expr<'_>", "&Expr<'_>"), True, 'U', 't("&") + code(old(self), *{1}) + t("[") + code(old(self), *{2}) + t("]")'),
 'visit_call': (('&mut Buffer', "&Expr<'_>", "&[Expr<'_>]"), True, 'U', 'call_code(old(self), *{1}, code(old(self), *{1}), {2}@, codes(old(self), {2}@))'),
 'visit_unary': (('&mut Buffer', '&str', "&Expr<'_>"), True, 'U', 'cs({1}@) + code(old(self), *{2})'),
 'visit_range': (('&mut Buffer', '&str', "Option<&Expr<'_>>", "Option<&Expr<'_>>"), True, 'U', '(match {2} {{ Some(x) => code(old(self), *x), None => Seq::empty() }}) + cs({1}@) + (match {3} {{ Some(x) => code(old(self), *x), None => Seq::empty() }})'),
 'visit_binop': (('&mut Buffer', '&str', "&Expr<'_>", "&Expr<'_>"), True, 'U', 'code(old(self), *{2}) + (t(" ") + cs({1}@) + t(" ")) + code(old(self), *{3})'),
 'visit_group': (('&mut Buffer', "&Expr<'_>"), True, 'U', 't("(") + code(old(self), *{1}) + t(")")'),
 'visit_tuple': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 't("(") + tuple_(codes(old(self), {1}@)) + t(")")'),
 'visit_named_argument': (('&mut Buffer', "&Expr<'_>"), True, 'U', 'code(old(self), *{1})'),
 'visit_array': (('&mut Buffer', "&[Expr<'_>]"), True, 'U', 't("[") + join(codes(old(self), {1}@), t(", ")) + t("]")'),
 'visit_path': (('&mut Buffer', '&[&str]'), False, 'U', 'join(texts({1}@), t("::"))'),
 'visit_var': (('&mut Buffer', '&str'), False, 'U', 'var_code(old(self), {1}@)'),
 'visit_generated': (('&mut Buffer', '&str'), False, 'U', 'cs({1}@)'),
 'visit_bool_lit': (('&mut Buffer', '&str'), False, 'U', 'cs({1}@)'),
 'visit_str_lit': (('&mut Buffer', '&str'), False, 'U', 'str_lit({1}@)'),
 'visit_char_lit': (('&mut Buffer', '&str'), False, 'U', 't("\'") + cs({1}@) + t("\'")'),
 'visit_num_lit': (('&mut Buffer', '&str'), False, 'U', 'cs({1}@)'),
}
OWN = {'visit_bool_lit': {'C16'}, 'visit_str_lit': {'C16'}, 'visit_char_lit': {'C16'}, 'visit_num_lit': {'C16'}, 'visit_attr': {'C12', 'C25'}, 'visit_call': {'C12', 'C25'}}
def unit(repo, pid):
    u = Unit('visit_' + pid.lower()); s = Src(repo, gen.G)
    u.use('use vstd::utf8::*; use vstd::string::*;')
    strict = pid != 'C02'
    buffer(u, s)
    show = gen.SHOW.replace('pub open spec fn CRATE() -> Seq<char> { "::askama"@ }\npub fn CRATE_() -> (r: &\'static str) ensures r@ == CRATE() { "::askama" }', "pub uninterp spec fn CRATE() -> Seq<char>;\n#[verifier::external_body]\npub fn CRATE_() -> (r: &'static str) ensures r@ == CRATE() { unimplemented!() }")
    u.raw(show + gen.expr_types(repo) + '#[derive(Clone, Copy)]\npub enum DisplayWrap { Wrapped, Unwrapped }\n' + SLICE + SPEC)
    u.trust(gen.SHOW_TRUST); u.trust('MapChain::resolve, normalize_identifier (C17, C19), is_copyable, BUILT_IN_FILTERS and escaper lookup are abstract here; slices by contract; termination of the visitors is not proved')
    u.drop('matches on texts and slices -> comparisons and length tests; format! -> pushes; `for (i, x) in v.iter().enumerate()` -> while loop; error values dropped; the other fields of Generator and TemplateInput left out')
    im = s.find(r"impl<'a>\s+Generator<'a>"); strict = pid != 'C02'
    names = list(V)
    known = {re.match(r'fn\s+(\w+)', x.head).group(1) for x in im.subs(r'fn\s+_?visit_\w+')}
    extra = known - set(V) - {'visit_lit', 'visit_target', 'visit_expr_root'}
    if extra: raise Lost(f'new visitors: {sorted(extra)}')
    for k, n in enumerate(names):
        tys, res, val, code = V[n]; f = im.sub(rf'fn\s+{n}\b'); ps = [x for x in params(f.head) if x[0] not in ('&mut self', '&self')]
        got = tuple(re.sub(r"Option<&Expr<'_>>", "Option<&Expr<'_>>", x[1]) for x in ps)
        if got != tys: raise Lost(f'{n}: {got}')
        a = [x[0] for x in ps]
        b = common(strip_comments(f.body))
        # escapers
        def fm(e, x):
            g = re.sub(r'\s', '', e); p, c = closure(x[0]); q = [y.strip() for y in p.strip('()').split(',')]
            h = re.match(rf'^{q[0]}\.contains\((\w+)\)\.then_some\({q[1]}\)$', re.sub(r'\s', '', c))
            if g != 'self.input.config.escapers.iter()' or not h: raise Lost('lookup of escapers')
            return f'find_escaper(&self.input.config.escapers, {h.group(1)})'
        b = method_calls(b, 'find_map', fm)
        b = method_calls(b, 'ok_or_else', lambda e, x: f'(match {e} {{ Some(x__) => Ok(x__), None => Err({closure(x[0])[1]}) }})')
        b, vs = loops(b)
        X = code.format(*a); B = a[0]
        acc = f'self_ink_'
        if vs:
            if len(vs) != 1: raise Lost(f'{n}: loops')
            nv, v = vs[0]
            part = {'visit_path': f'join(texts({v}@).take({nv} as int), t("::"))', 'visit_array': f't("[") + join(codes(old(self), {v}@).take({nv} as int), t(", "))', 'visit_tuple': f't("(") + tuple_(codes(old(self), {v}@).take({nv} as int))',
                    '_visit_args': f'args_({v}@.take({nv} as int), codes(old(self), {v}@).take({nv} as int))', '_visit_join_filter': f'cs(CRATE()) + t("::filters::join((&") + join_args(codes(old(self), {v}@).take({nv} as int))'}.get(n)
            if part is None: raise Lost(f'{n}: loop')
            seqs = {'visit_path': f'texts({v}@)'}.get(n, f'codes(old(self), {v}@)')
            inv = f'invariant {nv} <= {v}.len(), *self == *old(self), {B}.discard == old({B}).discard, old({B}).laid() ==> {B}.laid()' + (f', old({B}).discard ==> {B}.ink@ == old({B}).ink@, !old({B}).discard ==> {B}.ink@ == old({B}).ink@ + ({part})' if strict else f', old({B}).ink@.is_prefix_of({B}.ink@)') + f'\n decreases {v}.len() - {nv}'
            b = add_invariants(b, [inv])
            o = loop_positions(b)[0][2]; c = match_close(mask(b), o)
            st = f' proof {{ let sq = {seqs}; assert(sq.take({nv} as int).drop_last() =~= sq.take({nv} - 1)); assert(sq.take({nv} as int).last() == sq[{nv} - 1]);'
            if n == '_visit_args': st += f' args_step({v}@, sq, {nv} - 1);'
            st += ' }'
            if n == '_visit_args' and strict: st = ' proof { let k_ = ' + nv + f' - 1; args_step({v}@, {seqs}, k_); if !old({B}).discard {{ let x_ = (if k_ > 0 {{ t(", ") }} else {{ Seq::empty() }}) + arg1({v}@[k_], {seqs}[k_]); assert({B}.ink@ == g_.ink@ + x_); let y_ = args_({v}@.take(k_), {seqs}.take(k_)); assert((old({B}).ink@ + y_) + x_ == old({B}).ink@ + (y_ + x_)); }} }}'
            b = b[:o+1] + f' let ghost g_ = *{B};' + (' broadcast use ink_assoc, cs_add, chars_empty;' if strict else ' broadcast use prefix_trans;') + b[o+1:c] + st + b[c:]
            l = loop_positions(b)[0]; e = match_close(mask(b), l[2]) + 1
            b = b[:e] + f' proof {{ assert({seqs}.take({nv} as int) =~= {seqs}); assert({v}@.take({nv} as int) =~= {v}@); }}' + b[e:]
            b = f' proof {{ assert({seqs}.take(0) =~= Seq::empty()); assert({v}@.take(0) =~= Seq::empty()); }}' + b
        pre_ = (' broadcast use prefix_trans;' if not strict else ' broadcast use ink_assoc, cs_add, chars_empty;') + ' proof { '
        if not strict and n in ('_visit_safe_filter', '_visit_escape_filter'):
            pre_ = ' broadcast use prefix_trans, ink_assoc, cs_add, chars_empty; proof { reveal(cs); reveal_strlit(")?"); '
        if n == 'visit_expr': pre_ += f'reveal_with_fuel(code, 1); codes_laws(self, *{a[1]}); '
        if n in ('_visit_format_filter', '_visit_fmt_filter', '_visit_escape_filter'): pre_ += f'if {a[1]}@.len() > 0 {{ assert(codes(self, {a[1]}@.take(1)) =~= codes(self, {a[1]}@).take(1)); assert(codes(self, {a[1]}@.skip(1)) =~= codes(self, {a[1]}@).skip(1)); }} '
        if n.endswith('_filter'): pre_ += 'fnames(); '
        b = pre_ + '}' + b
        # the written text, up to the association of concatenation
        if strict and n != 'visit_expr':
            h = f' proof {{ if !old({B}).discard {{ assert({B}.ink@ == old({B}).ink@ + ({X})); }} }} '
            tail = re.search(r'(Ok\((?:DisplayWrap::\w+|\(\))\)|DisplayWrap::\w+)\s*$', b)
            if tail: b = b[:tail.start()] + h + b[tail.start():]
            b = re.sub(r'return Ok\(DisplayWrap::(\w+)\);', lambda m: f'{{ {h} return Ok(DisplayWrap::{m.group(1)}); }}', b)
        sig = f"pub fn {n}(&mut self, " + ', '.join(f'{x}: {ty}' for x, ty in zip(a, tys)) + ') -> (r: ' + (('Result<DisplayWrap, CompileError>' if val else 'Result<(), CompileError>') if res else 'DisplayWrap') + ')'
        W = {'U': 'DisplayWrap::Unwrapped', 'W': 'DisplayWrap::Wrapped', None: None}.get(val, val.format(*a) if val else None)
        ens = ['*final(self) == *old(self)']
        ok = 'r is Ok ==> ' if res else ''
        if strict: ens.append(f'{ok}final({B}).ink_(old({B}), {X})')
        else: ens.append(f'{ok}final({B}).more(old({B}))')
        if not strict:
            if n == '_visit_safe_filter': ens.append(f'r is Ok ==> esc_call(old({B}), final({B}), safe_head(old(self)))')
            if n == '_visit_escape_filter': ens.append(f'r is Ok ==> esc_call(old({B}), final({B}), escape_head(old(self), {a[1]}@))')
            if n in ('visit_filter', 'visit_expr'):
                nm, ar = (f'{a[1]}@', f'{a[2]}@') if n == 'visit_filter' else ('f.name@', 'f.arguments@')
                x = f'(({nm} == "safe"@ ==> esc_call(old({B}), final({B}), safe_head(old(self)))) && ({nm} == "escape"@ || {nm} == "e"@ ==> esc_call(old({B}), final({B}), escape_head(old(self), {ar}))))'
                ens.append(f'r is Ok ==> {x}' if n == 'visit_filter' else f'r is Ok ==> (*{a[1]} matches Expr::Filter(f) ==> {x})')
        if W and not strict: ens.append(f'{ok}{"r->Ok_0" if res else "r"} == {W}')
        u.fn(n, f, sig, b, ensures=ens, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]', before="impl<'a> Generator<'a> {" if k == 0 else '', after='}' if k == len(names) - 1 else '', own=(OWN.get(n, {'C25'}) if strict else {'C02'}))
    return u
