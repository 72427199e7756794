"""The output statements: prepare_format, named_expression and write_buf_writable (generator)."""
import re
from .rsx import *
from .rw import *
from . import gen, pre, wsu
from .verus import Unit
from .props.c07 import replaces
from .props.c18 import SPEC as PURE

REP = r'''
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { p.len() <= t.len() && t.subrange(0, p.len() as int) == p }
/// str::replace: leftmost occurrences which do not overlap
pub open spec fn rep(t: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 || p.len() == 0 { t }
    else if starts(t, p) { to + rep(t.skip(p.len() as int), p, to) }
    else { seq![t[0]] + rep(t.skip(1), p, to) }
}
#[verifier::external_body]
pub fn str_replace(t: &str, p: &str, to: &str) -> (r: String) requires p@.len() > 0 ensures r@ == rep(t@, p@, to@) { t.replace(p, to) }
#[verifier::external_body]
pub fn str_replace_char(t: &str, p: char, to: &str) -> (r: String) ensures r@ == rep(t@, seq![p], to@) { t.replace(p, to) }
/// each brace of a text doubled
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { (if s[0] == '{' { seq!['{', '{'] } else if s[0] == '}' { seq!['}', '}'] } else { seq![s[0]] }) + esc(s.skip(1)) }
}
proof fn one(t: Seq<char>, c: char) requires t.len() > 0 ensures starts(t, seq![c]) <==> t[0] == c { assert(t.subrange(0, 1) =~= seq![t[0]]); assert(seq![t[0]][0] == t[0]); assert(seq![c][0] == c); }
proof fn rep_add(a: Seq<char>, b: Seq<char>, c: char, to: Seq<char>) ensures rep(a + b, seq![c], to) == rep(a, seq![c], to) + rep(b, seq![c], to) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); assert(rep(a, seq![c], to) =~= Seq::empty()); assert(Seq::<char>::empty() + rep(b, seq![c], to) =~= rep(b, seq![c], to)); }
    else { one(a, c); one(a + b, c); rep_add(a.skip(1), b, c, to); assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(rep(a + b, seq![c], to) =~= rep(a, seq![c], to) + rep(b, seq![c], to)); }
}
proof fn esc_rep(s: Seq<char>) ensures rep(rep(s, seq!['{'], seq!['{', '{']), seq!['}'], seq!['}', '}']) == esc(s) decreases s.len() {
    let o = seq!['{', '{']; let c = seq!['}', '}'];
    if s.len() > 0 {
        esc_rep(s.skip(1)); one(s, '{');
        let h = if s[0] == '{' { o } else { seq![s[0]] };
        rep_add(h, rep(s.skip(1), seq!['{'], o), '}', c);
        let g = if s[0] == '}' { c } else { h };
        assert(rep(h, seq!['}'], c) =~= g) by {
            one(h, '}'); reveal_with_fuel(rep, 4);
            if h.len() == 2 { assert(h.skip(1) =~= seq!['{']); one(seq!['{'], '}'); assert(seq!['{'].skip(1) =~= Seq::<char>::empty()); assert(seq!['{'] + Seq::<char>::empty() =~= seq!['{']); assert(seq!['{'] + seq!['{'] =~= o); }
            else { assert(h.skip(1) =~= Seq::<char>::empty()); }
        }
    }
}
'''
HASH = r'''
/// std::collections::HashMap<String, usize> and its Entry
#[verifier::external_body]
pub struct HashMap_ { x: u8 }
impl HashMap_ {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: HashMap_) ensures r@ == Map::<Seq<char>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: HashMap_) ensures r@ == Map::<Seq<char>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, key: String) -> (r: Entry<'a>)
        ensures match r { Entry::Occupied(o) => old(self)@.contains_key(key@) && *o.map == *old(self) && *final(o.map) == *final(self) && o.key@ == key@,
            Entry::Vacant(o) => !old(self)@.contains_key(key@) && *o.map == *old(self) && *final(o.map) == *final(self) && o.key@ == key@ }
    { unimplemented!() }
}
pub struct OccupiedEntry<'a> { pub map: &'a mut HashMap_, pub key: String }
pub struct VacantEntry<'a> { pub map: &'a mut HashMap_, pub key: String }
pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
impl<'a> OccupiedEntry<'a> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &usize) requires (*self.map)@.contains_key(self.key@) ensures *r == (*old(self.map))@[self.key@] { unimplemented!() }
}
impl<'a> VacantEntry<'a> {
    #[verifier::external_body]
    pub fn insert(self, v: usize) ensures (*final(self.map))@ == (*old(self.map))@.insert(self.key@, v) { unimplemented!() }
}
impl<'a> Entry<'a> {
    pub open spec fn k(&self) -> Seq<char> { match *self { Entry::Occupied(o) => o.key@, Entry::Vacant(o) => o.key@ } }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &str) ensures r@ == self.k() { unimplemented!() }
}
'''
SPEC = r'''
/// the rest of the generator: variables in scope, inheritance, configuration
#[verifier::external_body]
pub struct Env { x: u8 }
pub struct TemplateInput<'a> { pub escaper: &'a str }
pub struct Generator<'a> { pub input: &'a TemplateInput<'a>, pub buf_writable: WritableBuffer<'a>, pub named: usize, pub env: Env }
pub struct WriteParts { pub size_hint: usize, pub buffers: Option<WritePartsBuffers> }
pub struct WritePartsBuffers { pub format: Buffer, pub expr: Option<Buffer> }
/// the Rust expression for a template expression (unit `visit`)
pub uninterp spec fn code(e: Expr, env: Env) -> Seq<char>;
/// whether the value was made by the filter safe, escape or e
pub uninterp spec fn wrapof(e: Expr) -> DisplayWrap;
/// C02: whatever is not wrapped yet is displayed through the escaper of the template
pub open spec fn wrapd_(c: Seq<char>, w: DisplayWrap, escaper: Seq<char>) -> Seq<char> {
    match w { DisplayWrap::Wrapped => c, DisplayWrap::Unwrapped => CRATE() + "::MarkupDisplay::new_unsafe(&("@ + c + "), "@ + escaper + ")"@ }
}
/// what is displayed for an item
pub open spec fn shown(w: Writable, env: Env, escaper: Seq<char>) -> Seq<char> {
    match w { Writable::Lit(s) => s@, Writable::Expr(e) => wrapd_(code(*e, env), wrapof(*e), escaper), Writable::Generated(s, d) => wrapd_(s@, d, escaper) }
}
pub open spec fn shareable(w: Writable) -> bool { match w { Writable::Expr(e) => pure(*e), _ => false } }
pub open spec fn hole(id: int) -> Seq<char> { "{expr"@ + dec(id) + "}"@ }
pub open spec fn argline(ind: int, id: int, c: Seq<char>) -> Seq<char> { spaces(ind * 4) + "expr"@ + dec(id) + " = "@ + "&"@ + c + ","@ + "\n"@ }
/// the format string: text with its braces doubled, and a hole for each expression
pub open spec fn fmt_text(v: Seq<Writable>, ids: Seq<int>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { fmt_text(v.drop_last(), ids.drop_last()) + (match v.last() { Writable::Lit(s) => esc(s@), _ => hole(ids.last()) }) }
}
/// the arguments, evaluated once each, in this order
pub open spec fn arg_text(ind: int, args: Seq<Seq<char>>, n0: int) -> Seq<char> decreases args.len() {
    if args.len() == 0 { Seq::empty() } else { arg_text(ind, args.drop_last(), n0) + argline(ind, n0 + args.len() - 1, args.last()) }
}
/// C18: each item is displayed by an argument with its own code, which is evaluated for it, after those before it,
/// or which stands for an earlier occurrence of the same code, if that is free of effects
pub open spec fn good(v: Seq<Writable>, ids: Seq<int>, args: Seq<Seq<char>>, n0: int, env: Env, escaper: Seq<char>) -> bool decreases v.len() {
    if v.len() == 0 { ids.len() == 0 && args.len() == 0 }
    else { ids.len() == v.len() && (match v.last() {
        Writable::Lit(_) => good(v.drop_last(), ids.drop_last(), args, n0, env, escaper),
        w => (args.len() > 0 && ids.last() == n0 + args.len() - 1 && args.last() == shown(w, env, escaper) && good(v.drop_last(), ids.drop_last(), args.drop_last(), n0, env, escaper))
            || (shareable(w) && n0 <= ids.last() < n0 + args.len() && args[ids.last() - n0] == shown(w, env, escaper) && good(v.drop_last(), ids.drop_last(), args, n0, env, escaper)),
    }) }
}
pub open spec fn cache_ok(m: Map<Seq<char>, usize>, args: Seq<Seq<char>>, n0: int) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> n0 <= m[k] < n0 + args.len() && args[m[k] - n0] == k
}
pub open spec fn lit_text(v: Seq<Writable>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { lit_text(v.drop_last()) + (match v.last() { Writable::Lit(s) => s@, _ => Seq::empty() }) } }
pub open spec fn only_lits(v: Seq<Writable>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Lit }
/// bound of the size hint (machine arithmetic)
pub open spec fn weight(v: Seq<Writable>) -> int decreases v.len() { if v.len() == 0 { 0 } else { weight(v.drop_last()) + (match v.last() { Writable::Lit(s) => encode_utf8(s@).len() as int, _ => 3 }) } }
proof fn weight_mono(v: Seq<Writable>, k: int) requires 0 <= k <= v.len() ensures 0 <= weight(v.take(k)) <= weight(v), decreases v.len() - k
{ if k < v.len() { weight_mono(v, k + 1); assert(v.take(k + 1).drop_last() =~= v.take(k)); weight_pos(v.take(k)); } else { assert(v.take(k) =~= v); weight_pos(v); } }
proof fn weight_pos(v: Seq<Writable>) ensures weight(v) >= 0 decreases v.len() { if v.len() > 0 { weight_pos(v.drop_last()); } }
pub open spec fn SMALL() -> int { 0x1000_0000 }
/// str::trim
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn trim_(s: &String) -> (r: &str) ensures r@ == trimmed(s@), trims(s@, r@) { s.trim() }
pub open spec fn trims(s: Seq<char>, r: Seq<char>) -> bool { exists|a: int, b: int| #[trigger] trims_at(s, r, a, b) }
pub open spec fn trims_at(s: Seq<char>, r: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && r == s.subrange(a, b) && (forall|i: int| (0 <= i < a || b <= i < s.len()) ==> blank(#[trigger] s[i])) }
/// whitespace, as far as it matters here
pub open spec fn blank(c: char) -> bool { c != ',' }
proof fn trims_last(s: Seq<char>, r: Seq<char>) requires trims(s, r), s.len() >= 2, s[s.len() - 2] == ',' ensures r.len() > 0, r.last() == ',' || r.last() == s.last() {
    let (a, b) = choose|a: int, b: int| #[trigger] trims_at(s, r, a, b);
    let i = s.len() - 2; if i < a || b <= i { assert(blank(s[i])); }
}
#[verifier::external_body]
pub fn strlen_(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
#[verifier::external_body]
pub fn string_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
pub fn mem_take<'a>(v: &mut Vec<Writable<'a>>) -> (r: Vec<Writable<'a>>) ensures r@ == old(v)@, final(v)@ == Seq::<Writable<'a>>::empty() { let mut n = Vec::new(); core::mem::swap(v, &mut n); n }
/// the iterator all(|w| matches!(w, Writable::Lit(_)))
pub fn all_lits(v: &Vec<Writable<'_>>) -> (r: bool) ensures r <==> only_lits(v@) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v.len(), forall|k: int| 0 <= k < i ==> #[trigger] v@[k] is Lit decreases v.len() - i { if let Writable::Lit(_) = v[i] {} else { return false; } i += 1; }
    true
}
impl<'a> Generator<'a> {
    #[verifier::external_body]
    pub fn visit_expr(&mut self, buf: &mut Buffer, expr: &Expr<'_>) -> (r: Result<DisplayWrap, CompileError>)
        ensures *final(self) == *old(self), r is Ok ==> r->Ok_0 == wrapof(*expr), r is Ok && old(buf).fresh(0) ==> final(buf).buf@ == code(*expr, old(self).env)
    { unimplemented!() }
    pub open spec fn rest(&self, o: &Self) -> bool { self.input == o.input && self.env == o.env && self.buf_writable.discard == o.buf_writable.discard }
}
/// the statement that writes text
pub open spec fn text_stmt(pad: Seq<char>, t: Seq<char>) -> Seq<char> { pad + ("writer.write_str("@ + quoted(t) + ")?;"@) + "\n"@ }
/// the statement that writes a format string with its arguments
pub open spec fn write_stmt(pad: Seq<char>, ind: int, f: Seq<char>, a: Seq<char>) -> Seq<char> {
    pad + "::std::write!("@ + "\n"@ + (spaces((ind + 1) * 4) + "writer,"@ + "\n"@) + (spaces((ind + 1) * 4) + (quoted(f) + ","@) + "\n"@) + (spaces((ind + 1) * 4) + trimmed(a) + "\n"@) + (spaces(ind * 4) + ")?;"@ + "\n"@)
}
proof fn good_args(v: Seq<Writable>, ids: Seq<int>, args: Seq<Seq<char>>, n0: int, env: Env, escaper: Seq<char>) requires good(v, ids, args, n0, env, escaper), !only_lits(v) ensures args.len() > 0 decreases v.len()
{ if v.len() > 0 { let d = v.drop_last(); if v.last() is Lit { assert(!only_lits(d)) by { if only_lits(d) { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] is Lit by { if i < v.len() - 1 { assert(d[i] is Lit); } } } } good_args(d, ids.drop_last(), args, n0, env, escaper); } } }
proof fn arg_end(ind: int, args: Seq<Seq<char>>, n0: int) requires args.len() > 0 ensures ({ let t = arg_text(ind, args, n0); t.len() >= 2 && t[t.len() - 2] == ',' && t.last() == '\n' }) { reveal_strlit(","); reveal_strlit("\n"); }
'''
INTERP = r'''
/// what write! makes of a format string
pub open spec fn interp(f: Seq<char>, val: spec_fn(Seq<char>) -> Seq<char>) -> Seq<char> decreases f.len() {
    if f.len() == 0 { f }
    else if f[0] == '{' && f.len() > 1 && f[1] == '{' { seq!['{'] + interp(f.skip(2), val) }
    else if f[0] == '}' && f.len() > 1 && f[1] == '}' { seq!['}'] + interp(f.skip(2), val) }
    else if f[0] == '{' { let n = name_end(f, 1); if 1 <= n < f.len() { val(f.subrange(1, n)) + interp(f.skip(n + 1), val) } else { Seq::empty() } }
    else { seq![f[0]] + interp(f.skip(1), val) }
}
/// index of the closing brace
pub open spec fn name_end(f: Seq<char>, i: int) -> int decreases f.len() - i when 0 <= i { if i >= f.len() { f.len() as int } else if f[i] == '}' { i } else { name_end(f, i + 1) } }
pub axiom fn axiom_dec(n: int) ensures forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9', dec(n).len() > 0;
pub axiom fn axiom_dec_inj(n: int, m: int) requires n >= 0, m >= 0, dec(n) == dec(m) ensures n == m;
pub open spec fn ident(id: int) -> Seq<char> { "expr"@ + dec(id) }
proof fn name_end_is(f: Seq<char>, i: int, n: int) requires 0 <= i <= n < f.len(), f[n] == '}', forall|k: int| i <= k < n ==> f[k] != '}' ensures name_end(f, i) == n decreases n - i { if i < n { name_end_is(f, i + 1, n); } }
proof fn interp_esc(s: Seq<char>, r: Seq<char>, val: spec_fn(Seq<char>) -> Seq<char>) ensures interp(esc(s) + r, val) == s + interp(r, val) decreases s.len() {
    if s.len() == 0 { assert(esc(s) + r =~= r); assert(s + interp(r, val) =~= interp(r, val)); }
    else {
        interp_esc(s.skip(1), r, val);
        let h = if s[0] == '{' { seq!['{', '{'] } else if s[0] == '}' { seq!['}', '}'] } else { seq![s[0]] };
        let f = esc(s) + r; assert(f =~= h + (esc(s.skip(1)) + r)); assert(f.skip(h.len() as int) =~= esc(s.skip(1)) + r);
        assert(f[0] == s[0]); if h.len() == 2 { assert(f[1] == s[0]); }
        assert(s + interp(r, val) =~= seq![s[0]] + (s.skip(1) + interp(r, val)));
    }
}
proof fn interp_hole(id: int, r: Seq<char>, val: spec_fn(Seq<char>) -> Seq<char>) ensures interp(hole(id) + r, val) == val(ident(id)) + interp(r, val) {
    reveal_strlit("{expr"); reveal_strlit("}"); reveal_strlit("expr"); axiom_dec(id);
    let f = hole(id) + r; let n = 5 + dec(id).len() as int;
    assert(f[0] == '{'); assert(f[1] == 'e'); assert(f[n] == '}');
    assert forall|k: int| 1 <= k < n implies f[k] != '}' by { if k >= 5 { assert(f[k] == dec(id)[k - 5]); } else { assert(f[k] == "{expr"@[k]); } }
    name_end_is(f, 1, n);
    assert(f.subrange(1, n) =~= ident(id)) by { assert forall|k: int| 0 <= k < n - 1 implies f.subrange(1, n)[k] == ident(id)[k] by { if k >= 4 { assert(f[k + 1] == dec(id)[k - 4]); } else { assert(f[k + 1] == "{expr"@[k + 1]); } } }
    assert(f.skip(n + 1) =~= r);
}
/// what an item shows if each identifier has the value val
pub open spec fn piece(w: Writable, id: int, val: spec_fn(Seq<char>) -> Seq<char>) -> Seq<char> { match w { Writable::Lit(s) => s@, _ => val(ident(id)) } }
pub open spec fn output(v: Seq<Writable>, ids: Seq<int>, val: spec_fn(Seq<char>) -> Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { output(v.drop_last(), ids.drop_last(), val) + piece(v.last(), ids.last(), val) }
}
proof fn lemma_interp(v: Seq<Writable>, ids: Seq<int>, r: Seq<char>, val: spec_fn(Seq<char>) -> Seq<char>)
    requires ids.len() == v.len() ensures interp(fmt_text(v, ids) + r, val) == output(v, ids, val) + interp(r, val) decreases v.len()
{
    if v.len() == 0 { assert(fmt_text(v, ids) + r =~= r); assert(output(v, ids, val) + interp(r, val) =~= interp(r, val)); }
    else {
        let p = match v.last() { Writable::Lit(s) => esc(s@), _ => hole(ids.last()) };
        assert(fmt_text(v, ids) + r =~= fmt_text(v.drop_last(), ids.drop_last()) + (p + r));
        lemma_interp(v.drop_last(), ids.drop_last(), p + r, val);
        match v.last() { Writable::Lit(s) => interp_esc(s@, r, val), _ => interp_hole(ids.last(), r, val) }
        assert(output(v, ids, val) + interp(r, val) =~= output(v.drop_last(), ids.drop_last(), val) + (piece(v.last(), ids.last(), val) + interp(r, val)));
    }
}
/// C18, C04: the statement writes the items in their order, text as it is, and for each expression the value of an argument with its code
proof fn lemma_meaning(v: Seq<Writable>, ids: Seq<int>, args: Seq<Seq<char>>, n0: int, env: Env, escaper: Seq<char>, val: spec_fn(Seq<char>) -> Seq<char>)
    requires good(v, ids, args, n0, env, escaper)
    ensures interp(fmt_text(v, ids), val) == output(v, ids, val),
        forall|k: int| 0 <= k < v.len() && !(v[k] is Lit) ==> n0 <= #[trigger] ids[k] < n0 + args.len() && args[ids[k] - n0] == shown(v[k], env, escaper)
{
    good_len(v, ids, args, n0, env, escaper);
    lemma_interp(v, ids, Seq::empty(), val);
    assert(fmt_text(v, ids) + Seq::<char>::empty() =~= fmt_text(v, ids)); assert(output(v, ids, val) + Seq::<char>::empty() =~= output(v, ids, val));
    assert(interp(Seq::<char>::empty(), val) =~= Seq::<char>::empty());
}
proof fn good_len(v: Seq<Writable>, ids: Seq<int>, args: Seq<Seq<char>>, n0: int, env: Env, escaper: Seq<char>)
    requires good(v, ids, args, n0, env, escaper)
    ensures ids.len() == v.len(), forall|k: int| 0 <= k < v.len() && !(v[k] is Lit) ==> n0 <= #[trigger] ids[k] < n0 + args.len() && args[ids[k] - n0] == shown(v[k], env, escaper)
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last(); let e = ids.drop_last();
        if v.last() is Lit { good_len(d, e, args, n0, env, escaper); }
        else if args.len() > 0 && ids.last() == n0 + args.len() - 1 && args.last() == shown(v.last(), env, escaper) && good(d, e, args.drop_last(), n0, env, escaper) { good_len(d, e, args.drop_last(), n0, env, escaper); }
        else { good_len(d, e, args, n0, env, escaper); }
        assert forall|k: int| 0 <= k < v.len() && !(v[k] is Lit) implies n0 <= #[trigger] ids[k] < n0 + args.len() && args[ids[k] - n0] == shown(v[k], env, escaper) by { if k < v.len() - 1 { assert(d[k] == v[k]); assert(e[k] == ids[k]); } }
    }
}
'''
def unit(repo, pid):
    u = Unit('write_' + pid.lower()); s = Src(repo, gen.G)
    u.use('use vstd::utf8::*; use vstd::string::*;')
    gen.buffer(u, s)
    u.raw(gen.SHOW + wsu.writable(repo) + PURE + REP + HASH + (SPEC if pid != 'C04' else re.sub(r'(fn shareable\(w: Writable\) -> bool) \{[^\n]*', r'\1 { true }', SPEC)) + INTERP, lemmas=['lemma_meaning'])
    u.trust(gen.SHOW_TRUST); u.trust('HashMap<String, usize> with its Entry, mem::take, str::replace and str::trim by contract; fewer than 2^28 items and bytes of text in one statement (machine arithmetic); write! interprets format strings as std documents (spec function interp); decimal numerals consist of digits and differ for different numbers')
    u.drop('only the fields of Generator and TemplateInput that output statements touch are kept, the others are one abstract value; mem::take, iterators, format!, replace, trim -> functions with contracts; `for x in mem::take(v)` -> loop that removes the first element; error values dropped')
    wsu.field(repo, gen.G, 'Generator', 'named', 'usize'); wsu.field(repo, gen.G, 'WriteParts', 'size_hint', 'usize'); wsu.field(repo, gen.G, 'WriteParts', 'buffers', 'Option<WritePartsBuffers>')
    wsu.field(repo, gen.G, 'WritePartsBuffers', 'format', 'Buffer'); wsu.field(repo, gen.G, 'WritePartsBuffers', 'expr', 'Option<Buffer>')
    d = s.find(r"impl<'a>\s+Deref\s+for\s+WritableBuffer<'a>").text
    if re.sub(r'\s', '', strip_comments(d)) != "impl<'a>DerefforWritableBuffer<'a>{typeTarget=[Writable<'a>];fnderef(&self)->&Self::Target{&self.buf[..]}}": raise Lost('Deref for WritableBuffer')
    f = s.find(r'fn\s+is_cacheable\b'); a = re.search(r'\((\w+): &Expr', f.head).group(1)
    u.fn('is_cacheable', f, f"pub fn is_cacheable({a}: &Expr<'_>) -> (r: bool)", gen.alls(strip_comments(f.body), 'is_cacheable', 'all_cacheable'), ensures=[f'r ==> pure(*{a})'], decreases=f'*{a}', own={'C18'})
    im = s.find(r"impl<'a>\s+Generator<'a>")
    # named_expression, with the choice of what is displayed taken out
    f = im.sub(r'fn\s+named_expression\b'); b = strip_comments(f.body)
    hd = f.head[f.head.index('(') + 1:match_close(mask(f.head), f.head.index('('))].replace('HashMap<String, usize>', 'HashMap<String;usize>')
    ps = dict((x.split(':')[0].strip(), re.sub(r'\s', '', x.split(':', 1)[1])) for x in split_args(hd) if ':' in x)
    want = ['&mutBuffer', '&mutBuffer', 'String', 'DisplayWrap', 'bool', '&mutHashMap<String;usize>']
    if sorted(ps.values()) != sorted(want): raise Lost(f'named_expression: {ps}')
    order = list(ps)
    BE, BF = [n for n in order if ps[n] == '&mutBuffer']; EX = [n for n in order if ps[n] == 'String'][0]; WR = [n for n in order if ps[n] == 'DisplayWrap'][0]; CA = [n for n in order if ps[n] == 'bool'][0]; CH = [n for n in order if ps[n].startswith('&mutHash')][0]
    g = re.search(rf'let\s+(\w+)\s*=\s*match\s+{WR}\s*\{{', mask(b))
    if not g: raise Lost('named_expression: match wrapped')
    c = match_close(mask(b), g.end() - 1); wrapb = b[g.start():c+1]; e = b.index(';', c)
    wb = gen.formats('match ' + WR + ' ' + b[g.end()-1:c+1])
    b = b[:g.start()] + f'let {g.group(1)} = self.wrap_({EX}, {WR});' + b[e+1:]
    wb = wb.replace('Show::show(&self.input.escaper', 'Show::show(&(self.input.escaper)')
    u.fn('named_expression: what is displayed', f, f'pub fn wrap_(&self, {EX}: String, {WR}: DisplayWrap) -> (r: String)', wb, ensures=[f'r@ =~= wrapd_({EX}@, {WR}, self.input.escaper@)'], before="impl<'a> Generator<'a> {", own={'C02'})
    u.drop('the match in named_expression that wraps the code of an expression is verified as a function of its own')
    b = gen.formats(gen.errs(b)); b = strs(b)
    b = re.sub(r'self\.named\s*\+=\s*1\s*;', 'self.named = self.named + 1;', b)
    b = re.sub(r'Ok\((\w+)\)\s*$', lambda m: f' proof {{ let c = {g.group(1)}_; let t = old({BE}).buf@ + argline(old({BE}).indent as int, old(self).named as int, c); assert({BE}.buf@ =~= t || {BE}.buf@ =~= old({BE}).buf@); assert({BF}.buf@ =~= old({BF}).buf@ + hole(id_)); }} Ok({m.group(1)})', b)
    i = b.index(f'let {g.group(1)} = self.wrap_'); j = b.index(';', i) + 1
    b = b[:j] + f' let ghost {g.group(1)}_ = {g.group(1)}@;' + b[j:]
    k = re.search(rf'let\s+(\w+)\s*=\s*match\s+{CH}', b)
    if not k: raise Lost('named_expression: cache')
    k2 = k.end()
    while b[k2] != '{': k2 += 1
    e = b.index(';', match_close(mask(b), k2)) + 1
    b = b[:e] + f' let ghost id_ = {k.group(1)} as int;' + b[e:]
    C_ = f'wrapd_({EX}@, {WR}, old(self).input.escaper@)'
    sig = 'pub fn named_expression(&mut self, ' + ', '.join(f'{n}: ' + {'&mutBuffer': '&mut Buffer', 'String': 'String', 'DisplayWrap': 'DisplayWrap', 'bool': 'bool'}.get(ps[n], '&mut HashMap_') for n in order) + ') -> (r: Result<usize, CompileError>)'
    AN = ['Ok'] 
    u.fn('named_expression', f, sig, ' proof { reveal_strlit(","); reveal_strlit("}"); assert(","@[0] == \',\'); assert("}"@[0] == \'}\'); }' + b,
        requires=[f'!old({BE}).discard && !old({BF}).discard', f'old({BE}).start && old({BE}).indent < DEEP()', f'old({BF}).indent == 0', 'old(self).named < SMALL()'],
        ensures=['final(self).rest(old(self)) && final(self).buf_writable == old(self).buf_writable', f'final({BE}).indent == old({BE}).indent && !final({BE}).discard && !final({BF}).discard && final({BF}).indent == 0',
            f'r is Ok ==> r->Ok_0 <= 3 && final({BE}).start && ({{ let c = {C_}; '
            f'||| (final(self).named == old(self).named + 1 && final({BE}).buf@ == old({BE}).buf@ + argline(old({BE}).indent as int, old(self).named as int, c) && final({BF}).buf@ == old({BF}).buf@ + hole(old(self).named as int) && (final({CH})@ == old({CH})@ || final({CH})@ == old({CH})@.insert(c, old(self).named))) '
            f'||| ({CA if pid != "C04" else "true"} && old({CH})@.contains_key(c) && final(self).named == old(self).named && final({BE}).buf@ == old({BE}).buf@ && final({BF}).buf@ == old({BF}).buf@ + hole(old({CH})@[c] as int) && final({CH})@ == old({CH})@) }})'], own={'C18', 'C04'})
    # prepare_format
    f = im.sub(r'fn\s+prepare_format\b'); IN = re.search(r'(\w+): usize', f.head).group(1); b = strip_comments(f.body)
    b = re.sub(r'self\s*\.\s*buf_writable\s*\.\s*(is_empty|len)\(\)', r'self.buf_writable.buf.\1()', b)
    def al(e, a):
        p, c = closure(a[0]); 
        if not re.match(r'^self\s*\.\s*buf_writable\s*\.\s*iter\(\)$', e) or re.sub(r'\s', '', c) != f'matches!({p},Writable::Lit(_))': raise Lost('all in prepare_format')
        return 'all_lits(&self.buf_writable.buf)'
    b = method_calls(b, 'all', al)
    b = re.sub(r'\bHashMap::', 'HashMap_::', b)
    # loops over the items
    loops = 0
    while True:
        g = re.search(r'for\s+(\w+)\s+in\s+mem::take\(&mut self\.buf_writable\.buf\)\s*\{', mask(b))
        if not g: break
        loops += 1
        b = b[:g.start()] + f'let mut items_ = mem_take(&mut self.buf_writable.buf); let ghost mut k_: int = 0; while items_.len() > 0 {{ let ghost kn_ = k_; let {g.group(1)} = items_.remove(0); proof {{ step_(all_, k_); k_ = k_ + 1; }}' + b[g.end():]
    if loops != 2: raise Lost('loops of prepare_format')
    sl = re.search(r'Writable::Lit\((\w+)\) =>', b).group(1)
    b = re.sub(rf'\b{sl}\.len\(\)', f'strlen_({sl})', b)
    b = re.sub(r'(?<!\.)\b(\w+)\.buf\.len\(\)', r'string_len(&\1.buf)', b)
    b = replaces(b)
    b = re.sub(rf'\(&{sl}\)\.as_str\(\)', sl, b)
    b = re.sub(r'\.write\(&str_replace', r'.write(&str_replace', b)
    lit = re.search(r'let mut (\w+) = Buffer::new\(0\);\s*let mut items_', b).group(1)
    inst = [m.group(1) for m in re.finditer(r'let mut (\w+) = Buffer::new\(', b)]
    bf = [x for x in inst if x != lit and re.search(rf'let mut {x} = Buffer::new\(0\);\s*let mut \w+ = Buffer::new\({IN}', b)]
    be = re.search(rf'let mut (\w+) = Buffer::new\({IN} \+ 1\)', b)
    ch = re.search(r'let mut (\w+) = HashMap_::', b); sh = re.search(r'let mut (\w+) = 0;', b)
    if len(bf) != 1 or not be or not ch or not sh: raise Lost('prepare_format: buffers')
    bf, be, ch, sh = bf[0], be.group(1), ch.group(1), sh.group(1)
    b = b.replace(f'let mut {sh} = 0;', f'let mut {sh}: usize = 0; let ghost mut ids_: Seq<int> = Seq::empty(); let ghost mut args_: Seq<Seq<char>> = Seq::empty(); let ghost n0_ = self.named as int; let ghost esc_ = self.input.escaper@; let ghost env_ = self.env; proof {{ assert(fmt_text(all_.take(0), ids_) =~= Seq::empty()); assert(all_.take(0) =~= Seq::empty()); }}', 1)
    inv1 = f'invariant 0 <= k_ <= all_.len(), items_@ =~= all_.skip(k_), all_ == old(self).buf_writable.buf@, only_lits(all_), {lit}.buf@ =~= lit_text(all_.take(k_)), {lit}.indent == 0, !{lit}.discard, self.rest(old(self)), self.named == old(self).named, self.buf_writable.buf@ == Seq::<Writable<\'a>>::empty()\n decreases items_.len()'
    inv2 = (f'invariant 0 <= k_ <= all_.len(), items_@ =~= all_.skip(k_), all_ == old(self).buf_writable.buf@, weight(all_) < SMALL(), n0_ + all_.len() < SMALL(), {sh} <= weight(all_.take(k_)), {bf}.buf@ =~= fmt_text(all_.take(k_), ids_), {be}.buf@ =~= arg_text({IN} + 1, args_, n0_), good(all_.take(k_), ids_, args_, n0_, env_, esc_), ids_.len() == k_, '
        f'cache_ok({ch}@, args_, n0_), self.named == n0_ + args_.len(), args_.len() <= k_, {be}.start, !{be}.discard, {be}.indent == {IN} + 1, {bf}.indent == 0, !{bf}.discard, n0_ == old(self).named, self.rest(old(self)), esc_ == old(self).input.escaper@, env_ == old(self).env, {IN} < DEEP() - 1, self.buf_writable.buf@ == Seq::<Writable<\'a>>::empty()\n decreases items_.len()')
    b = add_invariants(b, [inv1, inv2])
    # ghost steps after each item
    lp = loop_positions(b)
    o = lp[1][2]; c = match_close(mask(b), o)
    step2 = f''' proof {{ weight_mono(all_, k_); let w = all_[kn_]; assert(all_.take(k_).drop_last() =~= all_.take(kn_)); assert(all_.take(k_).last() == w);
        let ids0 = ids_; let args0 = args_; let c = shown(w, env_, esc_);
        if w is Lit {{ ids_ = ids0.push(0); }}
        else if self.named as int > n0_ + args0.len() {{ ids_ = ids0.push(n0_ + args0.len()); args_ = args0.push(c); assert(args_.drop_last() =~= args0); }}
        else {{ ids_ = ids0.push(cache0_[c] as int); }}
        assert(ids_.drop_last() =~= ids0); }}'''
    b = b[:c] + step2 + b[c:]
    b = b[:o+1] + f' let ghost cache0_ = {ch}@; ' + b[o+1:]
    lp = loop_positions(b); o = lp[0][2]; c = match_close(mask(b), o)
    b = b[:c] + ' proof { assert(all_.take(k_).drop_last() =~= all_.take(kn_)); assert(all_.take(k_).last() == all_[kn_]); }' + b[c:]
    # literals
    b = re.sub(rf'Writable::Lit\({sl}\) => \{{', f'Writable::Lit({sl}) => {{ proof {{ weight_mono(all_, k_); esc_rep({sl}@); assert("{{{{"@ =~= seq![\'{{\', \'{{\']) by {{ reveal_strlit("{{{{"); }} assert("}}}}"@ =~= seq![\'}}\', \'}}\']) by {{ reveal_strlit("}}}}"); }} }}', b, count=1)
    b = re.sub(r'(size_hint \+= self\.named_expression)', r'proof { weight_mono(all_, k_); assert(all_.take(k_).drop_last() =~= all_.take(kn_)); assert(all_.take(k_).last() == all_[kn_]); } \1', b)
    b = ' let ghost all_ = self.buf_writable.buf@; proof { assert(all_.skip(0) =~= all_); assert(all_.take(all_.len() as int) =~= all_); assert(lit_text(all_.take(0)) =~= Seq::empty()); assert(weight(all_.take(0)) == 0); }' + b
    ITEMS = 'old(self).buf_writable.buf@'
    u.raw("} proof fn step_(v: Seq<Writable>, k: int) requires 0 <= k < v.len() ensures v.skip(k).skip(1) =~= v.skip(k + 1), v.skip(k)[0] == v[k], v.skip(k).remove(0) =~= v.skip(k + 1), v.take(k + 1).drop_last() =~= v.take(k), v.take(k + 1).last() == v[k] {}\nimpl<'a> Generator<'a> {")
    u.fn('prepare_format', f, f'pub fn prepare_format(&mut self, {IN}: usize) -> (r: Result<WriteParts, CompileError>)', b,
        requires=[f'{IN} < DEEP() - 1', f'weight({ITEMS}) < SMALL() && old(self).named + {ITEMS}.len() < SMALL()'],
        ensures=['final(self).rest(old(self))',
            f'''r is Ok ==> final(self).buf_writable.buf@.len() == 0 && match r->Ok_0.buffers {{
            None => {ITEMS}.len() == 0,
            Some(WritePartsBuffers {{ format, expr: None }}) => {ITEMS}.len() > 0 && only_lits({ITEMS}) && format.buf@ == lit_text({ITEMS}),
            Some(WritePartsBuffers {{ format, expr: Some(expr) }}) => {ITEMS}.len() > 0 && !only_lits({ITEMS}) && exists|ids: Seq<int>, args: Seq<Seq<char>>| #[trigger] good({ITEMS}, ids, args, old(self).named as int, old(self).env, old(self).input.escaper@)
                && format.buf@ == fmt_text({ITEMS}, ids) && expr.buf@ == arg_text({IN} + 1, args, old(self).named as int) && final(self).named == old(self).named + args.len(),
        }}'''], attrs='#[verifier::loop_isolation(false)]', own={'C18', 'C04'})
    f = im.sub(r'fn\s+write_buf_writable\b'); B = re.search(r'(\w+): &mut Buffer', f.head).group(1); b = strip_comments(f.body)
    b = gen.formats(b)
    b = method_calls(b, 'trim', lambda e, a: f'trim_(&{e})')
    rv = [x for x in ('}', '::std::write!(', 'writer,', ')?;', ',')]
    b = ' proof { ' + ' '.join(f'reveal_strlit("{x}");' for x in rv) + ''' assert("}"@[0] == '}'); assert("::std::write!("@.last() == '('); assert("writer,"@.last() == ','); assert(")?;"@.last() == ';'); assert(","@.last() == ','); }
        let ghost items_ = self.buf_writable.buf@; let ghost n0_ = self.named as int; let ghost env_ = self.env; let ghost esc_ = self.input.escaper@;''' + b
    e = re.search(r'expr: Some\((\w+)\),?\s*\}\) =>\s*\{', b); e1 = re.search(r'WritePartsBuffers \{\s*format(?:: (\w+))?,\s*expr: Some', b)
    if not e or not e1: raise Lost('write_buf_writable')
    b = b[:e.end()] + f''' let ghost (ids_, args_) = choose|ids: Seq<int>, args: Seq<Seq<char>>| #[trigger] good(items_, ids, args, n0_, env_, esc_) && format.buf@ == fmt_text(items_, ids) && expr.buf@ == arg_text(old({B}).indent + 1, args, n0_) && self.named == n0_ + args.len();
        proof {{ good_args(items_, ids_, args_, n0_, env_, esc_); arg_end(old({B}).indent + 1, args_, n0_);
            assert forall|t: Seq<char>| #[trigger] trims(expr.buf@, t) implies t.len() > 0 && t.last() != '{{' && t != "}}"@ by {{ trims_last(expr.buf@, t); }} }}''' + b[e.end():]
    b = re.sub(r'Ok\(size_hint\)\s*\}\s*\}\s*$', f'proof {{ if !old({B}).discard {{ assert({B}.buf@ =~= old({B}).buf@ + write_stmt(old({B}).pad(), old({B}).indent as int, fmt_text(items_, ids_), arg_text(old({B}).indent + 1, args_, n0_))); }} }} Ok(size_hint) }} }}', b)
    u.fn('write_buf_writable', f, f'pub fn write_buf_writable(&mut self, {B}: &mut Buffer) -> (r: Result<usize, CompileError>)', b,
        requires=[f'old({B}).indent < DEEP() - 2', f'weight({ITEMS}) < SMALL() && old(self).named + {ITEMS}.len() < SMALL()'],
        ensures=['final(self).rest(old(self))', f'r is Ok ==> final(self).buf_writable.buf@.len() == 0', f'r is Ok && old({B}).discard ==> final({B}).same(old({B}))',
            f'''r is Ok && !old({B}).discard ==> final({B}).indent == old({B}).indent && !final({B}).discard && (
            if {ITEMS}.len() == 0 {{ final({B}).same(old({B})) }}
            else if only_lits({ITEMS}) {{ final({B}).start && final({B}).buf@ == old({B}).buf@ + text_stmt(old({B}).pad(), lit_text({ITEMS})) }}
            else {{ final({B}).start && exists|ids: Seq<int>, args: Seq<Seq<char>>| #[trigger] good({ITEMS}, ids, args, old(self).named as int, old(self).env, old(self).input.escaper@)
                && final({B}).buf@ == old({B}).buf@ + write_stmt(old({B}).pad(), old({B}).indent as int, fmt_text({ITEMS}, ids), arg_text(old({B}).indent + 1, args, old(self).named as int)) && final(self).named == old(self).named + args.len() }})'''], own={'C18', 'C04'})
    u.raw('}')
    return u
def strs(b):
    return re.sub(r'\.write\(&\{', '.write(&{', b)
