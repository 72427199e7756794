"""The parsers of literals and names: what they take, for every text (C16, C17)."""
import re
from .rsx import *
from .rw import *
from . import ndu
from .nomc import Nom
from .filt import params
from .verus import Unit

F = 'askama_parser/src/lib.rs'
INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']; FLOATS = ['f32', 'f64']
SPEC = r"""
#[verifier::external_body] pub struct Ec { x: u8 }
#[verifier::external_body] pub fn ec() -> Ec { unimplemented!() }
pub mod nom { pub enum Err { Incomplete, Error(super::Ec), Failure(super::Ec) } }
pub type PR<'a, T> = Result<(&'a str, T), nom::Err>;
pub type Tx = Seq<char>;
/// j is what is left of i
pub open spec fn suf(i: Tx, j: Tx) -> bool { j.len() <= i.len() && i.skip(i.len() - j.len()) =~= j }
pub broadcast proof fn suf_trans(a: Tx, b: Tx, c: Tx) requires #[trigger] suf(a, b), #[trigger] suf(b, c) ensures suf(a, c) { assert(a.skip(a.len() - c.len()) =~= a.skip(a.len() - b.len()).skip(b.len() - c.len())); }
pub broadcast proof fn suf_at(a: Tx, b: Tx) requires #[trigger] suf(a, b) ensures b.len() > 0 ==> a[a.len() - b.len()] == b[0], forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == a[a.len() - b.len() + k] { assert(a.skip(a.len() - b.len()) =~= b); assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == a[a.len() - b.len() + k] by { assert(b[k] == a.skip(a.len() - b.len())[k]); } }
pub broadcast proof fn suf_same(a: Tx) ensures #[trigger] suf(a, a) { assert(a.skip(0) =~= a); }
/// what was taken
pub open spec fn took(i: Tx, j: Tx) -> Tx { i.take(i.len() - j.len()) }
pub open spec fn tagged(i: Tx, j: Tx, t: Tx) -> bool { i =~= t + j }
pub broadcast proof fn tagged_suf(i: Tx, j: Tx, t: Tx) requires #[trigger] tagged(i, j, t) ensures suf(i, j), took(i, j) == t { assert(i.skip(i.len() - j.len()) =~= j); assert(took(i, j) =~= t); }
pub open spec fn oneof(i: Tx, j: Tx, t: Tx) -> bool { exists|c: char| t.contains(c) && #[trigger] tagged(i, j, seq![c]) }
#[verifier::external_body] pub fn same_place(a: &str, b: &str) -> (r: bool) ensures r ==> a@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn between<'a>(i: &'a str, j: &'a str) -> (r: &'a str) requires suf(i@, j@) ensures r@ == took(i@, j@) { unimplemented!() }
#[verifier::external_body] pub fn tag_<'a>(t: &str, i: &'a str) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> tagged(i@, j@, t@) && v@ == t@, r matches Err(e) ==> e is Error { unimplemented!() }
#[verifier::external_body] pub fn char_<'a>(c: char, i: &'a str) -> (r: PR<'a, char>) ensures r matches Ok((j, v)) ==> tagged(i@, j@, seq![c]) && v == c, r matches Err(e) ==> e is Error && (i@.len() == 0 || i@[0] != c) { unimplemented!() }
#[verifier::external_body] pub fn one_of_<'a>(t: &str, i: &'a str) -> (r: PR<'a, char>) ensures r matches Ok((j, v)) ==> oneof(i@, j@, t@), r matches Err(e) ==> e is Error { unimplemented!() }
#[verifier::external_body] pub fn first_<'a>(i: &'a str) -> (r: Option<(char, &'a str)>) ensures match r { Some((c, j)) => tagged(i@, j@, seq![c]), None => i@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn at_end(i: &str) -> (r: bool) ensures r <==> i@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn one_char(i: &str) -> (r: bool) ensures r <==> i@.len() == 1 { unimplemented!() }
/// text up to the quote that ends it: no quote but behind a backslash
pub open spec fn quoted(t: Tx, q: char) -> bool decreases t.len() { t.len() == 0 || (t[0] != '\\' && t[0] != q && quoted(t.skip(1), q)) || (t[0] == '\\' && t.len() >= 2 && quoted(t.skip(2), q)) }
#[verifier::external_body] pub fn escaped_<'a>(q: char, i: &'a str) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> tagged(i@, j@, v@) && v@.len() > 0 && quoted(v@, q), r matches Err(e) ==> e is Error { unimplemented!() }
pub open spec fn hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn hexes(t: Tx) -> bool { forall|k: int| 0 <= k < t.len() ==> hex(#[trigger] t[k]) }
pub uninterp spec fn hexval(t: Tx) -> nat;
#[verifier::external_body] pub fn hexes_<'a>(m: usize, n: usize, i: &'a str) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> tagged(i@, j@, v@) && m <= v@.len() <= n && hexes(v@), r matches Err(e) ==> e is Error { unimplemented!() }
#[verifier::external_body] pub fn hex_(t: &str) -> (r: Result<u32, Ec>) ensures r matches Ok(v) ==> v == hexval(t@) { unimplemented!() }
// names
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn digit10(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::external_body] pub fn is_alpha_(c: char) -> (r: bool) ensures r == alpha(c) { unimplemented!() }
#[verifier::external_body] pub fn is_alphanum_(c: char) -> (r: bool) ensures r == (alpha(c) || digit10(c)) { unimplemented!() }
pub open spec fn name_start(c: char) -> bool { alpha(c) || c == '_' || c >= '\u{80}' }
pub open spec fn name_part(c: char) -> bool { name_start(c) || digit10(c) }
/// a whole name: it starts as a name does, and all that can follow belongs to it
pub open spec fn a_name(i: Tx, j: Tx, t: Tx) -> bool { i =~= t + j && t.len() > 0 && name_start(t[0]) && (forall|k: int| 0 <= k < t.len() ==> name_part(#[trigger] t[k])) && (j.len() == 0 || !name_part(j[0])) }
// numbers
pub open spec fn isd(c: char, radix: int) -> bool { if '0' <= c && c <= '9' { c as int - 48 < radix } else if 'a' <= c && c <= 'f' { c as int - 87 < radix } else if 'A' <= c && c <= 'F' { c as int - 55 < radix } else { false } }
#[verifier::external_body] pub fn is_digit_(c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 16 ensures r == isd(c, radix as int) { unimplemented!() }
pub open spec fn dig(c: char, radix: int) -> bool { c == '_' || isd(c, radix) }
/// digits and underscores, with at least one digit; the first is a digit if start
pub open spec fn digits(i: Tx, j: Tx, radix: int, start: bool) -> bool {
    suf(i, j) && (forall|k: int| 0 <= k < i.len() - j.len() ==> dig(#[trigger] i[k], radix)) && (exists|k: int| 0 <= k < i.len() - j.len() && isd(#[trigger] i[k], radix)) && (start ==> isd(i[0], radix)) && (j.len() == 0 || !dig(j[0], radix))
}
pub broadcast proof fn digits_suf(i: Tx, j: Tx, radix: int, start: bool) requires #[trigger] digits(i, j, radix, start) ensures suf(i, j) {}
pub open spec fn int_suffix(i: Tx, j: Tx) -> bool { INTS }
pub open spec fn float_suffix(i: Tx, j: Tx) -> bool { FLOATS }
pub open spec fn radixed(i: Tx, j: Tx) -> bool { exists|a: Tx, b: Tx, c: Tx, r: int| #![trigger tagged(i, a, "0"@), digits(b, c, r, false)] tagged(i, a, seq!['0']) && digits(b, c, r, false) && ((r == 2 && tagged(a, b, seq!['b'])) || (r == 8 && tagged(a, b, seq!['o'])) || (r == 16 && tagged(a, b, seq!['x']))) && (c == j || int_suffix(c, j)) }
pub open spec fn frac(i: Tx, j: Tx) -> bool { exists|a: Tx| #![trigger digits(a, j, 10, true)] tagged(i, a, seq!['.']) && digits(a, j, 10, true) }
pub broadcast proof fn is_frac(i: Tx, a: Tx, j: Tx) requires #[trigger] tagged(i, a, seq!['.']), #[trigger] digits(a, j, 10, true) ensures frac(i, j) {}
pub open spec fn with_frac(i: Tx, j: Tx) -> bool { exists|a: Tx| #[trigger] frac(i, a) && (a == j || float_suffix(a, j)) }
pub open spec fn with_exp(i: Tx, j: Tx) -> bool { exists|a: Tx, b: Tx, c: Tx, e: Tx| #![trigger oneof(a, b, "eE"@), digits(c, e, 10, false)] oneof(a, b, "eE"@) && digits(c, e, 10, false) && (i == a || frac(i, a)) && (b == c || oneof(b, c, "+-"@)) && (e == j || float_suffix(e, j)) }
pub open spec fn decimal(i: Tx, j: Tx) -> bool { exists|d: Tx| #![trigger digits(i, d, 10, true)] digits(i, d, 10, true) && (d == j || int_suffix(d, j) || float_suffix(d, j) || with_exp(d, j) || with_frac(d, j)) }
pub open spec fn number(i: Tx, j: Tx) -> bool { radixed(i, j) || decimal(i, j) }
/// as in Rust, with a sign
pub open spec fn signed(i: Tx, j: Tx) -> bool { number(i, j) || (exists|a: Tx| #[trigger] tagged(i, a, seq!['-']) && number(a, j)) }
pub broadcast group tx { suf_trans, suf_same, tagged_suf, digits_suf, is_frac }
// characters
pub open spec fn simple(c: char) -> bool { c == 'n' || c == 'r' || c == 't' || c == '\\' || c == '0' || c == '\'' || c == '"' }
pub open spec fn is_char<'a>(t: Tx, c: Char<'a>) -> bool { match c { Char::Literal => t.len() == 1, Char::Escaped => t.len() == 2 && t[0] == '\\' && simple(t[1]), Char::AsciiEscape(s) => t =~= seq!['\\', 'x'] + s@ && s@.len() == 2 && hexes(s@), Char::UnicodeEscape(s) => t =~= seq!['\\', 'u', '{'] + s@ + seq!['}'] && 1 <= s@.len() <= 6 && hexes(s@) } }
/// a character as Rust writes it (a surrogate is refused by rustc)
pub open spec fn char_text(t: Tx) -> bool { exists|c: Char| #[trigger] is_char(t, c) && match c { Char::AsciiEscape(s) => hexval(s@) <= 0x7f, Char::UnicodeEscape(s) => hexval(s@) <= 0x10ffff, _ => true } }
"""
def prep(b):
    """elementary parsers -> their contracts"""
    b = re.sub(r'escaped\(\s*is_not\(\s*"\\\\(\\"|\\\'|\')"\s*\)\s*,\s*\'\\\\\'\s*,\s*anychar\s*\)', lambda g: "|i| escaped_('" + ("\\'" if "'" in g.group(1) else '"') + "', i)", b)
    b = re.sub(r'take_while_m_n\(\s*(\d+)\s*,\s*(\d+)\s*,\s*\|(\w+)(?:\s*:\s*char)?\|\s*\3\.is_ascii_hexdigit\(\)\s*\)', r'|i| hexes_(\1, \2, i)', b)
    b = re.sub(r'\bone_of\(\s*("[^"]*")\s*\)', r'|i| one_of_(\1, i)', b)
    b = re.sub(r'\bseparated_digits\(([^()]*)\)', r'|i| digits_(\1, i)', b)
    while True:
        m = mask(b); g = re.search(r'\bmany0_count\s*\(', m)
        if not g: break
        c = match_close(m, g.end() - 1); b = b[:g.start()] + 'map(many0(' + b[g.end():c] + '), |v_| v_.len())' + b[c+1:]
    b = re.sub(r'(\w+)\s*\.\s*(is_alpha|is_alphanum)\(\)', r'\2_(\1)', b); b = re.sub(r'(\w+)\s*\.\s*is_digit\((\w+)\)', r'is_digit_(\1, \2)', b)
    b = re.sub(r'(\w+)\s*\.\s*chars\(\)\s*\.\s*count\(\)\s*==\s*1\b', r'one_char(\1)', b)
    b = re.sub(r'u32::from_str_radix\((\w+),\s*16\)', r'hex_(\1)', b)
    # let Ok(("", P)) = E else B;
    g = re.search(r'let\s+Ok\(\(\s*""\s*,\s*(\w+)\s*\)\)\s*=\s*([^;{}]*?)\s*else\s*\{', b)
    if g: c = match_close(mask(b), g.end() - 1); x = b[g.end():c]; b = b[:g.start()] + f'let {g.group(1)} = match {g.group(2)} {{ Ok((rest_, c_)) => if at_end(rest_) {{ c_ }} else {{ {x} }}, Err(_) => {{ {x} }} }}' + b[c+1:]
    return b.replace('Ok(("", Self::Literal))', 'Ok((empty_(), Self::Literal))')
def split1(b, u):
    """s.split_at_position1_complete(|c| P, ..) -> contract with P as specification"""
    n = [0]
    def f(e, a):
        p, body = closure(a[0]); n[0] += 1; k = n[0]; v = p.strip()
        sp = re.sub(r'\bis_alpha_\((\w+)\)', r'alpha(\1)', re.sub(r'\bis_alphanum_\((\w+)\)', r'(alpha(\1) || digit10(\1))', prep(body)))
        u.raw(f"""pub open spec fn ends{k}({v}: char) -> bool {{ {sp} }}
#[verifier::external_body] pub fn run{k}<'a>(i: &'a str) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> tagged(i@, j@, v@) && v@.len() > 0 && (forall|k: int| 0 <= k < v@.len() ==> !ends{k}(#[trigger] v@[k])) && (j@.len() == 0 || ends{k}(j@[0])), r matches Err(e) ==> e is Error && (i@.len() == 0 || ends{k}(i@[0])) {{ unimplemented!() }}""")
        return f'run{k}({e})'
    return method_calls(b, 'split_at_position1_complete', f)
def unit(repo, pid='C16', only=None):
    u = Unit('literals'); s = Src(repo, F)
    spec = SPEC.replace('INTS', ' || '.join(f'tagged(i, j, "{x}"@)' for x in INTS)).replace('FLOATS', ' || '.join(f'tagged(i, j, "{x}"@)' for x in FLOATS)).replace('tagged(i, a, "0"@)', "tagged(i, a, seq!['0'])")
    ce = strip_comments(s.find(r'enum\s+Char\b').text); ce = ce if ce.startswith('pub') else 'pub ' + ce
    u.raw(ce + spec + '#[verifier::external_body] pub fn empty_() -> (r: &\'static str) ensures r@.len() == 0 { unimplemented!() }\n#[verifier::external_body] pub fn or_default_<\'a>(x: Option<&\'a str>) -> (r: &\'a str) ensures r@ == (match x { Some(v) => v@, None => seq![] }) { unimplemented!() }')
    u.trust("nom's combinators are expanded by their definitions in nom 7; its elementary parsers (tag, char, one_of, satisfy, escaped, take_while_m_n, split_at_position1_complete) by contract"); u.trust('u32::from_str_radix, char::is_digit')
    u.drop('the text of errors')
    def put(name, it, body, sig, ret, ens, invs=(), pre=None, before='', after='', req=(), hint=''):
        if only and name not in only: return
        b = ndu.plain(ndu.errors(prep(strip_comments(body))))
        if pre: b = pre(b)
        hint += ''.join(f'proof {{ reveal_strlit({x}); }} ' for x in sorted(set(re.findall(r'\btag\(\s*("[^"\\]*")\s*\)', b)) - {f'"{x}"' for x in INTS + FLOATS}))
        nm = Nom(name, invs, prims={"i8_": ''}); b = nm.code(b)
        if nm.used != len(nm.invs): raise Lost(f'{name}: {nm.used} repetitions where the annotations are for {len(nm.invs)}')
        u.fn(name, it, f'pub fn {name}_body' + ('' if before else "<'a>") + f'({sig}) -> (r: PR<\'a, {ret}>)', 'broadcast use tx; proof { reveal_strlit(""); } ' + hint + b, requires=list(req), ensures=ens, before=before, after=after, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]')
    S = "&'a str"
    it = s.find(r'fn\s+identifier\b'); i = params(it.head)[0][0]
    put('identifier', it, it.body, f"{i}: {S}", S, [f"r matches Ok((j, v)) ==> a_name({i}@, j@, v@)", f"r matches Err(e) ==> {i}@.len() == 0 || !name_start({i}@[0])"], pre=lambda b: split1(b, u))
    it = s.find(r'fn\s+str_lit\b'); i = params(it.head)[0][0]
    put('str_lit', it, it.body, f"{i}: {S}", S, [f"""r matches Ok((j, v)) ==> quoted(v@, '"') && {i}@ =~= seq!['"'] + v@ + seq!['"'] + j@"""])
    ci = s.find(r"impl<'a>\s+Char<'a>"); it = ci.sub(r'fn\s+parse\b'); i = params(it.head)[0][0]
    put('char_parse', it, it.body, f"{i}: {S}", "Char<'a>", [f"r matches Ok((j, c)) ==> j@.len() == 0 ==> is_char({i}@, c)"], before="impl<'a> Char<'a> {", after='}')
    u.raw("impl<'a> Char<'a> { #[verifier::external_body] pub fn parse(i: &'a str) -> (r: PR<'a, Char<'a>>) ensures r matches Ok((j, c)) ==> j@.len() == 0 ==> is_char(i@, c) { unimplemented!() } }")
    it = s.find(r'fn\s+char_lit\b'); i = params(it.head)[0][0]
    put('char_lit', it, it.body, f"{i}: {S}", S, [f"r matches Ok((j, v)) ==> char_text(v@) && quoted(v@, '\\'') && {i}@ =~= seq!['\\''] + v@ + seq!['\\''] + j@"])
    it = s.find(r'fn\s+separated_digits\b'); (rx, _), (st, _) = params(it.head)
    g = re.match(r'^\s*(?:move\s*)?\|\s*(\w+)(?:\s*:[^|]*)?\|\s*(.*)$', it.body, re.S)
    if not g: raise Lost('separated_digits')
    d = lambda i: f"2 <= {rx} <= 16", f"r matches Ok((j, v)) ==> digits({i}@, j@, {rx} as int, {st}) && v@ == took({i}@, j@)"
    u.raw(f"#[verifier::external_body] pub fn digits_<'a>({rx}: u32, {st}: bool, i: {S}) -> (r: PR<'a, {S}>) requires 2 <= {rx} <= 16 ensures r matches Ok((j, v)) ==> digits(i@, j@, {rx} as int, {st}) && v@ == took(i@, j@), r matches Err(e) ==> e is Error {{ unimplemented!() }}")
    i = g.group(1)
    A = "suf(all_, CUR@), RES is None || RES->Some_0 is Error, "
    put('separated_digits', it, g.group(2), f"{rx}: u32, {st}: bool, {i}: {S}", S, [f"r matches Ok((j, v)) ==> digits({i}@, j@, {rx} as int, {st}) && v@ == took({i}@, j@)", 'r matches Err(e) ==> e is Error'], req=[f'2 <= {rx} <= 16'], hint=f'broadcast use suf_at; let ghost all_ = {i}@; ',
        invs=[A + "forall|k: int| 0 <= k < all_.len() - CUR@.len() ==> #[trigger] all_[k] == '_'", A + f"suf(all_, BEG@), CUR@.len() <= BEG@.len(), forall|k: int| all_.len() - BEG@.len() <= k < all_.len() - CUR@.len() ==> dig(#[trigger] all_[k], {rx} as int), !GO && RES is None ==> CUR@.len() == 0 || !dig(CUR@[0], {rx} as int)"])
    it = s.find(r'fn\s+num_lit\b'); i = params(it.head)[0][0]
    put('num_lit', it, it.body, f"{i}: {S}", S, [f"r matches Ok((j, v)) ==> signed({i}@, j@)", f"r matches Ok((j, v)) ==> suf({i}@, j@) && v@ == took({i}@, j@)"])
    return u
