import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
from .c01 import need_only
NOTE = ('lower, lowercase, upper, uppercase, capitalize, title, trim (with its collecting writer, for every split of the value) and wordcount are proved against a specification over uninterpreted Unicode case mappings and whitespace. '
        'Trusted: str::to_lowercase etc. by contract; an upper-case character is its own upper case (lower case alike), which the companion checks for every character.')
SPEC = r'''
pub uninterp spec fn low(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn upp(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn low1(c: char) -> Seq<char>;
pub uninterp spec fn upp1(c: char) -> Seq<char>;
pub uninterp spec fn ws(c: char) -> bool;
#[verifier::external_body] pub fn str_lower(s: &str) -> (r: String) ensures r@ == low(s@) { s.to_lowercase() }
#[verifier::external_body] pub fn str_upper(s: &str) -> (r: String) ensures r@ == upp(s@) { s.to_uppercase() }
#[verifier::external_body] pub fn char_lower(c: char) -> (r: String) ensures r@ == low1(c) { unimplemented!() }
#[verifier::external_body] pub fn char_upper(c: char) -> (r: String) ensures r@ == upp1(c) { unimplemented!() }
#[verifier::external_body] pub fn is_upper(c: char) -> (r: bool) ensures r ==> upp1(c) =~= seq![c] { c.is_uppercase() }
#[verifier::external_body] pub fn is_lower(c: char) -> (r: bool) ensures r ==> low1(c) =~= seq![c] { c.is_lowercase() }
#[verifier::external_body] pub fn is_ws(c: char) -> (r: bool) ensures r == ws(c) { c.is_whitespace() }
#[verifier::external_body] pub fn chars(s: &str) -> (v: Vec<char>) ensures v@ == s@ { s.chars().collect() }
#[verifier::external_body] pub fn first_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { s.chars().next() }
#[verifier::external_body] pub fn char_len(c: char) -> (r: usize) ensures r == encode_utf8(seq![c]).len() { c.len_utf8() }
pub open spec fn cap(t: Seq<char>) -> Seq<char> { if t.len() == 0 { t } else { upp1(t[0]) + low(t.skip(1)) } }
/// title case of the first k characters
pub open spec fn start(t: Seq<char>, k: int) -> bool { k == 0 || ws(t[k - 1]) }
pub open spec fn ttl(t: Seq<char>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() }
    else { ttl(t, k - 1) + (if ws(t[k - 1]) { seq![t[k - 1]] } else if start(t, k - 1) { upp1(t[k - 1]) } else { low1(t[k - 1]) }) }
}
/// the text without leading / trailing whitespace
pub open spec fn tl(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() > 0 && ws(t[0]) { tl(t.skip(1)) } else { t } }
pub open spec fn tr(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() > 0 && ws(t.last()) { tr(t.drop_last()) } else { t } }
/// the number of words
pub open spec fn words(t: Seq<char>) -> int decreases t.len() {
    if t.len() == 0 { 0 } else { words(t.drop_last()) + (if !ws(t.last()) && start(t, t.len() - 1) { 1int } else { 0 }) }
}
#[verifier::external_body] pub fn count_words(s: &str) -> (r: usize) ensures r == words(s@) { s.split_whitespace().count() }
#[verifier::external_body] pub fn trim_start<'x>(s: &'x str) -> (r: &'x str) ensures r@ == tl(s@) { s.trim_start() }
#[verifier::external_body] pub fn trim_end<'x>(s: &'x str) -> (r: &'x str) ensures r@ == tr(s@) { s.trim_end() }
#[verifier::external_body] pub fn strlen_(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
/// String::truncate keeps a prefix; it panics off boundaries
#[verifier::external_body] pub fn string_truncate(s: &mut String, n: usize)
    requires exists|k: int| 0 <= k <= old(s)@.len() && #[trigger] encode_utf8(old(s)@.subrange(0, k)).len() == n
    ensures forall|k: int| 0 <= k <= old(s)@.len() && #[trigger] encode_utf8(old(s)@.subrange(0, k)).len() == n ==> final(s)@ == old(s)@.subrange(0, k) { s.truncate(n) }
#[verifier::external_body] pub fn is_empty_string(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn string_write_str(s: &mut String, t: &str) -> (r: fmt::Result) ensures r.is_ok(), final(s)@ == old(s)@ + t@ { s.push_str(t); Ok(()) }
pub proof fn lemma_slice(t: Seq<char>)
    requires t.len() > 0
    ensures encode_utf8(t) == encode_utf8(seq![t[0]]) + encode_utf8(t.skip(1)), is_char_boundary(encode_utf8(t), encode_utf8(seq![t[0]]).len() as int),
        encode_utf8(t).subrange(encode_utf8(seq![t[0]]).len() as int, encode_utf8(t).len() as int) =~= encode_utf8(t.skip(1)),
        forall|r: Seq<char>| #[trigger] encode_utf8(r) == encode_utf8(t.skip(1)) ==> r == t.skip(1)
{
    assert(t =~= seq![t[0]] + t.skip(1));
    encode_utf8_concat(seq![t[0]], t.skip(1));
    let a = encode_utf8(seq![t[0]]); let b = encode_utf8(t.skip(1)); let full = encode_utf8(t);
    encode_utf8_valid_utf8(t); encode_utf8_valid_utf8(t.skip(1)); encode_utf8_valid_utf8(seq![t[0]]);
    is_char_boundary_start_end_of_seq(full); is_char_boundary_start_end_of_seq(b);
    if b.len() > 0 {
        lemma_bnd(full, a.len() as int); lemma_bnd(b, 0);
        assert(full[a.len() as int] == b[0]);
    } else { assert(a.len() == full.len()); }
    assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == encode_utf8(t.skip(1)) implies r == t.skip(1) by { encode_utf8_decode_utf8(r); encode_utf8_decode_utf8(t.skip(1)); }
}
'''
TRIM = r'''
/// the pieces in which a value chooses to write its text: any strings (write_char and write_fmt of the default methods end in write_str)
pub open spec fn cflat(c: Seq<&str>) -> Seq<char> decreases c.len() { if c.len() == 0 { Seq::empty() } else { cflat(c.drop_last()) + c.last()@ } }
pub trait Shown { spec fn shown(&self) -> Seq<char>; fn pieces<'x>(&'x self) -> (c: Vec<&'x str>) ensures cflat(c@) == self.shown(); }
/// write!(w, "{s}"): the pieces are written in order until one fails
fn write_shown<S: Shown>(w: &mut Collector, s: &S) -> (r: fmt::Result)
    requires old(w).0@ == tl(Seq::empty())
    ensures r.is_ok() ==> final(w).0@ == tl(s.shown())
{
    let c = s.pieces(); let mut i: usize = 0;
    proof { assert(c@.subrange(0, 0) =~= Seq::empty()); }
    while i < c.len()
        invariant 0 <= i <= c.len(), w.0@ == tl(cflat(c@.subrange(0, i as int)))
        decreases c.len() - i
    {
        proof { assert(c@.subrange(0, i + 1).drop_last() =~= c@.subrange(0, i as int)); }
        w.write_str(c[i], Ghost(cflat(c@.subrange(0, i as int))))?;
        i += 1;
    }
    proof { assert(c@.subrange(0, i as int) =~= c@); }
    Ok(())
}
'''
LEM = r'''
/// trimming the start piece by piece
proof fn lemma_tl(a: Seq<char>, b: Seq<char>)
    ensures tl(a + b) == (if tl(a).len() == 0 { tl(b) } else { tl(a) + b })
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if ws(a[0]) { lemma_tl(a.skip(1), b); assert((a + b)[0] == a[0]); assert((a + b).skip(1) =~= a.skip(1) + b); }
    else { assert((a + b)[0] == a[0]); }
}
proof fn lemma_tr(t: Seq<char>) ensures tr(t).len() <= t.len(), tr(t) == t.subrange(0, tr(t).len() as int) decreases t.len()
{
    if t.len() > 0 && ws(t.last()) { lemma_tr(t.drop_last()); let n = tr(t).len() as int; assert(t.drop_last().subrange(0, n) =~= t.subrange(0, n)); }
    else { assert(t.subrange(0, t.len() as int) =~= t); }
}
/// String::truncate(trim_end().len())
proof fn lemma_prefix(t: Seq<char>)
    ensures 0 <= tr(t).len() <= t.len(), encode_utf8(t.subrange(0, tr(t).len() as int)).len() == encode_utf8(tr(t)).len(),
        t.subrange(0, tr(t).len() as int) == tr(t)
{ lemma_tr(t); }
'''
def casing(b, sn):
    b = re.sub(r'\b(\w+)\.to_(upper|lower)case\(\)\.collect\(\)', lambda m: f'char_{m.group(2)}({m.group(1)})', b)
    b = re.sub(r'\.extend\((\w+)\.to_(upper|lower)case\(\)\)', lambda m: f'.push_str(char_{m.group(2)}({m.group(1)}).as_str())', b)
    b = slice_indexing(b)
    b = re.sub(rf'\b(str_\w+)\({sn},', rf'\1({sn}.as_str(),', b)
    while True:
        m = mask(b); mm = re.search(r'\.to_(upper|lower)case\(\)', m)
        if not mm: break
        j = mm.start()
        if m[j-1] == ')':
            d = 0; k = j - 1
            while True:
                if m[k] == ')': d += 1
                elif m[k] == '(':
                    d -= 1
                    if d == 0: break
                k -= 1
            while k > 0 and (m[k-1].isalnum() or m[k-1] == '_'): k -= 1
            e = b[k:j]
        else:
            k = j
            while k > 0 and (m[k-1].isalnum() or m[k-1] == '_'): k -= 1
            e = b[k:j]
            e = f'{e}.as_str()'
        ref = m[:k].rstrip().endswith('&') or m[:k].rstrip().endswith('push_str(')
        if m[:k].rstrip().endswith('&'): k = m.rindex('&', 0, k)
        b = b[:k] + f'str_{mm.group(1)}({e})' + ('.as_str()' if ref else '') + b[mm.end():]
    b = re.sub(r'\b(\w+)\.chars\(\)\.next\(\)', r'first_char(\1.as_str())', b)
    b = re.sub(r'\b(\w+)\.len_utf8\(\)', r'char_len(\1)', b)
    b = re.sub(r'\b(\w+)\.is_(upper|lower)case\(\)', r'is_\2(\1)', b)
    b = re.sub(r'\b(\w+)\.is_whitespace\(\)', r'is_ws(\1)', b)
    b = re.sub(r'String::with_capacity\([^;]*\)\s*;', 'String::new();', b)
    return b
def unit(repo):
    u = Unit('c08'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.CONCAT + pre.TEXT + 'pub mod fmt { pub struct Error; pub type Result = core::result::Result<(), Error>; }\n' + SPEC)
    u.trust(pre.TEXT_TRUST); u.trust(pre.STR_TRUST)
    u.trust('str::to_lowercase/to_uppercase, char::to_lowercase/to_uppercase, is_whitespace: uninterpreted functions; char::is_uppercase implies to_uppercase is the character itself, is_lowercase alike (checked for every character by the companion)')
    u.trust('str::trim_start, trim_end, split_whitespace().count(), String::truncate by contract over the same whitespace')
    ens = {'lower': 'low', 'upper': 'upp', 'capitalize': 'cap'}
    for n, sp in ens.items():
        outer, inner, tail = inner_outer(s, n); (sn, st), = params(inner.head)
        b = casing(strip_comments(inner.body), sn)
        if n == 'capitalize': b = f' proof {{ if {sn}@.len() > 0 {{ lemma_slice({sn}@); }} }}' + b
        u.fn(n + ' (inner)', inner, f'fn {n}_inner({sn}: String) -> (r: Result<String, Infallible>)', b, ensures=['r.is_ok()', f'r.unwrap()@ =~= {sp}({sn}@)'])
        (a, _), = params(outer.head)
        u.fn(n, outer, f'pub fn {n}<S_: ToText>({a}: S_) -> (r: Result<String, Infallible>)', re.sub(rf'\b{n}\(', f'{n}_inner(', tail), ensures=['r.is_ok()', f'r.unwrap()@ == {sp}({a}.chars_())'])
    for n, sp in (('lowercase', 'low'), ('uppercase', 'upp')):
        f = s.find(rf'pub\s+fn\s+{n}\b'); (a, _), = params(f.head)
        u.fn(n, f, f'pub fn {n}<S_: ToText>({a}: S_) -> (r: Result<String, Infallible>)', strip_comments(f.body), ensures=['r.is_ok()', f'r.unwrap()@ == {sp}({a}.chars_())'])
    outer, inner, tail = inner_outer(s, 'wordcount'); (sn, st), = params(inner.head)
    b = rewrite(strip_comments(inner.body), rf'\b{sn}\.split_whitespace\(\)\.count\(\)', f'count_words({sn}.as_str())', 1)
    u.fn('wordcount (inner)', inner, f'fn wordcount_inner({sn}: String) -> (r: Result<usize, Infallible>)', b, ensures=['r.is_ok()', f'r.unwrap() == words({sn}@)'])
    (a, _), = params(outer.head)
    u.fn('wordcount', outer, f'pub fn wordcount<S_: ToText>({a}: S_) -> (r: Result<usize, Infallible>)', re.sub(r'\bwordcount\(', 'wordcount_inner(', tail), ensures=['r.is_ok()', f'r.unwrap() == words({a}.chars_())'])
    # title
    f = s.find(r'pub\s+fn\s+title\b'); (a, _), = params(f.head); b = strip_comments(f.body)
    g = re.search(rf'let\s+(\w+)\s*=\s*{a}\.to_string\(\)\s*;', b)
    if not g: raise Lost('title: no owned string')
    b = casing(b, g.group(1)); sn = g.group(1)
    need = re.search(r'let\s+mut\s+(\w+)\s*=\s*true\s*;', b); acc = re.search(r'let\s+mut\s+(\w+)\s*=\s*String::new\(\)', b)
    if not need or not acc: raise Lost('title: state')
    need, acc = need.group(1), acc.group(1)
    m = mask(b); mm = re.search(rf'for\s+(\w+)\s+in\s+{sn}\.chars\(\)\s*\{{', m)
    if not mm: raise Lost('title: loop')
    b = (b[:mm.start()] + f'let ghost t_ = {sn}@; let items_ = chars({sn}.as_str()); let mut k_: usize = 0; while k_ < items_.len() {{ let {mm.group(1)} = items_[k_]; k_ += 1;' + b[mm.end():])
    b = add_invariants(b, [f'invariant k_ <= items_.len(), {acc}@ =~= ttl(t_, k_ as int), {need} == start(t_, k_ as int)\n decreases items_.len() - k_'])
    u.fn('title', f, f'pub fn title<S_: ToText>({a}: S_) -> (r: Result<String, Infallible>)', b,
         ensures=['r.is_ok()', f'r.unwrap()@ =~= ttl({a}.chars_(), {a}.chars_().len() as int)'], attrs='#[verifier::loop_isolation(false)]')
    # trim
    f = s.find(r'pub\s+fn\s+trim\b'); (a, _), = params(f.head)
    st = f.sub(r'struct\s+Collector')
    if not re.match(r'struct\s+Collector\(String\);', strip_comments(st.text)): raise Lost('Collector')
    imp = f.sub(r'impl\s+fmt::Write\s+for\s+Collector')
    if need_only(imp, ['write_str']) != {'write_str'}: raise Lost('Collector overrides other methods of Write')
    w = imp.sub(r'fn\s+write_str'); arg = re.search(r'&mut self,\s*(\w+): &str', w.head).group(1)
    def strs(b, extra=''):
        b = re.sub(r'\b((?:self\.)?\w+)\.is_empty\(\)', r'is_empty_string(&\1)', b)
        b = re.sub(r'\b((?:self\.)\w+)\.write_str\(', r'string_write_str(&mut \1, ', b)
        return b
    b = strs(strip_comments(w.body)); b = re.sub(r'\b(\w+)\.trim_start\(\)', r'trim_start(\1)', b)
    u.raw(LEM + 'pub struct Collector(pub String);')
    u.fn('trim::Collector::write_str', w, f'fn write_str(&mut self, {arg}: &str, Ghost(g_): Ghost<Seq<char>>) -> (r: fmt::Result)', f' proof {{ lemma_tl(g_, {arg}@); if tl(g_).len() == 0 {{ assert(tl(g_) + tl({arg}@) =~= tl({arg}@)); }} }}' + b,
         requires=['old(self).0@ == tl(g_)'], ensures=[f'r.is_ok() ==> final(self).0@ =~= tl(g_ + {arg}@)'], before='impl Collector {', after='}')
    u.raw(TRIM)
    rest = strip_comments(f.src.text[max(st.end, imp.end):f.end - 1])
    rest = rewrite(rest, r'write!\(\s*(\w+)\s*,\s*(?:"\{(\w+)\}"|"\{\}"\s*,\s*(\w+))\s*\)', lambda m: f'write_shown(&mut {m.group(1)}, &{m.group(2) or m.group(3)})', 1)
    rest = rewrite(rest, r'let\s+Collector\(mut\s+(\w+)\)\s*=\s*(\w+)\s*;', r'let Collector(q_) = \2; let mut \1 = q_;', 1)
    g = re.search(r'\b(\w+)\.truncate\((\w+)\.trim_end\(\)\.len\(\)\)\s*;', rest)
    if g:
        v = g.group(1)
        rest = rest[:g.start()] + f'proof {{ lemma_prefix({v}@); }} let n_ = strlen_(trim_end({v}.as_str())); string_truncate(&mut {v}, n_);' + rest[g.end():]
    u.fn('trim', f, f'pub fn trim<S_: Shown>({a}: S_) -> (r: Result<String, fmt::Error>)', rest, ensures=[f'(match r {{ Ok(v) => v@ == tr(tl({a}.shown())), Err(_) => true }})'])
    u.drop('inner functions moved out; methods of str/String/char -> free functions with contracts (s.to_lowercase() -> str_lower(s), c.to_uppercase().collect() -> char_upper(c), out.extend(c.to_uppercase()) -> out.push_str(char_upper(c)), ..); '
           '`for c in s.chars()` -> counting while loop; the capacity hint of String::with_capacity; Collector moved out, its write_str with a ghost parameter (text so far); write!(collector, "{s}") -> write_shown, a verified loop over the pieces')
    return u
UNITS = [('case and trim', unit)]
def companion(tier): return run_harness('rt', 'C08', tier)
