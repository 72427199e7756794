import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
from .c01 import need_only
FJ = 'askama/src/filters/json.rs'
NOTE = ('write, JsonWriter::{write, write_all} and ToJson::fmt are proved for every document and every split of it: no byte & < > \' in the output, every write is valid UTF-8, and every JSON string body decodes to what it decoded to before. '
        'Trusted: serde_json writes valid JSON of the value in valid UTF-8 pieces; the four characters occur in JSON inside of strings only; core::fmt by contract.')
SPEC = r'''
pub open spec fn hot(b: u8) -> bool { b == 0x26 || b == 0x27 || b == 0x3c || b == 0x3e }
pub open spec fn hx(b: u8) -> u8 { if b == 0x26 { 0x36 } else if b == 0x27 { 0x37 } else if b == 0x3c { 0x63 } else { 0x65 } }
pub open spec fn j1(b: u8) -> Seq<u8> { if hot(b) { seq![0x5cu8, 0x75, 0x30, 0x30, if b < 0x30 { 0x32u8 } else { 0x33u8 }, hx(b)] } else { seq![b] } }
pub open spec fn js(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { js(s.drop_last()) + j1(s.last()) } }
pub proof fn js_law(a: Seq<u8>, b: Seq<u8>)
    ensures js(a + b) == js(a) + js(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(js(a) + js(b) =~= js(a)); }
    else {
        js_law(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        assert(js(a + b) =~= js(a) + js(b));
    }
}
pub proof fn lemma_plain(s: Seq<u8>, a: int, b: int)
   requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> !hot(#[trigger] s[k])
   ensures js(s.subrange(0, b)) == js(s.subrange(0, a)) + s.subrange(a, b)
   decreases b - a
{
    if a < b {
        lemma_plain(s, a, b - 1);
        assert(s.subrange(0, b).drop_last() =~= s.subrange(0, b - 1));
        assert(s.subrange(a, b) =~= s.subrange(a, b - 1) + seq![s[b-1]]);
        assert(js(s.subrange(0, b)) =~= js(s.subrange(0, a)) + s.subrange(a, b));
    } else {
        assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        assert(js(s.subrange(0, b)) =~= js(s.subrange(0, a)) + s.subrange(a, b));
    }
}
pub proof fn lemma_step(s: Seq<u8>, i: int)
   requires 0 <= i < s.len()
   ensures js(s.subrange(0, i + 1)) == js(s.subrange(0, i)) + j1(s[i])
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
/// parts between boundaries are valid
pub proof fn lemma_part(s: Seq<u8>, a: int, b: int)
    requires valid_utf8(s), 0 <= a <= b <= s.len(), is_char_boundary(s, a), is_char_boundary(s, b)
    ensures valid_utf8(s.subrange(a, b))
{
    valid_utf8_split(s, b);
    let p = s.subrange(0, b);
    lemma_bnd(s, a); lemma_bnd(p, a);
    valid_utf8_split(p, a);
    assert(p.subrange(a, b) =~= s.subrange(a, b));
}
/// "the escape of b", as text
pub open spec fn lit(b: u8) -> &'static str { if b == 0x26 { "\\u0026" } else if b == 0x27 { "\\u0027" } else if b == 0x3c { "\\u003c" } else { "\\u003e" } }
pub proof fn lemma_lit(b: u8)
    requires hot(b)
    ensures lit(b).spec_bytes() == j1(b)
{
    reveal_strlit("\\u0026"); reveal_strlit("\\u0027"); reveal_strlit("\\u003c"); reveal_strlit("\\u003e");
    let l = lit(b)@;
    is_ascii_chars_encode_utf8(l);
    assert(lit(b).spec_bytes() =~= j1(b)) by {
        assert(l.len() == 6);
        assert(forall|k: int| 0 <= k < 6 ==> lit(b).spec_bytes()[k] == #[trigger] l[k] as u8);
        assert(l[0] == '\\' && l[1] == 'u' && l[2] == '0' && l[3] == '0');
    }
}
#[verifier::external_body]
pub fn unchecked<'x>(v: &'x [u8]) -> (r: &'x str) requires valid_utf8(v@) ensures r.spec_bytes() == v@ { unsafe { core::str::from_utf8_unchecked(v) } }
#[verifier::external_body]
pub fn slice_range<'x>(v: &'x [u8], a: usize, b: usize) -> (r: &'x [u8]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
#[verifier::external_body]
pub fn slice_from<'x>(v: &'x [u8], a: usize) -> (r: &'x [u8]) requires a <= v@.len() ensures r@ == v@.subrange(a as int, v@.len() as int) { &v[a..] }
#[verifier::external_body]
pub fn slice_to<'x>(v: &'x [u8], b: usize) -> (r: &'x [u8]) requires b <= v@.len() ensures r@ == v@.subrange(0, b as int) { &v[..b] }
/// std::io
pub mod io {
    use vstd::prelude::*;
    pub struct Error; pub enum ErrorKind { InvalidData, Other, WriteZero, UnexpectedEof, InvalidInput, Interrupted }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error { pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) { Error } }
}
pub open spec fn jflat(c: Seq<Vec<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { jflat(c.drop_last()) + c.last()@ } }
/// serde: the JSON document of the value, or an error
pub trait Serialize {
    spec fn doc(&self) -> Seq<u8>;
    /// the pieces in which serde_json writes the document, all of them valid UTF-8; None: not serializable
    fn pieces(&self) -> (r: Option<Vec<Vec<u8>>>) ensures match r { Some(c) => jflat(c@) == self.doc() && forall|k: int| 0 <= k < c.len() ==> valid_utf8(#[trigger] c@[k]@), None => true };
}
'''
DRIVER = r'''
/// serde_json::to_writer_pretty: the pieces go to write_all in order until one fails
fn to_writer_pretty<S: Serialize>(w0: JsonWriter<'_, '_>, v: &S) -> (r: Result<(), io::Error>)
    ensures r.is_ok() ==> (*final(w0.0)).bytes() =~= (*old(w0.0)).bytes() + js(v.doc())
{
    let mut w = w0;
    let Some(c) = v.pieces() else { return Err(io::Error); };
    let mut i: usize = 0;
    proof { assert(c@.subrange(0, 0) =~= Seq::empty()); }
    while i < c.len()
        invariant 0 <= i <= c.len(), (*w.0).bytes() =~= (*w0.0).bytes() + js(jflat(c@.subrange(0, i as int))), *final(w.0) == *final(w0.0),
            forall|k: int| 0 <= k < c.len() ==> valid_utf8(#[trigger] c@[k]@)
        decreases c.len() - i
    {
        proof { assert(c@.subrange(0, i + 1).drop_last() =~= c@.subrange(0, i as int)); js_law(jflat(c@.subrange(0, i as int)), c@[i as int]@); }
        w.write_all(c[i].as_slice())?;
        i += 1;
    }
    proof { assert(c@.subrange(0, i as int) =~= c@); }
    Ok(())
}
'''
LEM = r'''
/// the body of a JSON string, byte by byte; None: not well-formed
pub open spec fn hexv(b: u8) -> Option<int> { if 0x30 <= b <= 0x39 { Some(b - 0x30) } else if 0x61 <= b <= 0x66 { Some(b - 0x61 + 10) } else if 0x41 <= b <= 0x46 { Some(b - 0x41 + 10) } else { None } }
pub enum Unit_ { Byte(u8), Code(int) }
pub open spec fn simple(b: u8) -> bool { b == 0x22 || b == 0x5c || b == 0x2f || b == 0x62 || b == 0x66 || b == 0x6e || b == 0x72 || b == 0x74 }
pub open spec fn val(b: u8) -> u8 { if b == 0x62 { 8 } else if b == 0x66 { 12 } else if b == 0x6e { 10 } else if b == 0x72 { 13 } else if b == 0x74 { 9 } else { b } }
/// \u00XX below 0x80 is the same as the character itself
pub open spec fn code(c: int) -> Unit_ { if c < 0x80 { Unit_::Byte(c as u8) } else { Unit_::Code(c) } }
pub open spec fn body(s: Seq<u8>) -> Option<Seq<Unit_>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == 0x22 || s[0] < 0x20 { None }
    else if s[0] != 0x5c { match body(s.skip(1)) { Some(r) => Some(seq![Unit_::Byte(s[0])] + r), None => None } }
    else if s.len() >= 2 && simple(s[1]) { match body(s.skip(2)) { Some(r) => Some(seq![Unit_::Byte(val(s[1]))] + r), None => None } }
    else if s.len() >= 6 && s[1] == 0x75 {
        match (hexv(s[2]), hexv(s[3]), hexv(s[4]), hexv(s[5]), body(s.skip(6))) {
            (Some(a), Some(b), Some(c), Some(d), Some(r)) => Some(seq![code(a * 4096 + b * 256 + c * 16 + d)] + r),
            _ => None,
        }
    }
    else { None }
}
pub proof fn js_front(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures js(s) == js(s.subrange(0, n)) + js(s.skip(n))
{ js_law(s.subrange(0, n), s.skip(n)); assert(s.subrange(0, n) + s.skip(n) =~= s); }
pub proof fn js_cold(s: Seq<u8>)
    requires forall|k: int| 0 <= k < s.len() ==> !hot(#[trigger] s[k])
    ensures js(s) == s
    decreases s.len()
{ if s.len() > 0 { js_cold(s.drop_last()); assert(js(s) =~= s.drop_last() + seq![s.last()]); assert(s.drop_last() + seq![s.last()] =~= s); } }
/// C10: a string body decodes to the same as before
pub proof fn c10(s: Seq<u8>)
    requires body(s) is Some
    ensures body(js(s)) == body(s)
    decreases s.len()
{
    if s.len() == 0 { assert(js(s) =~= s); }
    else if s[0] != 0x5c {
        c10(s.skip(1)); js_front(s, 1);
        let h = s.subrange(0, 1);
        assert(h.drop_last() =~= Seq::<u8>::empty()); assert(js(h.drop_last()) =~= Seq::<u8>::empty()); assert(h.last() == s[0]); assert(js(h) == js(h.drop_last()) + j1(h.last())); assert(js(h) =~= j1(s[0]));
        let o = js(s);
        if hot(s[0]) {
            assert(o.skip(6) =~= js(s.skip(1)));
            assert(o[0] == 0x5c && o[1] == 0x75 && o[2] == 0x30 && o[3] == 0x30);
            assert(o[4] == (if s[0] < 0x30 { 0x32u8 } else { 0x33u8 })); assert(o[5] == hx(s[0]));
            assert(!simple(0x75));
        } else { assert(o[0] == s[0]); assert(o.skip(1) =~= js(s.skip(1))); }
    } else if simple(s[1]) {
        c10(s.skip(2)); js_front(s, 2);
        assert(s.subrange(0, 2) =~= seq![s[0], s[1]]); js_cold(seq![s[0], s[1]]);
        let o = js(s); assert(o[0] == s[0] && o[1] == s[1]); assert(o.skip(2) =~= js(s.skip(2)));
    } else {
        c10(s.skip(6)); js_front(s, 6);
        let h = s.subrange(0, 6);
        assert forall|k: int| 0 <= k < 6 implies !hot(#[trigger] h[k]) by { assert(h[k] == s[k]); }
        js_cold(h);
        let o = js(s); assert forall|k: int| 0 <= k < 6 implies #[trigger] o[k] == s[k] by { assert(o[k] == h[k]); } assert(o.skip(6) =~= js(s.skip(6)));
    }
}
/// C10: none of the four characters
pub proof fn c10_inert(s: Seq<u8>)
    ensures forall|k: int| 0 <= k < js(s).len() ==> !hot(#[trigger] js(s)[k])
    decreases s.len()
{
    if s.len() > 0 {
        c10_inert(s.drop_last());
        let a = js(s.drop_last()); let b = j1(s.last());
        assert forall|k: int| 0 <= k < js(s).len() implies !hot(#[trigger] js(s)[k]) by { if k < a.len() { assert(js(s)[k] == a[k]); } else { assert(js(s)[k] == b[k - a.len()]); } }
    }
}
'''
def byte_lits(t):
    t = re.sub(r"b'(\\?.)'", lambda m: f"{ord(m.group(1)[-1])}u8", t)
    def f(m):
        x = m.group(1)
        if '"' in x: raise Lost('byte string')
        return '"' + x.replace('\\', '\\\\') + '".as_bytes()'
    t = re.sub(r'\bbr"([^"]*)"', f, t)
    t = re.sub(r'\bb"([^"]*)"', r'"\1".as_bytes()', t)
    return t
def slices(text):
    return re.sub(r'\bstr_(range|from|to)\(', r'slice_\1(', slice_indexing(text))
def map_errs(b):
    """E.map_err(|x| y) -> match E { Ok(v) => Ok(v), Err(x) => Err(y) }, at the end of a statement"""
    while True:
        m = mask(b); mm = re.search(r'\.map_err\(', m)
        if not mm: return b
        c = match_close(m, mm.end() - 1); g = re.match(r'\s*\|\s*(\w+)\s*\|\s*(.*)$', b[mm.end():c], re.S)
        if not g: raise Lost('map_err')
        # the receiver: back to the start of the statement
        k = max(m.rfind(';', 0, mm.start()), m.rfind('{', 0, mm.start())) + 1
        b = b[:k] + f' match {b[k:mm.start()]} {{ Ok(v_) => Ok(v_), Err({g.group(1)}) => Err({g.group(2)}) }}' + b[c+1:]
def unit(repo):
    u = Unit('c10'); s = Src(repo, FJ)
    u.use(pre.USES); u.raw(pre.STR + pre.BOUNDARY + pre.CONCAT + pre.FMT + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.FMT_TRUST); u.trust('serde_json::to_writer_pretty hands a valid JSON document of the value to write_all in pieces of valid UTF-8, in order, until one fails; outside of its strings the document contains none of & < > \'')
    f = s.find(r'fn\s+write\(\s*\w+: &mut fmt::Formatter'); (fa, _), (ba, _) = params(f.head)
    b = byte_lits(strip_comments(f.body))
    b = re.sub(r'unsafe\s*\{\s*(?:core::|std::)?str::from_utf8_unchecked\(', 'UNCHK(', b)
    while 'UNCHK(' in b:
        m = mask(b); o = b.index('UNCHK(') + 5; c = match_close(m, o); e = m.index('}', c)
        if b[c+1:e].strip(): raise Lost('unsafe block')
        b = b[:o-5] + 'unchecked' + b[o:c+1] + b[e+1:]
    b = slices(b)
    m = mask(b)
    lm = re.search(r'let mut (\w+)(?:: usize)? = 0;', m)
    mm = re.search(rf'for\s*\(\s*(\w+)\s*,\s*(&?)(\w+)\s*\)\s*in\s*{ba}\.iter\(\)(\.copied\(\))?\.enumerate\(\)\s*\{{', m)
    if not lm or not mm: raise Lost('loop of write')
    last = lm.group(1); i, amp, by = mm.group(1), mm.group(2), mm.group(3)
    elem = f'let {by} = {ba}[index_];'
    start = f'proof {{ let i_ = index_ as int; lemma_plain({ba}@, {last} as int, i_); lemma_step({ba}@, i_); if hot({ba}@[i_]) {{ lemma_boundary({ba}@, i_); lemma_part({ba}@, {last} as int, i_); lemma_lit({ba}@[i_]); encode_utf8_valid_utf8(lit({ba}@[i_])@); }} }}'
    inv = f'''invariant valid_utf8({ba}@), 0 <= {last} <= index_ <= {ba}@.len(), is_char_boundary({ba}@, {last} as int),
        forall|k: int| {last} <= k < index_ ==> !hot(#[trigger] {ba}@[k]),
        {fa}.bytes() =~= old({fa}).bytes() + js({ba}@.subrange(0, {last} as int))'''
    b = b[:mm.start()] + f'let mut index_: usize = 0; while index_ < {ba}.len()\n{inv}\n decreases {ba}@.len() - index_\n{{ let {i} = index_; {elem} {start} index_ += 1;' + b[mm.end():]
    k = loop_positions(b)[0][2]; e = match_close(mask(b), k) + 1
    end = f' proof {{ let n_ = {ba}@.len() as int; lemma_plain({ba}@, {last} as int, n_); assert({ba}@.subrange(0, n_) =~= {ba}@); is_char_boundary_start_end_of_seq({ba}@); lemma_part({ba}@, {last} as int, n_); }}'
    b = b[:e] + end + b[e:]
    b = b.replace(lm.group(0), lm.group(0) + f' proof {{ is_char_boundary_start_end_of_seq({ba}@); assert({ba}@.subrange(0, 0) =~= Seq::<u8>::empty()); }}', 1)
    u.fn('json::write', f, f"fn write({fa}: &mut fmt::Formatter<'_>, {ba}: &[u8]) -> (r: fmt::Result)", b,
         requires=[f'valid_utf8({ba}@)'], ensures=[f'r.is_ok() ==> final({fa}).bytes() =~= old({fa}).bytes() + js({ba}@)'], attrs='#[verifier::loop_isolation(false)]')
    st = s.find(r'struct\s+JsonWriter')
    if not re.search(r"\(&'a mut fmt::Formatter<'b>\)", strip_comments(st.text)): raise Lost('JsonWriter')
    u.raw("pub struct JsonWriter<'a, 'b>(pub &'a mut Formatter<'b>);")
    imp = s.find(r'impl\s+io::Write\s+for\s+JsonWriter')
    if not need_only(imp, ['write', 'write_all']) <= {'write', 'write_all', 'flush'}: raise Lost('methods of JsonWriter')
    for n, ret, ens in (('write_all', '()', []), ('write', 'usize', ['r.is_ok() ==> r->Ok_0 == {0}@.len()'])):
        f = imp.sub(rf'fn\s+{n}\b'); arg = re.search(r'&mut self,\s*(\w+): &\[u8\]', f.head).group(1)
        u.fn('JsonWriter::' + n, f, f'fn {n}(&mut self, {arg}: &[u8]) -> (r: io::Result<{ret}>)', map_errs(strip_comments(f.body)),
             requires=[f'valid_utf8({arg}@)'],
             ensures=[f'r.is_ok() ==> (*final(self).0).bytes() =~= (*old(self).0).bytes() + js({arg}@)', '*final(final(self).0) == *final(old(self).0)'] + [e.format(arg) for e in ens],
             before="impl<'a, 'b> JsonWriter<'a, 'b> {", after='}')
    u.raw(DRIVER)
    st = s.find(r'struct\s+ToJson')
    if not re.search(r'\(S\)', strip_comments(st.text)): raise Lost('ToJson')
    u.raw('pub struct ToJson<S>(pub S);')
    imp = s.find(r'impl<S:\s*Serialize>\s*fmt::Display\s+for\s+ToJson'); f = imp.sub(r'fn\s+fmt\b'); fa = re.search(r'(\w+): &mut fmt::Formatter', f.head).group(1)
    u.fn('ToJson::fmt', f, f"fn fmt_(&self, {fa}: &mut Formatter<'_>) -> (r: fmt::Result)", map_errs(strip_comments(f.body)),
         ensures=[f'r.is_ok() ==> final({fa}).bytes() =~= old({fa}).bytes() + js(self.0.doc())'], before='impl<S: Serialize> ToJson<S> {', after='}')
    f = s.find(r'pub\s+fn\s+json<'); (a, _), = params(f.head)
    u.fn('json', f, f'pub fn json<S: Serialize>({a}: S) -> (r: Result<ToJson<S>, Infallible>)', strip_comments(f.body), ensures=['r.is_ok()', f'r.unwrap().0 == {a}'])
    u.raw(LEM)
    u.drop('byte literals as numbers, byte strings as "..".as_bytes(); `for (i, b) in bytes.iter().enumerate()` -> counting while loop (b by value); `unsafe { str::from_utf8_unchecked(x) }` -> unchecked(x), whose precondition (valid UTF-8) is proved; '
           'slices -> slice_range(..) etc.; E.map_err(|x| y) -> match; io::Write methods as inherent ones; `impl Display` named')
    return u
UNITS = [('json', unit)]
def companion(tier): return run_harness('rt', 'C10', tier)
