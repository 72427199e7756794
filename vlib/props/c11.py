import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
from .c01 import need_only
NOTE = ('The two character sets, the Writer, UrlencodeFilter::fmt, urlencode and urlencode_strict are proved for every text and every split of the value: every byte outside of the set is written as %XX, and the output decodes to the text. '
        'Trusted: percent_encoding::{AsciiSet, NON_ALPHANUMERIC, utf8_percent_encode} by contract, core::fmt by contract.')
SPEC = r'''
pub open spec fn alnum(b: u8) -> bool { 0x30 <= b <= 0x39 || 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a }
pub open spec fn plain(b: u8, slash: bool) -> bool { alnum(b) || b == 0x5f || b == 0x2e || b == 0x2d || b == 0x7e || (slash && b == 0x2f) }
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (0x30 + n) as u8 } else { (0x41 + n - 10) as u8 } }
pub open spec fn hval(b: u8) -> int { if b <= 0x39 { b - 0x30 } else { b - 0x41 + 10 } }
pub open spec fn pct1(b: u8, keep: spec_fn(u8) -> bool) -> Seq<u8> { if b < 128 && keep(b) { seq![b] } else { seq![0x25u8, hexd(b as int / 16), hexd(b as int % 16)] } }
pub open spec fn pct(t: Seq<u8>, keep: spec_fn(u8) -> bool) -> Seq<u8> decreases t.len() { if t.len() == 0 { Seq::empty() } else { pct1(t[0], keep) + pct(t.skip(1), keep) } }
pub proof fn pct_law(a: Seq<u8>, b: Seq<u8>, keep: spec_fn(u8) -> bool)
    ensures pct(a + b, keep) == pct(a, keep) + pct(b, keep)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(pct(a, keep) + pct(b, keep) =~= pct(b, keep)); }
    else { pct_law(a.skip(1), b, keep); assert((a + b).skip(1) =~= a.skip(1) + b); assert(pct(a + b, keep) =~= pct(a, keep) + pct(b, keep)); }
}
/// percent_encoding::AsciiSet: the ASCII characters to encode (all others are always encoded)
#[verifier::external_body]
pub struct AsciiSet { x: [u32; 4] }
impl AsciiSet {
    pub uninterp spec fn enc(&self, b: u8) -> bool;
    #[verifier::external_body]
    pub fn remove(&self, c: u8) -> (r: &'static AsciiSet) requires c < 128 ensures forall|b: u8| #[trigger] r.enc(b) == (self.enc(b) && b != c) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, c: u8) -> (r: &'static AsciiSet) requires c < 128 ensures forall|b: u8| #[trigger] r.enc(b) == (self.enc(b) || b == c) { unimplemented!() }
    pub open spec fn keep(&self) -> spec_fn(u8) -> bool { |b: u8| !self.enc(b) }
}
#[verifier::external_body]
pub fn NON_ALPHANUMERIC() -> (r: &'static AsciiSet) ensures forall|b: u8| b < 128 ==> #[trigger] r.enc(b) == !alnum(b) { unimplemented!() }
#[verifier::external_body]
pub fn CONTROLS() -> (r: &'static AsciiSet) ensures forall|b: u8| b < 128 ==> #[trigger] r.enc(b) == (b < 0x20 || b == 0x7f) { unimplemented!() }
#[verifier::external_body]
pub struct PercentEncode<'x> { x: &'x str }
impl<'x> PercentEncode<'x> { pub uninterp spec fn txt(&self) -> Seq<u8>; }
impl<'x> Display for PercentEncode<'x> {
    open spec fn text(&self) -> Seq<u8> { self.txt() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}
#[verifier::external_body]
pub fn utf8_percent_encode<'x>(s: &'x str, set: &'static AsciiSet) -> (r: PercentEncode<'x>) ensures r.txt() == pct(s.spec_bytes(), set.keep()) { unimplemented!() }
pub open spec fn is_set(a: &AsciiSet, slash: bool) -> bool { forall|b: u8| b < 128 ==> #[trigger] a.enc(b) == !plain(b, slash) }
/// C11: what the filter shows
pub open spec fn url(t: Seq<u8>, slash: bool) -> Seq<u8> { pct(t, |b: u8| plain(b, slash)) }
pub proof fn lemma_set(a: &AsciiSet, slash: bool, t: Seq<u8>)
    requires is_set(a, slash)
    ensures pct(t, a.keep()) == url(t, slash)
    decreases t.len()
{ if t.len() > 0 { lemma_set(a, slash, t.skip(1)); let b = t[0]; if b < 128 { assert(a.enc(b) == !plain(b, slash)); } assert(pct1(t[0], a.keep()) =~= pct1(t[0], |b: u8| plain(b, slash))); } }
/// reading the output back
pub open spec fn dec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == 0x25 && s.len() >= 3 { seq![(hval(s[1]) * 16 + hval(s[2])) as u8] + dec(s.skip(3)) } else { seq![s[0]] + dec(s.skip(1)) }
}
'''
LEM = r'''
/// C11: the output consists of unreserved characters and %XX, and decodes to the text
pub proof fn c11(t: Seq<u8>, slash: bool)
    ensures dec(url(t, slash)) == t,
        forall|k: int| 0 <= k < url(t, slash).len() ==> plain(#[trigger] url(t, slash)[k], slash) || url(t, slash)[k] == 0x25
    decreases t.len()
{
    let keep = |b: u8| plain(b, slash);
    if t.len() > 0 {
        c11(t.skip(1), slash);
        let p = pct1(t[0], keep); let r = pct(t.skip(1), keep); let o = p + r;
        assert(url(t, slash) == o);
        assert(t =~= seq![t[0]] + t.skip(1));
        if t[0] < 128 && keep(t[0]) { assert(o[0] == t[0]); assert(o.skip(1) =~= r); }
        else {
            assert(o.len() == r.len() + 3); assert(o[0] == 0x25); assert(o[1] == hexd(t[0] as int / 16)); assert(o[2] == hexd(t[0] as int % 16));
            assert(o.skip(3) =~= r);
            assert((hval(o[1]) * 16 + hval(o[2])) as u8 == t[0]);
            assert(plain(o[1], slash) && plain(o[2], slash));
        }
        assert forall|k: int| 0 <= k < o.len() implies plain(#[trigger] o[k], slash) || o[k] == 0x25 by {
            if k >= p.len() { assert(o[k] == r[k - p.len()]); assert(url(t.skip(1), slash)[k - p.len()] == r[k - p.len()]); } else { assert(o[k] == p[k]); }
        }
    }
}
'''
def unit(repo):
    u = Unit('c11'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.FMT + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.FMT_TRUST); u.trust('percent_encoding by contract: AsciiSet::{add, remove}, NON_ALPHANUMERIC, CONTROLS, utf8_percent_encode (%XX with upper-case digits for every byte in the set or above 0x7f)')
    names = {}
    for n, slash in (('URLENCODE_STRICT_SET', 'false'), ('URLENCODE_SET', 'true')):
        c = s.find(rf'const\s+{n}\b'); t = strip_comments(c.text)
        g = re.match(r'const\s+\w+\s*:\s*&AsciiSet\s*=\s*(.*);$', t.strip(), re.S)
        if not g: raise Lost(n)
        e = re.sub(r"b'(\\?.)'", lambda m: f"{ord(m.group(1)[-1])}u8", g.group(1)); e = re.sub(r'\b(URLENCODE_STRICT_SET|URLENCODE_SET|NON_ALPHANUMERIC|CONTROLS)\b', r'\1()', e)
        e = re.sub(r'^\s*&', '', e)
        u.fn(n, c, f"pub fn {n}() -> (r: &'static AsciiSet)", e, ensures=[f'is_set(r, {slash})'])
    st = s.find(r'struct\s+UrlencodeFilter')
    if not re.search(r"\(T, &'static AsciiSet\)", strip_comments(st.text)): raise Lost('UrlencodeFilter')
    u.raw("pub struct UrlencodeFilter<T>(pub T, pub &'static AsciiSet);")
    imp = s.find(r'impl<T:\s*fmt::Display>\s*fmt::Display\s+for\s+UrlencodeFilter'); outer = imp.sub(r'fn\s+fmt\b')
    st = outer.sub(r'struct\s+Writer'); wi = outer.sub(r'impl\s+fmt::Write\s+for\s+Writer')
    if not re.search(r"\(&'a mut fmt::Formatter<'b>, &'static AsciiSet\)", strip_comments(st.text)): raise Lost('Writer')
    if need_only(wi, ['write_str']) != {'write_str'}: raise Lost('Writer overrides other methods of Write')
    u.raw("pub struct Writer<'a, 'b>(pub &'a mut Formatter<'b>, pub &'static AsciiSet);")
    def wd(kind, dest, pieces):
        if kind != 'write' or len(pieces) != 1 or pieces[0][0] != 'arg': raise Lost(kind)
        if re.match(r'^[\w.]+$', dest): return f'fmt::write_display({dest}, &{pieces[0][1]})'
        return f'{{ let mut w_ = {dest}; fmt::write_display(&mut w_, &{pieces[0][1]}) }}'
    f = wi.sub(r'fn\s+write_str'); arg = re.search(r'&mut self,\s*(\w+): &str', f.head).group(1)
    u.fn('urlencode::Writer::write_str', f, f'fn write_str(&mut self, {arg}: &str) -> (r: fmt::Result)', format_to(strip_comments(f.body), wd),
         ensures=[f'r.is_ok() ==> (*final(self)).out() == old(self).out() + old(self).img({arg}.spec_bytes())'],
         before='''impl<'a, 'b> Write for Writer<'a, 'b> {
    open spec fn out(&self) -> Seq<u8> { (*self.0).out() }
    open spec fn img(&self, s: Seq<u8>) -> Seq<u8> { pct(s, self.1.keep()) }
    proof fn law(&self, a: Seq<u8>, b: Seq<u8>) { pct_law(a, b, self.1.keep()); }
    #[verifier::prophetic] open spec fn frame(&self, o: &Self) -> bool { *final(self.0) == *final(o.0) && self.1 == o.1 }
    proof fn frame_refl(&self) {}''', after='}')
    rest = strip_comments(outer.src.text[max(st.end, wi.end):outer.end - 1]); fa = re.search(r'(\w+): &mut fmt::Formatter', outer.head).group(1)
    u.fn('UrlencodeFilter::fmt', outer, f"fn fmt_(&self, {fa}: &mut Formatter<'_>) -> (r: fmt::Result)", format_to(rest, wd),
         ensures=[f'r.is_ok() ==> final({fa}).bytes() == old({fa}).bytes() + pct(self.0.text(), self.1.keep())'], before='impl<T: Display> UrlencodeFilter<T> {', after='}')
    for n, slash in (('urlencode', 'true'), ('urlencode_strict', 'false')):
        f = s.find(rf'pub\s+fn\s+{n}<'); (a, _), = params(f.head)
        b = re.sub(r'\b(URLENCODE_STRICT_SET|URLENCODE_SET)\b', r'\1()', strip_comments(f.body))
        u.fn(n, f, f'pub fn {n}<T: Display>({a}: T) -> (r: Result<UrlencodeFilter<T>, Infallible>)', b, ensures=['r.is_ok()', f'r.unwrap().0 == {a}', f'is_set(r.unwrap().1, {slash})'])
    u.raw('''
/// displaying the filters
pub fn show<T: Display>(v: T, w: T, f: &mut Formatter<'_>) -> (r: fmt::Result)
    ensures r.is_ok() ==> final(f).bytes() == old(f).bytes() + url(v.text(), true) + url(w.text(), false)
{
    let a = match urlencode(v) { Ok(a) => a, Err(_) => { return Ok(()); } };
    let b = match urlencode_strict(w) { Ok(b) => b, Err(_) => { return Ok(()); } };
    proof { lemma_set(a.1, true, v.text()); lemma_set(b.1, false, w.text()); }
    a.fmt_(f)?;
    b.fmt_(f)
}
''' + LEM)
    u.drop('the constants as functions with contracts; Writer moved out of the function; write!(w, "{}", t) -> write_display(w, &t), verified; `impl Display` named')
    return u
UNITS = [('urlencode', unit)]
def companion(tier): return run_harness('rt', 'C11', tier)
