import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..common import run_harness
from .c01 import need_only

F = 'askama/src/filters/mod.rs'
NOTE = ('Writer::write_str, write_char, write_fmt, TruncateFilter::fmt and truncate are proved: for all strings, lengths and splits of the value into strings and characters a successful '
        'display is exactly the specified truncation, without overflow, and without slicing off a boundary. Trusted: core::fmt and str by contract.')

SPEC = r'''
/// the end of the text that is kept, if anything is removed
pub open spec fn cut(t: Seq<u8>, n: int, m: int) -> bool { n <= m < t.len() && bnd(t, m) && nobnd(t, n, m) }
pub open spec fn nobnd(t: Seq<u8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> !#[trigger] bnd(t, k) }
/// nothing would be removed
pub open spec fn keeps(t: Seq<u8>, n: int) -> bool { nobnd(t, n, t.len() as int) }
pub open spec fn dots() -> Seq<u8> { "...".spec_bytes() }
/// C05
pub open spec fn truncated(t: Seq<u8>, n: int, o: Seq<u8>) -> bool {
    (keeps(t, n) && o == t) || exists|m: int| #[trigger] cut(t, n, m) && o == t.subrange(0, m) + dots()
}
pub open spec fn left(c: Seq<u8>, n: int) -> int { if c.len() <= n { n - c.len() } else { 0 } }
pub proof fn lemma_piece(base: Seq<u8>, c: Seq<u8>, s: Seq<u8>, n: int)
    requires valid_utf8(c), valid_utf8(s), 0 <= n
    ensures forall|k: int| 0 <= k <= s.len() ==> is_char_boundary(s, k) == #[trigger] bnd(s, k),
        forall|k: int| 0 <= k <= s.len() ==> #[trigger] bnd(c + s, c.len() + k) == bnd(s, k),
        forall|k: int| 0 <= k < c.len() ==> #[trigger] bnd(c + s, k) == bnd(c, k),
        bnd(s, 0), valid_utf8(c + s),
        forall|k: int| c.len() <= k <= c.len() + s.len() ==> #[trigger] bnd(c + s, k) == bnd(s, k - c.len()),
        // what a cut inside of s means for c + s
        forall|j: int| #![trigger s.subrange(0, j)] keeps(c, n) && left(c, n) <= j < s.len() && bnd(s, j) && nobnd(s, left(c, n), j)
            ==> cut(c + s, n, c.len() + j)
                && base + c + s.subrange(0, j) + dots() =~= base + ((c + s).subrange(0, c.len() + j) + dots())
                && (j == 0 ==> base + c + dots() =~= base + ((c + s).subrange(0, c.len() + j) + dots())),
        keeps(c, n) && nobnd(s, left(c, n), s.len() as int) ==> keeps(c + s, n),
        // a cut stays where it is
        forall|m: int| #[trigger] cut(c, n, m) ==> cut(c + s, n, m) && (c + s).subrange(0, m) =~= c.subrange(0, m),
        s.len() == 0 ==> c + s =~= c,
        s.subrange(0, 0) =~= Seq::<u8>::empty(),
{
    lemma_valid_concat(c, s);
    assert forall|k: int| 0 <= k <= s.len() implies is_char_boundary(s, k) == #[trigger] bnd(s, k) by { lemma_bnd(s, k); }
    lemma_bnd_0(s);
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] bnd(c + s, c.len() + k) == bnd(s, k) by {}
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] bnd(c + s, k) == bnd(c, k) by {}
    assert forall|k: int| c.len() <= k <= c.len() + s.len() implies #[trigger] bnd(c + s, k) == bnd(s, k - c.len()) by { assert(bnd(c + s, c.len() + (k - c.len())) == bnd(s, k - c.len())); }
}
/// the state of a Writer after it was given c, if it started with the destination d holding base
pub open spec fn running(w: &Writer<'_, '_>, c: Seq<u8>, n: int, base: Seq<u8>) -> bool {
    w.dest matches Some(d) ==> keeps(c, n) && (*d).bytes() == base + c && w.remaining == left(c, n)
}
'''
STEP = r'''r.is_ok() ==> match (old(self).dest, final(self).dest) {
        (Some(d), Some(e)) => *final(d) == *final(e) && (*e).bytes() =~= gb_ + (gc_ + TEXT) && keeps(gc_ + TEXT, gn_) && final(self).remaining == left(gc_ + TEXT, gn_),
        (Some(d), None) => exists|m: int| #[trigger] cut(gc_ + TEXT, gn_, m) && (*final(d)).bytes() =~= gb_ + ((gc_ + TEXT).subrange(0, m) + dots()),
        (None, None) => true,
        (None, Some(_)) => false,
    }'''
GH = 'Ghost(gc_): Ghost<Seq<u8>>, Ghost(gn_): Ghost<int>, Ghost(gb_): Ghost<Seq<u8>>'
GA = 'Ghost(gc_), Ghost(gn_), Ghost(gb_)'

DRIVER = r'''
/// a piece that a value writes: a string or a character (write_fmt of a Formatter ends in these two)
pub enum Piece<'x> { S(&'x str), C(char) }
pub open spec fn ptext(p: Piece<'_>) -> Seq<u8> { match p { Piece::S(s) => s.spec_bytes(), Piece::C(c) => encode_utf8(seq![c]) } }
pub open spec fn pflat(c: Seq<Piece<'_>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { pflat(c.drop_last()) + ptext(c.last()) } }
#[verifier::external_body]
pub struct Arguments<'x> { s: &'x str }
impl<'x> Arguments<'x> {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn pieces(&self) -> (c: Vec<Piece<'x>>) ensures pflat(c@) == self.text() { unimplemented!() }
    /// format_args!("{}", t)
    #[verifier::external_body]
    pub fn of<T: Display>(t: &'x T) -> (r: Arguments<'x>) ensures r.text() == t.text() { unimplemented!() }
}
#[verifier::external_body]
pub fn char_str(c: char) -> (r: &'static str) ensures r.spec_bytes() == encode_utf8(seq![c]) { unimplemented!() }
proof fn lemma_pvalid(c: Seq<Piece<'_>>)
    ensures valid_utf8(pflat(c))
    decreases c.len()
{
    if c.len() == 0 { decode_utf8_encode_utf8(Seq::<u8>::empty()); encode_utf8_valid_utf8(Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
    else {
        lemma_pvalid(c.drop_last());
        match c.last() { Piece::S(s) => {}, Piece::C(ch) => { encode_utf8_valid_utf8(seq![ch]); } }
        lemma_valid_concat(pflat(c.drop_last()), ptext(c.last()));
    }
}
/// core::fmt::write(w, args): the pieces go to write_str and write_char in order, until one fails
#[verifier::loop_isolation(false)]
fn fmt_write<'a, 'b>(w: &mut Writer<'a, 'b>, args: Arguments<'_>, Ghost(gn_): Ghost<int>, Ghost(gb_): Ghost<Seq<u8>>) -> (r: fmt::Result)
    requires 0 <= gn_, running(old(w), Seq::empty(), gn_, gb_), old(w).dest is Some
    ensures r.is_ok() ==> match (old(w).dest, final(w).dest) {
        (Some(d), Some(e)) => *final(d) == *final(e) && (*e).bytes() =~= gb_ + args.text() && keeps(args.text(), gn_),
        (Some(d), None) => exists|m: int| #[trigger] cut(args.text(), gn_, m) && (*final(d)).bytes() =~= gb_ + (args.text().subrange(0, m) + dots()),
        _ => false,
    }
{
    let c = args.pieces(); let mut i: usize = 0;
    proof { assert(c@.subrange(0, 0) =~= Seq::empty()); }
    while i < c.len()
        invariant 0 <= i <= c.len(),
            match (old(w).dest, w.dest) {
                (Some(d), Some(e)) => *final(d) == *final(e) && (*e).bytes() =~= gb_ + pflat(c@.subrange(0, i as int)) && keeps(pflat(c@.subrange(0, i as int)), gn_) && w.remaining == left(pflat(c@.subrange(0, i as int)), gn_),
                (Some(d), None) => exists|m: int| #[trigger] cut(pflat(c@.subrange(0, i as int)), gn_, m) && (*final(d)).bytes() =~= gb_ + (pflat(c@.subrange(0, i as int)).subrange(0, m) + dots()),
                _ => false,
            }
        decreases c.len() - i
    {
        let ghost h = pflat(c@.subrange(0, i as int));
        proof {
            lemma_pvalid(c@.subrange(0, i as int));
            match c@[i as int] { Piece::S(s) => {}, Piece::C(ch) => { encode_utf8_valid_utf8(seq![ch]); } }
            lemma_piece(gb_, h, ptext(c@[i as int]), gn_);
            assert(c@.subrange(0, i + 1).drop_last() =~= c@.subrange(0, i as int));
        }
        match &c[i] {
            Piece::S(s) => w.write_str(*s, Ghost(h), Ghost(gn_), Ghost(gb_))?,
            Piece::C(ch) => w.write_char(*ch, Ghost(h), Ghost(gn_), Ghost(gb_))?,
        }
        i += 1;
    }
    proof { assert(c@.subrange(0, i as int) =~= c@); }
    Ok(())
}
/// the end of the life of a Writer
fn drop_writer(w: Writer<'_, '_>) ensures w.dest matches Some(d) ==> *final(d) == *d { if let Some(d) = w.dest { done(d) } }
'''

def unit(repo):
    u = Unit('c05'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.CONCAT + pre.FMT + pre.BORROW + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.FMT_TRUST); u.trust('fmt::Arguments: format_args!("{}", t) writes what t writes; char::encode_utf8 gives the UTF-8 form of the character')
    imp = s.find(r'impl<S:\s*fmt::Display>\s*fmt::Display\s+for\s+TruncateFilter<S>')
    outer = imp.sub(r'fn\s+fmt\b')
    st = outer.sub(r'struct\s+Writer'); fields = [re.sub(r'\s+', ' ', strip_comments(x)).strip() for x in split_args(st.body)]
    if fields != ["dest: Option<&'a mut fmt::Formatter<'b>>", 'remaining: usize']: raise Lost(f'fields of Writer: {fields}')
    u.raw("pub struct Writer<'a, 'b> { pub dest: Option<&'a mut fmt::Formatter<'b>>, pub remaining: usize }")
    wi = outer.sub(r"impl\s+fmt::Write\s+for\s+Writer")
    names = need_only(wi, ['write_str', 'write_char', 'write_fmt'])
    if names != {'write_str', 'write_char', 'write_fmt'}: raise Lost(f'methods {names}')
    H = "impl<'a, 'b> Writer<'a, 'b> {"
    clear = lambda t: re.sub(r'\bself\.dest\s*=\s*None\s*;', 'clear(&mut self.dest);', t)
    # write_str
    f = wi.sub(r'fn\s+write_str'); arg = re.search(r'&mut self,\s*(\w+): &str', f.head).group(1)
    body = clear(slice_indexing(strip_comments(f.body)))
    m = re.search(r'while\s*!\s*' + arg + r'\.is_char_boundary\((\w+)\)', mask(body))
    inv = []
    if m: inv = [f'    invariant 0 < old(self).remaining <= {m.group(1)} <= {arg}.spec_bytes().len(), nobnd({arg}.spec_bytes(), old(self).remaining as int, {m.group(1)} as int)\n    decreases {arg}.spec_bytes().len() - {m.group(1)}']
    body = add_invariants(body, inv)
    body = f' proof {{ lemma_piece(gb_, gc_, {arg}.spec_bytes(), gn_); }}' + body
    u.fn('truncate::Writer::write_str', f, f'fn write_str(&mut self, {arg}: &str, {GH}) -> (r: fmt::Result)', body,
         requires=['valid_utf8(gc_)', '0 <= gn_', 'running(old(self), gc_, gn_, gb_)'], ensures=[STEP.replace('TEXT', f'{arg}.spec_bytes()')],
         before=H, after='}', attrs='#[verifier::loop_isolation(false)]')
    # write_char
    f = wi.sub(r'fn\s+write_char'); arg = re.search(r'&mut self,\s*(\w+): char', f.head).group(1)
    body = strip_comments(f.body)
    body = rewrite(body, rf'\b{arg}\.encode_utf8\(&mut \[0(?:u8)?; 4\]\)', f'char_str({arg})', 1)
    body = rewrite(body, r'self\.write_str\((char_str\(\w+\))\)', rf'self.write_str(\1, {GA})', 1)
    u.fn('truncate::Writer::write_char', f, f'fn write_char(&mut self, {arg}: char, {GH}) -> (r: fmt::Result)', body,
         requires=['valid_utf8(gc_)', '0 <= gn_', 'running(old(self), gc_, gn_, gb_)'], ensures=[STEP.replace('TEXT', f'encode_utf8(seq![{arg}])')],
         before=H, after='}')
    u.raw(DRIVER)
    # write_fmt
    f = wi.sub(r'fn\s+write_fmt'); arg = re.search(r'&mut self,\s*(\w+): fmt::Arguments', f.head).group(1)
    body = rewrite(strip_comments(f.body), rf'fmt::write\(self,\s*{arg}\)', f'fmt_write(self, {arg}, Ghost(gn_), Ghost(gb_))', 1)
    u.fn('truncate::Writer::write_fmt', f, f"fn write_fmt(&mut self, {arg}: Arguments<'_>, Ghost(gn_): Ghost<int>, Ghost(gb_): Ghost<Seq<u8>>) -> (r: fmt::Result)", body,
         requires=['0 <= gn_', 'running(old(self), Seq::empty(), gn_, gb_)'],
         ensures=[f'''r.is_ok() ==> match (old(self).dest, final(self).dest) {{
        (Some(d), Some(e)) => *final(d) == *final(e) && (*e).bytes() =~= gb_ + {arg}.text() && keeps({arg}.text(), gn_),
        (Some(d), None) => exists|m: int| #[trigger] cut({arg}.text(), gn_, m) && (*final(d)).bytes() =~= gb_ + ({arg}.text().subrange(0, m) + dots()),
        (None, None) => true,
        (None, Some(_)) => false,
    }}'''], before=H, after='}')
    # TruncateFilter::fmt
    st = s.find(r'struct\s+TruncateFilter<S>'); fields = [re.sub(r'\s+', ' ', x).strip() for x in split_args(strip_comments(st.body))]
    if sorted(fields) != ['remaining: usize', 'source: S']: raise Lost(f'fields {fields}')
    u.raw('pub struct TruncateFilter<S> { pub source: S, pub remaining: usize }')
    rest = outer.src.text[max(st_.end for st_ in [outer.sub(r'struct\s+Writer'), wi]):outer.end - 1]
    rest = strip_comments(rest)
    mm = re.search(r'write!\(\s*(\w+)\s*,\s*(?:"\{\}"\s*,\s*self\.(\w+)|"\{(\w+)\}")\s*\)\s*$', rest.rstrip())
    if not mm: raise Lost('TruncateFilter::fmt does not end in write!')
    w, e = mm.group(1), (f'&self.{mm.group(2)}' if mm.group(2) else f'&{mm.group(3)}')
    fa = re.search(r'(\w+): &mut fmt::Formatter', outer.head).group(1)
    body = (f' let ghost gb_ = {fa}.bytes(); proof {{ assert(gb_ + Seq::<u8>::empty() =~= gb_); assert(keeps(Seq::<u8>::empty(), self.remaining as int)); }}'
            + rest.rstrip()[:mm.start()]
            + f'let r_ = {w}.write_fmt(Arguments::of({e}), Ghost(self.remaining as int), Ghost(gb_)); drop_writer({w}); '
            + 'proof { if r_.is_ok() { assert(truncated(self.source.text(), self.remaining as int, '
              f'choose|o: Seq<u8>| truncated(self.source.text(), self.remaining as int, o) && {fa}.bytes() == gb_ + o)) by {{'
              f' if keeps(self.source.text(), self.remaining as int) && {fa}.bytes() == gb_ + self.source.text() {{ assert(truncated(self.source.text(), self.remaining as int, self.source.text())); }} else {{'
              f' let m = choose|m: int| #[trigger] cut(self.source.text(), self.remaining as int, m) && {fa}.bytes() =~= gb_ + (self.source.text().subrange(0, m) + dots());'
              ' assert(truncated(self.source.text(), self.remaining as int, self.source.text().subrange(0, m) + dots())); } } } } r_')
    u.fn('TruncateFilter::fmt', outer, f"fn fmt_(&self, {fa}: &mut fmt::Formatter<'_>) -> (r: fmt::Result)", body,
         ensures=[f'r.is_ok() ==> exists|o: Seq<u8>| truncated(self.source.text(), self.remaining as int, o) && final({fa}).bytes() == old({fa}).bytes() + o'],
         before='impl<S: Display> TruncateFilter<S> {', after='}')
    f = s.find(r'pub\s+fn\s+truncate<')
    u.fn('truncate', f, 'pub fn truncate<S: Display>(source: S, remaining: usize) -> (r: Result<TruncateFilter<S>, Infallible>)', strip_comments(f.body),
         ensures=['r.is_ok()', 'r.unwrap().source == source', 'r.unwrap().remaining == remaining'])
    u.drop('Writer moved out of the function, its fmt::Write methods as inherent ones with ghost parameters (text seen so far, limit, text before); `self.dest = None` -> clear(&mut self.dest) '
           '(the same, with the contract that the borrow ends); c.encode_utf8(&mut [0; 4]) -> char_str(c); fmt::write(self, args) -> fmt_write, a verified loop over the pieces of args; '
           'write!(writer, "{}", self.source) -> writer.write_fmt(Arguments::of(&self.source)); explicit end of the life of writer; `impl Display` result type named')
    return u

UNITS = [('truncate', unit)]
def companion(tier): return run_harness('rt', 'C05', tier)
