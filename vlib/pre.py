"""Shared specification text (Verus) for the units: strings as byte sequences, core::fmt as contracts."""

USES = 'use vstd::utf8::*; use vstd::string::*; use core::convert::Infallible;'

# contracts assumed for core::str indexing (its documentation, with the panics as preconditions)
STR = r'''
pub mod strlen {
    use vstd::prelude::*; use vstd::string::*;
    pub broadcast axiom fn axiom_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
}
broadcast use {group_utf8_lib, strlen::axiom_str_len};
#[verifier::external_body]
pub fn str_range<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), a as int), is_char_boundary(s.spec_bytes(), b as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, b as int)
{ &s[a..b] }
#[verifier::external_body]
pub fn str_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires a <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), a as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, s.spec_bytes().len() as int)
{ &s[a..] }
#[verifier::external_body]
pub fn str_to<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires b <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), b as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(0, b as int)
{ &s[..b] }
'''
STR_TRUST = 'core: no str is longer than isize::MAX bytes; &s[a..b], &s[a..], &s[..b] on str panic exactly off character boundaries or out of range (stated as preconditions, which are proved) and otherwise select those bytes; vstd models of str, String, Vec, Option, Result'

# characters below 0x80 start and end at character boundaries
BOUNDARY = r'''
pub proof fn lemma_boundary_next(s: Seq<u8>, i: int)
   requires valid_utf8(s), 0 <= i < s.len(), is_char_boundary(s, i), s[i] < 0x80
   ensures is_char_boundary(s, i + 1)
   decreases s.len()
{
   if i == 0 {
       assert(is_leading_byte_width_1(s[0])) by { let b = s[0]; assert(b < 0x80 ==> (b & 0x80) == 0) by(bit_vector); }
       assert(length_of_first_scalar(s) == 1);
       assert(is_char_boundary(pop_first_scalar(s), 0));
   } else {
       let n = length_of_first_scalar(s);
       let t = pop_first_scalar(s);
       assert(is_char_boundary(t, i - n));
       assert(t[i - n] == s[i]);
       lemma_boundary_next(t, i - n);
   }
}
pub proof fn lemma_boundary(s: Seq<u8>, i: int)
   requires valid_utf8(s), 0 <= i < s.len(), s[i] < 0x80
   ensures is_char_boundary(s, i), is_char_boundary(s, i + 1)
{
   is_char_boundary_iff_is_leading_byte(s, i);
   let b = s[i];
   assert(is_leading_byte_width_1(b)) by { assert(b < 0x80 ==> (b & 0x80) == 0) by(bit_vector); }
   assert(is_char_boundary(s, i));
   lemma_boundary_next(s, i);
}
'''

# core::fmt by contract. img: what the sink makes of a text (identity for a Formatter), a monoid morphism.
# frame: what a writer never changes about itself (for wrappers: whom they write to).
FMT = r'''
pub mod fmt {
    use vstd::prelude::*;
    #[allow(unused_imports)] use vstd::string::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn img(&self, s: Seq<u8>) -> Seq<u8>;
        proof fn law(&self, a: Seq<u8>, b: Seq<u8>) ensures self.img(a + b) == self.img(a) + self.img(b);
        #[verifier::prophetic] spec fn frame(&self, o: &Self) -> bool;
        proof fn frame_refl(&self) ensures self.frame(self);
        fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r.is_ok() ==> final(self).out() == old(self).out() + old(self).img(s.spec_bytes()),
                forall|x: Seq<u8>| final(self).img(x) == old(self).img(x),
                forall|o: &Self| old(self).frame(o) ==> final(self).frame(o);
    }
    #[verifier::external_body]
    pub struct Formatter<'a> { s: &'a mut String }
    impl<'a> Formatter<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
    impl<'a> Write for Formatter<'a> {
        open spec fn out(&self) -> Seq<u8> { self.bytes() }
        open spec fn img(&self, s: Seq<u8>) -> Seq<u8> { s }
        proof fn law(&self, a: Seq<u8>, b: Seq<u8>) {}
        #[verifier::prophetic] open spec fn frame(&self, o: &Self) -> bool { true }
        proof fn frame_refl(&self) {}
        #[verifier::external_body]
        fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    }
    pub trait Display {
        spec fn text(&self) -> Seq<u8>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures r.is_ok() ==> final(f).bytes() == old(f).bytes() + self.text();
    }
    pub open spec fn flat(c: Seq<&str>) -> Seq<u8> decreases c.len() {
        if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last().spec_bytes() }
    }
    /// the pieces in which a value chooses to write its text: any
    #[verifier::external_body]
    fn chunks<'x, T: Display>(t: &'x T) -> (c: Vec<&'x str>) ensures flat(c@) == t.text() { unimplemented!() }
    /// write!(w, "{t}"): the pieces of t are written to w in order until one fails
    pub fn write_display<W: Write, T: Display>(w: &mut W, t: &T) -> (r: Result)
        ensures final(w).frame(&*old(w)),
            r.is_ok() ==> final(w).out() == old(w).out() + old(w).img(t.text()),
            forall|x: Seq<u8>| final(w).img(x) == old(w).img(x)
    {
        let c = chunks(t); let mut i: usize = 0;
        proof { w.frame_refl(); w.law(Seq::empty(), Seq::empty());
            assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
            assert(c@.subrange(0, 0) =~= Seq::empty());
            assert(w.img(Seq::empty()).len() == 0);
        }
        while i < c.len()
            invariant w.frame(&*old(w)), 0 <= i <= c.len(), w.out() =~= old(w).out() + old(w).img(flat(c@.subrange(0, i as int))),
                forall|x: Seq<u8>| w.img(x) == old(w).img(x)
            decreases c.len() - i
        {
            proof { assert(c@.subrange(0, i + 1).drop_last() =~= c@.subrange(0, i as int));
                w.law(flat(c@.subrange(0, i as int)), c@[i as int].spec_bytes()); }
            w.write_str(c[i])?;
            i += 1;
        }
        proof { assert(c@.subrange(0, i as int) =~= c@); }
        Ok(())
    }
}
use fmt::{Write, Display, Formatter};
'''
FMT_TRUST = ('core::fmt by contract: write!(w, "{t}") hands the pieces which t writes to w.write_str in order and stops at the first error '
             '(write_char and write_fmt are the default methods, which end in write_str: extraction fails if an impl overrides them); '
             'a Formatter appends what it is given; a Display value writes the pieces of one text')

# boundaries inside of a concatenation
CONCAT = r'''
pub proof fn lemma_valid_concat(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b)
    ensures valid_utf8(a + b)
{
    decode_utf8_encode_utf8(a); decode_utf8_encode_utf8(b);
    encode_utf8_concat(decode_utf8(a), decode_utf8(b));
    encode_utf8_valid_utf8(decode_utf8(a) + decode_utf8(b));
}
/// index k is a character boundary (stated byte-wise; the same as is_char_boundary for valid text)
pub open spec fn bnd(t: Seq<u8>, k: int) -> bool { k == t.len() || (0 <= k < t.len() && !is_continuation_byte(t[k])) }
pub proof fn lemma_bnd(t: Seq<u8>, k: int)
    requires valid_utf8(t), 0 <= k <= t.len()
    ensures bnd(t, k) == is_char_boundary(t, k)
{
    is_char_boundary_start_end_of_seq(t);
    if k < t.len() { is_char_boundary_iff_not_is_continuation_byte(t, k); }
}
pub proof fn lemma_bnd_0(t: Seq<u8>)
    requires valid_utf8(t)
    ensures bnd(t, 0)
{ lemma_bnd(t, 0); is_char_boundary_start_end_of_seq(t); }
'''

# `*o = None` ends the borrow that o holds; the end of a borrow of a mutable reference
BORROW = r'''
fn clear<'a, T>(o: &mut Option<&'a mut T>) ensures *final(o) is None, *old(o) matches Some(d) ==> *final(d) == *d { if let Some(d) = o.take() { done(d) } }
fn done<'a, T>(o: &'a mut T) ensures *final(o) == *old(o) {}
'''

# texts as character sequences (owned strings)
TEXT = r'''
pub trait ToText { spec fn chars_(&self) -> Seq<char>; fn to_string(&self) -> (r: String) ensures r@ == self.chars_(); }
#[verifier::external_body]
pub fn string_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
'''
TEXT_TRUST = 'String: len, push, push_str, new, is_empty by contract (character sequence and its UTF-8 form); ToString::to_string gives the displayed text'
