//! Assumed contracts of the standard library (trusted; every one is listed in
//! the evidence), and the stand-in for `dyn std::io::Write`.
use vstd::prelude::*;
use std::collections::VecDeque;
use alloc::string::String;
use alloc::vec::Vec;
use crate::spec::*;
verus!{

// ---------------------------------------------------------------- output

/// Stands for `dyn std::io::Write`.
#[verifier::external_body]
pub struct Sink { _p: [u8; 0] }
impl Sink {
    /// The bytes accepted so far.
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures r.is_ok() ==> final(self).written() == old(self).written() + buf@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_sink<'w>(v: &'w mut Vec<u8>) -> (r: &'w mut Sink)
    ensures r.written() == old(v)@,
{ unimplemented!() }

// ---------------------------------------------------------------- input

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExIoErrorKind(std::io::ErrorKind);

pub assume_specification [std::io::Error::kind] (e: &std::io::Error) -> (k: std::io::ErrorKind);
pub assume_specification [<std::io::ErrorKind as PartialEq>::eq] (a: &std::io::ErrorKind, b: &std::io::ErrorKind) -> (r: bool)
    ensures r == (*a == *b);

/// The bytes a reader still has to give.
pub uninterp spec fn rem<R: ?Sized>(r: &R) -> Seq<u8>;

#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: std::io::Result<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r.is_ok() ==> rem(old(self)).len() >= old(buf)@.len(),
            r.is_ok() ==> final(buf)@ == rem(old(self)).take(old(buf)@.len() as int),
            r.is_ok() ==> rem(final(self)) == rem(old(self)).skip(old(buf)@.len() as int),
    ;
}
#[verifier::external_trait_specification]
pub trait ExBufRead: std::io::Read {
    type ExternalTraitSpecificationFor: std::io::BufRead;
    fn fill_buf(&mut self) -> (r: std::io::Result<&[u8]>)
        ensures
            rem(final(self)) == rem(old(self)),
            r is Ok ==> r->Ok_0@.len() <= rem(final(self)).len(),
            r is Ok ==> r->Ok_0@ == rem(final(self)).take(r->Ok_0@.len() as int),
            r is Ok ==> (r->Ok_0@.len() == 0 <==> rem(final(self)).len() == 0),
    ;
    fn consume(&mut self, amt: usize)
        requires amt <= rem(old(self)).len(),
        ensures rem(final(self)) == rem(old(self)).skip(amt as int),
    ;
}

// ---------------------------------------------------------------- VecDeque

pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::get] (d: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures
        i < d@.len() ==> r == Some(&d@[i as int]),
        i >= d@.len() ==> r is None,
;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front] (d: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures
        d@.len() > 0 ==> r == Some(&d@[0]),
        d@.len() == 0 ==> r is None,
;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::back] (d: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures
        d@.len() > 0 ==> r == Some(&d@[d@.len() - 1]),
        d@.len() == 0 ==> r is None,
;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (d: &VecDeque<T, A>) -> (r: bool)
    ensures r == (d@.len() == 0),
;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front_mut] (d: &mut VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures
        old(d)@.len() == 0 ==> r is None && final(d)@ == old(d)@,
        old(d)@.len() > 0 ==> (r matches Some(x) && *x == old(d)@[0] && final(d)@ == old(d)@.update(0, *final(x))),
;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExDrain<'a, T: 'a, A: std::alloc::Allocator>(std::collections::vec_deque::Drain<'a, T, A>);
/// Only ever called with a literal range whose result is dropped at once.
pub assume_specification<T, A: std::alloc::Allocator, R: std::ops::RangeBounds<usize>> [VecDeque::<T, A>::drain] (d: &mut VecDeque<T, A>, r: R) -> (it: std::collections::vec_deque::Drain<'_, T, A>)
    requires range_lo(r) <= range_hi(r) <= old(d)@.len(),
    ensures final(d)@ == old(d)@.take(range_lo(r)) + old(d)@.skip(range_hi(r)),
;
pub uninterp spec fn range_lo<R>(r: R) -> int;
pub uninterp spec fn range_hi<R>(r: R) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_range_lo(r: std::ops::Range<usize>)
    ensures #[trigger] range_lo(r) == r.start,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_range_hi(r: std::ops::Range<usize>)
    ensures #[trigger] range_hi(r) == r.end,
{}

// ---------------------------------------------------------------- Option

pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
    ensures
        o is None ==> r is None,
        o matches Some(x) ==> r == Some(*x),
;
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, default: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures
        o is None ==> r == default,
        o matches Some(x) ==> f.ensures((x,), r),
;

pub assume_specification<T: std::ops::Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&<T as std::ops::Deref>::Target>)
    ensures
        o is None ==> r is None,
        o matches Some(x) ==> r == Some(deref_of::<T>(*x)),
;
pub uninterp spec fn deref_of<T: std::ops::Deref>(x: T) -> &'static <T as std::ops::Deref>::Target;
#[verifier::external_body]
pub broadcast proof fn axiom_deref_string(x: String)
    ensures (#[trigger] deref_of::<String>(x))@ == x@,
{}

// ---------------------------------------------------------------- integers

// The types of these std functions mention constants of core that an
// assume_specification cannot name; calls are redirected to these wrappers.
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures r as int == b[0] as int * 256 + b[1] as int
{ u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r as int == b[1] as int * 256 + b[0] as int
{ u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn i32_from_le_bytes(b: [u8; 4]) -> (r: i32) { i32::from_le_bytes(b) }
#[verifier::external_body]
pub fn i32_from_be_bytes(b: [u8; 4]) -> (r: i32) { i32::from_be_bytes(b) }
pub trait VxBytes: Sized {
    spec fn be(self) -> Seq<u8>;
    spec fn le(self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == self.be();
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == self.le();
}
impl VxBytes for u16 {
    open spec fn be(self) -> Seq<u8> { u16_be(self) }
    open spec fn le(self) -> Seq<u8> { u16_le(self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
pub assume_specification [usize::wrapping_div] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a / b;

// ---------------------------------------------------------------- char

pub assume_specification [char::is_ascii] (c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 0x80);
pub assume_specification [char::from_u32] (v: u32) -> (r: Option<char>)
    ensures
        is_scalar(v as int) ==> (r matches Some(c) && c as u32 == v),
        !is_scalar(v as int) ==> r is None,
;
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36,
    ensures
        r == digit_val(c, radix),
;
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36,
    ensures r == (digit_val(c, radix) is Some),
;
pub assume_specification [char::from_digit] (num: u32, radix: u32) -> (r: Option<char>)
    requires 2 <= radix <= 36,
    ensures
        num >= radix ==> r is None,
        num < radix ==> r == Some(digit_char(num)),
;
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char)
    ensures r == upper(*c);
pub assume_specification [char::encode_utf8] (c: char, dst: &mut [u8]) -> (r: &mut str)
    requires vstd::utf8::encode_scalar(c as u32).len() <= old(dst)@.len(),
    ensures r@ == seq![c];

// ---------------------------------------------------------------- strings

/// Byte length of text.
pub open spec fn blen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }

pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == blen(s@);
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification [String::reserve] (s: &mut String, n: usize)
    ensures final(s)@ == old(s)@;

/// What `starts_with`, `ends_with` ... are given to look for.
pub uninterp spec fn pat_text<P>(p: P) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_pat_char(p: char) ensures #[trigger] pat_text::<char>(p) == seq![p] {}
#[verifier::external_body]
pub broadcast proof fn axiom_pat_str(p: &str) ensures #[trigger] pat_text::<&str>(p) == p@ {}

pub assume_specification<P: std::str::pattern::Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (r: bool)
    ensures r == pat_text(p).is_prefix_of(s@);
pub assume_specification<P: std::str::pattern::Pattern> [str::ends_with::<P>] (s: &str, p: P) -> (r: bool)
    where for<'a> P::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>
    ensures r == pat_text(p).is_suffix_of(s@);

/// Strings are compared by what they say.
#[verifier::external_body]
pub proof fn axiom_string_eq_str()
    ensures
        <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|s: String, o: &str| (#[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&s, &o)) == (s@ == o@),
{}
pub assume_specification<I: core::slice::SliceIndex<str>> [<str as core::ops::Index<I>>::index] (s: &str, i: I) -> (r: &I::Output)
    ensures call_ensures(<I as core::slice::SliceIndex<str>>::index, (i, s), r),
;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub uninterp spec fn utf8_valid_up_to(e: core::str::Utf8Error) -> nat;
pub uninterp spec fn utf8_incomplete(e: core::str::Utf8Error) -> bool;
pub assume_specification [core::str::Utf8Error::valid_up_to] (e: &core::str::Utf8Error) -> (r: usize)
    ensures r == utf8_valid_up_to(*e);
pub assume_specification [core::str::Utf8Error::error_len] (e: &core::str::Utf8Error) -> (r: Option<usize>)
    ensures r is None <==> utf8_incomplete(*e);
pub assume_specification [core::str::from_utf8] (b: &[u8]) -> (r: core::result::Result<&str, core::str::Utf8Error>)
    ensures
        vstd::utf8::valid_utf8(b@) ==> (r matches Ok(s) && vstd::utf8::encode_utf8(s@) == b@),
        !vstd::utf8::valid_utf8(b@) ==> (r matches Err(e) && utf8_err(b@, e)),
;
/// The error describes `b`: the longest valid prefix, and whether the rest is
/// the beginning of a character that is cut off.
pub open spec fn utf8_err(b: Seq<u8>, e: core::str::Utf8Error) -> bool {
    let n = utf8_valid_up_to(e) as int;
    &&& n < b.len()
    &&& vstd::utf8::valid_utf8(b.take(n))
    &&& !vstd::utf8::valid_first_scalar(b.skip(n))
    &&& utf8_incomplete(e) ==> width8(b[n]) > b.len() - n
    &&& !utf8_incomplete(e) ==> forall|t: Seq<u8>| !vstd::utf8::valid_first_scalar(#[trigger] (b.skip(n) + t))
}
pub assume_specification [core::str::from_utf8_unchecked] (b: &[u8]) -> (r: &str)
    requires vstd::utf8::valid_utf8(b@),
    ensures vstd::utf8::encode_utf8(r@) == b@;

pub assume_specification<'a> [<core::str::Chars<'a> as Clone>::clone] (c: &core::str::Chars<'a>) -> (r: core::str::Chars<'a>)
    ensures
        r == *c;
pub assume_specification<'a> [<core::str::Chars<'a> as Iterator>::count] (c: core::str::Chars<'a>) -> (r: usize)
    ensures r == vstd::std_specs::iter::IteratorSpec::remaining(&c).len();

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBytes<'a>(core::str::Bytes<'a>);
pub assume_specification [str::bytes] (s: &str) -> (r: core::str::Bytes<'_>)
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&r) == vstd::utf8::encode_utf8(s@),
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExEncodeUtf16<'a>(core::str::EncodeUtf16<'a>);
pub assume_specification [str::encode_utf16] (s: &str) -> (r: core::str::EncodeUtf16<'_>)
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&r) == utf16(s@),
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExArrayIntoIter<T, const N: usize>(core::array::IntoIter<T, N>);
pub assume_specification<T, const N: usize> [<[T; N] as IntoIterator>::into_iter] (a: [T; N]) -> (r: <[T; N] as IntoIterator>::IntoIter)
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&r) == a@,
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDecodeUtf16Error(core::char::DecodeUtf16Error);
/// `b.chunks_exact(n).map(f)`, evaluated at once.
#[verifier::external_body]
pub fn map_chunks<F: Fn(&[u8]) -> u16>(b: &[u8], n: usize, f: F) -> (r: Vec<u16>)
    requires n > 0, forall|c: &[u8]| c@.len() == n ==> #[trigger] f.requires((c,)),
    ensures
        r@.len() == b@.len() / (n as nat),
        forall|i: int| 0 <= i < r@.len() ==> exists|c: &[u8]| c@ == b@.subrange(i * n, i * n + n) && f.ensures((c,), #[trigger] r@[i]),
{ b.chunks_exact(n).map(f).collect() }
pub assume_specification [char::len_utf16] (c: char) -> (r: usize)
    ensures r == (if (c as u32) < 0x10000 { 1int } else { 2int });
pub assume_specification [core::char::DecodeUtf16Error::unpaired_surrogate] (e: &core::char::DecodeUtf16Error) -> (r: u16);
/// Code units to decode.
pub trait VxUnits: Sized {
    spec fn units(self) -> Seq<u16>;
    fn vx_units(self) -> (r: Vec<u16>) ensures r@ == self.units();
}
impl VxUnits for Vec<u16> {
    open spec fn units(self) -> Seq<u16> { self@ }
    fn vx_units(self) -> (r: Vec<u16>) { self }
}
impl<const N: usize> VxUnits for [u16; N] {
    open spec fn units(self) -> Seq<u16> { self@ }
    #[verifier::external_body]
    fn vx_units(self) -> (r: Vec<u16>) { self.to_vec() }
}
/// `core::char::decode_utf16`, evaluated at once.
#[verifier::external_body]
pub fn decode_utf16<I: VxUnits>(i: I) -> (r: std::vec::IntoIter<core::result::Result<char, core::char::DecodeUtf16Error>>)
    ensures
        dec16_matches(vstd::std_specs::iter::IteratorSpec::remaining(&r), i.units()),
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
{ core::char::decode_utf16(i.vx_units()).collect::<Vec<_>>().into_iter() }

// ---------------------------------------------------------------- slices and vectors

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]),
;
/// The elements an iterable gives.
pub uninterp spec fn items_of<I, T>(i: I) -> Seq<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_items_array<T, const N: usize>(a: [T; N])
    ensures #[trigger] items_of::<[T; N], T>(a) == a@ {}
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>> [<Vec<T, A> as Extend<T>>::extend::<I>] (v: &mut Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + items_of::<I, T>(i);
/// The text of a string made from something.
pub uninterp spec fn into_text<T>(t: T) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_text_str(t: &str) ensures #[trigger] into_text::<&str>(t) == t@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_text_char(t: char) ensures #[trigger] into_text::<char>(t) == seq![t] {}
#[verifier::external_body]
pub fn array_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures r@ == a@
{ Vec::from(a) }
#[verifier::external_body]
pub fn format2(a: &str, b: &str) -> (r: String)
    ensures r@ == a@ + b@
{ let mut s = String::from(a); s.push_str(b); s }
#[verifier::external_body]
pub fn string_from<T>(t: T) -> (r: String) where String: From<T>
    ensures r@ == into_text::<T>(t)
{ String::from(t) }
pub assume_specification<T: Default> [core::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), default_of::<T>(*final(d));
pub uninterp spec fn default_of<T>(x: T) -> bool;

} // verus!
