//! Ghost definitions.
use vstd::prelude::*;
use vstd::std_specs::convert::IntoSpec;
pub use vstd::utf8::{encode_utf8, decode_utf8, encode_scalar, valid_utf8, pop_first_scalar, valid_first_scalar, decode_first_scalar, length_of_first_scalar, encode_utf8_push, encode_utf8_concat, encode_utf8_first_scalar, encode_utf8_valid_utf8, decode_utf8_encode_utf8, decode_utf8_first_scalar, encode_utf8_decode_utf8, is_char_boundary, is_char_boundary_start_end_of_seq};
pub use vstd::string::*;
pub use crate::vxstd::{rem, blen, utf8_err, utf8_incomplete, utf8_valid_up_to};
pub use crate::error::ErrorKind;
pub use crate::Encoding;
verus!{
global size_of usize == 8;
}
verus!{

// ---------------------------------------------------------------- characters

/// The argument of a character predicate, which may be a char or an Option.
pub open spec fn oc<T: Into<Option<char>>>(t: T) -> Option<char> { <T as IntoSpec<Option<char>>>::into_spec(t) }
pub open spec fn oc_ok<T: Into<Option<char>>>(t: T) -> bool { <T as IntoSpec<Option<char>>>::obeys_into_spec() }
#[verifier::external_body]
pub broadcast proof fn axiom_oc1(c: char) ensures #[trigger] oc_ok(c) {}
#[verifier::external_body]
pub broadcast proof fn axiom_oc2(c: char) ensures #[trigger] oc(c) == Some(c) {}
#[verifier::external_body]
pub broadcast proof fn axiom_oc3(c: Option<char>) ensures #[trigger] oc_ok(c) {}
#[verifier::external_body]
pub broadcast proof fn axiom_oc4(c: Option<char>) ensures #[trigger] oc(c) == c {}

pub broadcast group group_all { group_base, lemma_reach_refl, lemma_reach_step, lemma_reach_trans, lemma_step_ok, lemma_reach_ok, lemma_scan_err, lemma_marked, lemma_taken_push, lemma_taken_self, crate::error::lemma_io_error, crate::error::axiom_question, }
pub broadcast group group_parser { group_base, lemma_reach_refl, lemma_reach_trans, lemma_scan_err, crate::error::lemma_io_error, crate::error::axiom_question,
    crate::grammar::lemma_flat_push, crate::grammar::lemma_marks_push, crate::grammar::lemma_flat_len, }
pub broadcast group group_base {
    axiom_oc1, axiom_oc2, axiom_oc3, axiom_oc4,
    crate::vxstd::axiom_range_lo, crate::vxstd::axiom_range_hi, crate::vxstd::axiom_deref_string,
    crate::vxstd::axiom_pat_char, crate::vxstd::axiom_pat_str,
    crate::vxstd::axiom_items_array, crate::vxstd::axiom_text_str, crate::vxstd::axiom_text_char,
}

pub open spec fn c_alpha(c: Option<char>) -> bool {
    match c {
        Some(c) => '0' <= c <= '9' || 'A' <= c <= 'Z' || 'a' <= c <= 'z' || c == '_' || c == '-',
        None => false,
    }
}
pub open spec fn c_blank(c: Option<char>) -> bool { c == Some(' ') || c == Some('\t') }
/// A line break: CR, LF, NEL, LS or PS.
pub open spec fn is_brk(c: char) -> bool {
    c == '\r' || c == '\n' || c == '\u{0085}' || c == '\u{2028}' || c == '\u{2029}'
}
pub open spec fn c_break(c: Option<char>) -> bool { match c { Some(c) => is_brk(c), None => false } }
pub open spec fn c_breakz(c: Option<char>) -> bool { c is None || c_break(c) }
pub open spec fn c_blankz(c: Option<char>) -> bool { c_blank(c) || c_breakz(c) }
/// Characters a scalar may show as they are (YAML 1.1, without tabs and the
/// breaks NEL, LS, PS are decided elsewhere).
pub open spec fn c_printable(c: char) -> bool {
    let v = c as u32;
    v == 0x0A || 0x20 <= v <= 0x7E || (0xA0 <= v <= 0xD7FF) || (0xE000 <= v <= 0xFFFD && v != 0xFEFF) || 0x10000 <= v <= 0x10FFFF
}
/// Characters that may occur in a YAML stream.
pub open spec fn c_allowed(c: char) -> bool {
    let v = c as u32;
    v == 0x09 || v == 0x0A || v == 0x0D || 0x20 <= v <= 0x7E || v == 0x85 || 0xA0 <= v <= 0xD7FF
        || 0xE000 <= v <= 0xFFFD || 0x10000 <= v <= 0x10FFFF
}

pub open spec fn is_scalar(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v < 0x110000 }

pub open spec fn digit_val(c: char, radix: u32) -> Option<u32> {
    let v = if '0' <= c && c <= '9' { Some((c as u32 - '0' as u32) as u32) }
            else if 'a' <= c && c <= 'z' { Some((c as u32 - 'a' as u32 + 10) as u32) }
            else if 'A' <= c && c <= 'Z' { Some((c as u32 - 'A' as u32 + 10) as u32) }
            else { None };
    match v { Some(d) => if d < radix { Some(d) } else { None }, None => None }
}
pub open spec fn digit_char(d: u32) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' }
    else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' }
    else if d == 8 { '8' } else if d == 9 { '9' } else if d == 10 { 'a' } else if d == 11 { 'b' }
    else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' }
}
pub open spec fn upper(c: char) -> char {
    if c == 'a' { 'A' } else if c == 'b' { 'B' } else if c == 'c' { 'C' } else if c == 'd' { 'D' }
    else if c == 'e' { 'E' } else if c == 'f' { 'F' } else { upper_rest(c) }
}
pub uninterp spec fn upper_rest(c: char) -> char;

// ---------------------------------------------------------------- limits

/// Inputs are assumed to be shorter than this many bytes (2 GiB less 64 KiB).
pub spec const LIMIT: int = 0x7fff_0000;

// ---------------------------------------------------------------- encodings

pub open spec fn width8(b: u8) -> int {
    if b < 0x80 { 1 } else if b < 0xC0 { 0 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else if b < 0xF8 { 4 } else { 0 }
}
/// `b` starts with a well-formed UTF-8 character.
pub open spec fn has8(b: Seq<u8>) -> bool { b.len() > 0 && valid_first_scalar(b) }
/// The character `b` starts with.
pub open spec fn first8(b: Seq<u8>) -> char { decode_first_scalar(b) as char }
/// The text of UTF-8 input: characters up to the end, or up to the first
/// malformed sequence or character that is not allowed.
pub open spec fn text8(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if has8(b) && c_allowed(first8(b)) { seq![first8(b)] + text8(pop_first_scalar(b)) } else { seq![] }
}
/// The bytes that are not part of the text.
pub open spec fn rest8(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if has8(b) && c_allowed(first8(b)) { rest8(pop_first_scalar(b)) } else { b }
}
pub open spec fn all_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_allowed(#[trigger] s[i]) }

pub open spec fn unit16(be: bool, b: Seq<u8>) -> int {
    if be { b[0] as int * 256 + b[1] as int } else { b[1] as int * 256 + b[0] as int }
}
/// Bytes of the UTF-16 character `b` starts with; 0 if it starts with none.
pub open spec fn len16(be: bool, b: Seq<u8>) -> int {
    if b.len() < 2 { 0 } else {
        let u = unit16(be, b);
        if u < 0xD800 || u >= 0xE000 { 2 }
        else if u >= 0xDC00 || b.len() < 4 { 0 }
        else if 0xDC00 <= unit16(be, b.skip(2)) < 0xE000 { 4 } else { 0 }
    }
}
pub open spec fn first16(be: bool, b: Seq<u8>) -> char {
    let u = unit16(be, b);
    if len16(be, b) == 2 { u as u32 as char }
    else { (0x10000 + (u - 0xD800) * 0x400 + (unit16(be, b.skip(2)) - 0xDC00)) as u32 as char }
}
pub open spec fn text16(be: bool, b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if len16(be, b) > 0 && c_allowed(first16(be, b)) { seq![first16(be, b)] + text16(be, b.skip(len16(be, b))) } else { seq![] }
}
pub open spec fn rest16(be: bool, b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if len16(be, b) > 0 && c_allowed(first16(be, b)) { rest16(be, b.skip(len16(be, b))) } else { b }
}
pub open spec fn bom8(b: Seq<u8>) -> bool { b.len() >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF }
/// The text of input of the given encoding.
pub open spec fn text(e: Encoding, b: Seq<u8>) -> Seq<char> {
    match e {
        Encoding::Any =>
            if b.len() > 0 && (b[0] == 0xFF || b[0] == 0xFE) {
                if b.len() >= 2 && b[0] == 0xFF && b[1] == 0xFE { text16(false, b.skip(2)) }
                else if b.len() >= 2 && b[0] == 0xFE && b[1] == 0xFF { text16(true, b.skip(2)) }
                else { seq![] }
            } else if bom8(b) { text8(b.skip(3)) } else { text8(b) },
        Encoding::Utf8 => text8(b),
        Encoding::Utf16Le => text16(false, b),
        Encoding::Utf16Be => text16(true, b),
    }
}
/// The bytes from the first on that cannot be decoded; empty if all can be.
pub open spec fn rest(e: Encoding, b: Seq<u8>) -> Seq<u8> {
    match e {
        Encoding::Any =>
            if b.len() > 0 && (b[0] == 0xFF || b[0] == 0xFE) {
                if b.len() >= 2 && b[0] == 0xFF && b[1] == 0xFE { rest16(false, b.skip(2)) }
                else if b.len() >= 2 && b[0] == 0xFE && b[1] == 0xFF { rest16(true, b.skip(2)) }
                else { b }
            } else if bom8(b) { rest8(b.skip(3)) } else { rest8(b) },
        Encoding::Utf8 => rest8(b),
        Encoding::Utf16Le => rest16(false, b),
        Encoding::Utf16Be => rest16(true, b),
    }
}

/// Whole characters at the beginning of the input are the beginning of the text.
pub proof fn lemma_text8_prefix(b: Seq<u8>, s: Seq<char>)
    requires encode_utf8(s).is_prefix_of(b), all_ok(s),
    ensures
        text8(b) == s + text8(b.skip(encode_utf8(s).len() as int)),
        rest8(b) == rest8(b.skip(encode_utf8(s).len() as int)),
    decreases s.len()
{
    if s.len() == 0 {
        assert(b.skip(0) =~= b);
        assert(s + text8(b) =~= text8(b));
    } else {
        let n = encode_utf8(s).len() as int;
        let t = b.skip(n);
        assert(b =~= encode_utf8(s) + t);
        lemma_first8(s, t);
        let p = pop_first_scalar(b);
        assert(c_allowed(s[0]));
        assert(all_ok(s.drop_first())) by {
            assert forall|i: int| 0 <= i < s.drop_first().len() implies c_allowed(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        }
        lemma_text8_prefix(p, s.drop_first());
        let m = encode_utf8(s.drop_first()).len() as int;
        assert(p.skip(m) =~= t);
        assert(seq![s[0]] + (s.drop_first() + text8(t)) =~= s + text8(t));
    }
}
/// Decoding undoes encoding, whatever follows.
pub proof fn lemma_first8(s: Seq<char>, t: Seq<u8>)
    requires s.len() > 0,
    ensures
        has8(encode_utf8(s) + t),
        first8(encode_utf8(s) + t) == s[0],
        pop_first_scalar(encode_utf8(s) + t) == encode_utf8(s.drop_first()) + t,
{
    let b = encode_utf8(s) + t;
    encode_utf8_first_scalar(s);
    let e = encode_utf8(s);
    assert(e.len() > 0);
    assert(b[0] == e[0]);
    let w = length_of_first_scalar(e);
    assert(e.len() >= w);
    assert(forall|i: int| 0 <= i < w ==> b[i] == e[i]);
    assert(pop_first_scalar(b) =~= pop_first_scalar(e) + t);
}
/// At a malformed sequence or a forbidden character the text ends.
pub proof fn lemma_text8_end(b: Seq<u8>, s: Seq<char>)
    requires
        encode_utf8(s).is_prefix_of(b), all_ok(s),
        b.len() > encode_utf8(s).len(),
        !has8(b.skip(encode_utf8(s).len() as int)) || !c_allowed(first8(b.skip(encode_utf8(s).len() as int))),
    ensures rest8(b).len() > 0
{
    lemma_text8_prefix(b, s);
}

/// One step through text that comes first in the input.
pub proof fn lemma_chunk_step(b: Seq<u8>, s: Seq<char>, i: int)
    requires encode_utf8(s).is_prefix_of(b), 0 <= i < s.len(),
    ensures
        blen(s.take(i + 1)) == blen(s.take(i)) + encode_scalar(s[i] as u32).len(),
        blen(s.take(i + 1)) <= b.len(),
        s.take(i + 1) == s.take(i).push(s[i]),
        all_ok(s.take(i)) && c_allowed(s[i]) ==> all_ok(s.take(i + 1)),
        all_ok(s.take(i)) && !c_allowed(s[i]) ==> rest8(b).len() > 0,
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    encode_utf8_push(s.take(i), s[i]);
    encode_utf8_concat(s.take(i + 1), s.skip(i + 1));
    assert(s =~= s.take(i + 1) + s.skip(i + 1));
    encode_utf8_concat(s.take(i), s.skip(i));
    assert(s =~= s.take(i) + s.skip(i));
    if all_ok(s.take(i)) && !c_allowed(s[i]) {
        let n = encode_utf8(s.take(i)).len() as int;
        let t = b.skip(encode_utf8(s).len() as int);
        assert(b =~= encode_utf8(s) + t);
        assert(b.skip(n) =~= encode_utf8(s.skip(i)) + t);
        lemma_first8(s.skip(i), t);
        assert(s.skip(i)[0] == s[i]);
        lemma_text8_end(b, s.take(i));
    }
}
pub proof fn lemma_take_all<T>(s: Seq<T>)
    ensures s.take(s.len() as int) == s, s.take(0) == Seq::<T>::empty(), s.skip(0) == s
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<T>::empty());
    assert(s.skip(0) =~= s);
}
pub proof fn lemma_has8_take(b: Seq<u8>, w: int)
    requires b.len() >= w > 0, width8(b[0]) == w,
    ensures
        has8(b) <==> valid_utf8(b.take(w)),
        has8(b) ==> length_of_first_scalar(b) == w,
        has8(b) ==> first8(b) == first8(b.take(w)),
        has8(b) ==> pop_first_scalar(b) == b.skip(w),
{
    let t = b.take(w);
    assert(t[0] == b[0]);
    if w > 1 { assert(t[1] == b[1]); }
    if w > 2 { assert(t[2] == b[2]); }
    if w > 3 { assert(t[3] == b[3]); }
    if has8(b) {
        assert(length_of_first_scalar(b) == w);
        assert(valid_first_scalar(t));
        assert(pop_first_scalar(t) =~= Seq::<u8>::empty());
        assert(valid_utf8(Seq::<u8>::empty()));
        assert(valid_utf8(t));
        assert(pop_first_scalar(b) =~= b.skip(w));
    }
    if valid_utf8(t) {
        assert(valid_first_scalar(t));
        assert(valid_first_scalar(b));
    }
}
/// A whole character was read: which one it was.
pub proof fn lemma_one_char(s: Seq<char>, b: Seq<u8>, w: int)
    requires b.len() >= w > 0, width8(b[0]) == w, encode_utf8(s) == b.take(w),
    ensures s.len() == 1, has8(b), first8(b) == s[0], pop_first_scalar(b) == b.skip(w),
        text8(b) == if c_allowed(s[0]) { s + text8(b.skip(w)) } else { Seq::<char>::empty() },
        rest8(b) == if c_allowed(s[0]) { rest8(b.skip(w)) } else { b },
{
    encode_utf8_valid_utf8(s);
    lemma_has8_take(b, w);
    assert(s.len() > 0);
    let t = b.take(w);
    encode_utf8_first_scalar(s);
    lemma_has8_take(t, w);
    assert(t.take(w) =~= t);
    lemma_first8(s, Seq::<u8>::empty());
    assert(t + Seq::<u8>::empty() =~= t);
    assert(t.skip(w) =~= Seq::<u8>::empty());
    assert(encode_utf8(s.drop_first()).len() == 0) by {
        assert(encode_utf8(s.drop_first()) + Seq::<u8>::empty() =~= encode_utf8(s.drop_first()));
    }
    if s.len() > 1 {
        encode_utf8_first_scalar(s.drop_first());
    }
    assert(s =~= seq![s[0]]);
}
pub proof fn lemma_bom8(b: Seq<u8>)
    ensures bom8(b) <==> has8(b) && first8(b) == '\u{feff}', bom8(b) ==> pop_first_scalar(b) == b.skip(3)
{
    let c = seq!['\u{feff}'];
    assert(encode_scalar(0xFEFF) =~= seq![0xEFu8, 0xBBu8, 0xBFu8]) by (compute);
    encode_utf8_push(Seq::<char>::empty(), '\u{feff}');
    assert(Seq::<char>::empty().push('\u{feff}') =~= c);
    assert(encode_utf8(c) =~= seq![0xEFu8, 0xBBu8, 0xBFu8]);
    if bom8(b) {
        assert(b =~= encode_utf8(c) + b.skip(3));
        lemma_first8(c, b.skip(3));
        assert(c.drop_first() =~= Seq::<char>::empty());
        assert(encode_utf8(c.drop_first()) + b.skip(3) =~= b.skip(3));
    }
    if has8(b) && first8(b) == '\u{feff}' {
        let w = length_of_first_scalar(b);
        let t = b.take(w as int);
        lemma_has8_take(b, w as int);
        decode_utf8_encode_utf8(t);
        decode_utf8_first_scalar(t);
        let d = decode_utf8(t);
        lemma_one_char(d, b, w as int);
        assert(d =~= c);
        assert(b[0] == t[0] && b[1] == t[1] && b[2] == t[2]);
    }
}
/// The code units of UTF-16 bytes.
pub open spec fn units(be: bool, a: Seq<u8>) -> Seq<u16> {
    Seq::new((a.len() / 2) as nat, |i: int| unit16(be, a.skip(2 * i)) as u16)
}
pub open spec fn width16(c: char) -> int { if (c as u32) < 0x10000 { 2 } else { 4 } }
/// The next result of `decode_utf16`, `used` bytes into the input.
pub proof fn lemma_units_step(be: bool, a: Seq<u8>, b: Seq<u8>)
    requires a.is_prefix_of(b), dec16(units(be, a)).len() > 0,
    ensures
        a.len() >= 2,
        dec16(units(be, a))[0] matches Some(c) ==> {
            &&& len16(be, b) == width16(c) <= a.len()
            &&& first16(be, b) == c
            &&& dec16(units(be, a)).skip(1) == dec16(units(be, a.skip(width16(c))))
            &&& c_allowed(c) ==> text16(be, b) == seq![c] + text16(be, b.skip(width16(c)))
            &&& c_allowed(c) ==> rest16(be, b) == rest16(be, b.skip(width16(c)))
            &&& !c_allowed(c) ==> rest16(be, b) == b && text16(be, b) == Seq::<char>::empty()
        },
{
    let u = units(be, a);
    assert(u.len() > 0);
    assert(a.skip(0) =~= a);
    assert(u[0] as int == unit16(be, a));
    assert(unit16(be, a) == unit16(be, b));
    assert(u.skip(1) =~= units(be, a.skip(2))) by {
        assert forall|i: int| 0 <= i < u.len() - 1 implies u.skip(1)[i] == units(be, a.skip(2))[i] by {
            assert(a.skip(2).skip(2 * i) =~= a.skip(2 * (i + 1)));
        }
    }
    if u.len() >= 2 {
        assert(u[1] as int == unit16(be, a.skip(2)));
        assert(unit16(be, a.skip(2)) == unit16(be, b.skip(2)));
        assert(u.skip(2) =~= units(be, a.skip(4))) by {
            assert forall|i: int| 0 <= i < u.len() - 2 implies u.skip(2)[i] == units(be, a.skip(4))[i] by {
                assert(a.skip(4).skip(2 * i) =~= a.skip(2 * (i + 2)));
            }
        }
    }
    let d = dec16(u);
    if u[0] < 0xD800 || u[0] >= 0xE000 {
        assert(d.skip(1) =~= dec16(u.skip(1)));
    } else if u[0] < 0xDC00 && u.len() >= 2 && 0xDC00 <= u[1] < 0xE000 {
        assert(d.skip(1) =~= dec16(u.skip(2)));
    }
}
/// Where a loop over `decode_utf16` stands.
#[verifier::opaque]
pub open spec fn loop16(be: bool, b: Seq<u8>, avail: Seq<u8>, used: int, d: Seq<Option<char>>, i: int, pushed: Seq<char>) -> bool {
    &&& avail.is_prefix_of(b)
    &&& 0 <= used <= avail.len()
    &&& 0 <= i <= d.len()
    &&& used == 0 ==> pushed.len() == 0
    &&& used == 0 ==> i == 0
    &&& d.skip(i) == dec16(units(be, avail.skip(used)))
    &&& pushed + text16(be, b.skip(used)) == text16(be, b)
    &&& rest16(be, b.skip(used)) == rest16(be, b)
}
pub proof fn lemma_loop16_start(be: bool, b: Seq<u8>, avail: Seq<u8>)
    requires avail.is_prefix_of(b)
    ensures loop16(be, b, avail, 0, dec16(units(be, avail)), 0, Seq::empty())
{
    reveal(loop16);
    lemma_take_all(b);
    lemma_take_all(avail);
    lemma_take_all(dec16(units(be, avail)));
    assert(Seq::<char>::empty() + text16(be, b) =~= text16(be, b));
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lemma_loop16_step(be: bool, b: Seq<u8>, avail: Seq<u8>, used: int, d: Seq<Option<char>>, i: int, pushed: Seq<char>)
    requires loop16(be, b, avail, used, d, i, pushed), i < d.len(),
    ensures
        d[i] matches Some(c) ==> used + width16(c) <= avail.len(),
        d[i] matches Some(c) ==> (c_allowed(c) ==> loop16(be, b, avail, used + width16(c), d, i + 1, pushed.push(c))),
        d[i] matches Some(c) ==> (!c_allowed(c) ==> rest16(be, b).len() > 0),
{
    reveal(loop16);
    let a2 = avail.skip(used);
    let b2 = b.skip(used);
    assert(d.skip(i)[0] == d[i]);
    assert(a2.is_prefix_of(b2));
    lemma_units_step(be, a2, b2);
    if d[i] is Some {
        let c = d[i]->Some_0;
        let w = width16(c);
        assert(b2.skip(w) =~= b.skip(used + w));
        assert(a2.skip(w) =~= avail.skip(used + w));
        assert(d.skip(i).skip(1) =~= d.skip(i + 1));
        assert(pushed.push(c) + text16(be, b.skip(used + w)) =~= pushed + (seq![c] + text16(be, b.skip(used + w))));
    }
}
pub open spec fn loop16_some(be: bool, b: Seq<u8>, avail: Seq<u8>, used: int, d: Seq<Option<char>>, pushed: Seq<char>) -> bool {
    exists|i: int| #[trigger] loop16(be, b, avail, used, d, i, pushed)
}
pub proof fn lemma_loop16_end(be: bool, b: Seq<u8>, avail: Seq<u8>, used: int, d: Seq<Option<char>>, pushed: Seq<char>)
    requires loop16_some(be, b, avail, used, d, pushed)
    ensures
        used == 0 ==> pushed.len() == 0,
        pushed + text16(be, b.skip(used)) == text16(be, b),
        rest16(be, b.skip(used)) == rest16(be, b),
{ reveal(loop16); }
pub open spec fn bytes_of(b: &[u8]) -> Seq<u8> { b@ }

/// The results `decode_utf16` gives for code units.
pub open spec fn dec16(u: Seq<u16>) -> Seq<Option<char>>
    decreases u.len()
{
    if u.len() == 0 { seq![] }
    else if u[0] < 0xD800 || u[0] >= 0xE000 { seq![Some(u[0] as u32 as char)] + dec16(u.skip(1)) }
    else if u[0] < 0xDC00 && u.len() >= 2 && 0xDC00 <= u[1] < 0xE000 {
        seq![Some((0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00)) as u32 as char)] + dec16(u.skip(2))
    } else { seq![None] + dec16(u.skip(1)) }
}
pub open spec fn dec16_matches(r: Seq<core::result::Result<char, core::char::DecodeUtf16Error>>, u: Seq<u16>) -> bool {
    &&& r.len() == dec16(u).len()
    &&& forall|i: int| 0 <= i < r.len() ==> match dec16(u)[i] { Some(c) => (#[trigger] r[i]) == Ok::<char, core::char::DecodeUtf16Error>(c), None => r[i] is Err }
}

/// UTF-16 code units of one character.
pub open spec fn utf16_char(c: char) -> Seq<u16> {
    let v = c as u32;
    if v < 0x10000 { seq![v as u16] }
    else { seq![(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16] }
}
pub open spec fn utf16(s: Seq<char>) -> Seq<u16>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { utf16_char(s[0]) + utf16(s.drop_first()) }
}

pub open spec fn u16_be(x: u16) -> Seq<u8> { seq![(x / 256) as u8, (x % 256) as u8] }
pub open spec fn u16_le(x: u16) -> Seq<u8> { seq![(x % 256) as u8, (x / 256) as u8] }
}
verus!{
// ---------------------------------------------------------------- positions

/// UTF-8 length of one character.
pub open spec fn clen(c: char) -> int {
    let v = c as u32;
    if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x10000 { 3 } else { 4 }
}
pub proof fn lemma_clen(c: char)
    ensures encode_scalar(c as u32).len() == clen(c), 1 <= clen(c) <= 4
{}
pub proof fn lemma_blen_empty()
    ensures blen(Seq::<char>::empty()) == 0
{}
pub proof fn lemma_blen_first(s: Seq<char>)
    requires s.len() > 0
    ensures blen(s) == clen(s[0]) + blen(s.skip(1)), blen(s) > 0
{
    lemma_clen(s[0]);
    assert(s =~= seq![s[0]] + s.skip(1));
    encode_utf8_concat(seq![s[0]], s.skip(1));
    encode_utf8_push(Seq::<char>::empty(), s[0]);
    assert(Seq::<char>::empty().push(s[0]) =~= seq![s[0]]);
}
/// Where the first character of text is ASCII, its first byte is all of it.
pub proof fn lemma_ascii_first(s: Seq<char>)
    requires s.len() > 0, (s[0] as u32) < 128
    ensures is_char_boundary(encode_utf8(s), 1), is_char_boundary(encode_utf8(s), encode_utf8(s).len() as int),
        encode_utf8(s).skip(1) == encode_utf8(s.skip(1)), encode_utf8(s).len() == 1 + encode_utf8(s.skip(1)).len(),
{
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(s.skip(1));
    is_char_boundary_start_end_of_seq(encode_utf8(s));
    is_char_boundary_start_end_of_seq(encode_utf8(s.skip(1)));
    encode_utf8_first_scalar(s);
    assert(length_of_first_scalar(encode_utf8(s)) == 1);
    assert(s =~= seq![s[0]] + s.skip(1));
    encode_utf8_concat(seq![s[0]], s.skip(1));
    assert(encode_utf8(seq![s[0]]).len() == 1);
    assert(encode_utf8(s).skip(1) =~= encode_utf8(s.skip(1)));
    assert(pop_first_scalar(encode_utf8(s)) == encode_utf8(s).skip(1));
}
/// What is left of such text without its first byte.
pub proof fn lemma_ascii_rest(s: &str)
    requires s@.len() > 0, (s@[0] as u32) < 128
    ensures
        is_char_boundary(s.spec_bytes(), 1), is_char_boundary(s.spec_bytes(), s.spec_bytes().len() as int), s.spec_bytes().len() >= 1,
        forall|r: &str| #![trigger r@] r.spec_bytes() == s.spec_bytes().subrange(1, s.spec_bytes().len() as int) ==> r@ == s@.skip(1),
{
    lemma_ascii_first(s@);
    let b = s.spec_bytes();
    assert(b == encode_utf8(s@));
    assert(b.subrange(1, b.len() as int) =~= b.skip(1));
    assert forall|r: &str| #![trigger r@] r.spec_bytes() == b.subrange(1, b.len() as int) implies r@ == s@.skip(1) by {
        assert(r.spec_bytes() == encode_utf8(r@));
        encode_utf8_decode_utf8(r@);
        encode_utf8_decode_utf8(s@.skip(1));
    }
}
/// A place in the input: its mark, and the text that follows.
pub struct Pos { pub mark: crate::Mark, pub stream: Seq<char> }
pub open spec fn crlf(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '\r' && s[1] == '\n' }
/// The place after the next character, where a line break is one character.
pub open spec fn step(p: Pos) -> Pos {
    let m = p.mark;
    if p.stream.len() == 0 {
        // The end of the input ends its last line.
        if m.column == 0 { p } else { Pos { mark: crate::Mark { index: m.index, line: (m.line + 1) as u64, column: 0 }, stream: p.stream } }
    }
    else if crlf(p.stream) {
        Pos { mark: crate::Mark { index: (m.index + 2) as u64, line: (m.line + 1) as u64, column: 0 }, stream: p.stream.skip(2) }
    } else if is_brk(p.stream[0]) {
        Pos { mark: crate::Mark { index: (m.index + clen(p.stream[0])) as u64, line: (m.line + 1) as u64, column: 0 }, stream: p.stream.skip(1) }
    } else {
        Pos { mark: crate::Mark { index: (m.index + clen(p.stream[0])) as u64, line: m.line, column: (m.column + 1) as u64 }, stream: p.stream.skip(1) }
    }
}
pub open spec fn steps(p: Pos, n: nat) -> Pos
    decreases n
{
    if n == 0 { p } else { steps(step(p), (n - 1) as nat) }
}
/// `q` comes at or after `p`.
pub open spec fn reach(p: Pos, q: Pos) -> bool { exists|n: nat| steps(p, n) == q }
pub open spec fn pos_ok(p: Pos) -> bool {
    &&& p.mark.index + blen(p.stream) <= LIMIT
    &&& p.mark.line + p.mark.column <= p.mark.index
}
pub proof fn lemma_steps_add(p: Pos, a: nat, b: nat)
    ensures steps(steps(p, a), b) == steps(p, a + b)
    decreases a
{
    if a > 0 { lemma_steps_add(step(p), (a - 1) as nat, b); }
}
pub broadcast proof fn lemma_reach_refl(p: Pos)
    ensures #[trigger] reach(p, p)
{ assert(steps(p, 0) == p); }
pub broadcast proof fn lemma_reach_step(p: Pos)
    ensures reach(p, #[trigger] step(p))
{ assert(steps(p, 1) == step(p)) by { reveal_with_fuel(steps, 2); } }
pub broadcast proof fn lemma_reach_trans(p: Pos, q: Pos, r: Pos)
    requires #[trigger] reach(p, q), #[trigger] reach(q, r)
    ensures reach(p, r)
{
    let a = choose|n: nat| steps(p, n) == q;
    let b = choose|n: nat| steps(q, n) == r;
    lemma_steps_add(p, a, b);
}
pub broadcast proof fn lemma_step_ok(p: Pos)
    requires pos_ok(p)
    ensures
        pos_ok(#[trigger] step(p)),
        step(p).mark.index + blen(step(p).stream) == p.mark.index + blen(p.stream),
        p.stream.len() > 0 ==> step(p).mark.index > p.mark.index && step(p).stream.len() < p.stream.len(),
        p.mark.index + p.stream.len() <= LIMIT,
        p.stream.len() > 0 ==> p.mark.index + clen(p.stream[0]) <= LIMIT,
        crlf(p.stream) ==> p.mark.index + 2 <= LIMIT,
    decreases p.stream.len()
{
    if p.stream.len() > 0 {
        lemma_blen_first(p.stream);
        if crlf(p.stream) {
            lemma_blen_first(p.stream.skip(1));
            assert(p.stream.skip(1).skip(1) =~= p.stream.skip(2));
        }
        lemma_len_blen(p.stream);
    }
}
pub proof fn lemma_len_blen(s: Seq<char>)
    ensures s.len() <= blen(s)
    decreases s.len()
{
    if s.len() > 0 { lemma_blen_first(s); lemma_len_blen(s.skip(1)); }
}
/// Facts about a place that was reached.
pub broadcast proof fn lemma_reach_ok(p: Pos, q: Pos)
    requires #[trigger] reach(p, q), pos_ok(p)
    ensures
        pos_ok(q), q.mark.index >= p.mark.index, q.mark.line >= p.mark.line,
        q.mark.line == p.mark.line ==> q.mark.column >= p.mark.column,
        q.stream.len() <= p.stream.len(),
        q.mark.index + blen(q.stream) == p.mark.index + blen(p.stream),
        q.stream.len() < p.stream.len() ==> q.mark.index > p.mark.index,
        q.stream.len() < p.stream.len() && q.mark.line == p.mark.line ==> q.mark.column > p.mark.column,
        q.stream.len() == p.stream.len() ==> q == p || p.stream.len() == 0 && q == step(p),
        q.stream == p.stream.skip(p.stream.len() - q.stream.len()),
{
    let n = choose|n: nat| steps(p, n) == q;
    lemma_steps_ok(p, n);
}
pub proof fn lemma_steps_ok(p: Pos, n: nat)
    requires pos_ok(p)
    ensures
        pos_ok(steps(p, n)), steps(p, n).mark.index >= p.mark.index, steps(p, n).mark.line >= p.mark.line,
        steps(p, n).mark.line == p.mark.line ==> steps(p, n).mark.column >= p.mark.column,
        steps(p, n).stream.len() <= p.stream.len(),
        steps(p, n).mark.index + blen(steps(p, n).stream) == p.mark.index + blen(p.stream),
        steps(p, n).stream.len() < p.stream.len() ==> steps(p, n).mark.index > p.mark.index,
        steps(p, n).stream.len() < p.stream.len() && steps(p, n).mark.line == p.mark.line ==> steps(p, n).mark.column > p.mark.column,
        steps(p, n).stream.len() == p.stream.len() ==> steps(p, n) == p || p.stream.len() == 0 && steps(p, n) == step(p),
        steps(p, n).stream == p.stream.skip(p.stream.len() - steps(p, n).stream.len()),
    decreases n
{
    if n > 0 {
        lemma_step_ok(p);
        lemma_steps_ok(step(p), (n - 1) as nat);
        let q = steps(p, n);
        assert(step(p).stream =~= p.stream.skip(p.stream.len() - step(p).stream.len()));
        assert(q.stream =~= p.stream.skip(p.stream.len() - q.stream.len()));
    } else {
        assert(p.stream =~= p.stream.skip(0));
    }
}
}
verus!{
pub open spec fn first(s: Seq<char>) -> Option<char> { if s.len() > 0 { Some(s[0]) } else { None } }
pub open spec fn at(s: Seq<char>, k: int) -> Option<char> { if 0 <= k < s.len() { Some(s[k]) } else { None } }
/// What a line break stands for in a scalar: LS and PS are kept.
pub open spec fn break_text(c: Option<char>) -> Seq<char> {
    match c {
        Some('\u{2028}') => seq!['\u{2028}'],
        Some('\u{2029}') => seq!['\u{2029}'],
        _ => if c_break(c) { seq!['\n'] } else { seq![] },
    }
}
}
verus!{
/// `m` is the mark of `p` or of a place after it.
pub open spec fn marked(p: Pos, m: crate::Mark) -> bool { exists|q: Pos| #[trigger] reach(p, q) && q.mark == m }
pub broadcast proof fn lemma_marked(p: Pos, q: Pos, m: crate::Mark)
    requires #[trigger] reach(p, q), #[trigger] marked(q, m)
    ensures marked(p, m)
{
    let r = choose|r: Pos| #[trigger] reach(q, r) && r.mark == m;
    lemma_reach_trans(p, q, r);
}
/// Errors of the scanner: those of the input, or one that says where in the
/// text after `p` the problem is.
pub open spec fn scan_err(e: crate::Error, p: Pos) -> bool {
    ||| e.skind() == ErrorKind::Io
    ||| e.skind() == ErrorKind::Reader
    ||| e.skind() == ErrorKind::Scanner && (e.smark() matches Some(m) && marked(p, m))
}
/// Errors of the parser, or of what it reads from.
pub open spec fn parse_err(e: crate::Error, p: Pos) -> bool {
    ||| scan_err(e, p)
    ||| e.skind() == ErrorKind::Parser && e.smark() is Some
}
pub broadcast proof fn lemma_scan_err(p: Pos, q: Pos, e: crate::Error)
    requires #[trigger] reach(p, q), #[trigger] scan_err(e, q)
    ensures scan_err(e, p)
{
    if e.skind() == ErrorKind::Scanner { lemma_marked(p, q, e.smark()->Some_0); }
}
}
verus!{
// ---------------------------------------------------------------- scanned text

/// The text between two places.
pub open spec fn taken(p: Pos, q: Pos) -> Seq<char> { p.stream.take(p.stream.len() - q.stream.len()) }
pub broadcast proof fn lemma_taken_push(o: Pos, p: Pos)
    requires reach(o, p), pos_ok(o), p.stream.len() > 0, !crlf(p.stream)
    ensures (#[trigger] taken(o, step(p))) == taken(o, p).push(p.stream[0])
{
    lemma_reach_ok(o, p);
    assert(p.stream[0] == o.stream[o.stream.len() - p.stream.len()]);
    assert(taken(o, step(p)) =~= taken(o, p).push(p.stream[0]));
}
pub broadcast proof fn lemma_taken_self(p: Pos)
    ensures (#[trigger] taken(p, p)) == Seq::<char>::empty()
{
    assert(taken(p, p) =~= Seq::<char>::empty());
}
pub proof fn lemma_taken_add(o: Pos, p: Pos, q: Pos)
    requires reach(o, p), reach(p, q), pos_ok(o)
    ensures taken(o, q) == taken(o, p) + taken(p, q)
{
    lemma_reach_ok(o, p);
    lemma_reach_ok(p, q);
    assert(taken(o, q) =~= taken(o, p) + taken(p, q));
}
pub proof fn lemma_blen_taken(p: Pos, q: Pos)
    requires reach(p, q), pos_ok(p)
    ensures blen(taken(p, q)) <= LIMIT
{
    lemma_reach_ok(p, q);
    assert(p.stream =~= taken(p, q) + q.stream);
    encode_utf8_concat(taken(p, q), q.stream);
}
pub open spec fn all_alpha(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_alpha(Some(#[trigger] s[i])) }
pub open spec fn all_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_blank(Some(#[trigger] s[i])) }
pub open spec fn all_digit(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_digit(Some(#[trigger] s[i])) }
pub open spec fn c_digit(c: Option<char>) -> bool { c matches Some(c) && '0' <= c <= '9' }
pub open spec fn c_hex(c: Option<char>) -> bool { c matches Some(c) && digit_val(c, 16) is Some }
/// Value of a sequence of decimal digits.
pub open spec fn dec(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
pub open spec fn pow10(n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
pub proof fn lemma_dec_push(s: Seq<char>, c: char)
    requires all_digit(s), c_digit(Some(c)), s.len() < 9
    ensures dec(s.push(c)) == dec(s) * 10 + (c as int - '0' as int), 0 <= dec(s) < 100_000_000, dec(s.push(c)) < 1_000_000_000,
        all_digit(s.push(c)),
{
    assert(s.push(c).drop_last() =~= s);
    lemma_dec_bound(s);
    lemma_pow10_mono(s.len(), 8);
    assert(pow10(8) == 100_000_000) by (compute);
}
proof fn lemma_pow10_mono(a: nat, b: nat)
    requires a <= b
    ensures 1 <= pow10(a) <= pow10(b)
    decreases b
{
    if a < b { lemma_pow10_mono(a, (b - 1) as nat); }
    else if a > 0 { lemma_pow10_mono((a - 1) as nat, (b - 1) as nat); }
}
proof fn lemma_dec_bound(s: Seq<char>)
    requires all_digit(s)
    ensures 0 <= dec(s) < pow10(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        assert(c_digit(Some(s[s.len() - 1])));
        assert(all_digit(s.drop_last())) by {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies c_digit(Some(#[trigger] s.drop_last()[i])) by { assert(c_digit(Some(s[i]))); }
        }
        lemma_dec_bound(s.drop_last());
    }
}
/// `BLANKS MAJOR . MINOR`
pub open spec fn version_text(s: Seq<char>, major: int, minor: int) -> bool {
    exists|b: Seq<char>, d1: Seq<char>, d2: Seq<char>| {
        &&& s == #[trigger] (b + d1 + seq!['.'] + d2)
        &&& all_blank(b)
        &&& number_text(d1, major)
        &&& number_text(d2, minor)
    }
}
pub open spec fn number_text(d: Seq<char>, v: int) -> bool { all_digit(d) && 1 <= d.len() <= 9 && dec(d) == v }
}
verus!{
// ---------------------------------------------------------------- tags

pub open spec fn hexval(a: char) -> int { if digit_val(a, 16) is Some { digit_val(a, 16)->Some_0 as int } else { 0 } }
/// `%XX`
pub open spec fn is_esc(s: Seq<char>) -> bool { s.len() == 3 && s[0] == '%' && c_hex(Some(s[1])) && c_hex(Some(s[2])) }
pub open spec fn esc_byte(s: Seq<char>) -> u8 { (hexval(s[1]) * 16 + hexval(s[2])) as u8 }
/// The bytes of a run of escapes.
pub open spec fn escs(s: Seq<char>, b: Seq<u8>) -> bool {
    &&& s.len() == 3 * b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> is_esc(#[trigger] s.subrange(3 * i, 3 * i + 3)) && esc_byte(s.subrange(3 * i, 3 * i + 3)) == b[i]
}
/// `src` is a run of escapes for exactly one character.
pub open spec fn esc_char(src: Seq<char>, c: char) -> bool { escs(src, encode_utf8(seq![c])) }
/// What a URI stands for: `%XX` escapes are decoded as UTF-8.
#[verifier::opaque]
pub open spec fn uri(src: Seq<char>, out: Seq<char>) -> bool
    decreases src.len()
{
    ||| src.len() == 0 && out.len() == 0
    ||| src.len() > 0 && out.len() > 0 && src.last() != '%' && out.last() == src.last() && uri(src.drop_last(), out.drop_last())
    ||| out.len() > 0 && exists|n: int| 3 <= n <= src.len() && #[trigger] esc_char(src.skip(src.len() - n), out.last()) && uri(src.take(src.len() - n), out.drop_last())
}
pub proof fn lemma_uri_empty() ensures uri(Seq::<char>::empty(), Seq::<char>::empty()) { reveal_with_fuel(uri, 2); }
pub proof fn lemma_uri_plain(src: Seq<char>, out: Seq<char>, c: char)
    requires uri(src, out), c != '%'
    ensures uri(src.push(c), out.push(c))
{
    reveal_with_fuel(uri, 2);
    assert(src.push(c).drop_last() =~= src);
    assert(out.push(c).drop_last() =~= out);
}
pub proof fn lemma_uri_esc(src: Seq<char>, out: Seq<char>, e: Seq<char>, c: char)
    requires uri(src, out), esc_char(e, c)
    ensures uri(src + e, out.push(c))
{
    lemma_blen_first(seq![c]);
    reveal_with_fuel(uri, 2);
    let s = src + e;
    assert(out.push(c).drop_last() =~= out);
    assert(s.skip(s.len() - e.len()) =~= e);
    assert(s.take(s.len() - e.len()) =~= src);
    let n = e.len() as int;
    assert(esc_char(s.skip(s.len() - n), out.push(c).last()));
}
pub proof fn lemma_escs_push(s: Seq<char>, b: Seq<u8>, e: Seq<char>)
    requires escs(s, b), is_esc(e)
    ensures escs(s + e, b.push(esc_byte(e)))
{
    let t = s + e;
    let c = b.push(esc_byte(e));
    assert forall|i: int| 0 <= i < c.len() implies is_esc(#[trigger] t.subrange(3 * i, 3 * i + 3)) && esc_byte(t.subrange(3 * i, 3 * i + 3)) == c[i] by {
        if i < b.len() { assert(t.subrange(3 * i, 3 * i + 3) =~= s.subrange(3 * i, 3 * i + 3)); }
        else { assert(t.subrange(3 * i, 3 * i + 3) =~= e); }
    }
}
/// `!`, `!name!` or, outside directives, the beginning of a tag `!name`.
pub open spec fn tag_handle(s: Seq<char>, directive: bool) -> bool {
    &&& s.len() > 0 && s[0] == '!'
    &&& forall|i: int| 1 <= i < s.len() - 1 ==> c_alpha(Some(#[trigger] s[i]))
    &&& s.last() == '!' || c_alpha(Some(s.last())) && !directive
}
}
verus!{
pub open spec fn head_rest_of(h: Seq<char>) -> Seq<char> { if h.len() > 1 { h.skip(1) } else { seq![] } }
pub open spec fn head_rest(h: Option<&str>) -> Seq<char> { match h { Some(h) => head_rest_of(h@), None => seq![] } }
/// `s` is what is left of `head` (without its first character), and then the URI `src`.
pub open spec fn uri_tail(s: Seq<char>, head: Option<&str>, src: Seq<char>) -> bool {
    let k = head_rest(head).len() as int;
    s.len() >= k && s.take(k) == head_rest(head) && uri(src, s.skip(k))
}
/// `BLANKS HANDLE BLANKS PREFIX`
pub open spec fn tag_directive_text(s: Seq<char>, handle: Seq<char>, prefix: Seq<char>) -> bool {
    exists|b1: Seq<char>, b2: Seq<char>, u: Seq<char>| {
        &&& s == #[trigger] (b1 + handle + b2 + u)
        &&& all_blank(b1)
        &&& tag_handle(handle, true)
        &&& all_blank(b2) && b2.len() > 0
        &&& uri(u, prefix) && u.len() > 0
    }
}
/// The indicator, the name of the directive and its value.
pub open spec fn directive_text(s: Seq<char>, d: crate::TokenData) -> bool {
    match d {
        crate::TokenData::VersionDirective { major, minor } => s.len() >= 5 && s.skip(1).take(4) == seq!['Y', 'A', 'M', 'L'] && version_text(s.skip(5), major as int, minor as int),
        crate::TokenData::TagDirective { handle, prefix } => s.len() >= 4 && s.skip(1).take(3) == seq!['T', 'A', 'G'] && tag_directive_text(s.skip(4), handle@, prefix@),
        _ => false,
    }
}
/// The text of a tag: `!<URI>`, `!name!URI` or `!URI`.
pub open spec fn tag_text(s: Seq<char>, handle: Seq<char>, suffix: Seq<char>) -> bool {
    ||| handle.len() == 0 && s.len() > 3 && s[1] == '<' && s.last() == '>' && uri(s.subrange(2, s.len() - 1), suffix)
    ||| exists|u: Seq<char>| s == #[trigger] (handle + u) && tag_handle(handle, false) && handle.len() > 1 && handle.last() == '!' && u.len() > 0 && uri(u, suffix)
    ||| handle == seq!['!'] && suffix.len() > 0 && exists|h: Seq<char>, u: Seq<char>| s == #[trigger] (h + u) && tag_handle(h, false) && (h.len() == 1 || h.last() != '!')
            && suffix.len() + 1 >= h.len() && suffix.take(h.len() - 1) == h.skip(1) && uri(u, suffix.skip(h.len() - 1))
    ||| handle.len() == 0 && suffix == seq!['!'] && s == seq!['!']
}
/// Whether a handle is `!`, or ends with `!`.
pub proof fn lemma_handle(h: Seq<char>)
    requires tag_handle(h, false)
    ensures
        blen(h) > 1 <==> h.len() > 1,
        seq!['!'].is_prefix_of(h),
        seq!['!'].is_suffix_of(h) <==> h.last() == '!',
{
    lemma_blen_first(h);
    if h.len() > 1 { lemma_blen_first(h.skip(1)); } else { assert(h.skip(1) =~= seq![]); lemma_blen_empty(); }
    if h.last() == '!' { assert(h.subrange(h.len() - 1, h.len() as int) =~= seq!['!']); }
    else if seq!['!'].is_suffix_of(h) { assert(seq!['!'][0] == h[h.len() - 1]); }
}
pub proof fn lemma_tag_verbatim(s: Seq<char>, u: Seq<char>, suffix: Seq<char>)
    requires s.len() == u.len() + 3, s[1] == '<', s.last() == '>', s.subrange(2, s.len() - 1) == u, u.len() > 0, uri_tail(suffix, None, u)
    ensures tag_text(s, seq![], suffix)
{ assert(suffix.skip(0) =~= suffix); }
pub proof fn lemma_tag_handle(h: Seq<char>, u: Seq<char>, suffix: Seq<char>)
    requires tag_handle(h, false), h.len() > 1, h.last() == '!', u.len() > 0, uri_tail(suffix, None, u)
    ensures tag_text(h + u, h, suffix)
{ assert(suffix.skip(0) =~= suffix); }
pub proof fn lemma_tag_local(h: Seq<char>, u: Seq<char>, suffix: Seq<char>)
    requires tag_handle(h, false), h.len() == 1 || h.last() != '!', suffix.len() + 1 >= h.len(), suffix.take(h.len() - 1) == h.skip(1), uri(u, suffix.skip(h.len() - 1)),
    ensures
        suffix.len() > 0 ==> tag_text(h + u, seq!['!'], suffix),
        suffix.len() == 0 ==> tag_text(h + u, seq![], seq!['!']),
{
    if suffix.len() == 0 {
        reveal_with_fuel(uri, 2);
        assert(h + u =~= seq!['!']);
    }
}
/// The indicator and a name.
pub open spec fn anchor_text(src: Seq<char>, name: Seq<char>) -> bool { name.len() > 0 && all_alpha(name) && src.len() == name.len() + 1 && src.skip(1) == name }
}
