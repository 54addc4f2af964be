def FILL0
  loop 0
    invariant
    rem(&after_borrow(*reader)) == rem(old(reader)),
    *offset == *old(offset),
    out@ == old(out)@,
    ensures
    bytes_of(vx_brk0) == rem(&after_borrow(*reader)).take(bytes_of(vx_brk0).len() as int),
    0 < bytes_of(vx_brk0).len() <= rem(&after_borrow(*reader)).len(),
enddef
def ERRS
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Io || e.skind() == ErrorKind::Reader),
enddef
def OFFS
    [C02,C16] r is Ok ==> *final(offset) + rem(final(reader)).len() == *old(offset) + rem(old(reader)).len(),
enddef
def CHARS
    invariant
    it.seq() == valid@,
    encode_utf8(valid@).is_prefix_of(b),
    b == rem(old(reader)),
    rem(&after_borrow(*reader)) == b,
    *offset == *old(offset) + blen(valid@.take(it.index@)),
    *old(offset) + b.len() <= usize::MAX,
    out@ == old(out)@ + valid@.take(it.index@),
    all_ok(valid@.take(it.index@)),
enddef
fn yaml_parser_determine_encoding -> r
  sig
    requires
    *old(offset) + rem(old(reader)).len() <= usize::MAX,
    ensures
    [C02] r is Ok ==> final(out)@.len() >= old(out)@.len(),
    [C02] r matches Ok(Some(e)) ==> e != Encoding::Any && rem(old(reader)).len() > 0,
    [C02] r matches Ok(Some(e)) ==> final(out)@ + text(e, rem(final(reader))) == old(out)@ + text(Encoding::Any, rem(old(reader))),
    [C02] r matches Ok(Some(e)) ==> rest(e, rem(final(reader))) == rest(Encoding::Any, rem(old(reader))),
    use OFFS;
    [C02] r matches Ok(None) ==> rem(old(reader)).len() == 0 && rem(final(reader)).len() == 0 && final(out)@ == old(out)@,
    use ERRS;
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> rest(Encoding::Any, rem(old(reader))).len() > 0),
  use FILL0;
  hint loop-after:0
    let ghost b = rem(old(reader));
    proof { lemma_bom8(b); }
fn read_utf8_buffered -> r
  sig
    requires
    *old(offset) + rem(old(reader)).len() <= usize::MAX,
    ensures
    [C02] r is Ok ==> final(out)@.len() >= old(out)@.len(),
    [C02] r is Ok ==> final(out)@ + text8(rem(final(reader))) == old(out)@ + text8(rem(old(reader))),
    [C02] r is Ok ==> rest8(rem(final(reader))) == rest8(rem(old(reader))),
    use OFFS;
    [C02] r matches Ok(more) ==> (!more ==> rem(final(reader)).len() == 0 && rem(old(reader)).len() == 0 && final(out)@ == old(out)@),
    [C02] r matches Ok(more) ==> (more ==> rem(final(reader)).len() < rem(old(reader)).len()),
    use ERRS;
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> rest8(rem(old(reader))).len() > 0),
  use FILL0;
  loop 1 iter=it
    use CHARS;
  loop 2 iter=it
    use CHARS;
  hint loop-after:0
    let ghost b = rem(old(reader));
  hint loop-before:1
    proof { lemma_take_all(valid@); lemma_take_all(b); }
  hint loop-start:1
    proof { lemma_chunk_step(b, valid@, it.index@); }
  hint loop-after:1
    proof { lemma_take_all(valid@); lemma_text8_prefix(b, valid@); }
  hint loop-before:2
    proof { lemma_take_all(valid@); lemma_take_all(b); }
  hint loop-start:2
    proof { lemma_chunk_step(b, valid@, it.index@); }
  hint loop-after:2
    proof {
        lemma_take_all(valid@);
        lemma_text8_prefix(b, valid@);
        let a = available@;
        let k = valid_bytes as int;
        assert(a.skip(k) + b.skip(a.len() as int) =~= b.skip(k));
        assert(utf8_err(a, err));
        if !utf8_incomplete(err) {
            lemma_text8_end(b, valid@);
        }
        assert(b.skip(k)[0] == a[k]);
    }
fn read_utf8_char_unbuffered -> r
  sig
    requires
    *old(offset) + rem(old(reader)).len() <= usize::MAX,
    width8(initial) > 0,
    rem(old(reader)).len() > 0 ==> initial == rem(old(reader))[0],
    ensures
    [C02] r is Ok ==> final(out)@.len() >= old(out)@.len(),
    [C02] r is Ok ==> has8(rem(old(reader))) && c_allowed(first8(rem(old(reader)))),
    [C02] r is Ok ==> final(out)@ == old(out)@.push(first8(rem(old(reader)))),
    [C02] r is Ok ==> rem(final(reader)) == pop_first_scalar(rem(old(reader))),
    use OFFS;
    use ERRS;
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> rest8(rem(old(reader))).len() > 0),
  hint before:read_exact
    let ghost b = rem(old(reader));
  hint before:from_utf8
    proof {
        assert(buffer@.take(width as int) =~= b.take(width as int));
        lemma_has8_take(b, width as int);
        if valid_utf8(b.take(width as int)) { }
        assert forall|s: Seq<char>| #[trigger] encode_utf8(s) == b.take(width as int) implies s.len() == 1 && s[0] == first8(b) by { lemma_one_char(s, b, width as int); }
    }
fn utf8_char_width -> r
  hint start
    proof {
        assert(initial & 0x80 == 0 <==> initial < 0x80) by (bit_vector);
        assert(initial & 0xE0 == 0xC0 <==> 0xC0 <= initial < 0xE0) by (bit_vector);
        assert(initial & 0xF0 == 0xE0 <==> 0xE0 <= initial < 0xF0) by (bit_vector);
        assert(initial & 0xF8 == 0xF0 <==> 0xF0 <= initial < 0xF8) by (bit_vector);
    }
  sig
    ensures
    r == width8(initial),
fn is_utf16_surrogate -> r
  sig
    ensures
    r == (0xD800 <= value <= 0xDFFF),
fn push_char -> r
  sig
    ensures
    [C02] c_allowed(ch) ==> r is Ok && final(out)@ == old(out)@.push(ch),
    [C02,C16] !c_allowed(ch) ==> (r matches Err(e) && e.skind() == ErrorKind::Reader && e.soffset() == Some(offset)),
fn read_utf16_char_unbuffered -> r
  sig
    requires
    *old(offset) + rem(old(reader)).len() <= usize::MAX,
    ensures
    [C02] r is Ok ==> final(out)@.len() >= old(out)@.len(),
    [C02] r is Ok ==> len16(BIG_ENDIAN, rem(old(reader))) > 0 && c_allowed(first16(BIG_ENDIAN, rem(old(reader)))),
    [C02] r is Ok ==> final(out)@ == old(out)@.push(first16(BIG_ENDIAN, rem(old(reader)))),
    [C02] r is Ok ==> rem(final(reader)) == rem(old(reader)).skip(len16(BIG_ENDIAN, rem(old(reader)))),
    use OFFS;
    use ERRS;
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> rest16(BIG_ENDIAN, rem(old(reader))).len() > 0),
  hint start
    let ghost b = rem(old(reader));
  hint before:is_utf16_surrogate
    assert(first as int == unit16(BIG_ENDIAN, b));
  hint before:decode_utf16#0
    assert(second as int == unit16(BIG_ENDIAN, b.skip(2)));
    assert(b.skip(2).skip(2) =~= b.skip(4));
    proof {
        reveal_with_fuel(dec16, 3);
        let u = seq![first, second];
        assert([first, second]@ =~= u);
        assert(u.skip(1) =~= seq![second]);
        assert(u.skip(2) =~= Seq::<u16>::empty());
        assert(seq![second].skip(1) =~= Seq::<u16>::empty());
        assert(dec16(u).len() > 0);
        assert(dec16(u)[0] == (if len16(BIG_ENDIAN, b) == 4 { Some(first16(BIG_ENDIAN, b)) } else { None }));
    }
  hint before:decode_utf16#1
    proof {
        reveal_with_fuel(dec16, 2);
        let u = seq![first];
        assert([first]@ =~= u);
        assert(u.skip(1) =~= Seq::<u16>::empty());
        assert(dec16(u).len() > 0);
        assert(dec16(u)[0] == Some(first16(BIG_ENDIAN, b)));
    }
fn read_utf16_buffered -> r
  sig
    requires
    *old(offset) + rem(old(reader)).len() <= usize::MAX,
    ensures
    [C02] r is Ok ==> final(out)@.len() >= old(out)@.len(),
    [C02] r is Ok ==> final(out)@ + text16(BIG_ENDIAN, rem(final(reader))) == old(out)@ + text16(BIG_ENDIAN, rem(old(reader))),
    [C02] r is Ok ==> rest16(BIG_ENDIAN, rem(final(reader))) == rest16(BIG_ENDIAN, rem(old(reader))),
    use OFFS;
    [C02] r matches Ok(more) ==> (!more ==> rem(final(reader)).len() == 0 && rem(old(reader)).len() == 0 && final(out)@ == old(out)@),
    [C02] r matches Ok(more) ==> (more ==> rem(final(reader)).len() < rem(old(reader)).len()),
    use ERRS;
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> rest16(BIG_ENDIAN, rem(old(reader))).len() > 0),
  use FILL0;
  closure 0 |chunk: &[u8]| -> (vx_u: u16)
    requires
    chunk@.len() == 2,
    ensures
    vx_u as int == unit16(BIG_ENDIAN, chunk@),
  hint loop-after:0
    let ghost b = rem(old(reader));
    let ghost mut pushed: Seq<char> = Seq::empty();
  loop 1 iter=it
    invariant_except_break
    loop16(BIG_ENDIAN, b, available@, used as int, d, it.index@, pushed),
    invariant
    b == rem(old(reader)),
    available@.is_prefix_of(b),
    available@.len() > 0,
    rem(&after_borrow(*reader)) == b,
    *offset == *old(offset) + used,
    *old(offset) + b.len() <= usize::MAX,
    used <= available@.len(),
    out@ == old(out)@ + pushed,
    dec16_matches(it.seq(), units(BIG_ENDIAN, available@)),
    d == dec16(units(BIG_ENDIAN, available@)),
    ensures
    loop16_some(BIG_ENDIAN, b, available@, used as int, d, pushed),
  hint loop-before:1
    let ghost d = dec16(units(BIG_ENDIAN, available@));
    proof {
        assert(chunks@ =~= units(BIG_ENDIAN, available@)) by {
            assert forall|i: int| 0 <= i < chunks@.len() implies chunks@[i] == units(BIG_ENDIAN, available@)[i] by {
                assert(available@.skip(2 * i)[0] == available@.subrange(i * 2, i * 2 + 2)[0]);
                assert(available@.skip(2 * i)[1] == available@.subrange(i * 2, i * 2 + 2)[1]);
            }
        }
        lemma_loop16_start(BIG_ENDIAN, b, available@);
    }
  hint loop-start:1
    let ghost u0 = used as int;
    proof { lemma_loop16_step(BIG_ENDIAN, b, available@, used as int, d, it.index@, pushed); }
  hint loop-end:1
    proof { 
        let c = d[it.index@]->Some_0;
        pushed = pushed.push(c);
    }
  hint loop-after:1
    proof {
        lemma_loop16_end(BIG_ENDIAN, b, available@, used as int, d, pushed);
    }
def UB
    after_borrow(*parser).same_control(old(parser)),
    after_borrow(*parser).read_handler == Some(*final(reader)),
    parser.eof ==> rem(reader).len() == 0,
    old(parser).read_handler is Some,
    parser.buffer@.len() >= old(parser).buffer@.len(),
    parser.buffer@ + text(parser.encoding, rem(reader)) == old(parser).stream(),
    rest(parser.encoding, rem(reader)) == old(parser).bad(),
    parser.offset + rem(reader).len() == old(parser).offset + old(parser).input_left().len(),
    parser.offset + rem(reader).len() <= LIMIT,
    parser.encoding != Encoding::Any,
    old(parser).encoding != Encoding::Any ==> parser.encoding == old(parser).encoding,
enddef
fn yaml_parser_update_buffer -> r
  sig
    requires
    old(parser).reader_inv(),
    ensures
    [C02] r is Ok ==> final(parser).reader_inv(),
    [C02] final(parser).same_control(old(parser)),
    [C02] r is Ok ==> final(parser).stream() == old(parser).stream(),
    [C02] r is Ok ==> final(parser).bad() == old(parser).bad(),
    [C02] r is Ok ==> final(parser).buffer@.len() >= length || (final(parser).eof && final(parser).input_left().len() == 0),
    [C02] r is Ok ==> final(parser).offset + final(parser).input_left().len() == old(parser).offset + old(parser).input_left().len(),
    [C02] r is Ok ==> (old(parser).encoding != Encoding::Any ==> final(parser).encoding == old(parser).encoding),
    [C02] r is Ok ==> final(parser).buffer@.len() >= old(parser).buffer@.len(),
    [C02] r is Ok && length > 0 && final(parser).buffer@.len() == 0 ==> final(parser).stream().len() == 0 && final(parser).bad().len() == 0,
    [C16] r matches Err(e) ==> (e.skind() == ErrorKind::Io || e.skind() == ErrorKind::Reader),
    [C02,C16] r matches Err(e) ==> (e.skind() == ErrorKind::Reader ==> old(parser).bad().len() > 0),
  loop 0
    invariant
    use UB;
  hint before:wrapping_div
    assert(!0usize >= 0xffff_fffe) by (bit_vector);
