fn Scanner::cache -> r
  sig
    requires
    old(self).reader_inv(),
    ensures
    [C02] r is Ok ==> final(self).reader_inv(),
    [C02] r is Ok ==> final(self).same_control(old(self)),
    [C02] r is Ok ==> final(self).stream() == old(self).stream(),
    [C02] r is Ok ==> final(self).cached(length as int),
    [C02] r is Ok ==> final(self).buffer@.len() >= old(self).buffer@.len(),
    [C02] r is Ok ==> old(self).buffer@.is_prefix_of(final(self).buffer@),
    [C02] r is Ok ==> final(self).buffer@.is_prefix_of(final(self).stream()),
    [C02] r is Ok ==> (old(self).encoding != Encoding::Any ==> final(self).encoding == old(self).encoding),
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).pos()) && e.skind() != ErrorKind::Scanner,
  hint ret
    proof {
        if vx_ret is Ok {
        assert(old(self).buffer@.is_prefix_of(old(self).stream()));
        assert(self.buffer@.is_prefix_of(self.stream()));
        assert forall|i: int| 0 <= i < old(self).buffer@.len() implies old(self).buffer@[i] == self.buffer@[i] by {
            assert(old(self).stream()[i] == old(self).buffer@[i]);
            assert(self.stream()[i] == self.buffer@[i]);
        } }
    }
def CTL
    requires
    old(self).reader_inv(),
    pos_ok(old(self).pos()),
    ensures
    old(self).stream().len() > 0 && !crlf(old(self).stream()) && old(self).stream()[0] == old(self).buffer@[0],
    final(self).reader_inv(),
    final(self).same_ctl(old(self)),
    final(self).encoding == old(self).encoding,
    [C03] final(self).pos() == step(old(self).pos()),
    pos_ok(final(self).pos()),
enddef
fn Scanner::skip_char
  sig
    use CTL;
    final(self).buffer@ == old(self).buffer@.skip(1),
    requires
    old(self).buffer@.len() > 0,
    !is_brk(old(self).buffer@[0]),
  hint start
    proof { lemma_step_ok(self.pos()); }
  hint end
    proof { assert(self.stream() =~= old(self).stream().skip(1)); }
def LINE
    requires
    old(self).cached(2),
    old(self).reader_inv(),
    pos_ok(old(self).pos()),
    ensures
    c_break(first(old(self).stream())) ==> final(self).pos() == step(old(self).pos()),
    !c_break(first(old(self).stream())) ==> *final(self) == *old(self),
    final(self).reader_inv(),
    final(self).same_ctl(old(self)),
    final(self).encoding == old(self).encoding,
    pos_ok(final(self).pos()),
enddef
def LINEHINT
  hint start
    proof {
        lemma_step_ok(self.pos());
        if self.buffer@.len() > 0 { assert(self.stream()[0] == self.buffer@[0]); }
        if self.buffer@.len() > 1 { assert(self.stream()[1] == self.buffer@[1]); }
    }
  hint end
    proof {
        if self.buffer@.len() + 1 == old(self).buffer@.len() { assert(self.stream() =~= old(self).stream().skip(1)); }
        if self.buffer@.len() + 2 == old(self).buffer@.len() { assert(self.stream() =~= old(self).stream().skip(2)); }
    }
enddef
fn Scanner::skip_line_break
  sig
    use LINE;
  use LINEHINT;
fn Scanner::read_char
  sig
    use CTL;
    final(self).buffer@ == old(self).buffer@.skip(1),
    [C10] final(string)@ == old(string)@.push(old(self).buffer@[0]),
    requires
    old(self).buffer@.len() > 0,
    !is_brk(old(self).buffer@[0]),
  hint start
    proof { lemma_step_ok(self.pos()); }
  hint end
    proof { assert(self.stream() =~= old(self).stream().skip(1)); }
fn Scanner::read_line_break
  sig
    use LINE;
    [C10] final(string)@ == old(string)@ + break_text(first(old(self).stream())),
  use LINEHINT;
  hint before:drain
    proof {
      assert(self.buffer@.len() >= 2);
      assert(crate::vxstd::range_lo(0usize..2usize) == 0);
      assert(crate::vxstd::range_hi(0usize..2usize) == 2);
    }
fn Scanner::set_scanner_error -> r
  sig
    ensures
    *final(self) == *old(self),
    [C16] r matches Err(e) && e.skind() == ErrorKind::Scanner && e.smark() == Some(old(self).mark) && e.scontext() == Some((context, context_mark)) && e.sproblem() == Some(problem),
    [C16] r matches Err(e) && scan_err(e, old(self).pos()),
  hint start
    proof { lemma_reach_refl(self.pos()); }
def MOVE
    requires
    old(self).reader_inv(),
    pos_ok(old(self).pos()),
    ensures
    r is Ok ==> final(self).reader_inv(),
    r is Ok ==> pos_ok(final(self).pos()),
    r is Ok ==> (old(self).encoding != Encoding::Any ==> final(self).encoding == old(self).encoding),
    [C03] r is Ok ==> reach(old(self).pos(), final(self).pos()),
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
enddef
def SCAN
    use MOVE;
    r is Ok ==> final(self).same_ctl(old(self)),
enddef
def TOKEN
    use SCAN;
    requires
    old(self).buffer@.len() > 0,
    !is_brk(old(self).buffer@[0]),
    ensures
    [C03] r matches Ok(t) ==> token_from(t, old(self).pos(), final(self).pos()),
    r is Ok ==> final(self).stream().len() < old(self).stream().len(),
enddef
def INV
    invariant
    self.reader_inv(),
    pos_ok(self.pos()),
    reach(old(self).pos(), self.pos()),
    pos_ok(old(self).pos()),
    old(self).encoding != Encoding::Any ==> self.encoding == old(self).encoding,
enddef
def INVC
    use INV;
    self.same_ctl(old(self)),
enddef
def DEC
    decreases
    self.stream().len(),
enddef
def INV1
    use INVC;
    self.cached(1),
    use DEC;
    invariant
enddef
fn Scanner::scan_to_next_token -> r
  sig
    use MOVE;
    r is Ok ==> final(self).same_ctl_but_key(old(self)),
    r is Ok ==> (old(self).flow_level != 0 ==> final(self).simple_key_allowed == old(self).simple_key_allowed),
  loop 0
    use INV;
    self.same_ctl_but_key(old(self)),
    old(self).flow_level != 0 ==> self.simple_key_allowed == old(self).simple_key_allowed,
    use DEC;
  loop 1
    use INV;
    pos_ok(p0),
    reach(p0, self.pos()),
    self.same_ctl_but_key(old(self)),
    old(self).flow_level != 0 ==> self.simple_key_allowed == old(self).simple_key_allowed,
    self.cached(1),
    use DEC;
  loop 2
    use INV;
    pos_ok(p0),
    reach(p0, self.pos()),
    self.same_ctl_but_key(old(self)),
    old(self).flow_level != 0 ==> self.simple_key_allowed == old(self).simple_key_allowed,
    self.cached(1),
    use DEC;
  hint loop-start:0
    let ghost p0 = self.pos();
def TAKEN
    string@ == taken(old(self).pos(), self.pos()),
enddef
def INV1P
    use INV1;
    pos_ok(p0),
    reach(p0, self.pos()),
    reach(old(self).pos(), p0),
enddef
fn Scanner::scan_directive_name -> r
  sig
    use SCAN;
    [C13] r matches Ok(s) ==> s@ == taken(old(self).pos(), final(self).pos()) && all_alpha(s@) && s@.len() > 0 && c_blankz(first(final(self).stream())),
    r is Ok ==> final(self).cached(1),
  loop 0
    use INV1;
    [C13] string@ == taken(old(self).pos(), self.pos()),
    all_alpha(string@),
fn Scanner::scan_version_directive_number -> r
  sig
    use SCAN;
    [C13] r is Ok ==> number_text(taken(old(self).pos(), final(self).pos()), *final(number) as int) && !c_digit(first(final(self).stream())),
    r is Ok ==> final(self).cached(1),
  loop 0
    use INV1;
    [C13] number_text(taken(old(self).pos(), self.pos()), value as int) || (length == 0 && value == 0 && self.pos() == old(self).pos()),
    length == taken(old(self).pos(), self.pos()).len(),
    length <= 9,
    *number == *old(number),
  hint before:AS_DIGIT!
    proof { if length <= 9 { lemma_dec_push(taken(old(self).pos(), self.pos()), self.stream()[0]); } }
fn Scanner::scan_version_directive_value -> r
  sig
    use SCAN;
    [C13] r is Ok ==> version_text(taken(old(self).pos(), final(self).pos()), *final(major) as int, *final(minor) as int),
  loop 0
    use INV1;
    all_blank(taken(old(self).pos(), self.pos())),
    *minor == *old(minor),
    *major == *old(major),
  hint before:scan_version_directive_number#0
    let ghost p1 = self.pos();
  hint after:scan_version_directive_number#0
    let ghost p2 = self.pos();
  hint after:skip_char#1
    let ghost p3 = self.pos();
  hint ret
    proof {
        if vx_ret is Ok {
            let o = old(self).pos();
            let p4 = self.pos();
            lemma_taken_add(o, p1, p2);
            lemma_taken_add(o, p3, p4);
            lemma_taken_push(o, p2);
            assert(taken(o, p4) =~= taken(o, p1) + taken(p1, p2) + seq!['.'] + taken(p3, p4));
        }
    }
fn Scanner::scan_tag_handle -> r
  sig
    use SCAN;
    [C12] r matches Ok(s) ==> s@ == taken(old(self).pos(), final(self).pos()) && tag_handle(s@, directive),
    r is Ok ==> final(self).stream().len() < old(self).stream().len(),
  loop 0
    use INV1;
    [C12] string@ == taken(old(self).pos(), self.pos()),
    self.stream().len() < old(self).stream().len(),
    string@.len() > 0 && string@[0] == '!',
    forall|i: int| 1 <= i < string@.len() ==> c_alpha(Some(#[trigger] string@[i])),
  hint start
    proof { reveal_strlit("!"); assert("!"@ =~= seq!['!']); }
  hint loop-after:0
    proof { crate::vxstd::axiom_string_eq_str(); }
fn Scanner::scan_tag_uri -> r
  sig
    use SCAN;
    requires
    head matches Some(h) ==> h@.len() > 0 && h@[0] == '!' && blen(h@) <= LIMIT,
    ensures
    [C12] r matches Ok(s) ==> uri_tail(s@, head, taken(old(self).pos(), final(self).pos())),
    [C12] r matches Ok(s) ==> (head is None ==> final(self).stream().len() < old(self).stream().len()),
  loop 0
    use INV1;
    blen(h0) <= LIMIT,
    string@.len() >= head_rest_of(h0).len(),
    string@.take(head_rest_of(h0).len() as int) == head_rest_of(h0),
    [C12] uri(taken(old(self).pos(), self.pos()), string@.skip(head_rest_of(h0).len() as int)),
    blen(h0) <= length <= blen(h0) + taken(old(self).pos(), self.pos()).len(),
    length > blen(h0) ==> self.stream().len() < old(self).stream().len(),
  hint before:if#0
    let ghost h0 = head@;
    proof {
        assert(head.spec_bytes() == encode_utf8(head@));
        lemma_len_blen(h0);
        reveal_strlit("");
        if h0.len() > 0 { lemma_ascii_rest(head); lemma_ascii_first(h0); if h0.len() > 1 { lemma_blen_first(h0.skip(1)); } else { assert(h0.skip(1) =~= seq![]); lemma_blen_empty(); } } else { assert(h0 =~= seq![]); lemma_blen_empty(); }
    }
  hint loop-before:0
    proof {
        lemma_uri_empty();
        assert(string@ =~= head_rest_of(h0));
        assert(string@.skip(head_rest_of(h0).len() as int) =~= seq![]);
        assert(string@.take(head_rest_of(h0).len() as int) =~= string@);
    }
  hint loop-start:0
    let ghost p0 = self.pos();
    let ghost s0 = string@;
    let ghost k = head_rest_of(h0).len() as int;
    proof { lemma_len_blen(old(self).stream()); }
  hint after:scan_uri_escapes
    proof {
        lemma_taken_add(old(self).pos(), p0, self.pos());
        lemma_uri_esc(taken(old(self).pos(), p0), s0.skip(k), taken(p0, self.pos()), string@.last());
        assert(string@ == s0.push(string@.last()));
        assert(string@.skip(k) =~= s0.skip(k).push(string@.last()));
        assert(string@.take(k) =~= s0.take(k));
    }
  hint after:read_char
    proof {
        lemma_uri_plain(taken(old(self).pos(), p0), s0.skip(k), string@.last());
        assert(string@.skip(k) =~= s0.skip(k).push(string@.last()));
        assert(string@.take(k) =~= s0.take(k));
    }
fn Scanner::scan_uri_escapes -> r
  sig
    use SCAN;
    [C12] r is Ok ==> final(string)@.len() > 0 && esc_char(taken(old(self).pos(), final(self).pos()), final(string)@.last()) && final(string)@ == old(string)@.push(final(string)@.last()),
    r is Ok ==> final(self).stream().len() < old(self).stream().len(),
  loop 0
    invariant_except_break
    width == 0 <==> length == 0,
    use INVC;
    length <= 4,
    [C12] escs(taken(old(self).pos(), self.pos()), octets@.take(length as int)),
    length + width <= 4,
    width >= 0,
    length > 0 ==> width8(octets[0]) == length + width,
    string@ == old(string)@,
    ensures
    width == 0, length > 0,
    use DEC;
  hint loop-start:0
    let ghost p0 = self.pos();
    let ghost o0 = octets@;
    let ghost l0 = length as int;
  hint before:let:octet
    proof { assert(forall|x: u32| x < 16 ==> #[trigger] (x << 4) == x * 16) by (bit_vector); }
  hint after:let:octet
    proof {
        assert(octet & 0x80 == 0 <==> octet < 0x80) by (bit_vector);
        assert(octet & 0xE0 == 0xC0 <==> 0xC0 <= octet < 0xE0) by (bit_vector);
        assert(octet & 0xF0 == 0xE0 <==> 0xE0 <= octet < 0xF0) by (bit_vector);
        assert(octet & 0xF8 == 0xF0 <==> 0xF0 <= octet < 0xF8) by (bit_vector);
    }
  hint after:skip_char#2
    proof {
        let e = taken(p0, self.pos());
        lemma_taken_add(old(self).pos(), p0, self.pos());
        assert(e =~= seq![p0.stream[0], p0.stream[1], p0.stream[2]]);
        lemma_escs_push(taken(old(self).pos(), p0), o0.take(l0), e);
        assert(octets@.take(length as int) =~= o0.take(l0).push(octet));
    }
  hint before:push_str
    proof {
        lemma_one_char(decoded@, octets@, length as int);
        assert(decoded@ =~= seq![decoded@[0]]);
        assert(string@ + decoded@ =~= string@.push(decoded@[0]));
    }
fn Scanner::scan_anchor -> r
  sig
    use TOKEN;
    [C07] r matches Ok(t) ==> (if scan_alias_instead_of_anchor { t.data is Alias } else { t.data is Anchor }),
    [C07] r matches Ok(t) ==> (t.data matches TokenData::Alias { value } ==> anchor_text(taken(old(self).pos(), final(self).pos()), value@)),
    [C07] r matches Ok(t) ==> (t.data matches TokenData::Anchor { value } ==> anchor_text(taken(old(self).pos(), final(self).pos()), value@)),
  loop 0
    use INV1;
    taken(old(self).pos(), self.pos()) == seq![old(self).stream()[0]] + string@,
    self.stream().len() < old(self).stream().len(),
    all_alpha(string@),
    length == string@.len(),
    start_mark == old(self).mark,
  hint loop-before:0
    assert(taken(old(self).pos(), self.pos()) =~= seq![old(self).stream()[0]] + string@);
  hint loop-start:0
    proof { lemma_len_blen(old(self).stream()); assert(taken(old(self).pos(), self.pos()).len() == 1 + string@.len()); }
  hint loop-end:0
    assert(taken(old(self).pos(), self.pos()) =~= seq![old(self).stream()[0]] + string@);
  hint before:let:end_mark
    proof { lemma_reach_refl(self.pos()); assert(taken(old(self).pos(), self.pos()).skip(1) =~= string@); }
fn Scanner::new -> r
  sig
    ensures
    [C14] r.fresh(),
fn Scanner::reset
  sig
    ensures
    [C14] final(self).fresh(),
fn Scanner::set_input
  sig
    requires
    !old(self).has_input(),
    ensures
    [C14] *final(self) == old(self).with_input(input),
fn Scanner::set_encoding
  sig
    requires
    old(self).given_encoding() == Encoding::Any,
    ensures
    [C14] *final(self) == old(self).with_encoding(encoding),
fn Scanner::set_input_string
  sig
    requires
    !old(self).has_input(),
    ensures
    [C14] final(self).has_input() && final(self).but_input(old(self)) && *final(self).given_input() == *old(input),
def PEEK
    requires
    old(self).inv(),
    !old(self).stream_end_produced,
    ensures
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
enddef
fn Scanner::peek -> r
  sig
    use PEEK;
    r matches Ok(t) ==> final(self).peeked(old(self)),
    r matches Ok(t) ==> *t == final(self).tokens@[0],
fn Scanner::peek_mut -> r
  sig
    use PEEK;
    r matches Ok(t) ==> (old(self).token_available ==> *t == old(self).tokens@[0]),
    r matches Ok(t) ==> (!old(self).stream_start_produced ==> t.data is StreamStart),
    r matches Ok(t) ==> final(self).tokens@.len() > 0 && final(self).tokens@[0] == *final(t),
    r matches Ok(t) ==> (same_kind(*t, *final(t)) ==> final(self).inv()),
    r matches Ok(t) ==> final(self).token_available && final(self).stream_start_produced && final(self).stream_end_produced == old(self).stream_end_produced,
    r matches Ok(t) ==> reach(old(self).pos(), final(self).pos()),
  hint before:front_mut#0
    proof { lemma_patched(self); }
  hint before:front_mut#1
    proof { lemma_patched(self); }
fn Scanner::skip_token
  sig
    requires
    old(self).inv(),
    old(self).token_available,
    ensures
    final(self).skipped(old(self)),
  hint start
    proof { lemma_skip(self.ctl(), self.pos()); }
fn Scanner::scan -> r
  sig
    requires
    old(self).inv(),
    ensures
    [C03,C04] r matches Ok(t) ==> final(self).scanned(old(self), t),
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).place()),
  hint start
    let ghost mut s1 = *self;
  hint before:pop_front
    proof { lemma_facts(self.ctl(), self.pos()); lemma_skip(self.ctl(), self.pos()); s1 = *self; }
fn Scanner::fetch_more_tokens -> r
  sig
    use PEEK;
    requires
    !old(self).token_available,
    ensures
    [C04] r is Ok ==> final(self).peeked(old(self)),
  loop 0
    invariant
    self.inv(), !self.stream_end_produced, !self.token_available,
    self.ahead(old(self)), reach(old(self).pos(), self.pos()), pos_ok(old(self).pos()),
    old(self).stream_start_produced ==> self.stream_start_produced,
    !old(self).stream_start_produced ==> (if self.stream_start_produced { self.tokens@.len() > 0 && self.tokens_parsed == 0 } else { self.tokens@.len() == 0 }),
    ensures
    self.tokens@.len() > 0, self.certain(),
    decreases
    self.stream().len() + (if self.ctl().ended { 0int } else { 1int }) + (if self.stream_start_produced { 0int } else { 1int }),
  hint loop-before:1
    proof {
        if self.ctl().ended {
            assert forall|i: int| 0 <= i < self.simple_keys@.len() implies !(#[trigger] self.simple_keys@[i]).possible by {
                if self.simple_keys@[i].possible { lemma_ended(self.ctl(), self.pos(), i); }
            }
        }
    }
  loop 1 iter=it
    invariant_except_break
    !need_more_tokens,
    it.seq().len() == self.simple_keys@.len(),
    forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.simple_keys@[j],
    forall|j: int| 0 <= j < it.index@ ==> !#[trigger] self.ctl().key(j, self.tokens_parsed as int),
    invariant
    0 <= it.index@ <= it.seq().len(),
    self.ctl().ended ==> forall|i: int| 0 <= i < self.simple_keys@.len() ==> !(#[trigger] self.simple_keys@[i]).possible,
    ensures
    !need_more_tokens ==> self.certain(),
    need_more_tokens ==> !self.ctl().ended,
  hint ret
    proof { if vx_ret is Ok { lemma_facts(self.ctl(), self.pos()); } }
def RUN
    requires
    old(self).run(None),
    ensures
    [C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
enddef
fn Scanner::stale_simple_keys -> r
  sig
    requires
    old(self).inv(),
    old(self).stream_start_produced,
    ensures
    [C04] r is Ok ==> final(self).inv() && final(self).near() && final(self).ahead(old(self)),
    r is Ok ==> *final(self) == (Scanner { simple_keys: final(self).simple_keys, ..*old(self) }),
    [C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
  hint start
    proof {
        lemma_facts(self.ctl(), self.pos());
        assert forall|i: int| 0 <= i < self.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible implies self.simple_keys@[i].mark.index <= self.mark.index && passed(self.simple_keys@[i].mark, self.pos()) by {
            lemma_key_passed(self.ctl(), self.pos(), i);
        }
    }
  loop 0 iter=it
    invariant
    after_borrow(*self) == (Scanner { simple_keys: after_borrow(*self).simple_keys, ..*old(self) }),
    after_borrow(*self).simple_keys@.len() == it.seq().len(),
    forall|j: int| 0 <= j < it.seq().len() ==> (#[trigger] after_borrow(*self).simple_keys@[j]) == *final(it.seq()[j]),
    forall|j: int| 0 <= j < old(self).simple_keys@.len() && (#[trigger] old(self).simple_keys@[j]).possible ==> old(self).simple_keys@[j].mark.index <= LIMIT,
    it.seq().len() == old(self).simple_keys@.len(),
    0 <= it.index@ <= it.seq().len(),
    forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == old(self).simple_keys@[j],
    forall|j: int| 0 <= j < it.index@ ==> ((*final(#[trigger] it.seq()[j])).possible ==> *final(it.seq()[j]) == old(self).simple_keys@[j] && it.seq()[j].mark.line >= old(self).mark.line && it.seq()[j].mark.index + 1024 >= old(self).mark.index),
  hint ret
    proof { if vx_ret is Ok { lemma_drop_keys(old(self).ctl(), self.simple_keys@, self.pos()); 
        assert forall|i: int| 0 <= i < self.simple_keys@.len() && self.token_available implies !#[trigger] self.ctl().key(i, self.tokens_parsed as int) by {
            assert(!old(self).ctl().key(i, self.tokens_parsed as int));
        }
    } }
fn Scanner::save_simple_key -> r
  sig
    use RUN;
    requires
    old(self).room() >= 0,
    ensures
    [C04] r is Ok ==> final(self).run(Some(old(self).mark)) && final(self).ahead(old(self)) && final(self).room() == old(self).room(),
    r is Ok ==> *final(self) == (Scanner { simple_keys: final(self).simple_keys, ..*old(self) }),
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); lemma_waits(self.ctl(), Some(self.mark)); }
  hint after:remove_simple_key
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint ret
    proof { if vx_ret is Ok && old(self).simple_key_allowed { lemma_save(old(self).ctl(), self.simple_keys@.last(), self.pos()); assert(self.simple_keys@ =~= old(self).simple_keys@.update(old(self).simple_keys@.len() - 1, self.simple_keys@.last())); } }
fn Scanner::remove_simple_key -> r
  sig
    use RUN;
    [C04] r is Ok ==> final(self).run(None) && final(self).ahead(old(self)) && final(self).room() == old(self).room(),
    r is Ok ==> *final(self) == (Scanner { simple_keys: final(self).simple_keys, ..*old(self) }),
    [C04] r is Ok ==> final(self).simple_keys@ == old(self).simple_keys@.update(old(self).simple_keys@.len() - 1, SimpleKey { possible: false, ..old(self).simple_keys@.last() }),
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint ret
    proof { lemma_drop_keys(old(self).ctl(), self.simple_keys@, self.pos()); }
fn Scanner::increase_flow_level -> r
  sig
    requires
    old(self).run(Some(old(self).mark)),
    old(self).flow_level <= old(self).mark.index,
    ensures
    [C04] r is Ok ==> final(self).run(Some(old(self).mark)) && final(self).ahead(old(self)) && final(self).room() == old(self).room(),
    r is Ok ==> *final(self) == (Scanner { simple_keys: final(self).simple_keys, flow_level: (old(self).flow_level + 1) as i32, ..*old(self) }),
    r is Ok,
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint ret
    proof { lemma_flow_up(old(self).ctl(), empty_simple_key, self.pos()); }
fn Scanner::decrease_flow_level
  sig
    requires
    old(self).run(None),
    ensures
    [C04] final(self).run(None) && final(self).ahead(old(self)) && final(self).room() == old(self).room(),
    *final(self) == (Scanner { simple_keys: final(self).simple_keys, flow_level: (if old(self).flow_level > 0 { old(self).flow_level - 1 } else { 0 }) as i32, ..*old(self) }),
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint end
    proof { if old(self).flow_level != 0 { lemma_flow_down(old(self).ctl(), self.pos()); } }
fn Scanner::roll_indent -> r
  sig
    use RUN;
    requires
    0 <= column <= old(self).mark.index,
    column == mark.column,
    data is BlockSequenceStart || data is BlockMappingStart,
    passed(mark, old(self).pos()),
    number == -1 ==> mark == old(self).mark,
    number != -1 ==> old(self).tokens_parsed <= number < old(self).ctl().next() && number > 0,
    number != -1 ==> mark == old(self).tokens@[number - old(self).tokens_parsed].start_mark,
    number != -1 && old(self).flow_level == 0 ==> (forall|i: int| 0 <= i < old(self).simple_keys@.len() ==> !(#[trigger] old(self).simple_keys@[i]).possible),
    ensures
    r is Ok,
    [C04] final(self).run(None) && final(self).ahead(old(self)) && final(self).room() >= old(self).room() - 2,
    *final(self) == (Scanner { tokens: final(self).tokens, indents: final(self).indents, indent: final(self).indent, ..*old(self) }),
    [C04] old(self).flow_level != 0 || old(self).indent >= column ==> *final(self) == *old(self),
    [C04] old(self).flow_level == 0 && old(self).indent < column ==> {
        let k = if number == -1 { old(self).tokens@.len() as int } else { number - old(self).tokens_parsed };
        final(self).indent == column && final(self).indents@ == old(self).indents@.push(old(self).indent)
            && final(self).tokens@ == old(self).tokens@.insert(k, Token { data: data, start_mark: mark, end_mark: mark })
    },
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint ret
    proof {
        if old(self).flow_level == 0 && old(self).indent < column {
            let n = if number == -1 { old(self).ctl().next() } else { number as int };
            let t = Token { data: data, start_mark: mark, end_mark: mark };
            lemma_roll(old(self).ctl(), t, n, column as int, self.pos());
            assert(self.tokens@ =~= old(self).tokens@.insert(n - old(self).tokens_parsed, t));
        }
    }
fn Scanner::unroll_indent
  sig
    requires
    old(self).run(None),
    column >= -1,
    ensures
    [C04] final(self).run(None) && final(self).ahead(old(self)) && final(self).room() == old(self).room(),
    *final(self) == (Scanner { tokens: final(self).tokens, indents: final(self).indents, indent: final(self).indent, ..*old(self) }),
    [C04] old(self).flow_level != 0 ==> *final(self) == *old(self),
    [C04] old(self).flow_level == 0 ==> final(self).indent <= column,
    [C04] old(self).flow_level == 0 && column == -1 ==> final(self).indents@.len() == 0,
  loop 0
    invariant
    self.run(None), self.ahead(old(self)), self.room() == old(self).room(),
    *self == (Scanner { tokens: self.tokens, indents: self.indents, indent: self.indent, ..*old(self) }),
    column >= -1,
    self.flow_level == 0,
    decreases
    self.indents@.len(),
  hint loop-start:0
    proof { lemma_facts(self.ctl(), self.pos()); }
    let ghost c = self.ctl();
  hint loop-end:0
    proof { lemma_unroll(c, self.tokens@.last(), self.pos()); }
  hint end
    proof { lemma_facts(self.ctl(), self.pos()); }
fn Scanner::fetch_stream_start
  sig
    requires
    old(self).input_ok(),
    !old(self).stream_start_produced,
    old(self).unstarted(),
    ensures
    [C04] final(self).run(None) && final(self).roomy() && final(self).ahead(old(self)),
    [C04] final(self).tokens@ == seq![Token { data: TokenData::StreamStart { encoding: old(self).encoding }, start_mark: old(self).mark, end_mark: old(self).mark }],
    final(self).tokens_parsed == 0,
    final(self).pos() == old(self).pos(),
    !final(self).token_available,
  hint end
    proof {
        lemma_start(self.tokens@[0], self.simple_keys@[0], self.pos());
        lemma_reach_refl(self.pos());
        assert(self.tokens@ =~= seq![self.tokens@[0]]);
        assert(self.simple_keys@ =~= seq![self.simple_keys@[0]]);
        assert(self.indents@ =~= seq![]);
    }
fn Scanner::fetch_stream_end -> r
  sig
    use RUN;
    requires
    old(self).roomy(),
    old(self).stream().len() == 0,
    ensures
    r is Ok ==> final(self).input_ok() && final(self).stream_start_produced && !final(self).stream_end_produced,
    [C04] r is Ok ==> final(self).ctl().ended && ctl_ok(final(self).ctl(), final(self).pos()) && waits(final(self).ctl(), None) && final(self).roomy(),
    [C03,C04] r is Ok ==> final(self).ahead(old(self)) && reach(old(self).pos(), final(self).pos()),
    [C04] r is Ok ==> final(self).tokens@.len() > 0 && final(self).tokens@.last() == (Token { data: TokenData::StreamEnd, start_mark: final(self).mark, end_mark: final(self).mark }),
    [C03] r is Ok ==> final(self).mark.column == 0 && final(self).mark.line == old(self).mark.line + (if old(self).mark.column == 0 { 0int } else { 1int }),
    [C04] r is Ok && old(self).flow_level == 0 ==> final(self).indents@.len() == 0,
    r is Ok ==> final(self).token_available == old(self).token_available,
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); lemma_step_ok(self.pos()); lemma_reach_step(self.pos()); lemma_reach_refl(self.pos()); }
  hint before:unroll_indent
    proof { lemma_move(self.ctl(), old(self).pos(), self.pos()); }
  hint before:push_back
    proof { lemma_facts(self.ctl(), self.pos()); lemma_end(self.ctl(), token, self.pos()); }
fn Scanner::fetch_next_token -> r
  sig
    requires
    old(self).inv(),
    !old(self).stream_end_produced,
    !old(self).token_available,
    !old(self).ctl().ended,
    ensures
    [C04] r is Ok ==> final(self).inv() && final(self).stream_start_produced && !final(self).stream_end_produced && !final(self).token_available,
    [C04] r is Ok ==> reach(old(self).pos(), final(self).pos()) && final(self).ahead(old(self)) && final(self).tokens@.len() > 0,
    r is Ok ==> !old(self).stream_start_produced || final(self).stream().len() < old(self).stream().len() || final(self).ctl().ended,
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
  hint before:stale_simple_keys
    proof { lemma_move(self.ctl(), old(self).pos(), self.pos()); }
def FETCH
    requires
    old(self).run(None),
    old(self).roomy(),
    old(self).buffer@.len() > 0,
    !is_brk(old(self).buffer@[0]),
    ensures
    [C03,C04] r is Ok ==> final(self).run(None) && final(self).roomy() && final(self).ahead(old(self)),
    [C03] r is Ok ==> reach(old(self).pos(), final(self).pos()),
    r is Ok ==> final(self).stream().len() < old(self).stream().len(),
    r is Ok ==> final(self).token_available == old(self).token_available,
    r is Ok ==> final(self).tokens@.len() > 0,
    [C02,C16] r matches Err(e) ==> scan_err(e, old(self).pos()),
enddef
def PUSH
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); lemma_passed_here(self.pos()); }
  hint before:push_back
    proof {
        lemma_facts(self.ctl(), old(self).pos());
        lemma_token_here(token, old(self).pos(), self.pos(), self.pos());
        lemma_push(self.ctl(), token, old(self).pos(), self.pos());
    }
enddef
def PUSHED
  hint start
    proof { lemma_facts(self.ctl(), self.pos()); }
  hint before:push_back
    proof {
        lemma_token_from(token, old(self).pos(), self.pos());
        lemma_push(self.ctl(), token, old(self).pos(), self.pos());
    }
enddef
fn Scanner::fetch_directive -> r
  sig
    use FETCH;
    [C04] r is Ok && old(self).flow_level == 0 ==> final(self).indents@.len() == 0,
    [C04] r is Ok ==> final(self).tokens@.last().data is VersionDirective || final(self).tokens@.last().data is TagDirective,
  use PUSHED;
fn Scanner::fetch_document_indicator -> r
  sig
    use FETCH;
    requires
    data is DocumentStart || data is DocumentEnd,
    old(self).buffer@.len() > 2,
    !is_brk(old(self).buffer@[1]),
    !is_brk(old(self).buffer@[2]),
    ensures
    [C04] r is Ok && old(self).flow_level == 0 ==> final(self).indents@.len() == 0,
    [C04] r is Ok ==> final(self).tokens@.last().data == data && final(self).tokens@.last().start_mark == old(self).mark && final(self).tokens@.last().end_mark == final(self).mark,
  use PUSH;
fn Scanner::fetch_flow_collection_start -> r
  sig
    use FETCH;
    requires
    data is FlowSequenceStart || data is FlowMappingStart,
    ensures
    [C04] r is Ok ==> final(self).flow_level == old(self).flow_level + 1,
    [C04] r is Ok ==> final(self).tokens@ == old(self).tokens@.push(Token { data: data, start_mark: old(self).mark, end_mark: final(self).mark }),
  use PUSH;
fn Scanner::fetch_flow_collection_end -> r
  sig
    use FETCH;
    requires
    data is FlowSequenceEnd || data is FlowMappingEnd,
    ensures
    [C04] r is Ok ==> final(self).flow_level == if old(self).flow_level > 0 { old(self).flow_level - 1 } else { 0 },
    [C04] r is Ok ==> final(self).tokens@ == old(self).tokens@.push(Token { data: data, start_mark: old(self).mark, end_mark: final(self).mark }),
  use PUSH;
fn Scanner::fetch_flow_entry -> r
  sig
    use FETCH;
    [C04] r is Ok ==> final(self).tokens@ == old(self).tokens@.push(Token { data: TokenData::FlowEntry, start_mark: old(self).mark, end_mark: final(self).mark }),
  use PUSH;
fn Scanner::fetch_block_entry -> r
  sig
    use FETCH;
    [C04] r is Ok && old(self).flow_level == 0 ==> old(self).simple_key_allowed,
    [C04] r is Ok ==> final(self).tokens@ == old(self).with_start(old(self).tokens@, old(self).tokens@.len() as int, TokenData::BlockSequenceStart, old(self).mark).push(Token { data: TokenData::BlockEntry, start_mark: old(self).mark, end_mark: final(self).mark }),
  use PUSH;
fn Scanner::fetch_key -> r
  sig
    use FETCH;
    [C04] r is Ok && old(self).flow_level == 0 ==> old(self).simple_key_allowed,
    [C04] r is Ok ==> final(self).tokens@ == old(self).with_start(old(self).tokens@, old(self).tokens@.len() as int, TokenData::BlockMappingStart, old(self).mark).push(Token { data: TokenData::Key, start_mark: old(self).mark, end_mark: final(self).mark }),
  use PUSH;
fn Scanner::fetch_value -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(150)]
  sig
    use FETCH;
    requires
    old(self).near(),
    ensures
    [C04] r is Ok ==> final(self).tokens@.last() == (Token { data: TokenData::Value, start_mark: old(self).mark, end_mark: final(self).mark }),
    [C04] r is Ok && !old(self).simple_keys@.last().possible ==> final(self).tokens@.drop_last() == old(self).with_start(old(self).tokens@, old(self).tokens@.len() as int, TokenData::BlockMappingStart, old(self).mark),
    [C04] r is Ok && old(self).simple_keys@.last().possible ==> old(self).key_here(old(self).simple_keys@.last()),
    [C04] r is Ok && old(self).simple_keys@.last().possible ==> final(self).tokens@.drop_last() == old(self).with_key(old(self).simple_keys@.last()),
    [C04] r is Ok && old(self).flow_level == 0 && !old(self).simple_keys@.last().possible ==> old(self).simple_key_allowed,
  hint start
    proof {
        lemma_facts(self.ctl(), self.pos());
        lemma_passed_here(self.pos());
        if self.simple_keys@.last().possible { lemma_last_key(self.ctl(), self.pos()); assert(self.simple_keys@[self.simple_keys@.len() - 1].possible); }
    }
  hint before:roll_indent#0
    proof {
        let k = old(self).simple_keys@.last();
        lemma_key(old(self).ctl(), self.tokens@[k.token_number - self.tokens_parsed], self.pos());
        assert(self.simple_keys@ =~= old(self).simple_keys@.update(old(self).simple_keys@.len() - 1, SimpleKey { possible: false, ..k }));
        assert(self.ctl() == (Ctl { tokens: old(self).tokens@.insert(k.token_number - old(self).tokens_parsed, self.tokens@[k.token_number - self.tokens_parsed]), keys: self.simple_keys@, ..old(self).ctl() }));
        assert(self.run(None) && self.ahead(old(self)) && self.room() == old(self).room() - 1);
    }
  hint before:roll_indent#1
    proof { assert(self.simple_keys@ =~= old(self).simple_keys@); }
  hint before:skip_char
    proof { if !old(self).simple_keys@.last().possible { assert(self.simple_keys@ =~= old(self).simple_keys@); } assert(self.run(None) && self.ahead(old(self)) && self.room() >= old(self).room() - 3); }
  hint before:push_back
    proof {
        lemma_facts(self.ctl(), old(self).pos());
        lemma_token_here(token, old(self).pos(), self.pos(), self.pos());
        lemma_push(self.ctl(), token, old(self).pos(), self.pos());
    }
fn Scanner::fetch_anchor -> r
  sig
    use FETCH;
  use PUSHED;
fn Scanner::fetch_tag -> r
  sig
    use FETCH;
  use PUSHED;
fn Scanner::fetch_block_scalar -> r
  sig
    use FETCH;
    [C19] r is Ok ==> (final(self).tokens@.last().data matches TokenData::Scalar { value, style } && value@ == block_text(step(old(self).pos()), literal, old(self).indent as int) && style == (if literal { ScalarStyle::Literal } else { ScalarStyle::Folded })),
  use PUSHED;
fn Scanner::fetch_flow_scalar -> r
  sig
    use FETCH;
    [C19] r is Ok ==> (final(self).tokens@.last().data matches TokenData::Scalar { value, style } && value@ == quoted(single, old(self).stream().skip(1)) && style == (if single { ScalarStyle::SingleQuoted } else { ScalarStyle::DoubleQuoted })),
  use PUSHED;
fn Scanner::fetch_plain_scalar -> r
  sig
    use FETCH;
    [C19] r is Ok ==> (final(self).tokens@.last().data matches TokenData::Scalar { value, style } && value@ == plain(old(self).pos(), old(self).flow_level != 0, old(self).indent + 1) && style == ScalarStyle::Plain),
    requires
    old(self).plain_first(),
  use PUSHED;
fn Scanner::scan_directive -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  sig
    use TOKEN;
    [C13] r matches Ok(t) ==> t.data is VersionDirective || t.data is TagDirective,
    [C13] r matches Ok(t) ==> exists|q: Pos| #[trigger] reach(old(self).pos(), q) && reach(q, final(self).pos()) && q.mark == t.end_mark && directive_text(taken(old(self).pos(), q), t.data),
  loop 0
    use INV1;
    reach(p1, self.pos()), pos_ok(p1), self.stream().len() < old(self).stream().len(),
  loop 1
    use INV1;
    reach(p1, self.pos()), pos_ok(p1), self.stream().len() < old(self).stream().len(),
  hint before:scan_directive_name
    let ghost p0 = self.pos();
  hint after:scan_directive_name
    let ghost p2 = self.pos();
    proof {
        crate::vxstd::axiom_string_eq_str();
        reveal_strlit("YAML"); assert("YAML"@ =~= seq!['Y', 'A', 'M', 'L']);
        reveal_strlit("TAG"); assert("TAG"@ =~= seq!['T', 'A', 'G']);
        lemma_taken_add(old(self).pos(), p0, p2);
    }
  hint after:let:token
    let ghost p1 = self.pos();
    proof {
        lemma_taken_add(old(self).pos(), p2, p1);
        let s = taken(old(self).pos(), p1);
        assert(s.skip(1).take(name@.len() as int) =~= name@);
        assert(s.skip(1 + name@.len() as int) =~= taken(p2, p1));
    }
fn Scanner::scan_tag_directive_value -> r
  sig
    use SCAN;
    [C13] r matches Ok(v) ==> tag_directive_text(taken(old(self).pos(), final(self).pos()), v.0@, v.1@),
    r is Ok ==> final(self).cached(1),
  loop 0
    use INV1;
    all_blank(taken(old(self).pos(), self.pos())),
  loop 1
    use INV1;
    pos_ok(p2), reach(p2, self.pos()), reach(old(self).pos(), p2),
    all_blank(taken(p2, self.pos())),
    self.pos() == p2 ==> c_blank(first(self.stream())),
  hint before:scan_tag_handle
    let ghost p1 = self.pos();
  hint after:scan_tag_handle
    let ghost p2 = self.pos();
  hint before:scan_tag_uri
    let ghost p3 = self.pos();
  hint after:scan_tag_uri
    proof {
        let o = old(self).pos();
        lemma_taken_add(o, p1, p2);
        lemma_taken_add(o, p2, p3);
        lemma_taken_add(o, p3, self.pos());
        let u = taken(p3, self.pos());
        assert(forall|s: Seq<char>| #![trigger s.skip(0)] s.skip(0) =~= s);
        assert(taken(o, self.pos()) == taken(o, p1) + taken(p1, p2) + taken(p2, p3) + u);
    }
fn Scanner::scan_tag -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  sig
    use TOKEN;
    [C12] r matches Ok(t) ==> (t.data matches TokenData::Tag { handle, suffix } && tag_text(taken(old(self).pos(), final(self).pos()), handle@, suffix@)),
  hint start
    proof { reveal_strlit("!"); assert("!"@ =~= seq!['!']); }
  hint before:scan_tag_uri#0
    let ghost p1 = self.pos();
  hint after:scan_tag_uri#0
    let ghost p2 = self.pos();
    proof {
        lemma_taken_add(old(self).pos(), p1, p2);
        assert(old(self).stream()[1] == '<');
    }
  hint after:skip_char#2
    proof {
        let s = taken(old(self).pos(), self.pos());
        assert(s.subrange(2, s.len() - 1) =~= taken(p1, p2));
        lemma_tag_verbatim(s, taken(p1, p2), suffix@);
        assert(handle@ =~= seq![]);
    }
  hint after:scan_tag_handle
    let ghost p1 = self.pos();
    let ghost h = handle@;
    proof { lemma_handle(h); lemma_blen_taken(old(self).pos(), p1); }
  hint after:scan_tag_uri#1
    proof {
        lemma_taken_add(old(self).pos(), p1, self.pos());
        lemma_tag_handle(h, taken(p1, self.pos()), suffix@);
    }
  hint after:scan_tag_uri#2
    proof {
        lemma_taken_add(old(self).pos(), p1, self.pos());
        if h.len() == 1 { assert(h.skip(1) =~= seq![]); }
        lemma_tag_local(h, taken(p1, self.pos()), suffix@);
    }
  hint after:swap
    proof { assert(handle@ =~= seq![]); }
  hint before:let:end_mark
    proof { lemma_reach_refl(self.pos()); }
def BREAKS
    use INVC;
    use DEC;
    invariant
    p0 == old(self).pos(), n == *old(indent), n == *indent, 0 <= n <= LIMIT + 16,
    [C19] skip_lines(self.pos(), n) == skip_lines(p0, n),
    [C19] breaks@ + line_breaks(self.pos(), n) == old(breaks)@ + line_breaks(p0, n),
    [C03] last_break(self.pos(), n, e) == last_break(p0, n, p0),
    e.mark == *end_mark, reach(p0, e), reach(e, self.pos()), pos_ok(e),
    0 <= max_indent <= LIMIT,
    [C19] n == 0 ==> imax(max_indent as int, widest(self.pos())) == widest(p0),
enddef
fn Scanner::scan_block_scalar_breaks -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  sig
    use SCAN;
    requires
    -1 <= old(self).indent <= LIMIT,
    0 <= *old(indent) <= LIMIT + 16,
    ensures
    [C03,C19] r is Ok ==> final(self).pos() == skip_lines(old(self).pos(), *old(indent) as int),
    [C19] r is Ok ==> final(breaks)@ == old(breaks)@ + line_breaks(old(self).pos(), *old(indent) as int),
    [C03] r is Ok ==> *final(end_mark) == last_break(old(self).pos(), *old(indent) as int, old(self).pos()).mark,
    [C03] r is Ok ==> reach(old(self).pos(), last_break(old(self).pos(), *old(indent) as int, old(self).pos())) && reach(last_break(old(self).pos(), *old(indent) as int, old(self).pos()), final(self).pos()),
    [C19] r is Ok ==> *final(indent) == (if *old(indent) == 0 { detected(old(self).pos(), old(self).indent as int) } else { *old(indent) as int }),
    r is Ok ==> *final(indent) <= LIMIT + 16,
    r is Ok ==> final(self).cached(1),
  hint start
    let ghost p0 = self.pos();
    let ghost n = *indent as int;
    let ghost mut e = p0;
    proof { lemma_widest(p0); lemma_reach_refl(p0); }
  loop 0
    invariant_except_break
    use BREAKS;
    ensures
    self.cached(1),
    *indent == n, self.pos() == skip_lines(p0, n), breaks@ == old(breaks)@ + line_breaks(p0, n),
    0 <= max_indent <= LIMIT,
    e == last_break(p0, n, p0), e.mark == *end_mark, reach(p0, e), reach(e, self.pos()),
    n == 0 ==> max_indent == widest(p0),
  loop 1
    invariant
    self.cached(1),
    pos_ok(p1), reach(p1, self.pos()),
    use BREAKS;
    ensures
    !indents(self.pos(), n),
  hint loop-start:0
    let ghost p1 = self.pos();
  hint before:break#0
    proof { assert(breaks@ + Seq::<char>::empty() =~= breaks@); }
  hint before:read_line_break
    let ghost b1 = breaks@;
    let ghost p2 = self.pos();
    proof { lemma_break(p2.stream); }
  hint loop-end:0
    proof {
        lemma_assoc(b1, break_text(first(p2.stream)), line_breaks(self.pos(), n));
        e = self.pos();
    }
fn Scanner::scan_block_scalar -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  sig
    use TOKEN;
    requires
    -1 <= old(self).indent <= LIMIT,
    ensures
    [C19] r matches Ok(t) ==> (t.data matches TokenData::Scalar { value, style } && value@ == block_text(step(old(self).pos()), literal, old(self).indent as int) && style == (if literal { ScalarStyle::Literal } else { ScalarStyle::Folded })),
    [C03,C19] r matches Ok(t) ==> ({
        let e = block_text_end(step(old(self).pos()), old(self).indent as int);
        t.end_mark == e.1.mark && final(self).pos() == e.0
    }),
  hint after:skip_char#0
    let ghost h0 = self.pos();
  block if#0
    invariant_except_break
    self.pos() == h0, self.cached(1), chomping == 0, increment == 0,
    invariant
    use INVC;
    start_mark == old(self).mark, h0 == step(old(self).pos()), h0.stream.len() < old(self).stream().len(),
    ensures
    self.stream().len() < old(self).stream().len(),
    self.pos() == indicators(h0), chomping == chomping_of(h0.stream), increment == increment_of(h0.stream), 0 <= increment <= 9, -1 <= chomping <= 1,
  loop 0
    invariant
    use INVC;
    self.cached(1),
    start_mark == old(self).mark, self.stream().len() < old(self).stream().len(),
    skip_blanks(self.pos()) == skip_blanks(h1),
    ensures
    self.pos() == skip_blanks(h1),
    use DEC;
  hint loop-before:0
    let ghost h1 = self.pos();
  loop 1
    invariant
    use INVC;
    self.cached(1),
    start_mark == old(self).mark, self.stream().len() < old(self).stream().len(),
    line_end(self.pos()) == line_end(h2),
    ensures
    self.pos() == line_end(h2),
    use DEC;
  hint loop-before:1
    let ghost h2 = self.pos();
  hint loop-after:0
    let ghost h3 = self.pos();
  block if#9
    invariant_except_break
    self.pos() == h3,
    invariant
    use INVC;
    self.cached(1),
    start_mark == old(self).mark, self.stream().len() < old(self).stream().len(),
    ensures
    self.pos() == skip_comment(h3),
  hint before:if#11
    let ghost h4 = self.pos();
  block if#12
    invariant_except_break
    self.pos() == h4, self.cached(1),
    invariant
    use INVC;
    self.stream().len() < old(self).stream().len(),
    ensures
    self.pos() == next_line(h4),
  hint before:=end_mark#0
    let ghost h = self.pos();
    let ghost g = given_indent(h0.stream, self.indent as int);
    proof { assert(h == header_end(h0)); }
  block if#13
    invariant_except_break
    indent == 0,
    invariant
    g == given_indent(h0.stream, self.indent as int), increment == increment_of(h0.stream), 0 <= increment <= 9, -1 <= self.indent <= LIMIT,
    ensures
    indent == g,
  hint loop-before:2
    let ghost n = indent as int;
    let ghost mut e = last_break(h, g, h);
    let ghost t0 = self.pos();
    proof { lemma_skip_lines(h, g); }
  loop 2
    invariant
    use INVC;
    self.cached(1),
    start_mark == old(self).mark, self.stream().len() < old(self).stream().len(),
    !c_break(first(self.stream())),
    indent == n, 1 <= n <= LIMIT + 16, -1 <= self.indent <= LIMIT,
    leading_blank == 0 || leading_blank == 1,
    -1 <= chomping <= 1,
    [C19] string@ + block(self.pos(), n, literal, chomping as int, leading_break@, trailing_breaks@, leading_blank == 1) == block(t0, n, literal, chomping as int, seq![], line_breaks(h, g), false),
    [C03] block_end(self.pos(), n, e) == block_end(t0, n, last_break(h, g, h)),
    e.mark == end_mark, reach(old(self).pos(), e), reach(e, self.pos()), pos_ok(e),
    ensures
    block_over(self.pos(), n),
    use DEC;
  hint loop-start:2
    let ghost pl = self.pos();
    let ghost str1 = string@;
    let ghost lead1 = leading_break@;
    let ghost tr1 = trailing_breaks@;
    let ghost bl1 = leading_blank == 1;
    proof {
        lemma_skip_lines(pl, 0);
    }
    let ghost b1 = c_blank(first(pl.stream));
    let ghost j = joint(literal, lead1, tr1, bl1 || b1);
  hint before:=trailing_blank#0
    proof { lemma_block_line(pl, n, literal, chomping as int, leading_break@, trailing_breaks@, leading_blank == 1, e); }
  hint before:if#16
    proof {
        if lead1.len() > 0 {
            if lead1[0] == '\n' { assert(seq!['\n'] =~= lead1.subrange(0, 1)); }
            else { assert(seq!['\n'][0] != lead1[0]); }
        }
    }
  block if#16
    invariant_except_break
    leading_break@ == lead1, string@ == str1,
    invariant
    trailing_breaks@ == tr1, bl1 == (leading_blank == 1), leading_blank == 0 || leading_blank == 1, b1 == (trailing_blank == 1), trailing_blank == 0 || trailing_blank == 1,
    j == joint(literal, lead1, tr1, bl1 || b1),
    ensures
    leading_break@.len() == 0, string@ + tr1 =~= str1 + j,
  hint loop-before:3
    let ghost str2 = string@;
    proof { assert(str2 == str1 + j); assert(str2 + line(pl) =~= string@ + line(self.pos())); }
  loop 3
    invariant
    use INVC;
    self.cached(1), leading_break@.len() == 0, trailing_breaks@.len() == 0,
    pos_ok(pl), reach(pl, self.pos()),
    start_mark == old(self).mark, self.stream().len() < old(self).stream().len(),
    [C19] string@ + line(self.pos()) == str2 + line(pl), line_end(self.pos()) == line_end(pl),
    ensures
    self.pos() == line_end(pl),
    use DEC;
  hint loop-start:3
    let ghost pc = self.pos();
    let ghost strc = string@;
  hint loop-end:3
    proof { lemma_next(strc, pc.stream[0], line(self.pos())); }
  hint loop-after:3
    proof { lemma_line_end(pl); assert(line(self.pos()) =~= Seq::<char>::empty()); assert(string@ + Seq::<char>::empty() =~= string@); }
  hint before:scan_block_scalar_breaks#1
    let ghost r = self.pos();
    proof { assert(r == next_line(line_end(pl))); }
  hint loop-end:2
    proof {
        e = last_break(r, n, r);
        assert(Seq::<char>::empty() + line_breaks(r, n) =~= line_breaks(r, n));
        assert(Seq::<char>::empty() + break_text(first(line_end(pl).stream)) =~= break_text(first(line_end(pl).stream)));
        lemma_skip_lines(r, n);
        assert(leading_break@ == break_text(first(line_end(pl).stream)));
        assert(trailing_breaks@ == line_breaks(r, n));
        assert((leading_blank == 1) == b1);
        assert(self.pos() == skip_lines(r, n));
        assert(string@ == str2 + line(pl));
        let rest = block(self.pos(), n, literal, chomping as int, leading_break@, trailing_breaks@, leading_blank == 1);
        lemma_assoc(str1, j, line(pl));
        lemma_assoc(str1, j + line(pl), rest);
    }
  hint loop-after:2
    let ghost str3 = string@;
    proof { lemma_block_over(self.pos(), n, literal, chomping as int, leading_break@, trailing_breaks@, leading_blank == 1, e); }
  hint ret
    proof { assert(vx_ret matches Ok(t) ==> (t.data matches TokenData::Scalar { value, style } ==> value@ =~= str3 + chomped(chomping as int, leading_break@, trailing_breaks@))); }
fn Scanner::scan_flow_scalar -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  sig
    use TOKEN;
    [C19] r matches Ok(t) ==> (t.data matches TokenData::Scalar { value, style } && value@ == quoted(single, old(self).stream().skip(1)) && style == (if single { ScalarStyle::SingleQuoted } else { ScalarStyle::DoubleQuoted })),
    [C03,C19] r is Ok ==> final(self).stream() == quoted_end(single, old(self).stream().skip(1)),
    [C03] r matches Ok(t) ==> t.start_mark == old(self).mark && t.end_mark == final(self).mark,
  loop 0
    invariant_except_break
    [C19] string@ + quoted(single, self.stream()) == quoted(single, s0),
    quoted_end(single, self.stream()) == quoted_end(single, s0),
    whitespaces@.len() == 0, leading_break@.len() == 0, trailing_breaks@.len() == 0,
    use INVC;
    start_mark == old(self).mark, s0 == old(self).stream().skip(1),
    self.stream().len() < old(self).stream().len(),
    ensures
    string@ == quoted(single, s0),
    self.stream().len() > 0 && self.stream().skip(1) == quoted_end(single, s0),
    self.buffer@.len() > 0 && !is_brk(self.buffer@[0]),
    use DEC;
  hint after:skip_char#0
    let ghost s0 = self.stream();
  hint loop-start:0
    let ghost p0 = self.pos();
  loop 1
    invariant_except_break
    !leading_blanks,
    [C19] string@ + quoted(single, self.stream()) == quoted(single, s0),
    quoted_end(single, self.stream()) == quoted_end(single, s0),
    self.cached(2),
    use INVC;
    start_mark == old(self).mark,
    self.stream().len() < old(self).stream().len(),
    pos_ok(p0), reach(p0, self.pos()),
    self.pos() == p0 || self.stream().len() < p0.stream.len(),
    ensures
    self.pos() == p0 ==> !leading_blanks,
    !leading_blanks ==> string@ + quoted(single, self.stream()) == quoted(single, s0) && quoted_end(single, self.stream()) == quoted_end(single, s0),
    leading_blanks ==> !single && string@ + breaks(self.stream()) + quoted(false, after_ws(self.stream())) == quoted(single, s0) && quoted_end(false, after_ws(self.stream())) == quoted_end(single, s0),
    !leading_blanks ==> c_blankz(first(self.stream())) || first(self.stream()) == Some(if single { '\'' } else { '"' }) && (single ==> at(self.stream(), 1) != Some('\'')),
    use DEC;
  loop 2
    use INVC;
    pos_ok(p0), reach(p0, self.pos()), s2.len() < p0.stream.len(),
    s2 == self.stream(), self.cached(code_length as int),
    code_length <= 8, k <= code_length,
    start_mark == old(self).mark,
    value == hexnum(s2, k as nat),
    forall|i: int| 0 <= i < k ==> c_hex(Some(#[trigger] s2[i])),
    k <= s2.len(),
    decreases
    code_length - k,
  hint before:let:value
    let ghost s2 = self.stream();
  hint before:AS_HEX_AT!
    proof { lemma_hexdigit(s2, k as nat, value); }
  loop 3
    use INVC;
    pos_ok(p0), reach(p0, self.pos()), s2.len() < p0.stream.len(),
    k <= code_length <= s2.len(),
    start_mark == old(self).mark,
    self.stream() == s2.skip(k as int),
    self.buffer@.len() >= code_length - k,
    forall|i: int| 0 <= i < code_length ==> c_hex(Some(#[trigger] s2[i])),
    decreases
    code_length - k,
  hint loop-start:3
    proof {
        assert(self.buffer@[0] == self.stream()[0]);
        assert(c_hex(Some(s2[k as int])));
    }
  hint loop-start:1
    let ghost str1 = string@;
    let ghost sl = self.stream();
  hint loop-end:1
    proof {
        assert(string@ == str1.push(string@.last()));
        assert(quoted(single, sl) == seq![string@.last()] + quoted(single, self.stream()));
        lemma_next(str1, string@.last(), quoted(single, self.stream()));
    }
  hint before:break#1
    proof { lemma_assoc(string@, breaks(self.stream()), quoted(false, after_ws(self.stream()))); }
  hint before:skip_char#1
    proof { lemma_quoted_two(self.stream()); }
  hint before:skip_char#3
    proof { lemma_double_break(self.stream()); }
  hint before:let:code_length
    let ghost str0 = string@;
    let ghost sc = self.stream();
    let ghost pc = self.pos();
  block match#0
    invariant_except_break
    string@ == str0, code_length == 0,
    invariant
    pc == self.pos(), sc == pc.stream, self.cached(2), start_mark == old(self).mark,
    use INVC;
    ensures
    sc.len() > 1,
    if code_length == 0 { esc_text(sc[1]) is Some && string@ == str0.push(esc_text(sc[1])->Some_0) } else { esc_text(sc[1]) is None && string@ == str0 && code_length == esc_digits(sc[1]) && 0 < code_length <= 8 },
  hint before:match#0
    proof { if self.buffer@.len() > 1 { assert(self.buffer@[1] == sc[1]); } }
  hint before:skip_char#4
    proof {
        if code_length == 0 { lemma_quoted_esc(sc); }
    }
  hint loop-after:3
    proof { lemma_quoted_num(sc, code_length as int, string@.last()); }
  hint before:read_char#0
    proof { lemma_quoted_char(single, self.stream()); }
  hint before:let:end_mark
    proof { lemma_reach_refl(self.pos()); }
  hint before:break#2
    proof { lemma_after(self.stream()); lemma_quoted_close(single, self.stream()); assert(string@ + Seq::<char>::empty() =~= string@); }
  hint loop-after:4
    let ghost str2 = string@;
    proof {
        lemma_after(self.stream());
        if c_ws(first(s1)) { lemma_quoted_ws(single, s1); }
        lemma_assoc(string@, fold(s1), quoted(single, self.stream()));
        assert(leading_break@ + trailing_breaks@ + seq![] =~= leading_break@ + trailing_breaks@);
        if leading_break@.len() == 1 {
            if leading_break@[0] == '\n' { assert(seq!['\n'] =~= leading_break@.subrange(0, 1)); }
            else { assert(seq!['\n'][0] != leading_break@[0]); }
            assert((leading_break@ + trailing_breaks@).skip(1) =~= trailing_breaks@);
            assert((leading_break@ + trailing_breaks@)[0] == leading_break@[0]);
        }
        assert(whitespaces@ + seq![] =~= whitespaces@);
        assert(!e1 ==> str2 + fold(s1) + quoted(single, self.stream()) == quoted(single, s0));
    }
  hint loop-end:0
    proof {
        assert(!e1 ==> string@ =~= str2 + fold(s1));
        assert(e1 ==> string@ =~= str2 + breaks(s1));
    }
  hint loop-before:4
    let ghost p1 = self.pos();
    let ghost s1 = self.stream();
    let ghost e1 = leading_blanks;
    proof { lemma_after(s1); }
  loop 4
    use INVC;
    self.cached(1),
    pos_ok(p0), reach(p0, p1), pos_ok(p1), reach(p1, self.pos()), reach(p0, self.pos()),
    self.pos() == p1 || self.stream().len() < s1.len(),
    s1 == p1.stream,
    after_ws(self.stream()) == after_ws(s1),
    !leading_blanks ==> !e1 && leading_break@.len() == 0 && trailing_breaks@.len() == 0 && blanks(s1) == whitespaces@ + blanks(self.stream()) && breaks(s1) == breaks(self.stream()),
    leading_blanks ==> breaks(s1) =~= leading_break@ + trailing_breaks@ + breaks(self.stream()) && whitespaces@.len() == 0,
    leading_blanks && !e1 ==> leading_break@.len() == 1,
    e1 ==> leading_blanks && leading_break@.len() == 0,
    use DEC;
  hint loop-start:4
    proof {
        if c_blank(first(self.stream())) { lemma_blank(self.stream()); }
        else { lemma_break(self.stream()); }
    }
def PEND
    [C19] string@ + plain(e, flow, ind) == plain(p0, flow, ind),
    [C03] plain_end(e, flow, ind) == plain_end(p0, flow, ind),
    use INV;
    self.same_ctl_but_key(old(self)), self.simple_key_allowed == old(self).simple_key_allowed,
    p0 == old(self).pos(), flow == (old(self).flow_level != 0), ind == old(self).indent + 1, indent == ind,
    start_mark == p0.mark, end_mark == e.mark, pos_ok(e), reach(p0, e), reach(e, self.pos()),
    e == p0 || e.stream.len() < p0.stream.len(),
    old(self).plain_first(), pos_ok(p0),
    [C19] leading_blanks ==> breaks(e.stream) == leading_break@ + trailing_breaks@ && leading_break@.len() == 1 && whitespaces@.len() == 0,
    [C19] !leading_blanks ==> leading_break@.len() == 0 && trailing_breaks@.len() == 0,
    [C19] !leading_blanks && self.pos() != e ==> breaks(e.stream).len() == 0 && blanks(e.stream) == whitespaces@,
    self.pos() != e ==> self.pos() == skip_ws(e) && c_ws(first(e.stream)),
    self.pos() == e ==> !leading_blanks && whitespaces@.len() == 0,
enddef
fn Scanner::scan_plain_scalar -> r
  attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
  sig
    use MOVE;
    requires
    old(self).buffer@.len() > 0,
    old(self).plain_first(),
    -1 <= old(self).indent <= LIMIT,
    ensures
    r is Ok ==> final(self).same_ctl_but_key(old(self)),
    [C03] r matches Ok(t) ==> token_from(t, old(self).pos(), final(self).pos()),
    r is Ok ==> final(self).stream().len() < old(self).stream().len(),
    [C19] r matches Ok(t) ==> (t.data matches TokenData::Scalar { value, style } && value@ == plain(old(self).pos(), old(self).flow_level != 0, old(self).indent + 1) && style == ScalarStyle::Plain),
    [C03,C19] r matches Ok(t) ==> ({
        let e = plain_end(old(self).pos(), old(self).flow_level != 0, old(self).indent + 1);
        t.end_mark == e.mark && final(self).pos() == skip_ws(e) && final(self).simple_key_allowed == (old(self).simple_key_allowed || breaks(e.stream).len() > 0)
    }),
  hint start
    let ghost p0 = self.pos();
    let ghost mut e = p0;
    let ghost flow = self.flow_level != 0;
    let ghost ind = self.indent + 1;
    proof { lemma_skip_ws(p0); lemma_after(p0.stream); assert(Seq::<char>::empty() + plain(e, flow, ind) =~= plain(p0, flow, ind)); }
  loop 0
    invariant
    use PEND;
    invariant_except_break
    self.pos() != e ==> flow || self.mark.column >= ind,
    self.pos() == e ==> e == p0,
    e == p0 ==> self.pos() == e,
    ensures
    e != p0,
    self.pos() == skip_ws(e), leading_blanks <==> breaks(e.stream).len() > 0,
    string@ == plain(p0, flow, ind), plain_end(p0, flow, ind) == e,
    use DEC;
  hint loop-start:0
    let ghost pl = self.pos();
    proof { lemma_skip_ws(e); }
  hint loop-before:1
    proof {
        let b = self.buffer@;
        let st = self.stream();
        assert(forall|i: int| 0 <= i < b.len() ==> b[i] == st[i]);
        assert(at(st, 3) == at(b, 3));
    }
  hint before:if#0
    proof {
        let b = self.buffer@;
        let st = self.stream();
        assert(forall|i: int| 0 <= i < b.len() ==> b[i] == st[i]);
        assert(at(st, 3) == at(b, 3));
    }
  hint before:break#0
    proof { lemma_plain_stop(e, flow, ind); assert(string@ + Seq::<char>::empty() =~= string@); }
  hint before:break#1
    proof { lemma_plain_stop(e, flow, ind); assert(string@ + Seq::<char>::empty() =~= string@); }
  loop 1
    invariant
    use PEND;
    pos_ok(pl), reach(pl, self.pos()),
    self.cached(2),
    e == p0 ==> self.pos() == e,
    self.pos() != e ==> !doc_here(self.pos()) && first(self.stream()) != Some('#') && (flow || self.mark.column >= ind),
    ensures
    c_blankz(first(self.stream())) || plain_stop(self.stream(), flow),
    use DEC;
  hint loop-start:1
    let ghost pc = self.pos();
    let ghost str1 = string@;
    let ghost e1 = e;
    proof {
        lemma_skip_ws(e);
        assert(self.buffer@[0] == self.stream()[0]);
        if self.buffer@.len() > 1 { assert(self.buffer@[1] == self.stream()[1]); }
    }
  hint before:if#7
    proof {
        if leading_break@.len() == 1 {
            if leading_break@[0] == '\n' { assert(seq!['\n'] =~= leading_break@.subrange(0, 1)); }
            else { assert(seq!['\n'][0] != leading_break@[0]); }
            assert((leading_break@ + trailing_breaks@).skip(1) =~= trailing_breaks@);
            assert((leading_break@ + trailing_breaks@)[0] == leading_break@[0]);
        }
    }
  hint before:read_char#0
    proof {
        lemma_plain_char(self.pos(), flow, ind);
        if self.pos() != e {
            lemma_plain_ws(e, flow, ind);
            assert(string@ =~= str1 + fold(e.stream));
            lemma_assoc(str1, fold(e.stream), plain(self.pos(), flow, ind));
        }
    }
    let ghost str2 = string@;
  hint after:read_char#0
    proof {
        lemma_next(str2, pc.stream[0], plain(self.pos(), flow, ind));
        e = self.pos();
        lemma_skip_ws(e);
    }
  hint loop-after:1
    proof { lemma_skip_ws(e); lemma_after(e.stream); }
  hint before:break#3
    proof { lemma_after(e.stream); lemma_plain_stop(e, flow, ind); assert(string@ + Seq::<char>::empty() =~= string@); }
  hint loop-before:2
    let ghost p1 = self.pos();
    proof { lemma_skip_ws(e); lemma_after(e.stream); }
  loop 2
    use INV;
    self.same_ctl_but_key(old(self)), self.simple_key_allowed == old(self).simple_key_allowed,
    self.cached(1),
    p1 == e, pos_ok(p1), reach(p1, self.pos()), reach(p0, p1), p0 == old(self).pos(), p0.mark == start_mark,
    indent == ind, ind == old(self).indent + 1,
    pos_ok(pl), reach(pl, p1), reach(pl, self.pos()),
    self.pos() == p1 || self.stream().len() < p1.stream.len(),
    skip_ws(self.pos()) == skip_ws(p1),
    !leading_blanks ==> leading_break@.len() == 0 && trailing_breaks@.len() == 0 && blanks(p1.stream) == whitespaces@ + blanks(self.stream()) && breaks(p1.stream) == breaks(self.stream()),
    leading_blanks ==> breaks(p1.stream) =~= leading_break@ + trailing_breaks@ + breaks(self.stream()) && whitespaces@.len() == 0 && leading_break@.len() == 1,
    use DEC;
  hint loop-start:2
    proof {
        if c_blank(first(self.stream())) { lemma_blank(self.stream()); }
        else { lemma_break(self.stream()); }
    }
  hint loop-after:2
    proof {
        lemma_skip_ws(self.pos()); lemma_after(self.stream());
        assert(leading_break@ + trailing_breaks@ + seq![] =~= leading_break@ + trailing_breaks@);
        assert(whitespaces@ + seq![] =~= whitespaces@);
    }
  hint before:break#4
    proof { lemma_plain_stop(e, flow, ind); assert(string@ + Seq::<char>::empty() =~= string@); }
