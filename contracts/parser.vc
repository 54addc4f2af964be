fn Parser::new -> r
  sig
    ensures
    [C14] r.fresh(),
fn Parser::reset
  sig
    ensures
    [C14] final(self).fresh(),
fn Parser::set_input
  sig
    requires
    !old(self).has_input(),
    ensures
    [C14] *final(self) == old(self).with_input(input),
fn Parser::set_encoding
  sig
    requires
    old(self).given_encoding() == Encoding::Any,
    ensures
    [C14] *final(self) == old(self).with_encoding(encoding),
fn Parser::set_input_string
  sig
    requires
    !old(self).has_input(),
    ensures
    [C14] final(self).has_input() && final(self).but_input(old(self)) && *final(self).given_input() == *old(input),
def LIVE
    requires
    old(self).live(),
    old(self).inner.state != ParserState::End,
enddef
def STEP
    ensures
    [C05] r matches Ok(e) ==> follows(old(self).expects(), e, final(self).expects()),
    [C05] r is Ok ==> final(self).done() || final(self).live(),
    [C16] r matches Err(e) ==> parse_err(e, old(self).scanner.pos()),
    [C07] final(self).inner.aliases == old(self).inner.aliases,
    [C03] r is Ok ==> reach(old(self).scanner.pos(), final(self).scanner.pos()),
enddef
fn Parser::parse -> r
  sig
    requires
    old(self).ok(),
    ensures
    [C05] final(self).ok(),
    [C05] old(self).done() ==> (r matches Ok(e) && e.data is StreamEnd) && *final(self) == *old(self),
    [C05] !old(self).done() ==> (r matches Ok(e) ==> follows(old(self).expects(), e, final(self).expects())),
    [C05] r is Err ==> final(self).done(),
    [C05] r matches Ok(e) ==> (final(self).done() <==> e.data is StreamEnd),
    [C16] r matches Err(e) ==> !old(self).done() && parse_err(e, old(self).mark_of_input()),
    [C07] final(self).anchors() == old(self).anchors(),
    [C03] r is Ok && !old(self).done() ==> reach(old(self).mark_of_input(), final(self).mark_of_input()),
fn Parser::state_machine -> r
  sig
    use LIVE;
    use STEP;
fn Parser::parse_stream_start -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is StreamStart,
    use STEP;
fn Parser::parse_document_start -> r
  sig
    use LIVE;
    requires
    if implicit { old(self).inner.state is ImplicitDocumentStart } else { old(self).inner.state is DocumentStart },
    use STEP;
  loop 0
    invariant
    after_borrow(*self).scanner.inv() && after_borrow(*self).scanner.token_available && !after_borrow(*self).scanner.stream_end_produced && after_borrow(*self).scanner.stream_start_produced,
    *token == after_borrow(*self).scanner.tokens@[0],
    after_borrow(*self).inner == old(self).inner,
    reach(old(self).scanner.pos(), after_borrow(*self).scanner.pos()),
fn Parser::parse_document_content -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is DocumentContent,
    use STEP;
fn Parser::parse_document_end -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is DocumentEnd,
    use STEP;
fn Parser::parse_block_sequence_entry -> r
  sig
    use LIVE;
    requires
    if first { old(self).inner.state is BlockSequenceFirstEntry } else { old(self).inner.state is BlockSequenceEntry },
    use STEP;
fn Parser::parse_indentless_sequence_entry -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is IndentlessSequenceEntry,
    use STEP;
fn Parser::parse_block_mapping_key -> r
  sig
    use LIVE;
    requires
    if first { old(self).inner.state is BlockMappingFirstKey } else { old(self).inner.state is BlockMappingKey },
    use STEP;
fn Parser::parse_block_mapping_value -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is BlockMappingValue,
    use STEP;
fn Parser::parse_flow_sequence_entry -> r
  sig
    use LIVE;
    requires
    if first { old(self).inner.state is FlowSequenceFirstEntry } else { old(self).inner.state is FlowSequenceEntry },
    use STEP;
fn Parser::parse_flow_sequence_entry_mapping_key -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is FlowSequenceEntryMappingKey,
    use STEP;
fn Parser::parse_flow_sequence_entry_mapping_value -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is FlowSequenceEntryMappingValue,
    use STEP;
fn Parser::parse_flow_sequence_entry_mapping_end -> r
  sig
    use LIVE;
    requires
    old(self).inner.state is FlowSequenceEntryMappingEnd,
    use STEP;
fn Parser::parse_flow_mapping_key -> r
  attr #[verifier::rlimit(80)]
  sig
    use LIVE;
    requires
    if first { old(self).inner.state is FlowMappingFirstKey } else { old(self).inner.state is FlowMappingKey },
    use STEP;
fn Parser::parse_flow_mapping_value -> r
  sig
    use LIVE;
    requires
    if empty { old(self).inner.state is FlowMappingEmptyValue } else { old(self).inner.state is FlowMappingValue },
    use STEP;
fn Parser::parse_node -> r
  sig
    requires
    old(self).scanner.inv() && !old(self).scanner.stream_end_produced && old(self).scanner.stream_start_produced,
    old(self).scanner.token_available,
    stack_ok(old(self).inner.states@) && old(self).inner.states@.len() > 0,
    old(self).inner.marks@.len() == marks_of(old(self).inner.states@),
    ensures
    [C05] r matches Ok(e) ==> node_follows(flat(old(self).inner.states@), e, final(self).expects()),
    [C05] r is Ok ==> final(self).live() && !final(self).done(),
    [C16] r matches Err(e) ==> parse_err(e, old(self).scanner.pos()),
    // What the first token gives.
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data matches TokenData::Alias { value } ==> (e.data matches EventData::Alias { anchor } && anchor == value)),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data matches TokenData::Scalar { value: v, style: s } ==> (e.data matches EventData::Scalar { anchor: None, tag: None, value, plain_implicit, quoted_implicit, style } && value == v && style == s && plain_implicit == (s is Plain) && quoted_implicit == !(s is Plain))),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data is FlowSequenceStart ==> e.data == (EventData::SequenceStart { anchor: None, tag: None, implicit: true, style: SequenceStyle::Flow })),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data is FlowMappingStart ==> e.data == (EventData::MappingStart { anchor: None, tag: None, implicit: true, style: MappingStyle::Flow })),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data is BlockSequenceStart ==> e.data == (EventData::SequenceStart { anchor: None, tag: None, implicit: true, style: SequenceStyle::Block })),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data is BlockMappingStart ==> e.data == (EventData::MappingStart { anchor: None, tag: None, implicit: true, style: MappingStyle::Block })),
    [C05] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data is BlockEntry ==> e.data == (EventData::SequenceStart { anchor: None, tag: None, implicit: true, style: SequenceStyle::Block })),
    [C05] old(self).scanner.tokens@[0].data is BlockEntry && !indentless_sequence ==> r is Err,
    [C05] starts_no_node(old(self).scanner.tokens@[0].data, block) ==> r is Err,
    [C03,C05] r matches Ok(e) ==> e.start_mark == old(self).scanner.tokens@[0].start_mark,
    [C03,C05] r matches Ok(e) ==> (starts_no_property(old(self).scanner.tokens@[0].data) ==> e.end_mark == old(self).scanner.tokens@[0].end_mark),
    [C05,C07] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data matches TokenData::Anchor { value } ==> anchor_of(e) == Some(value)),
    [C12] r matches Ok(e) ==> (old(self).scanner.tokens@[0].data matches TokenData::Tag { handle, suffix } ==> (tag_of(e) matches Some(t) && resolved(old(self).inner.tag_directives@, handle@, suffix@, t@))),
    [C12] final(self).inner.tag_directives == old(self).inner.tag_directives,
    [C07] final(self).inner.aliases == old(self).inner.aliases,
    [C03] r is Ok ==> reach(old(self).scanner.pos(), final(self).scanner.pos()),
  loop 0 iter=it
    invariant_except_break
    tag is None,
    forall|j: int| 0 <= j < it.index@ ==> (#[trigger] self.inner.tag_directives@[j]).handle@ != tag_handle_value@,
    invariant
    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == self.inner.tag_directives@[j],
    it.seq().len() == self.inner.tag_directives@.len(),
    self.inner == old(self).inner,
    tag_handle_value@.len() > 0,
    ensures
    tag matches Some(t) ==> resolved(self.inner.tag_directives@, tag_handle_value@, opt_text(tag_suffix), t@),
  hint before:break#0
    proof {
        reveal_strlit("");
        assert(self.inner.tag_directives@[it.index@].handle@ == tag_handle_value@);
        assert(tag->Some_0@ =~= self.inner.tag_directives@[it.index@].prefix@ + opt_text(tag_suffix));
    }
fn Parser::process_empty_scalar -> r
  sig
    ensures
    [C05,C03] r matches Ok(e) && e.start_mark == mark && e.end_mark == mark && (e.data matches EventData::Scalar { anchor: None, tag: None, value, plain_implicit: true, quoted_implicit: false, style: ScalarStyle::Plain } && value@.len() == 0),
fn Parser::process_directives -> r
  sig
    requires
    old(self).scanner.inv() && !old(self).scanner.stream_end_produced && old(self).scanner.stream_start_produced,
    ensures
    r is Ok ==> final(self).scanner.inv() && final(self).scanner.token_available && !final(self).scanner.stream_end_produced && final(self).scanner.stream_start_produced,
    r is Ok ==> final(self).inner.states == old(self).inner.states && final(self).inner.state == old(self).inner.state && final(self).inner.marks == old(self).inner.marks,
    r is Ok ==> reach(old(self).scanner.pos(), final(self).scanner.pos()),
    [C07] final(self).inner.aliases == old(self).inner.aliases,
    [C16] r matches Err(e) ==> parse_err(e, old(self).scanner.pos()),
  loop 0
    invariant
    same_kind(*token, *final(token)) ==> after_borrow(*self).scanner.inv(),
    after_borrow(*self).scanner.token_available && !after_borrow(*self).scanner.stream_end_produced && after_borrow(*self).scanner.stream_start_produced,
    after_borrow(*self).scanner.tokens@.len() > 0 && after_borrow(*self).scanner.tokens@[0] == *final(token),
    after_borrow(*self).inner.states == old(self).inner.states && after_borrow(*self).inner.state == old(self).inner.state && after_borrow(*self).inner.marks == old(self).inner.marks && after_borrow(*self).inner.aliases == old(self).inner.aliases,
    reach(old(self).scanner.pos(), after_borrow(*self).scanner.pos()),
  loop 1
    invariant
    self.scanner.inv() && self.scanner.token_available && !self.scanner.stream_end_produced && self.scanner.stream_start_produced,
    self.inner.states == old(self).inner.states && self.inner.state == old(self).inner.state && self.inner.marks == old(self).inner.marks && self.inner.aliases == old(self).inner.aliases,
    reach(old(self).scanner.pos(), self.scanner.pos()),
fn ParserInner::append_tag_directive -> r
  sig
    ensures
    final(self).states == old(self).states && final(self).state == old(self).state && final(self).marks == old(self).marks && final(self).aliases == old(self).aliases,
    [C13] r matches Err(e) ==> e.skind() == ErrorKind::Parser && e.smark() == Some(mark),
    [C13] r is Err <==> declared(old(self).tag_directives@, value.handle@) && !allow_duplicates,
    [C12,C13] declared(old(self).tag_directives@, value.handle@) ==> final(self).tag_directives@ == old(self).tag_directives@,
    [C12,C13] !declared(old(self).tag_directives@, value.handle@) ==> final(self).tag_directives@ == old(self).tag_directives@.push(value),
  loop 0 iter=it
    invariant
    *self == *old(self),
    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == self.tag_directives@[j],
    it.seq().len() == self.tag_directives@.len(),
    forall|j: int| 0 <= j < it.index@ ==> (#[trigger] self.tag_directives@[j]).handle@ != value.handle@,
fn ParserInner::delete_aliases
  sig
    ensures
    final(self).states == old(self).states && final(self).state == old(self).state && final(self).marks == old(self).marks && final(self).tag_directives == old(self).tag_directives,
    [C07] final(self).aliases@.len() == 0,
