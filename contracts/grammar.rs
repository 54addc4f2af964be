//! The grammar of events, and what the states of the parser expect of it.
use vstd::prelude::*;
use alloc::string::String;
use crate::{Event, EventData, ParserState, TagDirective, TokenData};
verus!{
/// What may come next in the grammar of events.
#[allow(non_camel_case_types)]
pub ghost enum Fr {
    /// The stream start.
    Start,
    /// A document or the end of the stream.
    Docs,
    /// The end of the document.
    DocEnd,
    /// One node.
    Node,
    /// An item or the end of the sequence.
    Seq,
    /// A key or the end of the mapping.
    Key,
    /// A value.
    Val,
}
/// What is expected once the node has begun that is expected now.
pub open spec fn after_node(f: Seq<Fr>) -> Seq<Fr> {
    match f.last() {
        Fr::Seq => f,
        Fr::Key => f.drop_last().push(Fr::Val),
        Fr::Val => f.drop_last().push(Fr::Key),
        _ => f.drop_last(),
    }
}
/// `e` may come when `f` is expected and the node leaves `base`; `g` is expected then.
pub open spec fn node_follows(base: Seq<Fr>, e: Event, g: Seq<Fr>) -> bool {
    match e.data {
        EventData::Alias { .. } => g =~= base,
        EventData::Scalar { .. } => g =~= base,
        EventData::SequenceStart { .. } => g =~= base.push(Fr::Seq),
        EventData::MappingStart { .. } => g =~= base.push(Fr::Key),
        _ => false,
    }
}
/// The grammar of events: `e` may come when `f` is expected; `g` is expected then.
pub open spec fn follows(f: Seq<Fr>, e: Event, g: Seq<Fr>) -> bool {
    f.len() > 0 && match f.last() {
        Fr::Start => e.data is StreamStart && g =~= seq![Fr::Docs],
        Fr::Docs => match e.data {
            EventData::DocumentStart { .. } => g =~= seq![Fr::Docs, Fr::DocEnd, Fr::Node],
            EventData::StreamEnd => g.len() == 0,
            _ => false,
        },
        Fr::DocEnd => e.data is DocumentEnd && g =~= f.drop_last(),
        Fr::Seq => if e.data is SequenceEnd { g =~= f.drop_last() } else { node_follows(after_node(f), e, g) },
        Fr::Key => if e.data is MappingEnd { g =~= f.drop_last() } else { node_follows(after_node(f), e, g) },
        _ => node_follows(after_node(f), e, g),
    }
}

/// What a state of the parser expects, above what the states below expect.
pub open spec fn frame_of(s: ParserState) -> Seq<Fr> {
    match s {
        ParserState::StreamStart | ParserState::ImplicitDocumentStart | ParserState::DocumentStart | ParserState::End => seq![],
        ParserState::DocumentContent | ParserState::BlockNode | ParserState::BlockNodeOrIndentlessSequence | ParserState::FlowNode => seq![Fr::Node],
        ParserState::DocumentEnd => seq![Fr::DocEnd],
        ParserState::BlockSequenceFirstEntry | ParserState::BlockSequenceEntry | ParserState::IndentlessSequenceEntry
            | ParserState::FlowSequenceFirstEntry | ParserState::FlowSequenceEntry => seq![Fr::Seq],
        ParserState::BlockMappingFirstKey | ParserState::BlockMappingKey | ParserState::FlowMappingFirstKey | ParserState::FlowMappingKey => seq![Fr::Key],
        ParserState::BlockMappingValue | ParserState::FlowMappingValue | ParserState::FlowMappingEmptyValue => seq![Fr::Val],
        ParserState::FlowSequenceEntryMappingKey | ParserState::FlowSequenceEntryMappingEnd => seq![Fr::Seq, Fr::Key],
        ParserState::FlowSequenceEntryMappingValue => seq![Fr::Seq, Fr::Val],
    }
}
/// States that are returned to.
pub open spec fn cont(s: ParserState) -> bool {
    match s {
        ParserState::BlockSequenceEntry | ParserState::IndentlessSequenceEntry | ParserState::BlockMappingKey | ParserState::BlockMappingValue
            | ParserState::FlowSequenceEntry | ParserState::FlowSequenceEntryMappingValue | ParserState::FlowSequenceEntryMappingEnd
            | ParserState::FlowMappingKey | ParserState::FlowMappingValue | ParserState::FlowMappingEmptyValue => true,
        _ => false,
    }
}
/// How many marks a state has on the stack of marks.
pub open spec fn mark_of(s: ParserState) -> nat {
    match s {
        ParserState::BlockSequenceEntry | ParserState::BlockMappingKey | ParserState::BlockMappingValue
            | ParserState::FlowSequenceEntry | ParserState::FlowSequenceEntryMappingKey | ParserState::FlowSequenceEntryMappingValue
            | ParserState::FlowSequenceEntryMappingEnd
            | ParserState::FlowMappingKey | ParserState::FlowMappingValue | ParserState::FlowMappingEmptyValue => 1,
        _ => 0,
    }
}
pub open spec fn flat(s: Seq<ParserState>) -> Seq<Fr>
    decreases s.len()
{
    if s.len() == 0 { seq![Fr::Docs] } else { flat(s.drop_last()) + frame_of(s.last()) }
}
pub open spec fn marks_of(s: Seq<ParserState>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { marks_of(s.drop_last()) + mark_of(s.last()) }
}
pub open spec fn stack_ok(s: Seq<ParserState>) -> bool {
    s.len() > 0 ==> s[0] == ParserState::DocumentEnd && forall|i: int| 1 <= i < s.len() ==> cont(#[trigger] s[i])
}
pub broadcast proof fn lemma_flat_push(s: Seq<ParserState>, x: ParserState)
    ensures #[trigger] flat(s.push(x)) == flat(s) + frame_of(x)
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast proof fn lemma_marks_push(s: Seq<ParserState>, x: ParserState)
    ensures #[trigger] marks_of(s.push(x)) == marks_of(s) + mark_of(x)
{
    assert(s.push(x).drop_last() =~= s);
}
/// The state belongs to a document.
pub open spec fn inside(s: ParserState) -> bool {
    !(s is StreamStart || s is ImplicitDocumentStart || s is DocumentStart || s is DocumentEnd || s is End)
}

/// The end state is no place to return to.
pub broadcast proof fn lemma_stack_push(s: Seq<ParserState>, x: ParserState)
    requires stack_ok(s), s.len() > 0 ==> cont(x), s.len() == 0 ==> x == ParserState::DocumentEnd
    ensures #[trigger] stack_ok(s.push(x))
{}
pub broadcast proof fn lemma_stack_pop(s: Seq<ParserState>)
    requires stack_ok(s), s.len() > 0
    ensures
        #[trigger] stack_ok(s.drop_last()),
        s.len() == 1 ==> s.last() == ParserState::DocumentEnd,
        s.len() > 1 ==> cont(s.last()),
{}
pub broadcast proof fn lemma_flat_pop(s: Seq<ParserState>)
    requires s.len() > 0
    ensures flat(s) == #[trigger] flat(s.drop_last()) + frame_of(s.last())
{}
pub broadcast proof fn lemma_marks_pop(s: Seq<ParserState>)
    requires s.len() > 0
    ensures marks_of(s) == #[trigger] marks_of(s.drop_last()) + mark_of(s.last())
{}
pub broadcast proof fn lemma_flat_len(s: Seq<ParserState>)
    ensures #[trigger] flat(s).len() > 0
    decreases s.len()
{
    if s.len() > 0 { lemma_flat_len(s.drop_last()); }
}

pub proof fn lemma_flat_first(s: Seq<ParserState>)
    ensures flat(s).len() > 0 && flat(s)[0] is Docs
    decreases s.len()
{
    if s.len() > 0 { lemma_flat_first(s.drop_last()); }
}

// ---------------------------------------------------------------- nodes

/// A directive for this handle is there.
pub open spec fn declared(d: Seq<TagDirective>, h: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).handle@ == h }
/// `t` is the tag that `handle` and `suffix` stand for.
pub open spec fn resolved(d: Seq<TagDirective>, handle: Seq<char>, suffix: Seq<char>, t: Seq<char>) -> bool {
    if handle.len() == 0 { t == suffix } else {
        exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).handle@ == handle && t == d[i].prefix@ + suffix
            && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]).handle@ != handle
    }
}
pub open spec fn opt_text(t: Option<String>) -> Seq<char> { match t { Some(t) => t@, None => seq![] } }
pub open spec fn anchor_of(e: Event) -> Option<String> {
    match e.data {
        EventData::Scalar { anchor, .. } => anchor,
        EventData::SequenceStart { anchor, .. } => anchor,
        EventData::MappingStart { anchor, .. } => anchor,
        _ => None,
    }
}
pub open spec fn tag_of(e: Event) -> Option<String> {
    match e.data {
        EventData::Scalar { tag, .. } => tag,
        EventData::SequenceStart { tag, .. } => tag,
        EventData::MappingStart { tag, .. } => tag,
        _ => None,
    }
}
/// Neither an anchor nor a tag.
pub open spec fn starts_no_property(t: TokenData) -> bool { !(t is Anchor || t is Tag) }
pub open spec fn starts_no_node(t: TokenData, block: bool) -> bool {
    match t {
        TokenData::Alias { .. } | TokenData::Anchor { .. } | TokenData::Tag { .. } | TokenData::Scalar { .. } => false,
        TokenData::FlowSequenceStart | TokenData::FlowMappingStart | TokenData::BlockEntry => false,
        TokenData::BlockSequenceStart | TokenData::BlockMappingStart => !block,
        _ => true,
    }
}
}
