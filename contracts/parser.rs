#[allow(unused)] use crate::grammar::*;
#[allow(unused)] use crate::scanner::same_kind;
verus!{
impl<R> Parser<R> {
    pub closed spec fn has_input(&self) -> bool { self.scanner.has_input() }
    pub closed spec fn given_input(&self) -> R { self.scanner.given_input() }
    /// Nothing but the input differs.
    pub closed spec fn but_input(&self, o: &Self) -> bool { self.scanner.but_input(&o.scanner) && self.inner == o.inner }
    pub closed spec fn given_encoding(&self) -> Encoding { self.scanner.given_encoding() }
    pub closed spec fn with_input(&self, input: R) -> Self { Parser { scanner: self.scanner.with_input(input), ..*self } }
    pub closed spec fn with_encoding(&self, encoding: Encoding) -> Self { Parser { scanner: self.scanner.with_encoding(encoding), ..*self } }
    /// The state of a new parser.
    pub closed spec fn fresh(&self) -> bool {
        &&& self.scanner.fresh()
        &&& self.inner.states@.len() == 0
        &&& self.inner.state == ParserState::StreamStart
        &&& self.inner.marks@.len() == 0
        &&& self.inner.tag_directives@.len() == 0
        &&& self.inner.aliases@.len() == 0
    }
}
}
verus!{
impl ParserInner {
    pub(crate) open spec fn wf(&self) -> bool {
        &&& stack_ok(self.states@)
        &&& inside(self.state) <==> self.states@.len() > 0
        &&& self.marks@.len() == marks_of(self.states@) + mark_of(self.state)
    }
    pub(crate) open spec fn frames(&self) -> Seq<Fr> {
        if self.state == ParserState::StreamStart { seq![Fr::Start] } else if self.state == ParserState::End { seq![] } else { flat(self.states@) + frame_of(self.state) }
    }
}
/// A first-entry state stands before the token that starts the collection.
pub(crate) open spec fn first_token(s: ParserState, t: TokenData) -> bool {
    match s {
        ParserState::BlockSequenceFirstEntry => t is BlockSequenceStart,
        ParserState::BlockMappingFirstKey => t is BlockMappingStart,
        ParserState::FlowSequenceFirstEntry => t is FlowSequenceStart,
        ParserState::FlowMappingFirstKey => t is FlowMappingStart,
        _ => true,
    }
}
pub(crate) open spec fn first_state(s: ParserState) -> bool {
    s is BlockSequenceFirstEntry || s is BlockMappingFirstKey || s is FlowSequenceFirstEntry || s is FlowMappingFirstKey || s is BlockNode || s is BlockNodeOrIndentlessSequence || s is FlowNode
}
impl<R> Parser<R> {
    /// Nothing more will come.
    pub closed spec fn done(&self) -> bool { self.inner.state == ParserState::End }
    pub(crate) open spec fn live(&self) -> bool {
        &&& self.scanner.inv()
        &&& !self.scanner.stream_end_produced
        &&& self.inner.wf()
        &&& first_state(self.inner.state) ==> self.scanner.token_available && first_token(self.inner.state, self.scanner.tokens@[0].data)
        &&& self.scanner.stream_start_produced <==> self.inner.state != ParserState::StreamStart
    }
    /// Holds for every parser that has an input.
    pub closed spec fn ok(&self) -> bool { self.done() || self.live() }
    /// What the grammar of events allows next.
    pub closed spec fn expects(&self) -> Seq<Fr> { self.inner.frames() }
    /// The anchors of the document being loaded.
    pub closed spec fn anchors(&self) -> Seq<AliasData> { self.inner.aliases@ }
    /// A document may be loaded next: not in the middle of one.
    pub closed spec fn loads(&self) -> bool { self.ok() && self.inner.aliases@.len() == 0 && (self.done() || self.inner.frames() =~= seq![Fr::Start] || self.inner.frames() =~= seq![Fr::Docs]) }
    pub(crate) proof fn lemma_inside(&self)
        ensures
            self.anchors() == self.inner.aliases@,
            self.done() <==> self.inner.state == ParserState::End,
            self.loads() <==> self.ok() && self.anchors().len() == 0 && (self.done() || self.expects() =~= seq![Fr::Start] || self.expects() =~= seq![Fr::Docs]),
            self.expects().len() > 0 ==> !self.done(),
            self.done() ==> self.ok(),
            self.ok() && !self.done() ==> !self.scanner.stream_end_produced && (self.scanner.stream_start_produced <==> self.expects() != seq![Fr::Start]) && self.expects().len() > 0,
    {
        if self.ok() && !self.done() && self.inner.state != ParserState::StreamStart { lemma_flat_first(self.inner.states@); assert((flat(self.inner.states@) + frame_of(self.inner.state))[0] is Docs); assert(seq![Fr::Start][0] is Start); }
    }
    /// The anchors alone differ.
    pub(crate) proof fn lemma_but_anchors(&self, o: &Self)
        requires self.scanner == o.scanner, self.inner.states == o.inner.states, self.inner.state == o.inner.state, self.inner.marks == o.inner.marks
        ensures self.ok() <==> o.ok(), self.done() <==> o.done(), self.expects() == o.expects(), self.mark_of_input() == o.mark_of_input()
    {}
    pub closed spec fn mark_of_input(&self) -> Pos { self.scanner.pos() }
}
}
