#[allow(unused)] use crate::tokens::*;
#[allow(unused)] use crate::scalars::*;
verus!{
impl<R> Scanner<R> {
    /// The characters that are still to be scanned.
    pub(crate) open spec fn stream(&self) -> Seq<char> {
        self.buffer@ + (if self.eof { Seq::<char>::empty() } else { text(self.encoding, rem(&self.read_handler->Some_0)) })
    }
    /// The part of the input that cannot be decoded.
    pub(crate) open spec fn bad(&self) -> Seq<u8> { rest(self.encoding, rem(&self.read_handler->Some_0)) }
    pub(crate) open spec fn input_left(&self) -> Seq<u8> { rem(&self.read_handler->Some_0) }
    /// Holds for every scanner that has an input.
    pub(crate) open spec fn reader_inv(&self) -> bool {
        &&& self.read_handler is Some
        &&& self.eof ==> self.input_left().len() == 0
        &&& self.offset + self.input_left().len() <= LIMIT
    }
    pub(crate) open spec fn pos(&self) -> Pos { Pos { mark: self.mark, stream: self.stream() } }
    /// The next `n` characters are in the buffer, if there are as many.
    pub(crate) open spec fn cached(&self, n: int) -> bool { self.buffer@.len() >= n || self.buffer@ == self.stream() }
    /// Nothing but the input side and the mark changed.
    pub(crate) open spec fn same_ctl(&self, o: &Self) -> bool {
        &&& self.stream_start_produced == o.stream_start_produced
        &&& self.stream_end_produced == o.stream_end_produced
        &&& self.flow_level == o.flow_level
        &&& self.tokens == o.tokens
        &&& self.tokens_parsed == o.tokens_parsed
        &&& self.token_available == o.token_available
        &&& self.indents == o.indents
        &&& self.indent == o.indent
        &&& self.simple_key_allowed == o.simple_key_allowed
        &&& self.simple_keys == o.simple_keys
    }
    pub(crate) open spec fn same_ctl_but_key(&self, o: &Self) -> bool {
        &&& self.stream_start_produced == o.stream_start_produced
        &&& self.stream_end_produced == o.stream_end_produced
        &&& self.flow_level == o.flow_level
        &&& self.tokens == o.tokens
        &&& self.tokens_parsed == o.tokens_parsed
        &&& self.token_available == o.token_available
        &&& self.indents == o.indents
        &&& self.indent == o.indent
        &&& self.simple_keys == o.simple_keys
    }
    /// Nothing but the input side changed.
    pub(crate) open spec fn same_control(&self, o: &Self) -> bool {
        &&& self.mark == o.mark
        &&& self.stream_start_produced == o.stream_start_produced
        &&& self.stream_end_produced == o.stream_end_produced
        &&& self.flow_level == o.flow_level
        &&& self.tokens == o.tokens
        &&& self.tokens_parsed == o.tokens_parsed
        &&& self.token_available == o.token_available
        &&& self.indents == o.indents
        &&& self.indent == o.indent
        &&& self.simple_key_allowed == o.simple_key_allowed
        &&& self.simple_keys == o.simple_keys
    }
}
}
verus!{
impl<R> Scanner<R> {
    pub closed spec fn has_input(&self) -> bool { self.read_handler is Some }
    pub closed spec fn given_input(&self) -> R { self.read_handler->Some_0 }
    /// Nothing but the input differs.
    pub closed spec fn but_input(&self, o: &Self) -> bool { *self == (Scanner { read_handler: self.read_handler, ..*o }) }
    pub closed spec fn given_encoding(&self) -> Encoding { self.encoding }
    pub closed spec fn with_input(&self, input: R) -> Self { Scanner { read_handler: Some(input), ..*self } }
    pub closed spec fn with_encoding(&self, encoding: Encoding) -> Self { Scanner { encoding: encoding, ..*self } }
    /// The state of a new scanner.
    pub closed spec fn fresh(&self) -> bool {
        &&& self.read_handler is None
        &&& !self.eof
        &&& self.buffer@.len() == 0
        &&& self.encoding == Encoding::Any
        &&& self.offset == 0
        &&& self.mark == (Mark { index: 0, line: 0, column: 0 })
        &&& !self.stream_start_produced
        &&& !self.stream_end_produced
        &&& self.flow_level == 0
        &&& self.tokens@.len() == 0
        &&& self.tokens_parsed == 0
        &&& !self.token_available
        &&& self.indents@.len() == 0
        &&& self.indent == 0
        &&& !self.simple_key_allowed
        &&& self.simple_keys@.len() == 0
    }
}
}
verus!{
/// Tokens of the same kind, at the same place.
pub(crate) open spec fn same_kind(a: Token, b: Token) -> bool {
    a.start_mark == b.start_mark && a.end_mark == b.end_mark && match a.data {
        TokenData::StreamStart { .. } => b.data is StreamStart,
        TokenData::StreamEnd => b.data is StreamEnd,
        TokenData::VersionDirective { .. } => b.data is VersionDirective,
        TokenData::TagDirective { .. } => b.data is TagDirective,
        TokenData::DocumentStart => b.data is DocumentStart,
        TokenData::DocumentEnd => b.data is DocumentEnd,
        TokenData::BlockSequenceStart => b.data is BlockSequenceStart,
        TokenData::BlockMappingStart => b.data is BlockMappingStart,
        TokenData::BlockEnd => b.data is BlockEnd,
        TokenData::FlowSequenceStart => b.data is FlowSequenceStart,
        TokenData::FlowSequenceEnd => b.data is FlowSequenceEnd,
        TokenData::FlowMappingStart => b.data is FlowMappingStart,
        TokenData::FlowMappingEnd => b.data is FlowMappingEnd,
        TokenData::BlockEntry => b.data is BlockEntry,
        TokenData::FlowEntry => b.data is FlowEntry,
        TokenData::Key => b.data is Key,
        TokenData::Value => b.data is Value,
        TokenData::Alias { .. } => b.data is Alias,
        TokenData::Anchor { .. } => b.data is Anchor,
        TokenData::Tag { .. } => b.data is Tag,
        TokenData::Scalar { .. } => b.data is Scalar,
    }
}
impl<R> Scanner<R> {
    pub(crate) open spec fn ctl(&self) -> Ctl {
        Ctl {
            tokens: self.tokens@, gone: self.tokens_parsed as int, keys: self.simple_keys@, indents: self.indents@,
            indent: self.indent as int, flow: self.flow_level as int,
            ended: self.stream_end_produced || self.tokens@.len() > 0 && self.tokens@.last().data is StreamEnd,
        }
    }
    pub(crate) open spec fn input_ok(&self) -> bool { self.reader_inv() && pos_ok(self.pos()) }
    /// The scanner is at work; a key may wait for a token that starts at `m`.
    pub(crate) open spec fn run(&self, m: Option<Mark>) -> bool {
        &&& self.input_ok()
        &&& self.stream_start_produced
        &&& !self.stream_end_produced
        &&& !self.ctl().ended
        &&& ctl_ok(self.ctl(), self.pos())
        &&& waits(self.ctl(), m)
    }
    /// Nothing has been read yet.
    pub(crate) open spec fn unstarted(&self) -> bool {
        &&& !self.stream_end_produced
        &&& self.flow_level == 0
        &&& self.tokens@.len() == 0
        &&& self.tokens_parsed == 0
        &&& !self.token_available
        &&& self.indents@.len() == 0
        &&& self.simple_keys@.len() == 0
    }
    pub(crate) open spec fn room(&self) -> int { room(self.ctl(), self.pos()) }
    /// The counters are far from their limits.
    pub(crate) open spec fn roomy(&self) -> bool { self.room() >= 0 && self.flow_level <= self.mark.index }
    /// Holds for every scanner that has an input and has not failed.
    pub closed spec fn inv(&self) -> bool {
        &&& self.input_ok()
        &&& !self.stream_start_produced ==> self.unstarted()
        &&& self.stream_start_produced ==> {
            &&& ctl_ok(self.ctl(), self.pos())
            &&& waits(self.ctl(), None)
            &&& self.roomy()
            &&& self.token_available ==> self.tokens@.len() > 0 && self.certain()
            &&& self.stream_end_produced ==> self.tokens@.len() == 0
        }
    }
    /// Nothing can come before the first token any more.
    pub(crate) open spec fn certain(&self) -> bool {
        forall|i: int| 0 <= i < self.simple_keys@.len() ==> !#[trigger] self.ctl().key(i, self.tokens_parsed as int)
    }
    /// Keys are in this line, and not far.
    pub(crate) open spec fn near(&self) -> bool {
        forall|i: int| 0 <= i < self.simple_keys@.len() && (#[trigger] self.simple_keys@[i]).possible ==>
            self.simple_keys@[i].mark.line >= self.mark.line && self.simple_keys@[i].mark.index + 1024 >= self.mark.index
    }
    /// A block collection starts before the token `n` of the queue, if the indentation grows.
    pub(crate) open spec fn with_start(&self, tokens: Seq<Token>, n: int, data: TokenData, mark: Mark) -> Seq<Token> {
        if self.flow_level == 0 && self.indent < mark.column { tokens.insert(n, Token { data: data, start_mark: mark, end_mark: mark }) } else { tokens }
    }
    /// The tokens, with a key (and the start of a mapping) where the simple key `k` is.
    pub(crate) open spec fn with_key(&self, k: SimpleKey) -> Seq<Token> {
        let n = k.token_number - self.tokens_parsed;
        self.with_start(self.tokens@.insert(n, Token { data: TokenData::Key, start_mark: k.mark, end_mark: k.mark }), n, TokenData::BlockMappingStart, k.mark)
    }
    /// The simple key is in the queue and starts in this line, at most 1024 characters back.
    pub(crate) open spec fn key_here(&self, k: SimpleKey) -> bool {
        &&& self.tokens_parsed <= k.token_number < self.tokens_parsed + self.tokens@.len()
        &&& self.tokens@[k.token_number - self.tokens_parsed].start_mark == k.mark
        &&& k.mark.line == self.mark.line
        &&& k.mark.index <= self.mark.index <= k.mark.index + 1024
    }
    /// `self` comes from `o` by looking further ahead.
    pub(crate) closed spec fn ahead(&self, o: &Self) -> bool {
        &&& reach(o.pos(), self.pos())
        &&& self.tokens_parsed == o.tokens_parsed
        &&& self.stream_end_produced == o.stream_end_produced
        &&& onward(o.ctl(), o.pos(), self.ctl(), self.pos())
    }
    /// Block collections that started and did not end before the next token.
    pub closed spec fn blocks(&self) -> int { self.ctl().blocks() }
    /// No token to come starts before.
    pub closed spec fn low(&self) -> int { low(self.ctl(), self.pos()) }
    /// `self` is `o` with a token ready.
    pub(crate) open spec fn peeked(&self, o: &Self) -> bool {
        &&& self.inv()
        &&& self.token_available
        &&& self.tokens@.len() > 0
        &&& self.stream_start_produced
        &&& self.ahead(o)
        &&& reach(o.pos(), self.pos())
        &&& self.stream_end_produced == o.stream_end_produced
        &&& o.token_available ==> *self == *o
        &&& !o.stream_start_produced ==> self.tokens@[0].data is StreamStart
    }
    /// `self` is `o` without its first token.
    /// A plain scalar can start here.
    pub(crate) open spec fn plain_first(&self) -> bool {
        &&& !c_blankz(first(self.stream()))
        &&& first(self.stream()) != Some('#')
        &&& !doc_here(self.pos())
        &&& !plain_stop(self.stream(), self.flow_level != 0)
    }
    pub(crate) open spec fn skipped(&self, o: &Self) -> bool {
        &&& self.inv()
        &&& !self.token_available
        &&& self.stream_start_produced == o.stream_start_produced
        &&& self.stream_end_produced == (o.tokens@[0].data is StreamEnd)
        &&& self.pos() == o.pos()
        &&& self.tokens@ == o.tokens@.skip(1)
        &&& self.tokens_parsed == o.tokens_parsed + 1
        &&& self.dequeued(o, o.tokens@[0])
    }
    /// Taking the token `t` from `o` left `self`.
    pub closed spec fn scanned(&self, o: &Self, t: Token) -> bool {
        &&& self.inv()
        &&& reach(o.pos(), self.pos())
        &&& t.data is StreamEnd <==> self.stream_end_produced
        &&& if o.stream_end_produced { *self == *o } else { self.dequeued(o, t) && self.tokens_parsed == o.tokens_parsed + 1 }
    }
    pub closed spec fn place(&self) -> Pos { self.pos() }
    /// `t` is the next token of `o`.
    pub(crate) closed spec fn dequeued(&self, o: &Self, t: Token) -> bool {
        &&& self.blocks() == o.blocks() + delta(t.data) >= 0
        &&& o.low() <= t.start_mark.index <= t.end_mark.index <= self.low()
        &&& t.data is StreamStart <==> o.tokens_parsed == 0
        &&& t.data is StreamEnd && self.flow_level == 0 ==> o.blocks() == 0
        &&& t.data is StreamEnd ==> self.stream_end_produced
        &&& token_at(t, self.pos())
    }
}
/// Changing what the first token says keeps the queue in order.
pub(crate) proof fn lemma_patched<R>(s: &Scanner<R>)
    requires s.inv(), s.token_available, s.stream_start_produced,
    ensures forall|d: &Scanner<R>| *d == (Scanner { tokens: d.tokens, ..*s }) && d.tokens@ == s.tokens@.update(0, d.tokens@[0]) && same_kind(s.tokens@[0], d.tokens@[0]) ==> #[trigger] d.inv()
{
    assert forall|d: &Scanner<R>| *d == (Scanner { tokens: d.tokens, ..*s }) && d.tokens@ == s.tokens@.update(0, d.tokens@[0]) && same_kind(s.tokens@[0], d.tokens@[0]) implies #[trigger] d.inv() by {
        let t = d.tokens@[0];
        assert(like(t, s.tokens@[0]));
        lemma_change(s.ctl(), t, s.pos());
        assert(d.ctl() == (Ctl { tokens: s.ctl().tokens.update(0, t), ..s.ctl() }));
        assert forall|i: int| 0 <= i < d.simple_keys@.len() implies !#[trigger] d.ctl().key(i, d.tokens_parsed as int) by {
            assert(!s.ctl().key(i, s.tokens_parsed as int));
        }
    }
}
}
