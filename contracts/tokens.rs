//! The queue of tokens: what the scanner keeps about it.
use vstd::prelude::*;
use crate::{Mark, SimpleKey, Token, TokenData};
use crate::spec::*;
verus!{
/// How a token changes the number of open block collections.
pub open spec fn delta(d: TokenData) -> int {
    match d {
        TokenData::BlockSequenceStart => 1,
        TokenData::BlockMappingStart => 1,
        TokenData::BlockEnd => -1,
        _ => 0,
    }
}
/// How many more block collections start than end.
pub open spec fn depth(s: Seq<Token>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { depth(s.drop_last()) + delta(s.last().data) }
}
/// `m` is the mark of `p` or of a place before it.
#[verifier::opaque]
pub open spec fn passed(m: Mark, p: Pos) -> bool { exists|q: Pos| #[trigger] reach(q, p) && pos_ok(q) && q.mark == m }
/// The token lies between two places before `p`.
#[verifier::opaque]
pub open spec fn token_at(t: Token, p: Pos) -> bool {
    exists|a: Pos, b: Pos| #[trigger] reach(a, b) && #[trigger] reach(b, p) && pos_ok(a) && a.mark == t.start_mark && b.mark == t.end_mark
}
/// The token starts at `p` and ends before `q`.
pub open spec fn token_from(t: Token, p: Pos, q: Pos) -> bool { t.start_mark == p.mark && exists|b: Pos| #[trigger] reach(p, b) && #[trigger] reach(b, q) && b.mark == t.end_mark }
pub broadcast proof fn lemma_token_from(t: Token, p: Pos, q: Pos)
    requires #[trigger] token_from(t, p, q), pos_ok(p)
    ensures token_at(t, q), t.start_mark == p.mark, t.start_mark.index <= t.end_mark.index <= q.mark.index
{
    let b = choose|b: Pos| #[trigger] reach(p, b) && #[trigger] reach(b, q) && b.mark == t.end_mark;
    lemma_token_here(t, p, b, q);
}
/// `m` comes before the place `p` in its line, or in a line before.
pub open spec fn earlier(m: Mark, p: Pos) -> bool { m.line < p.mark.line || m.line == p.mark.line && m.column < p.mark.column }

/// What the scanner knows about tokens to come.
pub ghost struct Ctl {
    pub tokens: Seq<Token>,
    /// The number of tokens that are gone.
    pub gone: int,
    pub keys: Seq<SimpleKey>,
    pub indents: Seq<i32>,
    pub indent: int,
    pub flow: int,
    pub ended: bool,
}
impl Ctl {
    pub open spec fn next(&self) -> int { self.gone + self.tokens.len() }
    /// Block collections that started and did not end before the first token.
    pub open spec fn blocks(&self) -> int { self.indents.len() - depth(self.tokens) }
    /// A key is possible at the token `n`.
    pub open spec fn key(&self, i: int, n: int) -> bool { self.keys[i].possible && self.keys[i].token_number == n }
    pub open spec fn push(&self, t: Token) -> Ctl { Ctl { tokens: self.tokens.push(t), ended: self.ended || t.data is StreamEnd, ..*self } }
}
/// Every possible key belongs to a token in the queue, or to the next token.
pub open spec fn keys_ok(c: Ctl, p: Pos) -> bool {
    &&& forall|i: int| 0 <= i < c.keys.len() && (#[trigger] c.keys[i]).possible ==> {
        &&& c.gone <= c.keys[i].token_number <= c.next()
        &&& c.keys[i].token_number > 0
        &&& passed(c.keys[i].mark, p)
        &&& c.keys[i].token_number < c.next() ==> c.tokens[c.keys[i].token_number - c.gone].start_mark == c.keys[i].mark && earlier(c.keys[i].mark, p)
    }
    &&& forall|i: int, j: int| 0 <= i < j < c.keys.len() && (#[trigger] c.keys[i]).possible && (#[trigger] c.keys[j]).possible ==> c.keys[i].token_number < c.keys[j].token_number
}
/// No key waits for its token, or the token would have to start at `m`.
#[verifier::opaque]
pub open spec fn waits(c: Ctl, m: Option<Mark>) -> bool {
    forall|i: int| 0 <= i < c.keys.len() && (#[trigger] c.keys[i]).possible ==> c.keys[i].token_number < c.next() || m == Some(c.keys[i].mark)
}
/// The tokens are in the order of the input.
pub open spec fn order_ok(c: Ctl, p: Pos) -> bool {
    &&& forall|i: int| 0 <= i < c.tokens.len() ==> token_at(#[trigger] c.tokens[i], p)
    &&& forall|i: int| 0 <= i < c.tokens.len() ==> (#[trigger] c.tokens[i]).start_mark.index <= c.tokens[i].end_mark.index <= p.mark.index
    &&& forall|i: int, j: int| 0 <= i < j < c.tokens.len() ==> (#[trigger] c.tokens[i]).end_mark.index <= (#[trigger] c.tokens[j]).start_mark.index
}
/// The ends of the block collections match their starts.
pub open spec fn blocks_ok(c: Ctl) -> bool { forall|i: int| 0 <= i <= c.tokens.len() ==> c.blocks() + depth(#[trigger] c.tokens.take(i)) >= 0 }
/// The indentation grows.
pub open spec fn indents_ok(c: Ctl) -> bool {
    &&& -1 <= c.indent
    &&& c.indents.len() == 0 <==> c.indent == -1
    &&& c.indents.len() > 0 ==> c.indents[0] == -1
    &&& forall|i: int| 0 <= i < c.indents.len() ==> -1 <= (#[trigger] c.indents[i]) < c.indent
    &&& forall|i: int, j: int| 0 <= i < j < c.indents.len() ==> (#[trigger] c.indents[i]) < (#[trigger] c.indents[j])
}
/// One stream start comes first, and one stream end last.
pub open spec fn ends_ok(c: Ctl, p: Pos) -> bool {
    &&& forall|i: int| 0 <= i < c.tokens.len() ==> ((#[trigger] c.tokens[i]).data is StreamStart <==> c.gone + i == 0)
    &&& forall|i: int| 0 <= i < c.tokens.len() ==> ((#[trigger] c.tokens[i]).data is StreamEnd <==> c.ended && i == c.tokens.len() - 1)
    &&& c.ended ==> p.stream.len() == 0 && p.mark.column == 0 && (c.flow == 0 ==> c.indents.len() == 0)
    &&& c.gone + c.tokens.len() > 0
}
/// Where the first of the tokens to come starts, at the earliest.
pub open spec fn low(c: Ctl, p: Pos) -> int { if c.tokens.len() > 0 { c.tokens[0].start_mark.index as int } else { p.mark.index as int } }
/// What may happen to the queue while nothing is taken from it.
pub open spec fn onward(c: Ctl, p: Pos, d: Ctl, q: Pos) -> bool {
    &&& d.blocks() == c.blocks()
    &&& low(d, q) >= low(c, p)
    &&& d.gone == c.gone
}
pub open spec fn room(c: Ctl, p: Pos) -> int { 4 * p.mark.index + (if c.ended { 2int } else { 1int }) - c.next() - c.indents.len() }
#[verifier::opaque]
pub open spec fn ctl_ok(c: Ctl, p: Pos) -> bool {
    &&& keys_ok(c, p)
    &&& order_ok(c, p)
    &&& blocks_ok(c)
    &&& indents_ok(c)
    &&& ends_ok(c, p)
    &&& 0 <= c.gone
    &&& 0 <= c.flow
    &&& c.indent <= p.mark.index
    &&& c.keys.len() == c.flow + 1
}

// ---------------------------------------------------------------- depth

pub proof fn lemma_depth_push(s: Seq<Token>, t: Token)
    ensures depth(s.push(t)) == depth(s) + delta(t.data)
{ assert(s.push(t).drop_last() =~= s); }
pub proof fn lemma_depth_insert(s: Seq<Token>, k: int, t: Token)
    requires 0 <= k <= s.len()
    ensures depth(s.insert(k, t)) == depth(s) + delta(t.data)
    decreases s.len()
{
    if k == s.len() { assert(s.insert(k, t) =~= s.push(t)); lemma_depth_push(s, t); }
    else {
        assert(s.insert(k, t).drop_last() =~= s.drop_last().insert(k, t));
        lemma_depth_insert(s.drop_last(), k, t);
    }
}
pub proof fn lemma_depth_skip(s: Seq<Token>)
    requires s.len() > 0
    ensures depth(s) == delta(s[0].data) + depth(s.skip(1))
{
    assert(s.skip(1).insert(0, s[0]) =~= s);
    lemma_depth_insert(s.skip(1), 0, s[0]);
}
pub proof fn lemma_depth_update(s: Seq<Token>, t: Token)
    requires s.len() > 0, delta(t.data) == delta(s[0].data)
    ensures depth(s.update(0, t)) == depth(s)
{
    assert(s.update(0, t).skip(1) =~= s.skip(1));
    lemma_depth_skip(s.update(0, t));
    lemma_depth_skip(s);
}

// ---------------------------------------------------------------- places

pub broadcast proof fn lemma_passed(m: Mark, p: Pos, q: Pos)
    requires #[trigger] passed(m, p), #[trigger] reach(p, q)
    ensures passed(m, q)
{
    reveal(passed);
    let a = choose|a: Pos| #[trigger] reach(a, p) && pos_ok(a) && a.mark == m;
    lemma_reach_trans(a, p, q);
}
pub broadcast proof fn lemma_token_at(t: Token, p: Pos, q: Pos)
    requires #[trigger] token_at(t, p), #[trigger] reach(p, q)
    ensures token_at(t, q)
{
    reveal(token_at);
    let (a, b) = choose|a: Pos, b: Pos| #[trigger] reach(a, b) && #[trigger] reach(b, p) && pos_ok(a) && a.mark == t.start_mark && b.mark == t.end_mark;
    lemma_reach_trans(b, p, q);
}
pub proof fn lemma_token_here(t: Token, a: Pos, b: Pos, p: Pos)
    requires reach(a, b), reach(b, p), pos_ok(a), a.mark == t.start_mark, b.mark == t.end_mark
    ensures token_at(t, p), t.start_mark.index <= t.end_mark.index <= p.mark.index
{
    reveal(token_at);
    lemma_reach_ok(a, b);
    lemma_reach_ok(b, p);
}
/// A token without text, where the scanner once was.
pub proof fn lemma_token_empty(t: Token, p: Pos)
    requires passed(t.start_mark, p), t.end_mark == t.start_mark, pos_ok(p)
    ensures token_at(t, p), t.end_mark.index <= p.mark.index
{
    reveal(passed); reveal(token_at);
    let a = choose|a: Pos| #[trigger] reach(a, p) && pos_ok(a) && a.mark == t.start_mark;
    lemma_reach_refl(a);
    lemma_reach_ok(a, p);
}
pub proof fn lemma_passed_here(p: Pos)
    requires pos_ok(p)
    ensures passed(p.mark, p)
{ reveal(passed); lemma_reach_refl(p); }

// ---------------------------------------------------------------- changes

/// The scanner moved on.
pub proof fn lemma_move(c: Ctl, p: Pos, q: Pos)
    requires ctl_ok(c, p), reach(p, q), pos_ok(p)
    ensures ctl_ok(c, q), onward(c, p, c, q), room(c, q) >= room(c, p), p.stream.len() > q.stream.len() ==> room(c, q) >= room(c, p) + 4
{
    reveal(ctl_ok); reveal(waits);
    lemma_reach_ok(p, q);
    broadcast use lemma_passed, lemma_token_at;
    if c.ended { assert(q.mark.column == 0); }
}
/// A token was added at the end.
pub proof fn lemma_push(c: Ctl, t: Token, p0: Pos, p: Pos)
    requires
        ctl_ok(c, p0), reach(p0, p), pos_ok(p0),
        token_at(t, p), t.start_mark.index >= p0.mark.index, t.start_mark.index <= t.end_mark.index <= p.mark.index,
        waits(c, None) || p.stream.len() < p0.stream.len() && waits(c, Some(t.start_mark)),
        t.start_mark == p0.mark || waits(c, None),
        delta(t.data) == 0, !(t.data is StreamStart), !(t.data is StreamEnd), !c.ended,
    ensures
        ctl_ok(c.push(t), p), waits(c.push(t), None), onward(c, p0, c.push(t), p),
        room(c.push(t), p) == room(c, p) - 1,
{
    lemma_move(c, p0, p);
    reveal(ctl_ok); reveal(waits);
    let d = c.push(t);
    lemma_depth_push(c.tokens, t);
    lemma_reach_ok(p0, p);
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        if i < d.tokens.len() { assert(d.tokens.take(i) =~= c.tokens.take(i)); } else { assert(d.tokens.take(i) =~= d.tokens); assert(c.tokens.take(i - 1) =~= c.tokens); }
    }
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies
        d.keys[i].token_number < d.next() && d.tokens[d.keys[i].token_number - d.gone].start_mark == d.keys[i].mark && earlier(d.keys[i].mark, p) by {
        if c.keys[i].token_number == c.next() { assert(c.keys[i].mark == p0.mark); }
        else { assert(d.tokens[c.keys[i].token_number - c.gone] == c.tokens[c.keys[i].token_number - c.gone]); }
    }
}

/// A block collection ended without text of its own.
pub proof fn lemma_unroll(c: Ctl, t: Token, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), waits(c, None), c.indents.len() > 0, c.flow == 0, !c.ended,
        t.data is BlockEnd, t.start_mark == p.mark, t.end_mark == p.mark,
    ensures ({
        let d = Ctl { tokens: c.tokens.push(t), indents: c.indents.drop_last(), indent: c.indents.last() as int, ..c };
        ctl_ok(d, p) && waits(d, None) && onward(c, p, d, p) && room(d, p) == room(c, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { tokens: c.tokens.push(t), indents: c.indents.drop_last(), indent: c.indents.last() as int, ..c };
    lemma_depth_push(c.tokens, t);
    lemma_passed_here(p);
    lemma_token_empty(t, p);
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        if i < d.tokens.len() { assert(d.tokens.take(i) =~= c.tokens.take(i)); } else { assert(d.tokens.take(i) =~= d.tokens); }
    }
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies d.tokens[d.keys[i].token_number - d.gone].start_mark == d.keys[i].mark by {
        assert(d.tokens[c.keys[i].token_number - c.gone] == c.tokens[c.keys[i].token_number - c.gone]);
    }
    if c.indents.len() == 1 { assert(c.indents.last() == c.indents[0]); }
}
/// A block collection starts before the token `n`, with column `column`.
pub proof fn lemma_roll(c: Ctl, t: Token, n: int, column: int, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), c.flow == 0, !c.ended, waits(c, None),
        c.gone <= n <= c.next(), n > 0,
        n == c.next() || forall|i: int| 0 <= i < c.keys.len() && (#[trigger] c.keys[i]).possible ==> c.keys[i].token_number < n,
        c.indent < column <= p.mark.index,
        t.data is BlockSequenceStart || t.data is BlockMappingStart,
        t.end_mark == t.start_mark, passed(t.start_mark, p),
        n < c.next() ==> t.start_mark == c.tokens[n - c.gone].start_mark,
        n == c.next() ==> t.start_mark == p.mark,
    ensures ({
        let d = Ctl { tokens: c.tokens.insert(n - c.gone, t), indents: c.indents.push(c.indent as i32), indent: column, ..c };
        ctl_ok(d, p) && waits(d, None) && onward(c, p, d, p) && room(d, p) == room(c, p) - 2
    })
{
    reveal(ctl_ok); reveal(waits);
    let k = n - c.gone;
    let d = Ctl { tokens: c.tokens.insert(k, t), indents: c.indents.push(c.indent as i32), indent: column, ..c };
    lemma_insert(c, d, t, k, p);
}
/// A token without text was put before the token `k` of the queue.
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
proof fn lemma_insert(c: Ctl, d: Ctl, t: Token, k: int, p: Pos)
    requires
        0 <= k <= c.tokens.len(), pos_ok(p),
        d.tokens == c.tokens.insert(k, t), d.gone == c.gone, d.ended == c.ended, d.flow == c.flow, !c.ended,
        order_ok(c, p), ends_ok(c, p), blocks_ok(c),
        c.indents.len() + delta(t.data) == d.indents.len(), delta(t.data) >= 0,
        t.end_mark == t.start_mark, passed(t.start_mark, p),
        k < c.tokens.len() ==> t.start_mark == c.tokens[k].start_mark,
        k == c.tokens.len() ==> t.start_mark == p.mark,
        c.gone + k > 0, !(t.data is StreamStart), !(t.data is StreamEnd),
    ensures
        order_ok(d, p), blocks_ok(d), d.blocks() == c.blocks(), ends_ok(d, p),
{
    lemma_depth_insert(c.tokens, k, t);
    lemma_token_empty(t, p);
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        if i <= k { assert(d.tokens.take(i) =~= c.tokens.take(i)); }
        else {
            assert(d.tokens.take(i) =~= c.tokens.take(i - 1).insert(k, t));
            lemma_depth_insert(c.tokens.take(i - 1), k, t);
        }
    }
    let old_i = |i: int| if i < k { i } else { i - 1 };
    assert forall|i: int| 0 <= i < d.tokens.len() implies #[trigger] d.tokens[i] == (if i == k { t } else { c.tokens[old_i(i)] }) by {}
    assert forall|i: int| 0 <= i < d.tokens.len() implies token_at(#[trigger] d.tokens[i], p) by { if i != k { assert(token_at(c.tokens[old_i(i)], p)); } }
    assert forall|i: int, j: int| 0 <= i < j < d.tokens.len() implies (#[trigger] d.tokens[i]).end_mark.index <= (#[trigger] d.tokens[j]).start_mark.index by {
        if i != k && j != k { assert(c.tokens[old_i(i)].end_mark.index <= c.tokens[old_i(j)].start_mark.index); }
        else if i == k { if j > k + 1 { assert(c.tokens[k].end_mark.index <= c.tokens[j - 1].start_mark.index); } }
        else { if k < c.tokens.len() { assert(c.tokens[i].end_mark.index <= c.tokens[k].start_mark.index); } }
    }
}
/// The key of the last level is a key.
pub proof fn lemma_key(c: Ctl, t: Token, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), waits(c, None), !c.ended,
        c.keys.last().possible,
        t.data is Key, t.start_mark == c.keys.last().mark, t.end_mark == t.start_mark,
    ensures ({
        let k = c.keys.last();
        let d = Ctl { tokens: c.tokens.insert(k.token_number - c.gone, t), keys: c.keys.update(c.keys.len() - 1, SimpleKey { possible: false, ..k }), ..c };
        ctl_ok(d, p) && waits(d, None) && onward(c, p, d, p) && room(d, p) == room(c, p) - 1
    })
{
    reveal(ctl_ok); reveal(waits);
    let k = c.keys.last();
    let n = k.token_number - c.gone;
    let d = Ctl { tokens: c.tokens.insert(n, t), keys: c.keys.update(c.keys.len() - 1, SimpleKey { possible: false, ..k }), ..c };
    lemma_insert(c, d, t, n, p);
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies d.tokens[d.keys[i].token_number - d.gone].start_mark == d.keys[i].mark by {
        assert(c.keys[i].possible);
        assert(c.keys[i].token_number < k.token_number);
    }
}
/// Some keys are not possible any more.
pub proof fn lemma_drop_keys(c: Ctl, keys: Seq<SimpleKey>, p: Pos)
    requires
        ctl_ok(c, p), keys.len() == c.keys.len(),
        forall|i: int| 0 <= i < keys.len() && (#[trigger] keys[i]).possible ==> keys[i] == c.keys[i],
    ensures ({
        let d = Ctl { keys: keys, ..c };
        ctl_ok(d, p) && onward(c, p, d, p) && room(d, p) == room(c, p)
            && (waits(c, None) ==> waits(d, None))
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { keys: keys, ..c };
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies c.keys[i].possible by {}
}
/// A key may start here.
pub proof fn lemma_save(c: Ctl, k: SimpleKey, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), waits(c, None), c.keys.len() > 0,
        k.token_number == c.next(), k.mark == p.mark,
    ensures ({
        let d = Ctl { keys: c.keys.update(c.keys.len() - 1, k), ..c };
        ctl_ok(d, p) && waits(d, Some(p.mark)) && onward(c, p, d, p) && room(d, p) == room(c, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { keys: c.keys.update(c.keys.len() - 1, k), ..c };
    lemma_passed_here(p);
    assert forall|i: int| 0 <= i < d.keys.len() - 1 implies #[trigger] d.keys[i] == c.keys[i] by {}
}
/// A flow collection starts.
pub proof fn lemma_flow_up(c: Ctl, k: SimpleKey, p: Pos)
    requires ctl_ok(c, p), !k.possible, !c.ended,
    ensures ({
        let d = Ctl { keys: c.keys.push(k), flow: c.flow + 1, ..c };
        ctl_ok(d, p) && (forall|m: Option<Mark>| waits(c, m) ==> #[trigger] waits(d, m)) && onward(c, p, d, p) && room(d, p) == room(c, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { keys: c.keys.push(k), flow: c.flow + 1, ..c };
    assert forall|i: int| 0 <= i < d.keys.len() - 1 implies #[trigger] d.keys[i] == c.keys[i] by {}
}
/// A flow collection ends.
pub proof fn lemma_flow_down(c: Ctl, p: Pos)
    requires ctl_ok(c, p), c.flow > 0, waits(c, None), !c.ended,
    ensures ({
        let d = Ctl { keys: c.keys.drop_last(), flow: c.flow - 1, ..c };
        ctl_ok(d, p) && waits(d, None) && onward(c, p, d, p) && room(d, p) == room(c, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { keys: c.keys.drop_last(), flow: c.flow - 1, ..c };
    assert forall|i: int| 0 <= i < d.keys.len() implies #[trigger] d.keys[i] == c.keys[i] by {}
}
/// The stream ends.
pub proof fn lemma_end(c: Ctl, t: Token, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), waits(c, None), !c.ended,
        p.stream.len() == 0, p.mark.column == 0, c.flow == 0 ==> c.indents.len() == 0,
        t.data is StreamEnd, t.start_mark == p.mark, t.end_mark == p.mark,
    ensures
        ctl_ok(c.push(t), p), waits(c.push(t), None), onward(c, p, c.push(t), p), room(c.push(t), p) == room(c, p),
{
    reveal(ctl_ok); reveal(waits);
    let d = c.push(t);
    lemma_depth_push(c.tokens, t);
    lemma_passed_here(p);
    lemma_token_empty(t, p);
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        if i < d.tokens.len() { assert(d.tokens.take(i) =~= c.tokens.take(i)); } else { assert(d.tokens.take(i) =~= d.tokens); assert(c.tokens.take(i - 1) =~= c.tokens); }
    }
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies d.tokens[d.keys[i].token_number - d.gone].start_mark == d.keys[i].mark by {
        assert(d.tokens[c.keys[i].token_number - c.gone] == c.tokens[c.keys[i].token_number - c.gone]);
    }
}
/// The stream starts.
pub proof fn lemma_start(t: Token, k: SimpleKey, p: Pos)
    requires
        pos_ok(p), t.data is StreamStart, t.start_mark == p.mark, t.end_mark == p.mark, !k.possible,
    ensures ({
        let c = Ctl { tokens: seq![t], gone: 0, keys: seq![k], indents: seq![], indent: -1, flow: 0, ended: false };
        ctl_ok(c, p) && waits(c, None) && c.blocks() == 0 && room(c, p) >= 0
    })
{
    reveal(ctl_ok); reveal(waits);
    let c = Ctl { tokens: seq![t], gone: 0, keys: seq![k], indents: seq![], indent: -1, flow: 0, ended: false };
    assert(seq![t] =~= Seq::<Token>::empty().push(t));
    lemma_depth_push(seq![], t);
    lemma_passed_here(p);
    lemma_token_empty(t, p);
    assert forall|i: int| 0 <= i <= 1 implies c.blocks() + depth(#[trigger] c.tokens.take(i)) >= 0 by {
        if i == 1 { assert(c.tokens.take(1) =~= c.tokens); } else { assert(c.tokens.take(0) =~= seq![]); }
    }
}
/// The first token is gone.
pub proof fn lemma_skip(c: Ctl, p: Pos)
    requires
        ctl_ok(c, p), pos_ok(p), waits(c, None), c.tokens.len() > 0,
        forall|i: int| 0 <= i < c.keys.len() ==> !#[trigger] c.key(i, c.gone),
    ensures ({
        let d = Ctl { tokens: c.tokens.skip(1), gone: c.gone + 1, ..c };
        let t = c.tokens[0];
        &&& ctl_ok(d, p) && waits(d, None) && room(d, p) == room(c, p)
        &&& d.blocks() == c.blocks() + delta(t.data) >= 0
        &&& c.blocks() >= 0
        &&& low(d, p) >= t.end_mark.index >= t.start_mark.index
        &&& t.data is StreamEnd <==> c.ended && d.tokens.len() == 0
        &&& t.data is StreamStart <==> c.gone == 0
        &&& t.data is StreamEnd && c.flow == 0 ==> c.blocks() == 0
        &&& token_at(t, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { tokens: c.tokens.skip(1), gone: c.gone + 1, ..c };
    lemma_depth_skip(c.tokens);
    assert(c.tokens.take(0) =~= seq![]);
    assert(c.blocks() + depth(c.tokens.take(0)) >= 0);
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        lemma_depth_skip(c.tokens.take(i + 1));
        assert(c.tokens.take(i + 1).skip(1) =~= d.tokens.take(i));
        assert(c.blocks() + depth(c.tokens.take(i + 1)) >= 0);
    }
    assert(d.tokens.take(0) =~= seq![]);
    assert(d.blocks() + depth(d.tokens.take(0)) >= 0);
    assert forall|i: int| 0 <= i < d.keys.len() && (#[trigger] d.keys[i]).possible implies
        d.gone <= d.keys[i].token_number && d.tokens[d.keys[i].token_number - d.gone].start_mark == d.keys[i].mark by {
        assert(!c.key(i, c.gone));
        assert(d.tokens[c.keys[i].token_number - d.gone] == c.tokens[c.keys[i].token_number - c.gone]);
    }
}
/// The first token was changed, but not its kind or its marks.
pub proof fn lemma_change(c: Ctl, t: Token, p: Pos)
    requires
        ctl_ok(c, p), c.tokens.len() > 0, delta(t.data) == delta(c.tokens[0].data),
        t.start_mark == c.tokens[0].start_mark, t.end_mark == c.tokens[0].end_mark,
        t.data is StreamStart <==> c.tokens[0].data is StreamStart,
        t.data is StreamEnd <==> c.tokens[0].data is StreamEnd,
    ensures ({
        let d = Ctl { tokens: c.tokens.update(0, t), ..c };
        ctl_ok(d, p) && (waits(c, None) ==> waits(d, None)) && onward(c, p, d, p) && room(d, p) == room(c, p)
    })
{
    reveal(ctl_ok); reveal(waits);
    let d = Ctl { tokens: c.tokens.update(0, t), ..c };
    lemma_depth_update(c.tokens, t);
    reveal(token_at);
    assert(token_at(c.tokens[0], p));
    assert(token_at(t, p));
    assert forall|i: int| 0 <= i <= d.tokens.len() implies d.blocks() + depth(#[trigger] d.tokens.take(i)) >= 0 by {
        if i > 0 {
            assert(d.tokens.take(i) =~= c.tokens.take(i).update(0, t));
            lemma_depth_update(c.tokens.take(i), t);
        } else { assert(d.tokens.take(0) =~= c.tokens.take(0)); }
    }
    assert forall|i: int| 0 <= i < d.tokens.len() implies (#[trigger] d.tokens[i]).start_mark == c.tokens[i].start_mark && d.tokens[i].end_mark == c.tokens[i].end_mark by {}
    assert forall|i: int| 0 <= i < d.tokens.len() implies token_at(#[trigger] d.tokens[i], p) by { assert(token_at(c.tokens[i], p)); }
    assert forall|i: int| 0 <= i < d.tokens.len() implies ((#[trigger] d.tokens[i]).data is StreamStart <==> c.tokens[i].data is StreamStart) && (d.tokens[i].data is StreamEnd <==> c.tokens[i].data is StreamEnd) by {}
}
pub open spec fn like(a: Token, b: Token) -> bool {
    &&& delta(a.data) == delta(b.data)
    &&& a.start_mark == b.start_mark
    &&& a.end_mark == b.end_mark
    &&& a.data is StreamStart <==> b.data is StreamStart
    &&& a.data is StreamEnd <==> b.data is StreamEnd
}
pub proof fn lemma_changes(c: Ctl, p: Pos)
    requires ctl_ok(c, p), c.tokens.len() > 0
    ensures forall|t: Token| like(t, c.tokens[0]) ==> {
        let d = Ctl { tokens: #[trigger] c.tokens.update(0, t), ..c };
        ctl_ok(d, p) && (waits(c, None) ==> waits(d, None)) && onward(c, p, d, p) && room(d, p) == room(c, p)
    }
{
    assert forall|t: Token| like(t, c.tokens[0]) implies {
        let d = Ctl { tokens: #[trigger] c.tokens.update(0, t), ..c };
        ctl_ok(d, p) && (waits(c, None) ==> waits(d, None)) && onward(c, p, d, p) && room(d, p) == room(c, p)
    } by { lemma_change(c, t, p); }
}
/// Where the stream has ended, no key is near.
pub proof fn lemma_ended(c: Ctl, p: Pos, i: int)
    requires ctl_ok(c, p), waits(c, None), c.ended, 0 <= i < c.keys.len(), c.keys[i].possible
    ensures c.keys[i].mark.line < p.mark.line
{
    reveal(ctl_ok); reveal(waits);
    assert(earlier(c.keys[i].mark, p));
}
/// A token that may not start anywhere may start at `m`.
pub proof fn lemma_waits(c: Ctl, m: Option<Mark>)
    ensures waits(c, None) ==> waits(c, m)
{ reveal(waits); }
/// What the rest of the scanner relies on.
pub broadcast proof fn lemma_facts(c: Ctl, p: Pos)
    requires #[trigger] ctl_ok(c, p)
    ensures
        c.keys.len() == c.flow + 1, 0 <= c.flow, 0 <= c.gone,
        -1 <= c.indent <= p.mark.index,
        c.indents.len() == 0 <==> c.indent == -1,
        c.indents.len() > 0 ==> -1 <= c.indents.last() < c.indent,
        c.next() > 0,
        c.indents.len() >= 0,
        low(c, p) <= p.mark.index,
        c.ended ==> p.stream.len() == 0,
        c.tokens.len() > 0 ==> token_at(c.tokens[0], p) && (c.tokens[0].data is StreamStart <==> c.gone == 0),
{
    reveal(ctl_ok); reveal(waits);
}
/// The possible key of the last level.
pub proof fn lemma_last_key(c: Ctl, p: Pos)
    requires ctl_ok(c, p), c.keys.last().possible, waits(c, None)
    ensures
        c.gone <= c.keys.last().token_number < c.next(), c.keys.last().token_number > 0,
        passed(c.keys.last().mark, p), c.keys.last().mark.column <= c.keys.last().mark.index <= p.mark.index, c.keys.last().mark.line <= p.mark.line,
        c.tokens[c.keys.last().token_number - c.gone].start_mark == c.keys.last().mark,
{ reveal(ctl_ok); reveal(waits); lemma_passed_before(c.keys.last().mark, p); }
/// A possible key has been passed.
pub proof fn lemma_key_passed(c: Ctl, p: Pos, i: int)
    requires ctl_ok(c, p), 0 <= i < c.keys.len(), c.keys[i].possible
    ensures passed(c.keys[i].mark, p), c.keys[i].mark.index <= p.mark.index, c.keys[i].mark.line <= p.mark.line,
{ reveal(ctl_ok); reveal(waits); lemma_passed_before(c.keys[i].mark, p); }
pub proof fn lemma_passed_before(m: Mark, p: Pos)
    requires passed(m, p)
    ensures m.column <= m.index <= p.mark.index, m.line <= p.mark.line, m.line == p.mark.line ==> m.column <= p.mark.column,
{
    reveal(passed);
    let q = choose|q: Pos| #[trigger] reach(q, p) && pos_ok(q) && q.mark == m;
    lemma_reach_ok(q, p);
}
}
