// What the text of a scalar says. Each function reads from the beginning of the
// text that is still to come.
use vstd::prelude::*;
#[allow(unused_imports)]
use crate::spec::*;
verus!{
broadcast use group_base;

// ---------------------------------------------------------------- white space

pub open spec fn c_ws(c: Option<char>) -> bool { c_blank(c) || c_break(c) }
/// What follows the blanks and breaks.
pub open spec fn after_ws(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if c_ws(first(s)) { after_ws(s.skip(1)) } else { s }
}
/// The blanks before anything else.
pub open spec fn blanks(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if c_blank(first(s)) { seq![s[0]] + blanks(s.skip(1)) } else { seq![] }
}
/// The breaks among the blanks and breaks, CR LF being one.
pub open spec fn breaks(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if c_blank(first(s)) { breaks(s.skip(1)) }
    else if crlf(s) { break_text(first(s)) + breaks(s.skip(2)) }
    else if c_break(first(s)) { break_text(first(s)) + breaks(s.skip(1)) }
    else { seq![] }
}
/// Blanks stay; breaks fold: one to a space, more than one lose the first, if that is a normal one.
pub open spec fn fold(s: Seq<char>) -> Seq<char> {
    let b = breaks(s);
    if b.len() == 0 { blanks(s) } else { fold_breaks(b) }
}
pub open spec fn fold_breaks(b: Seq<char>) -> Seq<char> {
    if b[0] != '\n' { b } else if b.len() == 1 { seq![' '] } else { b.skip(1) }
}

// ---------------------------------------------------------------- quoted

/// What the text up to the closing single quote says.
pub open spec fn single(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if c_ws(first(s)) { if after_ws(s).len() < s.len() { fold(s) + single(after_ws(s)) } else { seq![] } }
    else if s[0] == '\'' { if at(s, 1) == Some('\'') { seq!['\''] + single(s.skip(2)) } else { seq![] } }
    else { seq![s[0]] + single(s.skip(1)) }
}
/// What comes after the closing single quote.
pub open spec fn single_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if c_ws(first(s)) { if after_ws(s).len() < s.len() { single_end(after_ws(s)) } else { seq![] } }
    else if s[0] == '\'' { if at(s, 1) == Some('\'') { single_end(s.skip(2)) } else { s.skip(1) } }
    else { single_end(s.skip(1)) }
}
/// What an escape without a number stands for.
pub open spec fn esc_text(c: char) -> Option<char> {
    if c == '0' { Some('\0') }
    else if c == 'a' { Some('\u{7}') }
    else if c == 'b' { Some('\u{8}') }
    else if c == 't' || c == '\t' { Some('\t') }
    else if c == 'n' { Some('\n') }
    else if c == 'v' { Some('\u{b}') }
    else if c == 'f' { Some('\u{c}') }
    else if c == 'r' { Some('\r') }
    else if c == 'e' { Some('\u{1b}') }
    else if c == ' ' { Some(' ') }
    else if c == '"' { Some('"') }
    else if c == '/' { Some('/') }
    else if c == '\\' { Some('\\') }
    else if c == 'N' { Some('\u{85}') }
    else if c == '_' { Some('\u{a0}') }
    else if c == 'L' { Some('\u{2028}') }
    else if c == 'P' { Some('\u{2029}') }
    else { None }
}
/// The digits of the number an escape has.
pub open spec fn esc_digits(c: char) -> int { if c == 'x' { 2 } else if c == 'u' { 4 } else if c == 'U' { 8 } else { 0 } }
/// The number of the first `n` hexadecimal digits.
pub open spec fn hexnum(s: Seq<char>, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { hexnum(s, (n - 1) as nat) * 16 + hexval(s[n - 1]) } }
pub open spec fn esc_number(s: Seq<char>, n: int) -> Option<char> {
    let v = hexnum(s, n as nat);
    if s.len() >= n && (forall|i: int| 0 <= i < n ==> c_hex(Some(#[trigger] s[i]))) && is_scalar(v) { Some(v as u32 as char) } else { None }
}
/// Length of the line break the text starts with.
pub open spec fn break_len(s: Seq<char>) -> int { if crlf(s) { 2 } else { 1 } }
/// What the text up to the closing double quote says.
pub open spec fn double(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || s[0] == '"' { seq![] }
    else if c_ws(first(s)) { if after_ws(s).len() < s.len() { fold(s) + double(after_ws(s)) } else { seq![] } }
    else if s[0] != '\\' { seq![s[0]] + double(s.skip(1)) }
    else if c_break(at(s, 1)) {
        let t = s.skip(1 + break_len(s.skip(1)));
        if after_ws(t).len() < s.len() { breaks(t) + double(after_ws(t)) } else { seq![] }
    }
    else if s.len() < 2 { seq![] }
    else if esc_text(s[1]) is Some { seq![esc_text(s[1])->Some_0] + double(s.skip(2)) }
    else {
        let n = esc_digits(s[1]);
        if n > 0 && esc_number(s.skip(2), n) is Some { seq![esc_number(s.skip(2), n)->Some_0] + double(s.skip(2 + n)) } else { seq![] }
    }
}
/// What comes after the closing double quote.
pub open spec fn double_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if s[0] == '"' { s.skip(1) }
    else if c_ws(first(s)) { if after_ws(s).len() < s.len() { double_end(after_ws(s)) } else { seq![] } }
    else if s[0] != '\\' { double_end(s.skip(1)) }
    else if c_break(at(s, 1)) {
        let t = s.skip(1 + break_len(s.skip(1)));
        if after_ws(t).len() < s.len() { double_end(after_ws(t)) } else { seq![] }
    }
    else if s.len() < 2 { seq![] }
    else if esc_text(s[1]) is Some { double_end(s.skip(2)) }
    else {
        let n = esc_digits(s[1]);
        if n > 0 && s.len() >= 2 + n { double_end(s.skip(2 + n)) } else { seq![] }
    }
}
}
verus!{
// ---------------------------------------------------------------- lemmas

pub proof fn lemma_next(s: Seq<char>, c: char, t: Seq<char>)
    ensures s.push(c) + t == s + (seq![c] + t)
{ assert(s.push(c) + t =~= s + (seq![c] + t)); }
pub proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures a + b + c == a + (b + c)
{ assert(a + b + c =~= a + (b + c)); }

pub proof fn lemma_after(s: Seq<char>)
    ensures
        after_ws(s).len() <= s.len(), c_ws(first(s)) ==> after_ws(s).len() < s.len(),
        !c_ws(first(after_ws(s))),
        !c_ws(first(s)) ==> after_ws(s) == s && breaks(s).len() == 0 && blanks(s).len() == 0,
    decreases s.len()
{
    if c_ws(first(s)) { lemma_after(s.skip(1)); }
}
/// One blank.
pub proof fn lemma_blank(s: Seq<char>)
    requires c_blank(first(s))
    ensures
        after_ws(s) == after_ws(s.skip(1)),
        breaks(s) == breaks(s.skip(1)),
        blanks(s) == seq![s[0]] + blanks(s.skip(1)),
{}
/// One break.
pub proof fn lemma_break(s: Seq<char>)
    requires c_break(first(s))
    ensures
        after_ws(s) == after_ws(s.skip(break_len(s))),
        breaks(s) == break_text(first(s)) + breaks(s.skip(break_len(s))),
        break_text(first(s)).len() == 1,
{
    if crlf(s) {
        reveal_with_fuel(after_ws, 3);
        assert(s.skip(1)[0] == s[1]);
        assert(s.skip(1).skip(1) =~= s.skip(2));
    }
}
#[verifier::opaque]
pub open spec fn quoted(one: bool, s: Seq<char>) -> Seq<char> { if one { single(s) } else { double(s) } }
#[verifier::opaque]
pub open spec fn quoted_end(one: bool, s: Seq<char>) -> Seq<char> { if one { single_end(s) } else { double_end(s) } }
pub proof fn lemma_quoted_ws(one: bool, s: Seq<char>)
    requires c_ws(first(s))
    ensures
        quoted(one, s) == fold(s) + quoted(one, after_ws(s)),
        quoted_end(one, s) == quoted_end(one, after_ws(s)),
{ reveal(quoted); reveal(quoted_end); lemma_after(s); }
/// The closing quote.
pub proof fn lemma_quoted_close(one: bool, s: Seq<char>)
    requires s.len() > 0, s[0] == (if one { '\'' } else { '"' }), one ==> at(s, 1) != Some('\'')
    ensures quoted(one, s).len() == 0, quoted_end(one, s) == s.skip(1)
{ reveal(quoted); reveal(quoted_end); }
/// A character that stands for itself.
pub proof fn lemma_quoted_char(one: bool, s: Seq<char>)
    requires s.len() > 0, !c_ws(first(s)), s[0] != (if one { '\'' } else { '"' }), one || s[0] != '\\'
    ensures quoted(one, s) == seq![s[0]] + quoted(one, s.skip(1)), quoted_end(one, s) == quoted_end(one, s.skip(1))
{ reveal(quoted); reveal(quoted_end); }
/// Two single quotes.
pub proof fn lemma_quoted_two(s: Seq<char>)
    requires s.len() > 0, s[0] == '\'', at(s, 1) == Some('\'')
    ensures quoted(true, s) == seq!['\''] + quoted(true, s.skip(1).skip(1)), quoted_end(true, s) == quoted_end(true, s.skip(1).skip(1))
{ reveal(quoted); reveal(quoted_end); assert(s.skip(1).skip(1) =~= s.skip(2)); }
/// An escape.
pub proof fn lemma_quoted_esc(s: Seq<char>)
    requires s.len() > 1, s[0] == '\\', !c_break(at(s, 1)), esc_text(s[1]) is Some
    ensures quoted(false, s) == seq![esc_text(s[1])->Some_0] + quoted(false, s.skip(1).skip(1)), quoted_end(false, s) == quoted_end(false, s.skip(1).skip(1))
{ reveal(quoted); reveal(quoted_end); assert(s.skip(1).skip(1) =~= s.skip(2)); }
/// An escape with a number.
pub proof fn lemma_quoted_num(s: Seq<char>, n: int, c: char)
    requires s.len() > 1, s[0] == '\\', !c_break(at(s, 1)), esc_text(s[1]) is None, n == esc_digits(s[1]), n > 0, s.len() >= 2 + n,
        forall|i: int| 0 <= i < n ==> c_hex(Some(#[trigger] s.skip(1).skip(1)[i])), c as u32 == hexnum(s.skip(1).skip(1), n as nat),
    ensures quoted(false, s) == seq![c] + quoted(false, s.skip(1).skip(1).skip(n)), quoted_end(false, s) == quoted_end(false, s.skip(1).skip(1).skip(n))
{
    reveal(quoted); reveal(quoted_end);
    assert(s.skip(1).skip(1) =~= s.skip(2));
    assert(s.skip(2).skip(n) =~= s.skip(2 + n));
}
/// An escaped line break.
pub proof fn lemma_double_break(s: Seq<char>)
    requires s.len() > 1, s[0] == '\\', c_break(at(s, 1))
    ensures ({
        let t = s.skip(1).skip(break_len(s.skip(1)));
        &&& quoted(false, s) == breaks(t) + quoted(false, after_ws(t))
        &&& quoted_end(false, s) == quoted_end(false, after_ws(t))
    })
{
    reveal(quoted); reveal(quoted_end);
    assert(s.skip(1)[0] == s[1]);
    assert(s.skip(1).skip(break_len(s.skip(1))) =~= s.skip(1 + break_len(s.skip(1))));
    lemma_after(s.skip(1 + break_len(s.skip(1))));
}
pub proof fn lemma_hexnum(s: Seq<char>, n: nat)
    requires forall|i: int| 0 <= i < n ==> c_hex(Some(#[trigger] s[i]))
    ensures 0 <= hexnum(s, n) < pow16(n)
    decreases n
{
    if n > 0 { assert(c_hex(Some(s[n - 1]))); lemma_hexnum(s, (n - 1) as nat); }
}
pub open spec fn pow16(n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
pub proof fn lemma_pow16(n: nat)
    requires n < 8
    ensures pow16(n) <= 0x1000_0000
{ assert(pow16(0) == 1 && pow16(1) == 16 && pow16(2) == 256 && pow16(3) == 4096 && pow16(4) == 65536 && pow16(5) == 1048576 && pow16(6) == 16777216 && pow16(7) == 268435456) by (compute); }
/// One more hexadecimal digit.
pub proof fn lemma_hexdigit(s: Seq<char>, n: nat, v: u32)
    requires n < 8, v == hexnum(s, n), c_hex(Some(s[n as int])), forall|i: int| 0 <= i < n ==> c_hex(Some(#[trigger] s[i]))
    ensures (v << 4) == v * 16, (v << 4) + hexval(s[n as int]) == hexnum(s, n + 1), (v << 4) + hexval(s[n as int]) < 0x1_0000_0000, hexval(s[n as int]) < 16
{
    lemma_hexnum(s, n); lemma_pow16(n);
    assert(v < 0x1000_0000 ==> (v << 4) == v * 16) by (bit_vector);
}
}
verus!{
// ---------------------------------------------------------------- plain

/// `---` or `...` at the start of a line.
pub open spec fn doc_here(p: Pos) -> bool {
    let s = p.stream;
    &&& p.mark.column == 0
    &&& s.len() >= 3 && (s[0] == '-' && s[1] == '-' && s[2] == '-' || s[0] == '.' && s[1] == '.' && s[2] == '.')
    &&& c_blankz(at(s, 3))
}
pub open spec fn flow_char(c: Option<char>) -> bool { c == Some(',') || c == Some('[') || c == Some(']') || c == Some('{') || c == Some('}') }
/// What ends a plain scalar within a line.
pub open spec fn plain_stop(s: Seq<char>, flow: bool) -> bool {
    first(s) == Some(':') && c_blankz(at(s, 1)) || flow && flow_char(first(s))
}
/// The place after blanks and breaks.
pub open spec fn skip_ws(p: Pos) -> Pos
    decreases p.stream.len()
{
    if c_ws(first(p.stream)) { skip_ws(step(p)) } else { p }
}
/// Whether a plain scalar does not go on at `q`, after blanks or breaks.
pub open spec fn plain_over(q: Pos, flow: bool, indent: int) -> bool {
    ||| q.stream.len() == 0
    ||| doc_here(q)
    ||| first(q.stream) == Some('#')
    ||| !flow && q.mark.column < indent
    ||| plain_stop(q.stream, flow)
}
/// What the plain scalar at `p` says.
#[verifier::opaque]
pub open spec fn plain(p: Pos, flow: bool, indent: int) -> Seq<char>
    decreases p.stream.len()
{
    if p.stream.len() == 0 { seq![] }
    else if c_ws(first(p.stream)) {
        let q = skip_ws(p);
        if plain_over(q, flow, indent) || q.stream.len() >= p.stream.len() { seq![] } else { fold(p.stream) + plain(q, flow, indent) }
    }
    else if plain_stop(p.stream, flow) { seq![] }
    else { seq![p.stream[0]] + plain(step(p), flow, indent) }
}
/// Where the plain scalar at `p` ends.
#[verifier::opaque]
pub open spec fn plain_end(p: Pos, flow: bool, indent: int) -> Pos
    decreases p.stream.len()
{
    if p.stream.len() == 0 { p }
    else if c_ws(first(p.stream)) {
        let q = skip_ws(p);
        if plain_over(q, flow, indent) || q.stream.len() >= p.stream.len() { p } else { plain_end(q, flow, indent) }
    }
    else if plain_stop(p.stream, flow) { p }
    else { plain_end(step(p), flow, indent) }
}
pub proof fn lemma_skip_ws(p: Pos)
    ensures skip_ws(p).stream == after_ws(p.stream), !c_ws(first(skip_ws(p).stream)), !c_ws(first(p.stream)) ==> skip_ws(p) == p, reach(p, skip_ws(p)),
        skip_ws(p).stream.len() <= p.stream.len(), c_ws(first(p.stream)) ==> skip_ws(p).stream.len() < p.stream.len(),
    decreases p.stream.len()
{
    lemma_after(p.stream);
    lemma_reach_refl(p);
    if c_ws(first(p.stream)) {
        lemma_skip_ws(step(p));
        lemma_reach_step(p);
        lemma_reach_trans(p, step(p), skip_ws(p));
        if c_break(first(p.stream)) { lemma_break(p.stream); }
        if crlf(p.stream) { assert(step(p).stream =~= p.stream.skip(2)); } else { assert(step(p).stream =~= p.stream.skip(1)); }
    }
}
/// One more character.
pub proof fn lemma_plain_char(p: Pos, flow: bool, indent: int)
    requires p.stream.len() > 0, !c_ws(first(p.stream)), !plain_stop(p.stream, flow)
    ensures plain(p, flow, indent) == seq![p.stream[0]] + plain(step(p), flow, indent), plain_end(p, flow, indent) == plain_end(step(p), flow, indent)
{ reveal(plain); reveal(plain_end); }
/// Blanks and breaks in the middle.
pub proof fn lemma_plain_ws(p: Pos, flow: bool, indent: int)
    requires c_ws(first(p.stream)), !plain_over(skip_ws(p), flow, indent)
    ensures plain(p, flow, indent) == fold(p.stream) + plain(skip_ws(p), flow, indent), plain_end(p, flow, indent) == plain_end(skip_ws(p), flow, indent)
{ reveal(plain); reveal(plain_end); lemma_skip_ws(p); }
/// The end.
pub proof fn lemma_plain_stop(p: Pos, flow: bool, indent: int)
    requires if c_ws(first(p.stream)) { plain_over(skip_ws(p), flow, indent) } else { p.stream.len() == 0 || plain_stop(p.stream, flow) }
    ensures plain(p, flow, indent).len() == 0, plain_end(p, flow, indent) == p
{ reveal(plain); reveal(plain_end); }
}
verus!{
// ---------------------------------------------------------------- block

/// Whether the space at `p` is indentation of a block scalar, which is `n` wide if that is known.
pub open spec fn indents(p: Pos, n: int) -> bool { (n == 0 || p.mark.column < n) && first(p.stream) == Some(' ') }
/// The place after indentation and empty lines.
pub open spec fn skip_lines(p: Pos, n: int) -> Pos
    decreases p.stream.len()
{
    if indents(p, n) || c_break(first(p.stream)) { skip_lines(step(p), n) } else { p }
}
/// The breaks of the empty lines.
pub open spec fn line_breaks(p: Pos, n: int) -> Seq<char>
    decreases p.stream.len()
{
    if indents(p, n) { line_breaks(step(p), n) }
    else if c_break(first(p.stream)) { break_text(first(p.stream)) + line_breaks(step(p), n) }
    else { seq![] }
}
/// The place after the last of these breaks, or `l`.
pub open spec fn last_break(p: Pos, n: int, l: Pos) -> Pos
    decreases p.stream.len()
{
    if indents(p, n) { last_break(step(p), n, l) }
    else if c_break(first(p.stream)) { last_break(step(p), n, step(p)) }
    else { l }
}
/// The most spaces of the empty lines and of the first line with text.
pub open spec fn widest(p: Pos) -> int
    decreases p.stream.len()
{
    if indents(p, 0) { widest(step(p)) }
    else if c_break(first(p.stream)) { imax(p.mark.column as int, widest(step(p))) }
    else { p.mark.column as int }
}
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
/// The indentation of a block scalar in a block indented by `base`.
pub open spec fn detected(p: Pos, base: int) -> int { imax(widest(p), imax(base + 1, 1)) }
/// The rest of the line.
pub open spec fn line(p: Pos) -> Seq<char>
    decreases p.stream.len()
{
    if c_breakz(first(p.stream)) { seq![] } else { seq![p.stream[0]] + line(step(p)) }
}
pub open spec fn line_end(p: Pos) -> Pos
    decreases p.stream.len()
{
    if c_breakz(first(p.stream)) { p } else { line_end(step(p)) }
}
pub open spec fn next_line(p: Pos) -> Pos { if c_break(first(p.stream)) { step(p) } else { p } }
/// What is between two lines: the break of the first and those of the empty lines. One break
/// of a folded scalar becomes a space, and the first of more is dropped, unless one of the lines starts with a blank.
pub open spec fn joint(literal: bool, lead: Seq<char>, empty: Seq<char>, blank: bool) -> Seq<char> {
    if literal || blank || lead.len() == 0 || lead[0] != '\n' { lead + empty }
    else if empty.len() == 0 { seq![' '] }
    else { empty }
}
/// What is at the end.
pub open spec fn chomped(chomp: int, lead: Seq<char>, empty: Seq<char>) -> Seq<char> {
    if chomp == 0 { lead } else if chomp == 1 { lead + empty } else { seq![] }
}
pub open spec fn block_over(p: Pos, n: int) -> bool { p.stream.len() == 0 || p.mark.column != n }
/// What the lines of a block scalar from `p` say, after a line that ended with the break `lead` and
/// the breaks `empty` of empty lines.
#[verifier::opaque]
pub open spec fn block(p: Pos, n: int, literal: bool, chomp: int, lead: Seq<char>, empty: Seq<char>, blank: bool) -> Seq<char>
    decreases p.stream.len()
{
    if block_over(p, n) { chomped(chomp, lead, empty) }
    else {
        let q = line_end(p);
        let r = next_line(q);
        let b = c_blank(first(p.stream));
        if skip_lines(r, n).stream.len() >= p.stream.len() { seq![] }
        else { joint(literal, lead, empty, blank || b) + line(p) + block(skip_lines(r, n), n, literal, chomp, break_text(first(q.stream)), line_breaks(r, n), b) }
    }
}
/// The place after the lines, and the place after the last line with what follows it.
#[verifier::opaque]
pub open spec fn block_end(p: Pos, n: int, l: Pos) -> (Pos, Pos)
    decreases p.stream.len()
{
    if block_over(p, n) { (p, l) }
    else {
        let r = next_line(line_end(p));
        if skip_lines(r, n).stream.len() >= p.stream.len() { (p, l) } else { block_end(skip_lines(r, n), n, last_break(r, n, r)) }
    }
}
pub open spec fn c_sign(c: Option<char>) -> int { if c == Some('+') { 1 } else if c == Some('-') { -1 } else { 0 } }
pub open spec fn digit_of(c: Option<char>) -> int { if c_digit(c) { c->Some_0 as int - '0' as int } else { 0 } }
/// How to end the scalar.
pub open spec fn chomping_of(s: Seq<char>) -> int { if c_digit(first(s)) { c_sign(at(s, 1)) } else { c_sign(first(s)) } }
/// The indentation, relative to the block, or 0.
pub open spec fn increment_of(s: Seq<char>) -> int { if c_sign(first(s)) != 0 { digit_of(at(s, 1)) } else { digit_of(first(s)) } }
pub open spec fn indicators(p: Pos) -> Pos {
    let s = p.stream;
    if c_sign(first(s)) != 0 && c_digit(at(s, 1)) || c_digit(first(s)) && c_sign(at(s, 1)) != 0 { step(step(p)) }
    else if c_sign(first(s)) != 0 || c_digit(first(s)) { step(p) }
    else { p }
}
pub open spec fn skip_blanks(p: Pos) -> Pos
    decreases p.stream.len()
{ if c_blank(first(p.stream)) { skip_blanks(step(p)) } else { p } }
pub open spec fn skip_comment(p: Pos) -> Pos { if first(p.stream) == Some('#') { line_end(p) } else { p } }
/// The place after the header of a block scalar, which starts at `p` (after `|` or `>`).
pub open spec fn header_end(p: Pos) -> Pos { next_line(skip_comment(skip_blanks(indicators(p)))) }
pub open spec fn given_indent(s: Seq<char>, base: int) -> int { if increment_of(s) == 0 { 0 } else { imax(base, 0) + increment_of(s) } }
/// What a block scalar says whose header starts at `p`, in a block indented by `base`.
pub open spec fn block_text(p: Pos, literal: bool, base: int) -> Seq<char> {
    let h = header_end(p);
    let g = given_indent(p.stream, base);
    let n = if g == 0 { detected(h, base) } else { g };
    block(skip_lines(h, g), n, literal, chomping_of(p.stream), seq![], line_breaks(h, g), false)
}
pub open spec fn block_text_end(p: Pos, base: int) -> (Pos, Pos) {
    let h = header_end(p);
    let g = given_indent(p.stream, base);
    let n = if g == 0 { detected(h, base) } else { g };
    block_end(skip_lines(h, g), n, last_break(h, g, h))
}
pub proof fn lemma_skip_lines(p: Pos, n: int)
    ensures reach(p, skip_lines(p, n)), skip_lines(p, n).stream.len() <= p.stream.len(), !c_break(first(skip_lines(p, n).stream))
    decreases p.stream.len()
{
    lemma_reach_refl(p);
    if indents(p, n) || c_break(first(p.stream)) {
        lemma_skip_lines(step(p), n);
        lemma_reach_step(p);
        lemma_reach_trans(p, step(p), skip_lines(p, n));
    }
}
pub proof fn lemma_line_end(p: Pos)
    ensures reach(p, line_end(p)), line_end(p).stream.len() <= p.stream.len(), c_breakz(first(line_end(p).stream)), !c_breakz(first(p.stream)) ==> line_end(p).stream.len() < p.stream.len()
    decreases p.stream.len()
{
    lemma_reach_refl(p);
    if !c_breakz(first(p.stream)) {
        lemma_line_end(step(p));
        lemma_reach_step(p);
        lemma_reach_trans(p, step(p), line_end(p));
    }
}
pub proof fn lemma_widest(p: Pos)
    ensures widest(p) >= 0
    decreases p.stream.len()
{ if indents(p, 0) || c_break(first(p.stream)) { lemma_widest(step(p)); } }
/// One more line.
pub proof fn lemma_block_line(p: Pos, n: int, literal: bool, chomp: int, lead: Seq<char>, empty: Seq<char>, blank: bool, l: Pos)
    requires !block_over(p, n), !c_break(first(p.stream))
    ensures ({
        let q = line_end(p);
        let r = next_line(q);
        let b = c_blank(first(p.stream));
        &&& skip_lines(r, n).stream.len() < p.stream.len()
        &&& block(p, n, literal, chomp, lead, empty, blank) == joint(literal, lead, empty, blank || b) + line(p) + block(skip_lines(r, n), n, literal, chomp, break_text(first(q.stream)), line_breaks(r, n), b)
        &&& block_end(p, n, l) == block_end(skip_lines(r, n), n, last_break(r, n, r))
    })
{
    reveal(block); reveal(block_end);
    lemma_line_end(p);
    lemma_skip_lines(next_line(line_end(p)), n);
}
pub proof fn lemma_block_over(p: Pos, n: int, literal: bool, chomp: int, lead: Seq<char>, empty: Seq<char>, blank: bool, l: Pos)
    requires block_over(p, n)
    ensures block(p, n, literal, chomp, lead, empty, blank) == chomped(chomp, lead, empty), block_end(p, n, l) == (p, l)
{ reveal(block); reveal(block_end); }
}
