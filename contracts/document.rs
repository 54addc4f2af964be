#[allow(unused)] use crate::compose::*;
#[allow(unused)] use crate::grammar::*;
#[allow(unused)] use crate::ErrorKind;
verus!{
/// Equal, except for the nodes.
pub open spec fn same_header(a: Document, b: Document) -> bool {
    &&& a.version_directive == b.version_directive
    &&& a.tag_directives == b.tag_directives
    &&& a.start_implicit == b.start_implicit
    &&& a.end_implicit == b.end_implicit
    &&& a.start_mark == b.start_mark
    &&& a.end_mark == b.end_mark
}
/// `b` has the nodes of `a` and one more.
pub open spec fn one_more(a: Document, b: Document) -> bool {
    &&& same_header(a, b)
    &&& b.nodes@.len() == a.nodes@.len() + 1
    &&& forall|i: int| 0 <= i < a.nodes@.len() ==> #[trigger] b.nodes@[i] == a.nodes@[i]
}
/// Only the content of node `k` differs.
pub open spec fn one_changed(a: Document, b: Document, k: int) -> bool {
    &&& same_header(a, b)
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|i: int| 0 <= i < a.nodes@.len() && i != k - 1 ==> #[trigger] b.nodes@[i] == a.nodes@[i]
    &&& b.nodes@[k - 1].tag == a.nodes@[k - 1].tag
    &&& b.nodes@[k - 1].start_mark == a.nodes@[k - 1].start_mark
    &&& b.nodes@[k - 1].end_mark == a.nodes@[k - 1].end_mark
}
pub open spec fn no_mark() -> Mark { Mark { index: 0, line: 0, column: 0 } }
pub open spec fn tag_or(t: Option<&str>, d: &str) -> Seq<char> { match t { Some(t) => t@, None => d@ } }
impl Document {
    pub open spec fn has(&self, k: int) -> bool { 1 <= k <= self.nodes@.len() }
}
pub(crate) open spec fn but_aliases(a: ParserInner, b: ParserInner) -> bool {
    a.states == b.states && a.state == b.state && a.marks == b.marks && a.tag_directives == b.tag_directives
}
}
