//! What loading makes of events.
use vstd::prelude::*;
use alloc::string::String;
use crate::{AliasData, Document, Event, EventData, Mark, Node, NodeData, NodePair};
use crate::document::same_header;
use crate::grammar::*;
verus!{
/// A document that is being loaded.
pub ghost struct Load {
    pub doc: Document,
    /// The open collections, outermost first.
    pub ctx: Seq<i32>,
    /// The anchors so far.
    pub anchors: Seq<AliasData>,
    /// What may come next.
    pub expects: Seq<Fr>,
}
pub open spec fn with_link(p: Seq<NodePair>, i: i32) -> Seq<NodePair> {
    if p.len() > 0 && p.last().value == 0 { p.update(p.len() - 1, NodePair { key: p.last().key, value: i }) } else { p.push(NodePair { key: i, value: 0 }) }
}
/// `m` is `n` with `i` as its next item, key or value.
pub open spec fn node_linked(n: Node, m: Node, i: i32) -> bool {
    &&& m.tag == n.tag && m.start_mark == n.start_mark && m.end_mark == n.end_mark
    &&& match n.data {
        NodeData::Sequence { items, style } => m.data matches NodeData::Sequence { items: w, style: t } && t == style && w@ == items@.push(i),
        NodeData::Mapping { pairs, style } => m.data matches NodeData::Mapping { pairs: w, style: t } && t == style && w@ =~= with_link(pairs@, i),
        _ => false,
    }
}
/// In the innermost open collection `i` is next; all else is the same.
pub open spec fn linked(a: Document, b: Document, ctx: Seq<i32>, i: i32) -> bool {
    if ctx.len() == 0 { a == b } else {
        &&& same_header(a, b)
        &&& b.nodes@.len() == a.nodes@.len()
        &&& forall|j: int| 0 <= j < a.nodes@.len() && j != ctx.last() - 1 ==> #[trigger] b.nodes@[j] == a.nodes@[j]
        &&& node_linked(a.nodes@[ctx.last() - 1], b.nodes@[ctx.last() - 1], i)
    }
}
pub open spec fn tag_given(tag: Option<String>, default: &str) -> Seq<char> {
    match tag { Some(t) => if t@ == "!"@ { default@ } else { t@ }, None => default@ }
}
/// The node an event begins.
pub open spec fn node_of(e: Event, n: Node) -> bool {
    &&& n.start_mark == e.start_mark && n.end_mark == e.end_mark
    &&& match e.data {
        EventData::Scalar { tag, value, style, .. } =>
            (n.data matches NodeData::Scalar { value: v, style: s } && v == value && s == style) && (n.tag matches Some(t) && t@ == tag_given(tag, crate::DEFAULT_SCALAR_TAG)),
        EventData::SequenceStart { tag, style, .. } =>
            (n.data matches NodeData::Sequence { items, style: s } && items@.len() == 0 && s == style) && (n.tag matches Some(t) && t@ == tag_given(tag, crate::DEFAULT_SEQUENCE_TAG)),
        EventData::MappingStart { tag, style, .. } =>
            (n.data matches NodeData::Mapping { pairs, style: s } && pairs@.len() == 0 && s == style) && (n.tag matches Some(t) && t@ == tag_given(tag, crate::DEFAULT_MAPPING_TAG)),
        _ => false,
    }
}
/// The anchor of an event is remembered for node `i`.
pub open spec fn anchored(a: Seq<AliasData>, b: Seq<AliasData>, anchor: Option<String>, i: nat, mark: Mark) -> bool {
    match anchor {
        None => b == a,
        Some(n) => !named(a, n@) && b.len() == a.len() + 1 && b.drop_last() =~= a && b.last().anchor == n && b.last().index == i && b.last().mark == mark,
    }
}
/// An anchor of this name is there.
pub open spec fn named(a: Seq<AliasData>, n: Seq<char>) -> bool { exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).anchor@ == n }
pub open spec fn is_node(e: Event) -> bool { e.data is Scalar || e.data is SequenceStart || e.data is MappingStart }
/// A node is added and linked.
pub open spec fn node_added(a: Document, b: Document, ctx: Seq<i32>, e: Event) -> bool {
    exists|m: Document| #[trigger] pushed_node(a, m, e) && linked(m, b, ctx, (a.nodes@.len() + 1) as i32)
}
pub open spec fn pushed_node(a: Document, m: Document, e: Event) -> bool {
    same_header(a, m) && m.nodes@.len() == a.nodes@.len() + 1 && m.nodes@.drop_last() =~= a.nodes@ && node_of(e, m.nodes@.last())
}
/// The innermost collection ends.
pub open spec fn ended(a: Document, b: Document, ctx: Seq<i32>, e: Event) -> bool {
    &&& same_header(a, b)
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|j: int| 0 <= j < a.nodes@.len() && j != ctx.last() - 1 ==> #[trigger] b.nodes@[j] == a.nodes@[j]
    &&& b.nodes@[ctx.last() - 1] == Node { end_mark: e.end_mark, ..a.nodes@[ctx.last() - 1] }
}
/// What event `e` makes of what was loaded before.
pub open spec fn composed(a: Load, e: Event, b: Load) -> bool {
    &&& follows(a.expects, e, b.expects)
    &&& match e.data {
        EventData::Alias { anchor } => b.ctx == a.ctx && b.anchors == a.anchors
            && exists|j: int| 0 <= j < a.anchors.len() && (#[trigger] a.anchors[j]).anchor@ == anchor@ && linked(a.doc, b.doc, a.ctx, a.anchors[j].index),
        EventData::Scalar { anchor, .. } => b.ctx == a.ctx && anchored(a.anchors, b.anchors, anchor, a.doc.nodes@.len() + 1, e.start_mark) && node_added(a.doc, b.doc, a.ctx, e),
        EventData::SequenceStart { anchor, .. } => b.ctx == a.ctx.push((a.doc.nodes@.len() + 1) as i32) && anchored(a.anchors, b.anchors, anchor, a.doc.nodes@.len() + 1, e.start_mark) && node_added(a.doc, b.doc, a.ctx, e),
        EventData::MappingStart { anchor, .. } => b.ctx == a.ctx.push((a.doc.nodes@.len() + 1) as i32) && anchored(a.anchors, b.anchors, anchor, a.doc.nodes@.len() + 1, e.start_mark) && node_added(a.doc, b.doc, a.ctx, e),
        EventData::SequenceEnd => b.ctx == a.ctx.drop_last() && b.anchors == a.anchors && ended(a.doc, b.doc, a.ctx, e),
        EventData::MappingEnd => b.ctx == a.ctx.drop_last() && b.anchors == a.anchors && ended(a.doc, b.doc, a.ctx, e),
        EventData::DocumentEnd { implicit } => b.ctx == a.ctx && b.anchors == a.anchors && b.doc == Document { end_implicit: implicit, end_mark: e.end_mark, ..a.doc },
        _ => false,
    }
}
/// `ev` made `b` of `a`, by way of `st`.
pub open spec fn composed_by(a: Load, ev: Seq<Event>, st: Seq<Load>, b: Load) -> bool {
    &&& st.len() == ev.len() + 1
    &&& st[0] == a && st.last() == b
    &&& forall|i: int| 0 <= i < ev.len() ==> composed(st[i], #[trigger] ev[i], st[i + 1])
}

// ---------------------------------------------------------------- invariant

pub open spec fn index_ok(i: i32, n: int) -> bool { 1 <= i <= n }
/// A value of 0 is still to come.
pub open spec fn links_ok(d: NodeData, n: int) -> bool {
    match d {
        NodeData::Scalar { .. } => true,
        NodeData::Sequence { items, .. } => forall|j: int| 0 <= j < items@.len() ==> index_ok(#[trigger] items@[j], n),
        NodeData::Mapping { pairs, .. } => forall|j: int| 0 <= j < pairs@.len() ==> index_ok((#[trigger] pairs@[j]).key, n) && (index_ok(pairs@[j].value, n) || j == pairs@.len() - 1 && pairs@[j].value == 0),
        NodeData::NoNode => false,
    }
}
/// All links are to nodes of the document.
pub open spec fn links_inside(d: Document) -> bool {
    forall|i: int| 0 <= i < d.nodes@.len() ==> links_ok((#[trigger] d.nodes@[i]).data, d.nodes@.len() as int)
}
/// No value is missing.
pub open spec fn complete(d: Document) -> bool { links_inside(d) && forall|i: int| 0 <= i < d.nodes@.len() ==> !waits((#[trigger] d.nodes@[i]).data) }
/// Values are missing in open collections only.
pub open spec fn settled(l: Load) -> bool {
    links_inside(l.doc) && forall|i: int| 0 <= i < l.doc.nodes@.len() && waits((#[trigger] l.doc.nodes@[i]).data) ==> l.ctx.contains((i + 1) as i32)
}
pub open spec fn waits(d: NodeData) -> bool { d matches NodeData::Mapping { pairs, .. } && pairs@.len() > 0 && pairs@.last().value == 0 }
pub open spec fn fits(d: NodeData, f: Fr) -> bool {
    match f {
        Fr::Seq => d is Sequence,
        Fr::Key => d is Mapping && !waits(d),
        Fr::Val => waits(d),
        _ => false,
    }
}
/// The open collections are those the grammar says.
pub open spec fn ctx_ok(l: Load) -> bool {
    let n = l.doc.nodes@.len();
    &&& forall|k: int| 0 <= k < l.ctx.len() ==> index_ok(#[trigger] l.ctx[k], n as int)
    &&& forall|k: int, m: int| 0 <= k < m < l.ctx.len() ==> #[trigger] l.ctx[k] < #[trigger] l.ctx[m]
    &&& l.expects.len() >= 1 && l.expects[0] is Docs
    &&& l.ctx.len() > 0 ==> l.expects.len() == l.ctx.len() + 2 && n > 0
    &&& l.ctx.len() == 0 ==> (l.expects =~= seq![Fr::Docs, Fr::DocEnd, Fr::Node] && n == 0) || (l.expects =~= seq![Fr::Docs, Fr::DocEnd] && n > 0)
    &&& l.expects.len() >= 2 && l.expects[1] is DocEnd
    &&& forall|k: int| 0 <= k < l.ctx.len() ==> fits(l.doc.nodes@[#[trigger] l.ctx[k] - 1].data, l.expects[k + 2])
}
pub open spec fn anchors_ok(l: Load) -> bool {
    &&& forall|j: int| 0 <= j < l.anchors.len() ==> index_ok((#[trigger] l.anchors[j]).index, l.doc.nodes@.len() as int)
    &&& forall|j: int, k: int| 0 <= j < k < l.anchors.len() ==> (#[trigger] l.anchors[j]).anchor@ != (#[trigger] l.anchors[k]).anchor@
}
pub open spec fn load_ok(l: Load) -> bool { ctx_ok(l) && anchors_ok(l) && settled(l) && l.doc.nodes@.len() <= i32::MAX }
/// Whatever was wrong, where it was.
pub open spec fn load_err(e: crate::Error, p: crate::spec::Pos) -> bool { crate::spec::parse_err(e, p) || e.skind() == crate::ErrorKind::Composer && e.smark() is Some }
pub open spec fn load_of(doc: Document, ctx: Seq<i32>, anchors: Seq<AliasData>, expects: Seq<Fr>) -> Load { Load { doc, ctx, anchors, expects } }
/// Events made `b` of `a`.
pub open spec fn composed_all(a: Load, b: Load) -> bool { exists|ev: Seq<Event>, st: Seq<Load>| composed_by(a, ev, st, b) }
/// Only what the end of the document says, and the nodes, differ.
pub open spec fn same_start(a: Document, b: Document) -> bool {
    a.version_directive == b.version_directive && a.tag_directives == b.tag_directives && a.start_implicit == b.start_implicit && a.start_mark == b.start_mark
}
/// The document that event `e` begins, before its nodes.
pub open spec fn started(d: Document, e: Event) -> bool {
    d.nodes@.len() == 0 && d.start_mark == e.start_mark && (e.data matches EventData::DocumentStart { version_directive, tag_directives, implicit }
        && d.version_directive == version_directive && d.tag_directives == tag_directives && d.start_implicit == implicit)
}
/// `d` is what the events from `e` to the end of the document make.
pub open spec fn document_of(d: Document, e: Event) -> bool {
    exists|s: Document, c: Seq<i32>, a: Seq<AliasData>| #![auto] started(s, e) && composed_all(load_of(s, seq![], seq![], seq![Fr::Docs, Fr::DocEnd, Fr::Node]), load_of(d, c, a, seq![Fr::Docs]))
}
pub proof fn lemma_composed_push(a: Load, ev: Seq<Event>, st: Seq<Load>, e: Event, n: Load)
    requires composed_by(a, ev, st, st.last()), composed(st.last(), e, n)
    ensures composed_by(a, ev.push(e), st.push(n), n)
{
    let ev2 = ev.push(e);
    let st2 = st.push(n);
    assert forall|i: int| 0 <= i < ev2.len() implies composed(st2[i], #[trigger] ev2[i], st2[i + 1]) by {
        if i < ev.len() { assert(ev2[i] == ev[i]); } else { assert(st2[i] == st.last()); }
    }
}
/// What may come next, and on what it is put.
pub proof fn lemma_next(a: Load, e: Event, x: Seq<Fr>)
    requires load_ok(a), follows(a.expects, e, x)
    ensures
        !(e.data is StreamStart || e.data is StreamEnd || e.data is DocumentStart),
        e.data is SequenceEnd ==> a.ctx.len() > 0 && index_ok(a.ctx.last(), a.doc.nodes@.len() as int) && a.doc.nodes@[a.ctx.last() - 1].data is Sequence,
        e.data is MappingEnd ==> a.ctx.len() > 0 && index_ok(a.ctx.last(), a.doc.nodes@.len() as int) && a.doc.nodes@[a.ctx.last() - 1].data is Mapping,
        a.ctx.len() > 0 && !(e.data is DocumentEnd) ==> index_ok(a.ctx.last(), a.doc.nodes@.len() as int) && (a.doc.nodes@[a.ctx.last() - 1].data is Sequence || a.doc.nodes@[a.ctx.last() - 1].data is Mapping),
        e.data is DocumentEnd ==> a.ctx.len() == 0 && x =~= seq![Fr::Docs] && a.doc.nodes@.len() > 0,
{
    if a.ctx.len() > 0 { let k = a.ctx.len() - 1; assert(a.expects.last() == a.expects[k + 2]); assert(fits(a.doc.nodes@[a.ctx[k] - 1].data, a.expects[k + 2])); }
}
pub proof fn lemma_linked(a: Document, b: Document, ctx: Seq<i32>, i: i32)
    requires
        linked(a, b, ctx, i), ctx.len() > 0, index_ok(ctx.last(), a.nodes@.len() as int), index_ok(i, a.nodes@.len() as int),
        links_inside(a),
        a.nodes@[ctx.last() - 1].data is Sequence || a.nodes@[ctx.last() - 1].data is Mapping,
    ensures
        b.nodes@.len() == a.nodes@.len(),
        a.nodes@[ctx.last() - 1].data is Sequence ==> b.nodes@[ctx.last() - 1].data is Sequence,
        a.nodes@[ctx.last() - 1].data is Mapping ==> b.nodes@[ctx.last() - 1].data is Mapping && (waits(b.nodes@[ctx.last() - 1].data) <==> !waits(a.nodes@[ctx.last() - 1].data)),
        links_inside(b),
{
    let p = ctx.last() - 1;
    let open = waits(a.nodes@[p].data);
    assert(links_ok(a.nodes@[p].data, a.nodes@.len() as int));
    assert forall|j: int| 0 <= j < b.nodes@.len() implies links_ok((#[trigger] b.nodes@[j]).data, b.nodes@.len() as int) by {
        assert(links_ok(a.nodes@[j].data, a.nodes@.len() as int));
        if j != p { assert(b.nodes@[j] == a.nodes@[j]); } else {
            match a.nodes@[p].data {
                NodeData::Sequence { items, .. } => {}
                NodeData::Mapping { pairs, .. } => {
                    if open { assert(index_ok(pairs@.last().key, a.nodes@.len() as int)); }
                }
                _ => {}
            }
        }
    }
}
pub proof fn lemma_pushed(a: Document, m: Document, e: Event)
    requires pushed_node(a, m, e), links_inside(a)
    ensures
        m.nodes@.len() == a.nodes@.len() + 1,
        links_inside(m),
        forall|j: int| 0 <= j < a.nodes@.len() ==> #[trigger] m.nodes@[j] == a.nodes@[j],
        e.data is SequenceStart ==> m.nodes@.last().data is Sequence,
        e.data is MappingStart ==> m.nodes@.last().data is Mapping,
        !waits(m.nodes@.last().data),
{
    assert forall|j: int| 0 <= j < a.nodes@.len() implies #[trigger] m.nodes@[j] == a.nodes@[j] by { assert(m.nodes@[j] == m.nodes@.drop_last()[j]); }
    assert forall|j: int| 0 <= j < m.nodes@.len() implies links_ok((#[trigger] m.nodes@[j]).data, m.nodes@.len() as int) by {
        if j < a.nodes@.len() { assert(links_ok(a.nodes@[j].data, a.nodes@.len() as int)); }
    }
}
/// Once the innermost collection has its next item, key or value.
pub proof fn lemma_after(a: Load, b: Load)
    requires
        ctx_ok(a), b.ctx == a.ctx, a.ctx.len() > 0, b.expects =~= after_node(a.expects),
        b.doc.nodes@.len() >= a.doc.nodes@.len(),
        forall|j: int| 0 <= j < a.doc.nodes@.len() && j != a.ctx.last() - 1 ==> #[trigger] b.doc.nodes@[j] == a.doc.nodes@[j],
        a.doc.nodes@[a.ctx.last() - 1].data is Sequence ==> b.doc.nodes@[a.ctx.last() - 1].data is Sequence,
        a.doc.nodes@[a.ctx.last() - 1].data is Mapping ==> b.doc.nodes@[a.ctx.last() - 1].data is Mapping && (waits(b.doc.nodes@[a.ctx.last() - 1].data) <==> !waits(a.doc.nodes@[a.ctx.last() - 1].data)),
    ensures ctx_ok(b)
{
    let l = a.ctx.len() - 1;
    assert(a.expects.last() == a.expects[l + 2]);
    assert(index_ok(a.ctx[l], a.doc.nodes@.len() as int));
    assert(fits(a.doc.nodes@[a.ctx[l] - 1].data, a.expects[l + 2]));
    assert forall|k: int| 0 <= k < b.ctx.len() implies fits(b.doc.nodes@[#[trigger] b.ctx[k] - 1].data, b.expects[k + 2]) by {
        assert(index_ok(a.ctx[k], a.doc.nodes@.len() as int));
        if k < l { assert(a.ctx[k] < a.ctx[l]); assert(fits(a.doc.nodes@[a.ctx[k] - 1].data, a.expects[k + 2])); assert(b.doc.nodes@[a.ctx[k] - 1] == a.doc.nodes@[a.ctx[k] - 1]); }
    }
    assert forall|k: int| 0 <= k < b.ctx.len() implies index_ok(#[trigger] b.ctx[k], b.doc.nodes@.len() as int) by { assert(index_ok(a.ctx[k], a.doc.nodes@.len() as int)); }
}
/// Nothing else waits.
pub proof fn lemma_settled(a: Load, b: Load)
    requires
        settled(a), links_inside(b.doc), a.ctx.len() > 0 ==> index_ok(a.ctx.last(), a.doc.nodes@.len() as int),
        b.ctx == a.ctx || b.ctx == a.ctx.push(b.doc.nodes@.len() as i32),
        b.doc.nodes@.len() == a.doc.nodes@.len() || b.doc.nodes@.len() == a.doc.nodes@.len() + 1 && !waits(b.doc.nodes@.last().data),
        forall|j: int| 0 <= j < a.doc.nodes@.len() && (a.ctx.len() > 0 ==> j != a.ctx.last() - 1) ==> #[trigger] b.doc.nodes@[j] == a.doc.nodes@[j],
    ensures settled(b)
{
    assert forall|i: int| 0 <= i < b.doc.nodes@.len() && waits((#[trigger] b.doc.nodes@[i]).data) implies b.ctx.contains((i + 1) as i32) by {
        if i < a.doc.nodes@.len() {
            assert(a.ctx.contains((i + 1) as i32)) by {
                if a.ctx.len() > 0 && i == a.ctx.last() - 1 { assert(a.ctx[a.ctx.len() - 1] == (i + 1) as i32); } else { assert(b.doc.nodes@[i] == a.doc.nodes@[i]); }
            }
            let k = choose|k: int| 0 <= k < a.ctx.len() && a.ctx[k] == (i + 1) as i32;
            assert(b.ctx[k] == (i + 1) as i32);
        }
    }
}
/// A collection begins.
pub proof fn lemma_opened(a: Load, b: Load)
    requires
        a.ctx.len() > 0 ==> ctx_ok(a),
        a.ctx.len() == 0 ==> a.expects =~= seq![Fr::Docs, Fr::DocEnd],
        a.doc == b.doc, a.doc.nodes@.len() > 0,
        a.ctx.len() > 0 ==> forall|k: int| 0 <= k < a.ctx.len() ==> #[trigger] a.ctx[k] < a.doc.nodes@.len(),
        a.doc.nodes@.len() <= i32::MAX,
        b.ctx == a.ctx.push(a.doc.nodes@.len() as i32),
        b.expects =~= a.expects.push(Fr::Seq) && a.doc.nodes@.last().data is Sequence
            || b.expects =~= a.expects.push(Fr::Key) && a.doc.nodes@.last().data is Mapping && !waits(a.doc.nodes@.last().data),
    ensures ctx_ok(b)
{
    let n = a.doc.nodes@.len();
    assert forall|k: int| 0 <= k < b.ctx.len() implies index_ok(#[trigger] b.ctx[k], n as int) by { if k < a.ctx.len() { assert(index_ok(a.ctx[k], n as int)); } }
    assert forall|k: int, m: int| 0 <= k < m < b.ctx.len() implies #[trigger] b.ctx[k] < #[trigger] b.ctx[m] by { if m < a.ctx.len() { assert(a.ctx[k] < a.ctx[m]); } else { assert(b.ctx[k] == a.ctx[k]); } }
    assert forall|k: int| 0 <= k < b.ctx.len() implies fits(b.doc.nodes@[#[trigger] b.ctx[k] - 1].data, b.expects[k + 2]) by {
        if k < a.ctx.len() { assert(fits(a.doc.nodes@[a.ctx[k] - 1].data, a.expects[k + 2])); }
    }
}
/// A collection ends.
pub proof fn lemma_closed(a: Load, e: Event, b: Load)
    requires load_ok(a), composed(a, e, b), e.data is SequenceEnd || e.data is MappingEnd
    ensures load_ok(b)
{
    lemma_next(a, e, b.expects);
    let l = a.ctx.len() - 1;
    let p = a.ctx.last() - 1;
    assert(a.expects.last() == a.expects[l + 2]);
    assert(fits(a.doc.nodes@[a.ctx[l] - 1].data, a.expects[l + 2]));
    assert forall|k: int| 0 <= k < b.ctx.len() implies fits(b.doc.nodes@[#[trigger] b.ctx[k] - 1].data, b.expects[k + 2]) by {
        assert(index_ok(a.ctx[k], a.doc.nodes@.len() as int));
        assert(a.ctx[k] < a.ctx[l]);
        assert(fits(a.doc.nodes@[a.ctx[k] - 1].data, a.expects[k + 2]));
    }
    if b.ctx.len() == 0 { assert(b.expects =~= seq![Fr::Docs, Fr::DocEnd]); }
    assert forall|i: int| 0 <= i < b.doc.nodes@.len() implies links_ok((#[trigger] b.doc.nodes@[i]).data, b.doc.nodes@.len() as int) by {
        assert(links_ok(a.doc.nodes@[i].data, a.doc.nodes@.len() as int));
        assert(i == p || b.doc.nodes@[i] == a.doc.nodes@[i]);
    }
    assert forall|i: int| 0 <= i < b.doc.nodes@.len() && waits((#[trigger] b.doc.nodes@[i]).data) implies b.ctx.contains((i + 1) as i32) by {
        assert(i != p && b.doc.nodes@[i] == a.doc.nodes@[i]);
        assert(a.ctx.contains((i + 1) as i32));
        let k = choose|k: int| 0 <= k < a.ctx.len() && a.ctx[k] == (i + 1) as i32;
        assert(b.ctx[k] == (i + 1) as i32);
    }
}
pub proof fn lemma_anchored(a: Load, b: Load, n: Option<String>, i: nat, m: Mark)
    requires anchors_ok(a), anchored(a.anchors, b.anchors, n, i, m), a.doc.nodes@.len() <= b.doc.nodes@.len(), 1 <= i <= b.doc.nodes@.len()
    ensures anchors_ok(b)
{
    if n is Some {
        let c = b.anchors.drop_last();
        assert forall|j: int| 0 <= j < b.anchors.len() implies index_ok((#[trigger] b.anchors[j]).index, b.doc.nodes@.len() as int) by {
            if j < c.len() { assert(b.anchors[j] == c[j]); assert(index_ok(a.anchors[j].index, a.doc.nodes@.len() as int)); }
        }
        assert forall|j: int, k: int| 0 <= j < k < b.anchors.len() implies (#[trigger] b.anchors[j]).anchor@ != (#[trigger] b.anchors[k]).anchor@ by {
            assert(b.anchors[j] == c[j]);
            if k < c.len() { assert(b.anchors[k] == c[k]); assert(a.anchors[j].anchor@ != a.anchors[k].anchor@); } else { assert(!named(a.anchors, n->Some_0@)); assert(a.anchors[j] == c[j]); }
        }
    } else {
        assert forall|j: int| 0 <= j < b.anchors.len() implies index_ok((#[trigger] b.anchors[j]).index, b.doc.nodes@.len() as int) by { assert(index_ok(a.anchors[j].index, a.doc.nodes@.len() as int)); }
    }
}
/// The invariant is kept.
pub proof fn lemma_composed(a: Load, e: Event, b: Load)
    requires load_ok(a), composed(a, e, b), a.doc.nodes@.len() < i32::MAX, !(e.data is DocumentEnd)
    ensures load_ok(b)
{
    lemma_next(a, e, b.expects);
    let n = a.doc.nodes@.len();
    if e.data is Alias {
        let j = choose|j: int| 0 <= j < a.anchors.len() && (#[trigger] a.anchors[j]).anchor@ == (e.data->Alias_anchor)@ && linked(a.doc, b.doc, a.ctx, a.anchors[j].index);
        assert(index_ok(a.anchors[j].index, n as int));
        lemma_linked(a.doc, b.doc, a.ctx, a.anchors[j].index);
        lemma_after(a, b);
        lemma_settled(a, b);
    } else if is_node(e) {
        let m = choose|m: Document| #[trigger] pushed_node(a.doc, m, e) && linked(m, b.doc, a.ctx, (n + 1) as i32);
        lemma_pushed(a.doc, m, e);
        lemma_anchored(a, b, anchor_of(e), n + 1, e.start_mark);
        // the collections before, with the new node
        let c = Load { doc: b.doc, ctx: a.ctx, anchors: b.anchors, expects: after_node(a.expects) };
        if a.ctx.len() > 0 {
            lemma_linked(m, b.doc, a.ctx, (n + 1) as i32);
            assert(b.doc.nodes@[n as int] == m.nodes@[n as int]);
            assert forall|j: int| 0 <= j < n && j != a.ctx.last() - 1 implies #[trigger] b.doc.nodes@[j] == a.doc.nodes@[j] by { assert(m.nodes@[j] == a.doc.nodes@[j]); assert(b.doc.nodes@[j] == m.nodes@[j]); }
            lemma_after(a, c);
            assert forall|k: int| 0 <= k < c.ctx.len() implies #[trigger] c.ctx[k] < c.doc.nodes@.len() by { assert(index_ok(a.ctx[k], n as int)); }
        } else {
            assert(c.expects =~= seq![Fr::Docs, Fr::DocEnd]);
        }
        lemma_settled(a, b);
        if !(e.data is Scalar) {
            lemma_opened(c, b);
        }
    } else {
        lemma_closed(a, e, b);
    }
}
}
