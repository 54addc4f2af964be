fn Document::new -> r
  sig
    ensures
    [C06,C17] r.nodes@.len() == 0,
    [C17] r.version_directive == version_directive,
    [C17] r.tag_directives@.len() == tag_directives_in@.len(),
    [C17] r.start_implicit == start_implicit && r.end_implicit == end_implicit,
fn Document::get_node -> r
  sig
    ensures
    [C17] r is Some <==> self.has(index as int),
    [C17] r matches Some(n) ==> *n == self.nodes@[index - 1],
fn Document::get_node_mut -> r
  sig
    ensures
    [C17] r is Some <==> old(self).has(index as int),
    [C17] r matches Some(n) ==> *n == old(self).nodes@[index - 1] && final(self).nodes@ == old(self).nodes@.update(index - 1, *final(n)),
    [C17] r is None ==> final(self).nodes@ == old(self).nodes@,
    [C17] same_header(*old(self), *final(self)),
fn Document::get_root_node -> r
  sig
    ensures
    [C06,C17] r is Some <==> old(self).nodes@.len() > 0,
    [C17] r matches Some(n) ==> *n == old(self).nodes@[0] && final(self).nodes@ == old(self).nodes@.update(0, *final(n)),
    [C17] r is None ==> final(self).nodes@ == old(self).nodes@,
    [C17] same_header(*old(self), *final(self)),
def ADD
    requires
    old(self).nodes@.len() < i32::MAX,
    ensures
    [C17] one_more(*old(self), *final(self)),
    [C17] r == final(self).nodes@.len(),
    [C17] final(self).nodes@.last().start_mark == no_mark() && final(self).nodes@.last().end_mark == no_mark(),
enddef
fn Document::add_scalar -> r
  sig
    use ADD;
    [C17] final(self).nodes@.last().tag matches Some(t) && t@ == tag_or(tag, crate::DEFAULT_SCALAR_TAG),
    [C17] final(self).nodes@.last().data matches NodeData::Scalar { value: v, style: s } && v@ == value@ && s == style,
fn Document::add_sequence -> r
  sig
    use ADD;
    [C17] final(self).nodes@.last().tag matches Some(t) && t@ == tag_or(tag, crate::DEFAULT_SEQUENCE_TAG),
    [C17] final(self).nodes@.last().data matches NodeData::Sequence { items: v, style: s } && v@.len() == 0 && s == style,
fn Document::add_mapping -> r
  sig
    use ADD;
    [C17] final(self).nodes@.last().tag matches Some(t) && t@ == tag_or(tag, crate::DEFAULT_MAPPING_TAG),
    [C17] final(self).nodes@.last().data matches NodeData::Mapping { pairs: v, style: s } && v@.len() == 0 && s == style,
fn Document::append_sequence_item
  sig
    requires
    old(self).has(sequence as int) && old(self).has(item as int),
    old(self).nodes@[sequence - 1].data is Sequence,
    ensures
    [C17] one_changed(*old(self), *final(self), sequence as int),
    [C17] final(self).nodes@[sequence - 1].data matches NodeData::Sequence { items: v, style: s } && (old(self).nodes@[sequence - 1].data matches NodeData::Sequence { items: w, style: t } && v@ == w@.push(item) && s == t),
fn Document::yaml_document_append_mapping_pair
  sig
    requires
    old(self).has(mapping as int) && old(self).has(key as int) && old(self).has(value as int),
    old(self).nodes@[mapping - 1].data is Mapping,
    ensures
    [C17] one_changed(*old(self), *final(self), mapping as int),
    [C17] final(self).nodes@[mapping - 1].data matches NodeData::Mapping { pairs: v, style: s } && (old(self).nodes@[mapping - 1].data matches NodeData::Mapping { pairs: w, style: t } && v@ == w@.push(NodePair { key: key, value: value }) && s == t),
fn Document::register_anchor -> r
  attr #[verifier::loop_isolation(false)]
  sig
    requires
    index_ok(index, old(self).nodes@.len() as int),
    ensures
    *final(self) == *old(self),
    but_aliases(*old(parser), *final(parser)),
    [C07] r is Ok ==> anchored(old(parser).aliases@, final(parser).aliases@, anchor, index as nat, old(self).nodes@[index - 1].start_mark),
    [C07] r is Err ==> (anchor matches Some(a) && named(old(parser).aliases@, a@)),
    [C07,C16] r matches Err(e) ==> e.skind() == ErrorKind::Composer && e.smark() == Some(old(self).nodes@[index - 1].start_mark),
    [C07,C16] r matches Err(e) ==> (anchor matches Some(a) && exists|j: int| 0 <= j < old(parser).aliases@.len() && (#[trigger] old(parser).aliases@[j]).anchor@ == a@ && (e.scontext() matches Some(c) && c.1 == old(parser).aliases@[j].mark)),
  loop 0 iter=it
    invariant
    *self == *old(self) && *parser == *old(parser),
    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == parser.aliases@[j],
    it.seq().len() == parser.aliases@.len(),
    forall|j: int| 0 <= j < it.index@ ==> (#[trigger] parser.aliases@[j]).anchor@ != data.anchor@,
    anchor0 == Some(data.anchor) && data.mark == self.nodes@[index - 1].start_mark,
  hint start
    let ghost anchor0 = anchor;
  hint before-return:1
    proof {
        let ghost j = it.index@;
        assert(*it.seq()[j] == parser.aliases@[j]);
        assert(parser.aliases@[j].anchor@ == data.anchor@);
    }
  hint ret
    proof { assert(vx_ret is Ok && parser.aliases@.len() > old(parser).aliases@.len() ==> parser.aliases@.drop_last() =~= old(parser).aliases@); }
fn Document::load_node_add -> r
  sig
    requires
    ctx@.len() > 0 ==> index_ok(ctx@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[ctx@.last() - 1].data is Sequence || old(self).nodes@[ctx@.last() - 1].data is Mapping),
    ensures
    r is Ok,
    [C06,C07] linked(*old(self), *final(self), ctx@, index),
fn Document::load_alias -> r
  sig
    requires
    event.data is Alias,
    ctx@.len() > 0 ==> index_ok(ctx@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[ctx@.last() - 1].data is Sequence || old(self).nodes@[ctx@.last() - 1].data is Mapping),
    ensures
    [C07] r is Ok ==> (event.data matches EventData::Alias { anchor } && exists|j: int| 0 <= j < parser.aliases@.len() && (#[trigger] parser.aliases@[j]).anchor@ == anchor@ && linked(*old(self), *final(self), ctx@, parser.aliases@[j].index)),
    [C07] r is Err ==> (event.data matches EventData::Alias { anchor } && !named(parser.aliases@, anchor@)),
    [C07,C16] r matches Err(e) ==> e.skind() == ErrorKind::Composer && e.smark() == Some(event.start_mark),
  loop 0 iter=it
    invariant
    *self == *old(self),
    forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == parser.aliases@[j],
    it.seq().len() == parser.aliases@.len(),
    forall|j: int| 0 <= j < it.index@ ==> (#[trigger] parser.aliases@[j]).anchor@ != anchor@,
    ctx@.len() > 0 ==> index_ok(ctx@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[ctx@.last() - 1].data is Sequence || old(self).nodes@[ctx@.last() - 1].data is Mapping),
    event.data matches EventData::Alias { anchor: a } && a == *anchor,
  hint before-return:0
    proof {
        let ghost j = it.index@;
        assert(*it.seq()[j] == parser.aliases@[j]);
        assert(parser.aliases@[j].anchor@ == anchor@);
    }
fn Document::load_scalar -> r
  sig
    requires
    event.data is Scalar,
    old(self).nodes@.len() < i32::MAX,
    ctx@.len() > 0 ==> index_ok(ctx@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[ctx@.last() - 1].data is Sequence || old(self).nodes@[ctx@.last() - 1].data is Mapping),
    ensures
    but_aliases(*old(parser), *final(parser)),
    [C06,C07] r is Ok ==> node_added(*old(self), *final(self), ctx@, event),
    [C07] r is Ok ==> anchored(old(parser).aliases@, final(parser).aliases@, anchor_of(event), old(self).nodes@.len() + 1, event.start_mark),
    [C07,C16] r matches Err(e) ==> e.skind() == ErrorKind::Composer && e.smark() == Some(event.start_mark),
    [C07] r is Err ==> (anchor_of(event) matches Some(a) && named(old(parser).aliases@, a@)),
  hint before:register_anchor#0
    proof { assert(pushed_node(*old(self), *self, event)); }
fn Document::load_sequence -> r
  sig
    requires
    event.data is SequenceStart,
    old(self).nodes@.len() < i32::MAX,
    old(ctx)@.len() > 0 ==> index_ok(old(ctx)@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[old(ctx)@.last() - 1].data is Sequence || old(self).nodes@[old(ctx)@.last() - 1].data is Mapping),
    ensures
    but_aliases(*old(parser), *final(parser)),
    [C06,C07] r is Ok ==> node_added(*old(self), *final(self), old(ctx)@, event),
    [C07] r is Ok ==> anchored(old(parser).aliases@, final(parser).aliases@, anchor_of(event), old(self).nodes@.len() + 1, event.start_mark),
    [C06] r is Ok ==> final(ctx)@ == old(ctx)@.push((old(self).nodes@.len() + 1) as i32),
    [C07,C16] r matches Err(e) ==> e.skind() == ErrorKind::Composer && e.smark() == Some(event.start_mark),
    [C07] r is Err ==> (anchor_of(event) matches Some(a) && named(old(parser).aliases@, a@)),
  hint before:register_anchor#0
    proof { assert(pushed_node(*old(self), *self, event)); }
fn Document::load_mapping -> r
  sig
    requires
    event.data is MappingStart,
    old(self).nodes@.len() < i32::MAX,
    old(ctx)@.len() > 0 ==> index_ok(old(ctx)@.last(), old(self).nodes@.len() as int) && (old(self).nodes@[old(ctx)@.last() - 1].data is Sequence || old(self).nodes@[old(ctx)@.last() - 1].data is Mapping),
    ensures
    but_aliases(*old(parser), *final(parser)),
    [C06,C07] r is Ok ==> node_added(*old(self), *final(self), old(ctx)@, event),
    [C07] r is Ok ==> anchored(old(parser).aliases@, final(parser).aliases@, anchor_of(event), old(self).nodes@.len() + 1, event.start_mark),
    [C06] r is Ok ==> final(ctx)@ == old(ctx)@.push((old(self).nodes@.len() + 1) as i32),
    [C07,C16] r matches Err(e) ==> e.skind() == ErrorKind::Composer && e.smark() == Some(event.start_mark),
    [C07] r is Err ==> (anchor_of(event) matches Some(a) && named(old(parser).aliases@, a@)),
  hint before:register_anchor#0
    proof { assert(pushed_node(*old(self), *self, event)); }
fn Document::load_sequence_end -> r
  sig
    requires
    old(ctx)@.len() > 0 && index_ok(old(ctx)@.last(), old(self).nodes@.len() as int) && old(self).nodes@[old(ctx)@.last() - 1].data is Sequence,
    ensures
    r is Ok,
    [C06] ended(*old(self), *final(self), old(ctx)@, event),
    [C06] final(ctx)@ == old(ctx)@.drop_last(),
fn Document::load_mapping_end -> r
  sig
    requires
    old(ctx)@.len() > 0 && index_ok(old(ctx)@.last(), old(self).nodes@.len() as int) && old(self).nodes@[old(ctx)@.last() - 1].data is Mapping,
    ensures
    r is Ok,
    [C06] ended(*old(self), *final(self), old(ctx)@, event),
    [C06] final(ctx)@ == old(ctx)@.drop_last(),
fn Document::load_nodes -> r
  sig
    requires
    old(parser).ok() && old(parser).expects() =~= seq![Fr::Docs, Fr::DocEnd, Fr::Node],
    old(parser).anchors().len() == 0,
    old(self).nodes@.len() == 0 && old(ctx)@.len() == 0,
    ensures
    [C06,C07] r is Ok ==> composed_all(load_of(*old(self), seq![], seq![], seq![Fr::Docs, Fr::DocEnd, Fr::Node]), load_of(*final(self), final(ctx)@, final(parser).anchors(), seq![Fr::Docs])),
    [C06] r is Ok ==> final(self).nodes@.len() > 0 && complete(*final(self)),
    [C06] r is Ok ==> final(parser).ok() && !final(parser).done() && final(parser).expects() =~= seq![Fr::Docs],
    [C06] r is Ok ==> same_start(*old(self), *final(self)),
    [C16] r matches Err(e) ==> load_err(e, old(parser).mark_of_input()),
  loop 0
    invariant_except_break
    parser.expects() == st.last().expects,
    load_ok(st.last()),
    *self == st.last().doc && ctx@ == st.last().ctx,
    same_start(*old(self), *self),
    ensures
    parser.expects() =~= seq![Fr::Docs] && st.last().expects =~= seq![Fr::Docs],
    self.nodes@.len() > 0 && complete(*self),
    same_start(*old(self), *self),
    ctx@ == st.last().ctx,
    st.last().doc == (Document { end_implicit: end_implicit, end_mark: end_mark, ..*self }),
    invariant
    parser.ok() && !parser.done(),
    parser.anchors() == st.last().anchors,
    parser.anchors() == parser.inner.aliases@,
    reach(old(parser).mark_of_input(), parser.mark_of_input()),
    st.len() == ev.len() + 1,
    composed_by(st[0], ev, st, st.last()),
    st[0] == load_of(*old(self), seq![], seq![], seq![Fr::Docs, Fr::DocEnd, Fr::Node]),
  hint start
    let ghost mut ev = Seq::<Event>::empty();
    let ghost mut st = seq![load_of(*old(self), ctx@, parser.anchors(), parser.expects())];
    proof {
        parser.lemma_inside();
        assert(ctx@ =~= seq![] && parser.anchors() =~= seq![]);
    }
  hint after:let:event#0
    let ghost e = event;
    let ghost was = st.last();
    let ghost then = *parser;
    proof {
        parser.lemma_inside();
        assume(self.nodes@.len() < i32::MAX);
        lemma_next(was, e, parser.expects());
    }
  hint loop-end:0
    proof {
        parser.lemma_but_anchors(&then);
        parser.lemma_inside();
        let n = load_of(*self, ctx@, parser.anchors(), parser.expects());
        assert(composed(was, e, n));
        lemma_composed(was, e, n);
        lemma_composed_push(st[0], ev, st, e, n);
        ev = ev.push(e);
        st = st.push(n);
    }
  hint before:break#0
    proof {
        let n = load_of(Document { end_implicit: end_implicit, end_mark: end_mark, ..*self }, ctx@, parser.anchors(), parser.expects());
        assert(composed(was, e, n));
        lemma_composed_push(st[0], ev, st, e, n);
        ev = ev.push(e);
        st = st.push(n);
    }
  hint ret
    proof { assert(composed_by(st[0], ev, st, st.last())); assert(self.nodes@ == st.last().doc.nodes@); }
fn Document::load_document -> r
  sig
    requires
    event.data is DocumentStart,
    old(parser).ok() && old(parser).expects() =~= seq![Fr::Docs, Fr::DocEnd, Fr::Node],
    old(parser).anchors().len() == 0,
    old(self).nodes@.len() == 0,
    ensures
    [C06,C07] r is Ok ==> document_of(*final(self), event),
    [C06] r is Ok ==> final(self).nodes@.len() > 0 && complete(*final(self)),
    [C06] r is Ok ==> final(parser).ok() && !final(parser).done() && final(parser).expects() =~= seq![Fr::Docs],
    [C16] r matches Err(e) ==> load_err(e, old(parser).mark_of_input()),
  hint before:load_nodes#0
    let ghost s = *self;
fn Document::load -> r
  sig
    requires
    old(parser).loads(),
    ensures
    [C06,C07] final(parser).loads(),
    [C06] r matches Ok(d) ==> (d.nodes@.len() == 0 <==> final(parser).done()),
    [C06] old(parser).done() ==> r is Ok && final(parser).done(),
    [C06] r matches Ok(d) ==> (d.nodes@.len() > 0 ==> complete(d) && exists|e: Event| document_of(d, e)),
    [C06] r is Err ==> final(parser).done(),
    [C16] r matches Err(e) ==> load_err(e, old(parser).mark_of_input()),
  hint start
    let ghost p0 = parser.mark_of_input();
    proof { parser.lemma_inside(); }
  hint before:delete_aliases#0
    let ghost then0 = *parser;
  hint after:delete_aliases#0
    proof { parser.lemma_but_anchors(&then0); parser.lemma_inside(); }
  hint before:if#1
    proof { parser.lemma_inside(); }
  hint before:if#2
    let ghost then1 = *parser;
    proof { parser.lemma_inside(); }
  hint after:reserve#1
    proof { parser.lemma_but_anchors(&then1); parser.lemma_inside(); }
  hint before:delete_aliases#1
    let ghost then2 = *parser;
  hint after:delete_aliases#1
    proof { parser.lemma_but_anchors(&then2); parser.lemma_inside(); assert(!parser.done()); }
  hint ret
    proof { parser.lemma_inside(); }
