verus!{
impl<'w> Emitter<'w> {
    pub closed spec fn has_output(&self) -> bool { self.write_handler is Some }
    pub closed spec fn given_encoding(&self) -> Encoding { self.encoding }
    pub closed spec fn with_encoding(&self, encoding: Encoding) -> Self { Emitter { encoding: encoding, ..*self } }
    pub closed spec fn with_canonical(&self, canonical: bool) -> Self { Emitter { canonical: canonical, ..*self } }
    pub closed spec fn with_indent(&self, n: i32) -> Self { Emitter { best_indent: n, ..*self } }
    pub closed spec fn with_width(&self, n: i32) -> Self { Emitter { best_width: n, ..*self } }
    pub closed spec fn with_unicode(&self, unicode: bool) -> Self { Emitter { unicode: unicode, ..*self } }
    pub closed spec fn with_break(&self, line_break: Break) -> Self { Emitter { line_break: line_break, ..*self } }
    /// Nothing but the handler differs.
    pub closed spec fn but_output(&self, o: &Self) -> bool { *self == (Emitter { write_handler: self.write_handler, ..*o }) }
    pub closed spec fn output_written(&self) -> Seq<u8> { (*self.write_handler->Some_0).written() }
    /// The state of a new emitter.
    pub closed spec fn fresh(&self) -> bool {
        &&& self.write_handler is None
        &&& self.buffer@.len() == 0
        &&& self.raw_buffer@.len() == 0
        &&& self.encoding == Encoding::Any
        &&& !self.canonical
        &&& self.best_indent == 0
        &&& self.best_width == 0
        &&& !self.unicode
        &&& self.line_break == Break::Any
        &&& self.states@.len() == 0
        &&& self.state == EmitterState::StreamStart
        &&& self.events@.len() == 0
        &&& self.indents@.len() == 0
        &&& self.tag_directives@.len() == 0
        &&& self.indent == 0
        &&& self.flow_level == 0
        &&& !self.root_context
        &&& !self.sequence_context
        &&& !self.mapping_context
        &&& !self.simple_key_context
        &&& self.line == 0
        &&& self.column == 0
        &&& !self.whitespace
        &&& !self.indention
        &&& self.open_ended == 0
        &&& !self.opened
        &&& !self.closed
        &&& self.anchors@.len() == 0
        &&& self.last_anchor_id == 0
    }
}
}
