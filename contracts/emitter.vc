fn Emitter::new -> r
  sig
    ensures
    [C14] r.fresh(),
fn Emitter::reset
  sig
    ensures
    [C14] final(self).fresh(),
fn Emitter::set_output
  sig
    requires
    !old(self).has_output(),
    ensures
    [C14] final(self).has_output() && final(self).but_output(old(self)),
fn Emitter::set_output_string
  sig
    requires
    !old(self).has_output(),
    old(self).given_encoding() == Encoding::Any || old(self).given_encoding() == Encoding::Utf8,
    ensures
    [C14] final(self).has_output() && final(self).but_output(&old(self).with_encoding(Encoding::Utf8)),
    [C14] final(self).output_written().len() == 0,
fn Emitter::set_encoding
  sig
    requires
    old(self).given_encoding() == Encoding::Any,
    ensures
    [C14] *final(self) == old(self).with_encoding(encoding),
fn Emitter::set_canonical
  sig
    ensures
    [C14] *final(self) == old(self).with_canonical(canonical),
fn Emitter::set_indent
  sig
    ensures
    [C08,C14] *final(self) == old(self).with_indent(if 1 < indent < 10 { indent } else { 2i32 }),
fn Emitter::set_width
  sig
    ensures
    [C08,C14] *final(self) == old(self).with_width(if width >= 0 { width } else { -1i32 }),
fn Emitter::set_unicode
  sig
    ensures
    [C14] *final(self) == old(self).with_unicode(unicode),
fn Emitter::set_break
  sig
    ensures
    [C14] *final(self) == old(self).with_break(line_break),
