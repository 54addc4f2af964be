fn is_alpha -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == c_alpha(oc(ch)),
fn is_ascii -> r
  sig
    ensures
    r == ((ch as u32) < 0x80),
fn is_printable -> r
  sig
    ensures
    [C09,C10] r == c_printable(ch),
fn is_bom -> r
  sig
    ensures
    [C10] r == (ch == '\u{feff}'),
fn is_space -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == (oc(ch) == Some(' ')),
fn is_tab -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == (oc(ch) == Some('\t')),
fn is_blank -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == c_blank(oc(ch)),
fn is_blankz -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == c_blankz(oc(ch)),
fn is_break -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == c_break(oc(ch)),
fn is_breakz -> r
  sig
    requires
    oc_ok(ch),
    ensures
    r == c_breakz(oc(ch)),
