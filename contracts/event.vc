fn Event::new -> r
  sig
    ensures
    r.data == data && r.start_mark == (Mark { index: 0, line: 0, column: 0 }) && r.end_mark == (Mark { index: 0, line: 0, column: 0 }),
fn Event::stream_end -> r
  sig
    ensures
    r.data is StreamEnd,
