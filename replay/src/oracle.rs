//! One executable judge per property, written from the property's statement.
use crate::run::*;
use crate::text::*;
use libyaml_safer::*;
use std::collections::HashMap;

/// Err: the property is violated. Ok(true): the case exercised the property.
pub type Verdict = Result<bool, String>;
macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
macro_rules! need { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }

// ------------------------------------------------------------ C01

pub fn no_panic_text(f: &Feed) -> Verdict {
    let mut s = Scanner::new();
    if f.encoding != Encoding::Any { s.set_encoding(f.encoding); }
    s.set_input(f.reader());
    let o = scan_with(&mut s, f.bound());
    need!(!o.endless, "the scanner produces no end: {} tokens for {} bytes", o.items.len(), f.bytes.len());
    for _ in 0..4 { let _ = s.next(); }
    let mut p = parser(f);
    let o = parse_with(&mut p, f.bound());
    need!(!o.endless, "the parser produces no end: {} events for {} bytes", o.items.len(), f.bytes.len());
    for _ in 0..3 { let _ = p.next(); let _ = p.parse(); }
    let _ = Document::load(&mut p);
    let mut p = parser(f);
    let d = load_with(&mut p, f.bound());
    need!(!d.endless, "loading produces no end");
    for _ in 0..3 { let _ = Document::load(&mut p); let _ = p.parse(); }
    Ok(o.items.len() > 2)
}
pub fn no_panic_emit(cfg: &Config, e: &[Ev], sink: &Sink) -> Verdict {
    let mut sink = sink.clone();
    let mut em = Emitter::new();
    cfg.apply(&mut em);
    em.set_output(&mut sink);
    let mut good = true;
    for x in e { good &= em.emit(x.event()).is_ok(); }
    if matches!(e.first(), Some(Ev::StreamStart(_))) { let _ = em.flush(); }
    Ok(good)
}

// ------------------------------------------------------------ C02

pub fn decoding(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let o = scan(f);
    let s: String = t.chars.iter().collect();
    match t.bad {
        None => {
            if let Some(x) = &o.fail {
                need!(x.kind != ErrorKind::Reader && x.kind != ErrorKind::Io, "well-formed input is rejected by the reader: {}", x.shown);
            }
            let r = scan(&Feed { bytes: s.clone().into_bytes(), encoding: Encoding::Utf8, chunks: vec![], interrupt: false });
            for i in 0..o.items.len().max(r.items.len()) {
                let (a, b) = (o.items.get(i), r.items.get(i));
                if let (Some(Token { data: TokenData::StreamStart { encoding }, .. }), true) = (a, i == 0) {
                    need!(t.chars.is_empty() || *encoding == t.encoding, "the encoding is {:?}, but {encoding:?} is reported", t.encoding);
                    continue;
                }
                need!(a == b, "token {i} depends on the encoding or on how the input is delivered: {a:?}, for the plain text {b:?}");
            }
            need!(o.fail == r.fail, "the error depends on the encoding or the delivery: {:?}, for the plain text {:?}", o.fail, r.fail);
            let p = parse(f);
            let q = parse(&Feed { bytes: s.into_bytes(), encoding: Encoding::Utf8, chunks: vec![], interrupt: false });
            need!(p.items.get(1..) == q.items.get(1..) && p.fail == q.fail, "the events depend on the encoding or on how the input is delivered");
            Ok(t.chars.iter().any(|c| *c as u32 > 0x7f) || t.encoding != Encoding::Utf8)
        }
        Some(off) => {
            let x = match &o.fail { Some(x) => x, None => fail!("undecodable input (byte {off}) is accepted, tokens {:?}", o.items) };
            if x.kind == ErrorKind::Reader {
                need!(x.shown.contains(&format!("(offset {off},")), "undecodable at byte {off}, but reported: {}", x.shown);
                need!((x.problem == "control characters are not allowed") == t.bad_is_control, "undecodable at byte {off}, but reported: {}", x.shown);
            }
            if x.kind == ErrorKind::Io { need!(t.bad_at_end, "an I/O error for input that is not truncated: {}", x.shown); }
            let p = parse(f);
            need!(p.fail.is_some(), "undecodable input (byte {off}) is accepted by the parser");
            // What was produced before belongs to the part that can be decoded.
            let r = scan(&Feed { bytes: s.into_bytes(), encoding: Encoding::Utf8, chunks: vec![], interrupt: false });
            let m = o.items.len().saturating_sub(1);
            for i in 1..m.min(r.items.len()) {
                // The last tokens may look different when the text goes on.
                if i + 3 < r.items.len() && i + 1 < m { need!(o.items[i] == r.items[i], "token {i} before the undecodable byte is {:?}, should be {:?}", o.items[i], r.items[i]); }
            }
            Ok(true)
        }
    }
}

// ------------------------------------------------------------ C03

pub fn marks(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let c = &t.chars;
    let m = Marks::new(c);
    let o = scan(f);
    let mut last = 0usize;
    let mut seen = 0usize;
    let at = |i: usize| c.get(i).copied();
    let blankz = |i: usize| match at(i) { None => true, Some(c) => is_blank(c) || is_break(c) };
    for (i, x) in o.items.iter().enumerate() {
        let (s, e) = match (m.find(x.start_mark), m.find(x.end_mark)) {
            (Some(s), Some(e)) => (s, e),
            _ => fail!("token {i} has a mark that is no position of the text: {x:?}"),
        };
        need!(s <= e, "token {i} ends before it starts: {x:?}");
        need!(last <= s, "token {i} starts before the one in front of it: {x:?}");
        last = s;
        // what stands outside of tokens is blank or a comment
        let mut comment = false;
        for j in seen..s.max(seen) {
            if is_break(c[j]) { comment = false } else if c[j] == '#' { comment = true }
            need!(comment || is_blank(c[j]) || is_break(c[j]) || c[j] == '\u{feff}', "the text {:?} before token {i} ({x:?}) belongs to no token", c[seen..s].iter().collect::<String>());
        }
        seen = seen.max(e);
        let shown: String = c[s..e].iter().collect();
        use TokenData::*;
        let ok = match &x.data {
            StreamStart { .. } => s == 0 && e == 0,
            StreamEnd => s == c.len() && e == s,
            BlockSequenceStart | BlockMappingStart | BlockEnd => s == e,
            FlowSequenceStart => shown == "[",
            FlowSequenceEnd => shown == "]",
            FlowMappingStart => shown == "{",
            FlowMappingEnd => shown == "}",
            BlockEntry => shown == "-",
            FlowEntry => shown == ",",
            Value => shown == ":",
            Key => shown == "?" || s == e,
            DocumentStart => shown == "---" && x.start_mark.column == 0 && blankz(e),
            DocumentEnd => shown == "..." && x.start_mark.column == 0 && blankz(e),
            VersionDirective { .. } => shown.starts_with("%YAML") && x.start_mark.column == 0,
            TagDirective { .. } => shown.starts_with("%TAG") && x.start_mark.column == 0,
            Alias { value } => shown.strip_prefix('*') == Some(value),
            Anchor { value } => shown.strip_prefix('&') == Some(value),
            Tag { .. } => shown.starts_with('!') && !shown.contains(|c| is_blank(c) || is_break(c)),
            Scalar { style, .. } => match style {
                ScalarStyle::SingleQuoted => e >= s + 2 && shown.starts_with('\'') && shown.ends_with('\''),
                ScalarStyle::DoubleQuoted => e >= s + 2 && shown.starts_with('"') && shown.ends_with('"'),
                ScalarStyle::Literal => shown.starts_with('|'),
                ScalarStyle::Folded => shown.starts_with('>'),
                ScalarStyle::Plain => s < e && !blankz(s) && !blankz(e - 1),
                _ => false,
            },
        };
        need!(ok, "token {i} is {:?} but its marks delimit {shown:?} ({:?} to {:?})", x.data, x.start_mark, x.end_mark);
    }
    let p = parse(f);
    let mut lasts = 0;
    for (i, x) in p.items.iter().enumerate() {
        let (s, e) = match (m.find(x.start_mark), m.find(x.end_mark)) {
            (Some(s), Some(e)) => (s, e),
            _ => fail!("event {i} has a mark that is no position of the text: {x:?}"),
        };
        need!(s <= e, "event {i} ends before it starts: {x:?}");
        need!(lasts <= s, "event {i} starts before the one in front of it: {x:?}");
        lasts = s;
        let shown: String = c[s..e].iter().collect();
        let ok = match &x.data {
            EventData::StreamStart { .. } => s == 0 && e == 0,
            EventData::StreamEnd => s == c.len(),
            EventData::Alias { anchor } => shown.strip_prefix('*') == Some(anchor),
            EventData::Scalar { anchor, style, value, .. } => {
                anchor.as_ref().map_or(true, |a| shown.contains(&format!("&{a}"))) && match style {
                    ScalarStyle::SingleQuoted => shown.ends_with('\''),
                    ScalarStyle::DoubleQuoted => shown.ends_with('"'),
                    ScalarStyle::Plain => value.is_empty() || shown.ends_with(value.chars().last().unwrap()),
                    _ => true,
                }
            }
            EventData::SequenceStart { style: SequenceStyle::Flow, .. } => shown.ends_with('['),
            EventData::MappingStart { style: MappingStyle::Flow, .. } => s == e || shown.ends_with('{') || c.get(s) != Some(&'{'),
            EventData::DocumentStart { implicit, .. } => *implicit || shown.ends_with("---"),
            EventData::DocumentEnd { implicit } => if *implicit { s == e } else { shown == "..." },
            _ => true,
        };
        need!(ok, "event {i} is {:?} but its marks delimit {shown:?}", x.data);
    }
    Ok(o.items.len() > 2)
}

// ------------------------------------------------------------ C04

pub fn tokens(f: &Feed) -> Verdict {
    let o = scan(f);
    use TokenData::*;
    let mut stack: Vec<char> = vec![];
    let mut cols: Vec<i64> = vec![-1];
    let mut flow = 0usize;
    let mut ended = false;
    for (i, x) in o.items.iter().enumerate() {
        need!(!ended, "a token after the end of the stream: {x:?}");
        need!((i == 0) == matches!(x.data, StreamStart { .. }), "token {i} is {:?}", x.data);
        match &x.data {
            BlockSequenceStart | BlockMappingStart => {
                need!(flow == 0, "token {i}: a block collection starts inside a flow collection");
                let col = x.start_mark.column as i64;
                need!(col > *cols.last().unwrap(), "token {i}: a block collection at column {col} inside one at column {}", cols.last().unwrap());
                cols.push(col);
                stack.push(if matches!(x.data, BlockSequenceStart) { 's' } else { 'm' });
                let n = o.items.get(i + 1).map(|t| &t.data);
                let ok = if matches!(x.data, BlockSequenceStart) { matches!(n, Some(BlockEntry) | None) } else { matches!(n, Some(Key | Value) | None) };
                need!(ok, "token {i} {:?} is followed by {n:?}", x.data);
            }
            BlockEnd => {
                need!(flow == 0, "token {i}: a block collection ends inside a flow collection");
                need!(stack.pop().is_some(), "token {i}: BLOCK-END without a start");
                cols.pop();
            }
            FlowSequenceStart | FlowMappingStart => flow += 1,
            FlowSequenceEnd | FlowMappingEnd => flow = flow.saturating_sub(1),
            FlowEntry => {}
            BlockEntry => {}
            DocumentStart | DocumentEnd | VersionDirective { .. } | TagDirective { .. } => {
                if flow == 0 { need!(stack.is_empty(), "token {i} {:?} inside a block collection", x.data); }
            }
            StreamEnd => { ended = true; if flow == 0 { need!(stack.is_empty(), "the stream ends inside {} block collections", stack.len()); } }
            Key => {
                // an implicit key is one line of at most 1024 characters before its value
                if x.start_mark == x.end_mark {
                    if let Some(n) = o.items.get(i + 1) { need!(n.start_mark == x.start_mark || matches!(n.data, Value), "token {i}: a simple key at {:?}, but its content is at {:?}", x.start_mark, n.start_mark); }
                    let mut depth = 0i32;
                    let mut j = i + 1;
                    let v = loop {
                        match o.items.get(j).map(|t| &t.data) {
                            None => break None,
                            Some(FlowSequenceStart | FlowMappingStart) => depth += 1,
                            Some(FlowSequenceEnd | FlowMappingEnd) => depth -= 1,
                            Some(Value) if depth == 0 => break Some(&o.items[j]),
                            Some(StreamEnd) => fail!("token {i}: a simple key without a value"),
                            _ => {}
                        }
                        j += 1;
                    };
                    if let Some(v) = v {
                        need!(v.start_mark.line == x.start_mark.line, "token {i}: a simple key spans lines");
                        need!(v.start_mark.index - x.start_mark.index <= 1024, "token {i}: a simple key of {} bytes", v.start_mark.index - x.start_mark.index);
                    }
                }
            }
            _ => {}
        }
        if flow == 0 && matches!(x.data, BlockEntry) {
            need!(!stack.is_empty(), "token {i}: an entry outside of any block collection");
        }
        if flow == 0 && matches!(x.data, Key) { need!(!stack.is_empty(), "token {i}: a key outside of any block collection"); }
    }
    if o.fail.is_none() && !o.endless { need!(ended, "the tokens end without STREAM-END"); }
    Ok(o.items.len() > 3)
}

// ------------------------------------------------------------ C05

/// The event grammar; `Err` names the first event that does not fit.
pub fn grammar(e: &[Ev]) -> Result<bool, String> {
    // 'd' document, 's' sequence, 'k' mapping expecting a key, 'v' expecting a value
    let mut stack: Vec<char> = vec![];
    let mut started = false;
    let mut ended = false;
    let mut root = false;
    for (i, x) in e.iter().enumerate() {
        need!(!ended, "event {i} after the end of the stream: {x:?}");
        if i == 0 { need!(matches!(x, Ev::StreamStart(_)), "the first event is {x:?}"); started = true; continue; }
        let node = matches!(x, Ev::Alias(_) | Ev::Scalar { .. } | Ev::Seq { .. } | Ev::Map { .. });
        if node {
            match stack.last_mut() {
                None => fail!("event {i} outside of a document: {x:?}"),
                Some('d') => { need!(!root, "event {i}: a second root node"); root = true; }
                Some(k @ 'k') => *k = 'v',
                Some(k @ 'v') => *k = 'k',
                _ => {}
            }
        }
        match x {
            Ev::StreamStart(_) => fail!("event {i}: a second STREAM-START"),
            Ev::StreamEnd => { need!(stack.is_empty(), "the stream ends inside {stack:?}"); ended = true; }
            Ev::DocStart(..) => { need!(stack.is_empty(), "event {i}: DOCUMENT-START inside {stack:?}"); stack.push('d'); root = false; }
            Ev::DocEnd(_) => { need!(stack == ['d'] && root, "event {i}: DOCUMENT-END inside {stack:?}, root node seen: {root}"); stack.pop(); }
            Ev::Seq { .. } => stack.push('s'),
            Ev::Map { .. } => stack.push('k'),
            Ev::SeqEnd => { let t = stack.pop(); need!(t == Some('s'), "event {i}: SEQUENCE-END inside {t:?}"); }
            Ev::MapEnd => { let t = stack.pop(); need!(t == Some('k'), "event {i}: MAPPING-END inside {t:?}"); }
            _ => {}
        }
    }
    Ok(started && ended)
}
pub fn event_grammar(f: &Feed) -> Verdict {
    let mut p = parser(f);
    let o = parse_with(&mut p, f.bound());
    let e = evs(&o.items);
    let done = grammar(&e)?;
    need!(done || o.fail.is_some(), "the events end without STREAM-END: {e:?}");
    need!(!(done && o.fail.is_some()), "an error after STREAM-END");
    for _ in 0..3 {
        if let Some(x) = p.next() { fail!("iteration goes on after its end: {:?}", x.map(|x| x.data)) }
    }
    match p.parse() {
        Ok(Event { data: EventData::StreamEnd, .. }) => {}
        x => fail!("after the end the parser returns {:?}", x.map(|x| x.data)),
    }
    // the events are exactly those that the tokens stand for
    let toks = scan(f);
    need!(toks.fail.is_some() || o.fail.is_none() || o.fail.as_ref().unwrap().kind == ErrorKind::Parser, "the parser reports {:?} where the scanner has no error", o.fail);
    let mut r = Ref { t: &toks.items, i: 0, out: vec![], tags: vec![] };
    let stop = r.stream().err();
    for i in 0..o.items.len().max(r.out.len()) {
        let (a, b) = (o.items.get(i), r.out.get(i));
        need!(a == b, "event {i} is {:?}\n  the tokens stand for {:?}", a, b);
    }
    match (stop, &o.fail) {
        (None, None) => {}
        (Some(Stop::Token(m)), Some(x)) => need!(x.kind == ErrorKind::Parser && x.mark == Some(m), "the parser should stop at the token at {m:?}, but reports {x:?}"),
        (Some(Stop::Scan), Some(x)) => need!(toks.fail.as_ref() == Some(x), "the parser reports {x:?}, the scanner {:?}", toks.fail),
        (Some(Stop::Token(m)), None) => fail!("the parser should stop at the token at {m:?}, but does not"),
        (Some(Stop::Scan), None) => fail!("the parser accepts what the scanner rejects: {:?}", toks.fail),
        (None, Some(x)) => fail!("the parser rejects well-formed tokens: {x:?}"),
    }
    Ok(e.len() > 4)
}
/// Why a token sequence ends early: a token that does not fit, or no more tokens.
pub enum Stop { Token(Mark), Scan }
/// The grammar of tokens, read by recursive descent.
struct Ref<'a> { t: &'a [Token], i: usize, out: Vec<Event>, tags: Vec<(String, String)> }
impl<'a> Ref<'a> {
    fn at(&self) -> Result<&'a Token, Stop> { self.t.get(self.i).ok_or(Stop::Scan) }
    fn data(&self) -> Result<&'a TokenData, Stop> { Ok(&self.at()?.data) }
    fn stop<T>(&self) -> Result<T, Stop> { Err(Stop::Token(self.at()?.start_mark)) }
    fn put(&mut self, mut e: Event, start: Mark, end: Mark) { e.start_mark = start; e.end_mark = end; self.out.push(e); }
    fn empty(&mut self, m: Mark) { self.put(Event::scalar(None, None, "", true, false, ScalarStyle::Plain), m, m) }
    fn stream(&mut self) -> Result<(), Stop> {
        use TokenData as D;
        let t = self.at()?;
        let D::StreamStart { encoding } = &t.data else { return self.stop() };
        self.put(Event::stream_start(*encoding), t.start_mark, t.end_mark);
        self.i += 1;
        let mut first = true;
        loop {
            if !first { while matches!(self.data()?, D::DocumentEnd) { self.i += 1; } }
            let t = self.at()?;
            if let D::StreamEnd = t.data {
                self.put(Event::stream_end(), t.start_mark, t.end_mark);
                return Ok(());
            }
            self.tags.clear();
            let explicit = matches!(t.data, D::DocumentStart | D::VersionDirective { .. } | D::TagDirective { .. });
            if explicit || !first {
                let mut version = None;
                let mut tags: Vec<(String, String)> = vec![];
                loop {
                    match self.data()? {
                        D::VersionDirective { major, minor } => {
                            if version.is_some() || *major != 1 || ![1, 2].contains(minor) { return self.stop(); }
                            version = Some((*major, *minor));
                        }
                        D::TagDirective { handle, prefix } => {
                            if tags.iter().any(|x| x.0 == *handle) { return self.stop(); }
                            tags.push((handle.clone(), prefix.clone()));
                        }
                        _ => break,
                    }
                    self.i += 1;
                }
                let e = self.at()?;
                if !matches!(e.data, D::DocumentStart) { return self.stop(); }
                self.i += 1;
                let d = Ev::DocStart(version, tags.clone(), false).event();
                self.put(d, t.start_mark, e.end_mark);
                self.tags = tags;
            } else {
                self.put(Event::document_start(None, &[], true), t.start_mark, t.end_mark);
            }
            for (h, p) in [("!", "!"), ("!!", "tag:yaml.org,2002:")] {
                if !self.tags.iter().any(|x| x.0 == h) { self.tags.push((h.into(), p.into())); }
            }
            let c = self.at()?;
            let missing = matches!(c.data, D::VersionDirective { .. } | D::TagDirective { .. } | D::DocumentStart | D::DocumentEnd | D::StreamEnd);
            if explicit && missing { self.empty(c.start_mark) } else { self.node(true, false)? }
            let e = self.at()?;
            let end = matches!(e.data, D::DocumentEnd);
            if end { self.i += 1; }
            self.put(Event::document_end(!end), e.start_mark, if end { e.end_mark } else { e.start_mark });
            first = false;
        }
    }
    fn node(&mut self, block: bool, indentless: bool) -> Result<(), Stop> {
        use TokenData as D;
        let t = self.at()?;
        if let D::Alias { value } = &t.data {
            self.i += 1;
            self.put(Event::alias(value), t.start_mark, t.end_mark);
            return Ok(());
        }
        let start = t.start_mark;
        let mut end = start;
        let (mut anchor, mut tag) = (None, None);
        while anchor.is_none() || tag.is_none() {
            let t = self.at()?;
            match &t.data {
                D::Anchor { value } if anchor.is_none() => anchor = Some(value.clone()),
                D::Tag { handle, suffix } if tag.is_none() => tag = Some((handle.clone(), suffix.clone(), t.start_mark)),
                _ => break,
            }
            end = t.end_mark;
            self.i += 1;
        }
        let tag = match tag {
            None => None,
            Some((h, s, _)) if h.is_empty() => Some(s),
            Some((h, s, m)) => match self.tags.iter().find(|x| x.0 == h) {
                Some((_, p)) => Some(format!("{p}{s}")),
                None => return Err(Stop::Token(m)),
            },
        };
        let t = self.at()?;
        let (a, g) = (anchor.as_deref(), tag.as_deref());
        let implicit = g.unwrap_or("").is_empty();
        let seq = |style| Event::sequence_start(a, g, implicit, style);
        let map = |style| Event::mapping_start(a, g, implicit, style);
        match &t.data {
            D::BlockEntry if indentless => {
                self.put(seq(SequenceStyle::Block), start, t.end_mark);
                loop {
                    let t = self.at()?;
                    if !matches!(t.data, D::BlockEntry) { self.put(Event::sequence_end(), t.start_mark, t.end_mark); return Ok(()); }
                    self.i += 1;
                    if matches!(self.data()?, D::BlockEntry | D::Key | D::Value | D::BlockEnd) { self.empty(t.end_mark) } else { self.node(true, false)? }
                }
            }
            D::Scalar { value, style } => {
                self.i += 1;
                let plain = g == Some("!") || g.is_none() && *style == ScalarStyle::Plain;
                let e = Event::scalar(a, g, value, plain, !plain && g.is_none(), *style);
                self.put(e, start, t.end_mark);
            }
            D::FlowSequenceStart => {
                self.put(seq(SequenceStyle::Flow), start, t.end_mark);
                self.i += 1;
                let mut first = true;
                loop {
                    if !first && !matches!(self.data()?, D::FlowSequenceEnd) {
                        if !matches!(self.data()?, D::FlowEntry) { return self.stop(); }
                        self.i += 1;
                    }
                    first = false;
                    let t = self.at()?;
                    match t.data {
                        D::FlowSequenceEnd => { self.i += 1; self.put(Event::sequence_end(), t.start_mark, t.end_mark); return Ok(()); }
                        D::Key => {
                            self.i += 1;
                            self.put(Event::mapping_start(None, None, true, MappingStyle::Flow), t.start_mark, t.end_mark);
                            let k = self.at()?;
                            if matches!(k.data, D::Value | D::FlowEntry | D::FlowSequenceEnd) { self.empty(k.start_mark) } else { self.node(false, false)? }
                            let mut v = self.at()?;
                            let value = matches!(v.data, D::Value);
                            if value { self.i += 1; v = self.at()?; }
                            if !value || matches!(v.data, D::FlowEntry | D::FlowSequenceEnd) { self.empty(v.start_mark) } else { self.node(false, false)? }
                            let e = self.at()?;
                            self.put(Event::mapping_end(), e.start_mark, e.end_mark);
                        }
                        _ => self.node(false, false)?,
                    }
                }
            }
            D::FlowMappingStart => {
                self.put(map(MappingStyle::Flow), start, t.end_mark);
                self.i += 1;
                let mut first = true;
                loop {
                    if !first && !matches!(self.data()?, D::FlowMappingEnd) {
                        if !matches!(self.data()?, D::FlowEntry) { return self.stop(); }
                        self.i += 1;
                    }
                    first = false;
                    let t = self.at()?;
                    match t.data {
                        D::FlowMappingEnd => { self.i += 1; self.put(Event::mapping_end(), t.start_mark, t.end_mark); return Ok(()); }
                        D::Key => {
                            self.i += 1;
                            let k = self.at()?;
                            if matches!(k.data, D::Value | D::FlowEntry | D::FlowMappingEnd) { self.empty(k.start_mark) } else { self.node(false, false)? }
                            let mut v = self.at()?;
                            let value = matches!(v.data, D::Value);
                            if value { self.i += 1; v = self.at()?; }
                            if !value || matches!(v.data, D::FlowEntry | D::FlowMappingEnd) { self.empty(v.start_mark) } else { self.node(false, false)? }
                        }
                        _ => { self.node(false, false)?; let m = self.at()?.start_mark; self.empty(m) }
                    }
                }
            }
            D::BlockSequenceStart if block => {
                self.put(seq(SequenceStyle::Block), start, t.end_mark);
                self.i += 1;
                loop {
                    let t = self.at()?;
                    match t.data {
                        D::BlockEnd => { self.i += 1; self.put(Event::sequence_end(), t.start_mark, t.end_mark); return Ok(()); }
                        D::BlockEntry => {
                            self.i += 1;
                            if matches!(self.data()?, D::BlockEntry | D::BlockEnd) { self.empty(t.end_mark) } else { self.node(true, false)? }
                        }
                        _ => return self.stop(),
                    }
                }
            }
            D::BlockMappingStart if block => {
                self.put(map(MappingStyle::Block), start, t.end_mark);
                self.i += 1;
                loop {
                    let t = self.at()?;
                    match t.data {
                        D::BlockEnd => { self.i += 1; self.put(Event::mapping_end(), t.start_mark, t.end_mark); return Ok(()); }
                        D::Key => {
                            self.i += 1;
                            if matches!(self.data()?, D::Key | D::Value | D::BlockEnd) { self.empty(t.end_mark) } else { self.node(true, true)? }
                            let v = self.at()?;
                            if !matches!(v.data, D::Value) { self.empty(v.start_mark); continue; }
                            self.i += 1;
                            if matches!(self.data()?, D::Key | D::Value | D::BlockEnd) { self.empty(v.end_mark) } else { self.node(true, true)? }
                        }
                        _ => return self.stop(),
                    }
                }
            }
            _ if a.is_some() || g.is_some() => {
                let e = Event::scalar(a, g, "", implicit, false, ScalarStyle::Plain);
                self.put(e, start, end);
            }
            _ => return self.stop(),
        }
        Ok(())
    }
}

// ------------------------------------------------------------ C06, C07

#[derive(Debug, PartialEq, Clone)]
pub enum N {
    Scalar(String, ScalarStyle),
    Seq(Vec<i32>, SequenceStyle),
    Map(Vec<(i32, i32)>, MappingStyle),
}
#[derive(Debug, PartialEq, Clone)]
pub struct Node1 { pub tag: Option<String>, pub data: N, pub start: Mark, pub end: Mark }
#[derive(Debug, PartialEq, Clone)]
pub struct Doc1 { pub nodes: Vec<Node1>, pub version: Option<(i32, i32)>, pub tags: Vec<(String, String)>, pub start_implicit: bool, pub end_implicit: bool, pub start: Mark, pub end: Mark }

pub fn seen(d: &Document) -> Result<Doc1, String> {
    let mut nodes = vec![];
    for n in &d.nodes {
        nodes.push(Node1 { tag: n.tag.clone(), start: n.start_mark, end: n.end_mark, data: match &n.data {
            NodeData::Scalar { value, style } => N::Scalar(value.clone(), *style),
            NodeData::Sequence { items, style } => N::Seq(items.clone(), *style),
            NodeData::Mapping { pairs, style } => N::Map(pairs.iter().map(|p| (p.key, p.value)).collect(), *style),
            NodeData::NoNode => fail!("a document has a node without content"),
        } });
    }
    Ok(Doc1 { nodes, version: d.version_directive.map(|v| (v.major, v.minor)), tags: d.tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
        start_implicit: d.start_implicit, end_implicit: d.end_implicit, start: d.start_mark, end: d.end_mark })
}
/// What the documents should be, and the error that should end them.
pub fn compose(e: &[Event]) -> (Vec<Doc1>, Option<(String, Option<Mark>, Mark)>, bool) {
    let mut docs: Vec<Doc1> = vec![];
    let mut cur: Option<Doc1> = None;
    let mut stack: Vec<i32> = vec![];
    let mut anchors: HashMap<String, (i32, Mark)> = HashMap::new();
    let mut aliased = false;
    for x in e {
        match &x.data {
            EventData::DocumentStart { version_directive, tag_directives, implicit } => {
                anchors.clear();
                cur = Some(Doc1 { nodes: vec![], version: version_directive.map(|v| (v.major, v.minor)), tags: tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
                    start_implicit: *implicit, end_implicit: false, start: x.start_mark, end: Mark::default() });
            }
            EventData::DocumentEnd { implicit } => {
                let mut d = cur.take().unwrap();
                d.end_implicit = *implicit;
                d.end = x.end_mark;
                docs.push(d);
            }
            EventData::SequenceEnd | EventData::MappingEnd => { let i = stack.pop().unwrap(); cur.as_mut().unwrap().nodes[i as usize - 1].end = x.end_mark; }
            EventData::StreamStart { .. } | EventData::StreamEnd => {}
            EventData::Alias { anchor } => {
                aliased = true;
                match anchors.get(anchor) {
                    None => return (docs, Some(("found undefined alias".into(), None, x.start_mark)), aliased),
                    Some((i, _)) => { let i = *i; add(cur.as_mut().unwrap(), &stack, i) }
                }
            }
            EventData::Scalar { anchor, tag, value, style, .. } => {
                let d = cur.as_mut().unwrap();
                let i = push(d, tag, STR_TAG, N::Scalar(value.clone(), *style), x);
                if let Some(r) = register(&mut anchors, anchor, i, x.start_mark) { return (docs, Some(r), aliased); }
                add(d, &stack, i);
            }
            EventData::SequenceStart { anchor, tag, style, .. } => {
                let d = cur.as_mut().unwrap();
                let i = push(d, tag, SEQ_TAG, N::Seq(vec![], *style), x);
                if let Some(r) = register(&mut anchors, anchor, i, x.start_mark) { return (docs, Some(r), aliased); }
                add(d, &stack, i);
                stack.push(i);
            }
            EventData::MappingStart { anchor, tag, style, .. } => {
                let d = cur.as_mut().unwrap();
                let i = push(d, tag, MAP_TAG, N::Map(vec![], *style), x);
                if let Some(r) = register(&mut anchors, anchor, i, x.start_mark) { return (docs, Some(r), aliased); }
                add(d, &stack, i);
                stack.push(i);
            }
        }
    }
    (docs, None, aliased)
}
fn register(a: &mut HashMap<String, (i32, Mark)>, name: &Option<String>, i: i32, m: Mark) -> Option<(String, Option<Mark>, Mark)> {
    let n = name.as_ref()?;
    if let Some((_, first)) = a.get(n) { return Some(("second occurrence".into(), Some(*first), m)); }
    a.insert(n.clone(), (i, m));
    None
}
fn push(d: &mut Doc1, tag: &Option<String>, default: &str, data: N, x: &Event) -> i32 {
    let tag = match tag.as_deref() { None | Some("!") => Some(default.to_string()), t => t.map(String::from) };
    d.nodes.push(Node1 { tag, data, start: x.start_mark, end: x.end_mark });
    d.nodes.len() as i32
}
fn add(d: &mut Doc1, stack: &[i32], i: i32) {
    if let Some(p) = stack.last() {
        match &mut d.nodes[*p as usize - 1].data {
            N::Seq(v, _) => v.push(i),
            N::Map(v, _) => match v.last_mut() { Some((_, x)) if *x == 0 => *x = i, _ => v.push((i, 0)) },
            _ => {}
        }
    }
}
pub fn loading(f: &Feed, aliases: bool) -> Verdict {
    let p = parse(f);
    let l = load(f);
    let (want, err, aliased) = compose(&p.items);
    need!(!l.endless, "loading does not end");
    for (i, d) in l.items.iter().enumerate() {
        let d = seen(d)?;
        let n = d.nodes.len() as i32;
        for x in &d.nodes {
            let all: Vec<i32> = match &x.data { N::Seq(v, _) => v.clone(), N::Map(v, _) => v.iter().flat_map(|p| [p.0, p.1]).collect(), _ => vec![] };
            need!(all.iter().all(|k| *k >= 1 && *k <= n), "document {i} has a reference to no node: {x:?}");
        }
        match want.get(i) {
            None => fail!("document {i} is loaded, but the events have only {}", want.len()),
            Some(w) => need!(*w == d, "document {i} is not what the events describe:\n loaded {d:?}\n events {w:?}"),
        }
    }
    match err {
        Some((problem, cmark, mark)) => {
            need!(l.items.len() == want.len(), "{} documents are loaded, expected {}", l.items.len(), want.len());
            match &l.fail {
                None => fail!("expected the error {problem:?} at {mark:?}, but the document is accepted"),
                Some(x) => need!(x.kind == ErrorKind::Composer && x.problem == problem && x.mark == Some(mark) && (cmark.is_none() || x.context_mark == cmark), "expected the error {problem:?} at {mark:?} (first at {cmark:?}), got {x:?}"),
            }
        }
        None => {
            need!(l.fail == p.fail, "loading ends with {:?}, parsing with {:?}", l.fail, p.fail);
            need!(l.items.len() == want.len(), "{} documents are loaded, the events have {}", l.items.len(), want.len());
        }
    }
    Ok(if aliases { aliased } else { want.iter().any(|d| d.nodes.len() > 1) })
}

// ------------------------------------------------------------ C08

fn alnum(s: &str) -> bool { s.chars().all(is_alpha) }
/// The first event the emitter has to reject, and what it says.
pub fn protocol(cfg: &Config, e: &[Ev]) -> Option<(usize, Vec<&'static str>)> {
    let mut stack: Vec<char> = vec![];
    let mut state = 0; // 0 start, 1 between documents, 2 root expected, 3 in content, 4 document end expected, 5 ended
    for (i, x) in e.iter().enumerate() {
        // content that cannot be written
        let mut bad: Vec<&'static str> = vec![];
        let anchor = |a: &Option<String>, bad: &mut Vec<&'static str>| if let Some(a) = a {
            if a.is_empty() { bad.push("anchor value must not be empty") } else if !alnum(a) { bad.push("anchor value must contain alphanumerical characters only") }
        };
        match x {
            Ev::Alias(a) => if a.is_empty() { bad.push("alias value must not be empty") } else if !alnum(a) { bad.push("alias value must contain alphanumerical characters only") },
            Ev::Scalar { anchor: a, tag, plain, quoted, .. } => {
                anchor(a, &mut bad);
                if tag.as_deref() == Some("") && (cfg.canonical || !plain && !quoted) { bad.push("tag value must not be empty") }
            }
            Ev::Seq { anchor: a, tag, implicit, .. } | Ev::Map { anchor: a, tag, implicit, .. } => {
                anchor(a, &mut bad);
                if tag.as_deref() == Some("") && (cfg.canonical || !implicit) { bad.push("tag value must not be empty") }
            }
            _ => {}
        }
        if let Some(m) = bad.first() { return Some((i, vec![m])); }
        let node = matches!(x, Ev::Alias(_) | Ev::Scalar { .. } | Ev::Seq { .. } | Ev::Map { .. });
        let nodes = "expected SCALAR, SEQUENCE-START, MAPPING-START, or ALIAS";
        match state {
            0 => { if !matches!(x, Ev::StreamStart(_)) { return Some((i, vec!["expected STREAM-START"])); } state = 1; }
            1 => match x {
                Ev::StreamEnd => state = 5,
                Ev::DocStart(v, t, _) => {
                    if let Some(v) = v { if v.0 != 1 || v.1 != 1 && v.1 != 2 { return Some((i, vec!["incompatible %YAML directive"])); } }
                    for (k, (h, p)) in t.iter().enumerate() {
                        if h.is_empty() { return Some((i, vec!["tag handle must not be empty"])); }
                        if !h.starts_with('!') { return Some((i, vec!["tag handle must start with '!'"])); }
                        if !h.ends_with('!') { return Some((i, vec!["tag handle must end with '!'"])); }
                        if h.len() > 2 && !alnum(&h[1..h.len() - 1]) { return Some((i, vec!["tag handle must contain alphanumerical characters only"])); }
                        if p.is_empty() { return Some((i, vec!["tag prefix must not be empty"])); }
                        if t[..k].iter().any(|(g, _)| g == h) { return Some((i, vec!["duplicate %TAG directive"])); }
                    }
                    state = 2;
                }
                _ => return Some((i, vec!["expected DOCUMENT-START or STREAM-END"])),
            },
            4 => { if !matches!(x, Ev::DocEnd(_)) { return Some((i, vec!["expected DOCUMENT-END"])); } state = 1; }
            5 => return Some((i, vec!["expected nothing after STREAM-END"])),
            _ => {
                match stack.last_mut() {
                    Some('s') if *x == Ev::SeqEnd => { stack.pop(); }
                    Some('k') if *x == Ev::MapEnd => { stack.pop(); }
                    top => {
                        if !node { return Some((i, vec![nodes])); }
                        match top { Some(k @ 'k') => *k = 'v', Some(k @ 'v') => *k = 'k', _ => {} }
                        if let Ev::Scalar { tag, plain, quoted, .. } = x {
                            if !plain && !quoted && tag.is_none() { return Some((i, vec!["neither tag nor implicit flags are specified"])); }
                        }
                        match x { Ev::Seq { .. } => stack.push('s'), Ev::Map { .. } => stack.push('k'), _ => {} }
                    }
                }
                state = if stack.is_empty() { 4 } else { 3 };
            }
        }
    }
    None
}
pub fn emitting(cfg: &Config, e: &[Ev]) -> Verdict {
    let want = protocol(cfg, e);
    let got = emit_bytes(cfg, e);
    match (&want, &got) {
        (None, Ok(_)) => {}
        (None, Err((i, x))) => fail!("event {i} is in order, but it is rejected: {}", x.shown),
        // an event may be held back until what follows is known
        (Some((k, _)), Ok(_)) => need!(k + 4 > e.len() || held(e, *k), "event {k} {:?} is not in order, but it is accepted", e[*k]),
        (Some((k, m)), Err((i, x))) => {
            need!(k <= i && (*i <= k + 3 || held(e, *k)), "event {k} {:?} should be rejected, but {i} is: {}", e[*k], x.shown);
            need!(x.kind == ErrorKind::Emitter && m.contains(&x.problem), "event {k} {:?} is rejected with {:?}, expected {m:?}", e[*k], x.problem);
        }
    }
    Ok(want.is_some() || e.len() > 4)
}
/// The event or one of the two in front of it has to wait for more.
fn held(e: &[Ev], k: usize) -> bool { k + 5 > e.len() }

// ------------------------------------------------------------ C09, C10

fn plainly(v: &str) -> bool { !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric()) }

/// What the events must look like when read back; styles are left open.
pub fn expected(cfg: &Config, e: &[Ev]) -> Vec<Ev> {
    e.iter().map(|x| match x {
        Ev::Scalar { anchor, tag, value, plain, quoted, .. } => Ev::Scalar {
            anchor: anchor.clone(),
            tag: if cfg.canonical || !plain && !quoted { tag.clone() } else { None },
            value: value.clone(), plain: *plain, quoted: *quoted, style: ScalarStyle::Any },
        Ev::Seq { anchor, tag, implicit, .. } => Ev::Seq { anchor: anchor.clone(), tag: if cfg.canonical || !implicit { tag.clone() } else { None }, implicit: false, style: SequenceStyle::Any },
        Ev::Map { anchor, tag, implicit, .. } => Ev::Map { anchor: anchor.clone(), tag: if cfg.canonical || !implicit { tag.clone() } else { None }, implicit: false, style: MappingStyle::Any },
        x => x.clone(),
    }).collect()
}
/// Emits and reads back; tells where the result differs.
pub fn round_trip(cfg: &Config, e: &[Ev], styles: bool) -> Verdict {
    let bytes = match emit_bytes(cfg, e) { Ok(b) => b, Err((i, x)) => fail!("event {i} {:?} is rejected: {}", e[i], x.shown) };
    let shown = || decode(&bytes, Encoding::Any).chars.iter().collect::<String>();
    let p = parse(&Feed::whole(bytes.clone()));
    if let Some(x) = &p.fail { fail!("the output cannot be read back: {}\n output {:?}", x.shown, shown()) }
    let got = evs(&p.items);
    let want = expected(cfg, e);
    need!(got.len() == want.len(), "{} events are read back for {} emitted ones\n output {:?}", got.len(), want.len(), shown());
    let mut flow = 0;
    for i in 0..want.len() {
        let ok = match (&want[i], &got[i]) {
            (Ev::StreamStart(_), Ev::StreamStart(_)) => true,
            (Ev::DocStart(v, t, im), Ev::DocStart(w, u, jm)) => v == w && t == u && (!jm || *im && !cfg.canonical),
            (Ev::DocEnd(im), Ev::DocEnd(jm)) => *im || !jm,
            (Ev::Scalar { anchor, tag, value, plain, quoted, .. }, Ev::Scalar { anchor: a, tag: t, value: v, style, plain: p, quoted: q, .. }) => {
                // a scalar that must not be taken for a plain one (or for a quoted one) is marked with "!"
                let non_specific = tag.is_none() && t.as_deref() == Some("!") && *style != ScalarStyle::Plain && !*quoted;
                let untagged = tag.is_none() && t.is_none() && (if *style == ScalarStyle::Plain { *plain && *p } else { *quoted && *q });
                anchor == a && value == v && (tag.is_some() && tag == t || non_specific || untagged)
            }
            (Ev::Seq { anchor, tag, .. }, Ev::Seq { anchor: a, tag: t, .. }) => anchor == a && tag == t,
            (Ev::Map { anchor, tag, .. }, Ev::Map { anchor: a, tag: t, .. }) => anchor == a && tag == t,
            (x, y) => x == y,
        };
        need!(ok, "event {i} {:?} is read back as {:?}\n output {:?}", e[i], got[i], shown());
        if styles {
            if let (Ev::Scalar { style: s, value, plain, quoted, tag, .. }, Ev::Scalar { style: t, .. }) = (&e[i], &got[i]) {
                use ScalarStyle::*;
                let ok = match s {
                    Any | Plain => matches!(t, Plain | SingleQuoted | DoubleQuoted),
                    SingleQuoted => matches!(t, SingleQuoted | DoubleQuoted),
                    DoubleQuoted => *t == DoubleQuoted,
                    Literal => matches!(t, Literal | DoubleQuoted),
                    Folded => matches!(t, Folded | DoubleQuoted),
                    _ => true,
                };
                need!(ok, "event {i}: a scalar of style {s:?} is written in style {t:?}\n output {:?}", shown());
                need!(!cfg.canonical || *t == DoubleQuoted, "event {i}: canonical output has a scalar of style {t:?}");
                need!(flow == 0 || !matches!(t, Literal | Folded), "event {i}: a block scalar in a flow collection");
                if plainly(value) && !cfg.canonical {
                    let s = if *s == Any { Plain } else { *s };
                    let free = matches!(s, Plain) && (*plain || tag.is_some() && !*quoted) || matches!(s, SingleQuoted | DoubleQuoted);
                    need!(!free || *t == s, "event {i}: {value:?} of style {s:?} is written in style {t:?}\n output {:?}", shown());
                }
                let special = value.chars().any(|c| !(c == '\n' || (' '..='~').contains(&c) || cfg.unicode && (c as u32) >= 0xA0));
                if special && value.chars().any(|c| (c as u32) < 0x20 && c != '\n' || c == '\u{7f}' || c == '\u{feff}' || !cfg.unicode && !c.is_ascii()) {
                    need!(*t == DoubleQuoted, "event {i}: {value:?} is written in style {t:?}\n output {:?}", shown());
                }
            }
            match &got[i] {
                Ev::Seq { style, .. } => { if flow > 0 || *style == SequenceStyle::Flow { flow += 1 }
                    if let Ev::Seq { style: s, .. } = &e[i] { need!(*s != SequenceStyle::Flow || *style == SequenceStyle::Flow, "event {i}: a flow sequence is written in block style"); need!(!cfg.canonical || *style == SequenceStyle::Flow, "event {i}: canonical output in block style"); } }
                Ev::Map { style, .. } => { if flow > 0 || *style == MappingStyle::Flow { flow += 1 }
                    if let Ev::Map { style: s, .. } = &e[i] { need!(*s != MappingStyle::Flow || *style == MappingStyle::Flow, "event {i}: a flow mapping is written in block style"); } }
                Ev::SeqEnd | Ev::MapEnd => { if flow > 0 { flow -= 1 } }
                _ => {}
            }
        }
    }
    Ok(e.len() > 4)
}

// ------------------------------------------------------------ C11

pub fn output(cfg: &Config, e: &[Ev], sink: &Sink) -> Verdict {
    let utf8 = Config { encoding: Encoding::Utf8, ..cfg.clone() };
    let want = match emit_bytes(&utf8, e) { Ok(b) => b, Err(_) => return Ok(false) };
    let want = match String::from_utf8(want) { Ok(s) => s, Err(x) => fail!("the output is not UTF-8: {x}") };
    let enc = if cfg.encoding == Encoding::Any { Encoding::Utf8 } else { cfg.encoding };
    let full = encode(&want, enc, enc != Encoding::Utf8);
    let mut s = sink.clone();
    let r = emit(cfg, e, &mut s);
    match sink.fail_after {
        Some(n) if n < full.len() => {
            match r {
                Ok(()) => fail!("the writer failed after {n} bytes of {}, but no error is reported", full.len()),
                Err((_, x)) => need!(x.kind == ErrorKind::Io && x.shown.contains("sink is full"), "the writer failed, but the error is {}", x.shown),
            }
            need!(s.got == full[..n], "before the writer failed it got other bytes than expected");
        }
        _ => {
            if let Err((i, x)) = r { fail!("event {i} fails: {}", x.shown) }
            need!(s.got == full, "the writer got {} bytes, expected {} in {enc:?}: {:?}\n expected {:?}", s.got.len(), full.len(), diff(&s.got, &full), want.chars().take(200).collect::<String>());
            // everything up to the end of a document is written at once
            let last = e.iter().rposition(|x| matches!(x, Ev::DocEnd(_)));
            if let Some(k) = last {
                let mut a = Sink { fail_after: None, ..sink.clone() };
                if emit(cfg, &e[..=k], &mut a).is_ok() {
                    let after = &e[k + 1..];
                    if after == [Ev::StreamEnd] { need!(full.starts_with(&a.got) && (a.got.len() == full.len() || full.len() - a.got.len() <= 12), "a finished document is not written out: {} of {} bytes", a.got.len(), full.len()); }
                }
            }
        }
    }
    Ok(full.len() > 100 || sink.fail_after.is_some() || enc != Encoding::Utf8)
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at {i}: {:x?} / {:x?}", &a[i..a.len().min(i + 12)], &b[i..b.len().min(i + 12)])
}

// ------------------------------------------------------------ C12

fn unescape(s: &[char]) -> Option<String> {
    let mut b: Vec<u8> = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == '%' {
            let h: String = s.get(i + 1..i + 3)?.iter().collect();
            b.push(u8::from_str_radix(&h, 16).ok()?);
            i += 3;
        } else { let mut t = [0; 4]; b.extend(s[i].encode_utf8(&mut t).bytes()); i += 1; }
    }
    String::from_utf8(b).ok()
}
/// Handle and suffix of a tag as it is written.
pub fn read_tag(s: &[char]) -> Option<(String, String)> {
    if s.first() != Some(&'!') { return None; }
    if s.get(1) == Some(&'<') { return if s.last() == Some(&'>') { Some((String::new(), unescape(&s[2..s.len() - 1])?)) } else { None }; }
    let mut i = 1;
    while i < s.len() && is_alpha(s[i]) { i += 1; }
    if i < s.len() && s[i] == '!' {
        return Some((s[..=i].iter().collect(), unescape(&s[i + 1..])?));
    }
    let suffix = unescape(&s[1..])?;
    if suffix.is_empty() { Some((String::new(), "!".into())) } else { Some(("!".into(), suffix)) }
}
pub fn tags(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let m = Marks::new(&t.chars);
    let toks = scan(f);
    let p = parse(f);
    let mut want: HashMap<u64, Option<String>> = HashMap::new();
    let mut dirs: HashMap<String, String> = HashMap::new();
    let mut prologue = false;
    let defaults = |d: &mut HashMap<String, String>| { d.entry("!".into()).or_insert("!".into()); d.entry("!!".into()).or_insert("tag:yaml.org,2002:".into()); };
    defaults(&mut dirs);
    let mut undefined = None;
    let mut before: Option<&Token> = None;
    let mut n = 0;
    for x in &toks.items {
        match &x.data {
            TokenData::TagDirective { handle, prefix } => {
                if !prologue { dirs.clear(); prologue = true; }
                let (s, e) = (m.find(x.start_mark).unwrap_or(0), m.find(x.end_mark).unwrap_or(0));
                let w: String = t.chars[s..e].iter().collect();
                let mut parts = w.split(|c| is_blank(c)).filter(|x| !x.is_empty());
                let (_, h, q) = (parts.next(), parts.next().unwrap_or(""), parts.next().unwrap_or(""));
                let q: Vec<char> = q.chars().collect();
                need!(h == handle && unescape(&q).as_ref() == Some(prefix), "the directive {w:?} is read as {handle:?} {prefix:?}");
                dirs.entry(handle.clone()).or_insert(prefix.clone());
            }
            TokenData::VersionDirective { .. } => if !prologue { dirs.clear(); prologue = true; },
            TokenData::DocumentStart => { if !prologue { dirs.clear(); } prologue = false; defaults(&mut dirs); }
            TokenData::DocumentEnd => { dirs.clear(); defaults(&mut dirs); }
            TokenData::Tag { handle, suffix } => {
                let (s, e) = (m.find(x.start_mark).unwrap_or(0), m.find(x.end_mark).unwrap_or(0));
                let w: String = t.chars[s..e].iter().collect();
                let r = read_tag(&t.chars[s..e]);
                need!(r.as_ref() == Some(&(handle.clone(), suffix.clone())), "the tag {w:?} is read as handle {handle:?} and suffix {suffix:?}");
                let full = if handle.is_empty() { Some(suffix.clone()) } else { dirs.get(handle).map(|p| format!("{p}{suffix}")) };
                if full.is_none() && undefined.is_none() { undefined = Some(x.start_mark); }
                let start = match before { Some(a @ Token { data: TokenData::Anchor { .. }, .. }) => a.start_mark, _ => x.start_mark };
                want.insert(start.index, full);
                n += 1;
            }
            _ => {}
        }
        before = Some(x);
    }
    if let Some(u) = undefined {
        match &p.fail {
            None => fail!("the tag at {u:?} has an undefined handle, but the input is accepted"),
            Some(x) => if x.problem == "found undefined tag handle" { need!(x.mark == Some(u), "the undefined tag handle is at {u:?}, reported is {x:?}") },
        }
    } else if let Some(x) = &p.fail {
        need!(x.problem != "found undefined tag handle" || toks.fail.is_some(), "a defined tag handle is reported as undefined: {}", x.shown);
    }
    // the last content event at a place is the one that has the properties
    let mut got: HashMap<u64, Option<String>> = HashMap::new();
    for x in &p.items {
        let tag = match &x.data {
            EventData::Scalar { tag, .. } | EventData::SequenceStart { tag, .. } | EventData::MappingStart { tag, .. } => tag,
            _ => continue,
        };
        let w = want.get(&x.start_mark.index).cloned().flatten();
        if let Some(tag) = tag {
            need!(w.as_ref() == Some(tag), "the tag {tag:?} at {:?} should be {w:?}", x.start_mark);
        }
        let g = got.entry(x.start_mark.index).or_default();
        if tag.is_some() { *g = tag.clone(); }
    }
    for (i, g) in &got {
        let w = want.get(i).cloned().flatten();
        need!(*g == w || p.fail.is_some() && g.is_none(), "the node at byte {i} has the tag {g:?}, expected {w:?}");
    }
    Ok(n > 0)
}

// ------------------------------------------------------------ C13

pub fn directives(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let m = Marks::new(&t.chars);
    let toks = scan(f);
    let p = parse(f);
    let mut docs: Vec<(Option<(i32, i32)>, Vec<(String, String)>)> = vec![];
    let mut cur: (Option<(i32, i32)>, Vec<(String, String)>) = (None, vec![]);
    let mut wrong: Option<(&'static str, Mark)> = None;
    let mut n = 0;
    for x in &toks.items {
        match &x.data {
            TokenData::VersionDirective { major, minor } => {
                n += 1;
                let (s, e) = (m.find(x.start_mark).unwrap_or(0), m.find(x.end_mark).unwrap_or(0));
                let w: String = t.chars[s..e].iter().collect();
                let v = w.trim_start_matches("%YAML").trim_matches(|c| is_blank(c));
                let ok = v.split_once('.').map_or(false, |(a, b)| a.parse() == Ok(*major) && b.parse() == Ok(*minor) && a.len() <= 9 && b.len() <= 9 && !a.starts_with('+') && !b.starts_with('+'));
                need!(ok, "the directive {w:?} is read as version {major}.{minor}");
                if wrong.is_none() {
                    if cur.0.is_some() { wrong = Some(("found duplicate %YAML directive", x.start_mark)) }
                    else if *major != 1 || *minor != 1 && *minor != 2 { wrong = Some(("found incompatible YAML document", x.start_mark)) }
                }
                cur.0 = Some((*major, *minor));
            }
            TokenData::TagDirective { handle, prefix } => {
                n += 1;
                let (s, e) = (m.find(x.start_mark).unwrap_or(0), m.find(x.end_mark).unwrap_or(0));
                let w: String = t.chars[s..e].iter().collect();
                let parts: Vec<&str> = w.split(|c| is_blank(c)).filter(|x| !x.is_empty()).collect();
                let q: Vec<char> = parts.get(2).unwrap_or(&"").chars().collect();
                need!(parts.len() == 3 && parts[0] == "%TAG" && parts[1] == handle && unescape(&q).as_ref() == Some(prefix), "the directive {w:?} is read as {handle:?} {prefix:?}");
                if wrong.is_none() && cur.1.iter().any(|(h, _)| h == handle) { wrong = Some(("found duplicate %TAG directive", x.start_mark)) }
                cur.1.push((handle.clone(), prefix.clone()));
            }
            TokenData::DocumentStart => docs.push(std::mem::take(&mut cur)),
            _ => {}
        }
    }
    let mut k = 0;
    for x in evs(&p.items) {
        if let Ev::DocStart(v, t, implicit) = x {
            if implicit { need!(v.is_none() && t.is_empty(), "an implicit document has directives"); continue; }
            match docs.get(k) {
                None => fail!("more documents than document starts"),
                Some(d) => need!(d.0 == v && d.1 == t, "document {k} has the directives {v:?} {t:?}, the input says {d:?}"),
            }
            k += 1;
        }
    }
    match (&wrong, &p.fail) {
        (Some((w, at)), None) => fail!("{w} at {at:?}, but the input is accepted"),
        (Some((w, at)), Some(x)) => if x.problem == *w { need!(x.mark == Some(*at), "{w} at {at:?}, but reported at {:?}", x.mark) },
        (None, Some(x)) => need!(toks.fail.is_some() || !matches!(x.problem, "found duplicate %YAML directive" | "found incompatible YAML document" | "found duplicate %TAG directive"), "there is no such thing: {}", x.shown),
        _ => {}
    }
    Ok(n > 0)
}

// ------------------------------------------------------------ C14

pub fn resets(a: &Feed, b: &Feed, steps: usize) -> Verdict {
    let setup_s = |s: &mut Scanner<Chunked<'_>>| { if b.encoding != Encoding::Any { s.set_encoding(b.encoding); } };
    {
        // the reader type has one lifetime; share the longer one
        let mut s = Scanner::new();
        if a.encoding != Encoding::Any { s.set_encoding(a.encoding); }
        s.set_input(a.reader());
        for _ in 0..steps { if s.next().is_none() { break; } }
        s.reset();
        setup_s(&mut s);
        s.set_input(b.reader());
        let got = scan_with(&mut s, b.bound());
        let want = scan(b);
        need!(got == want, "after a reset the scanner produces {:?}, a new one {:?}", got, want);
    }
    {
        let mut p = parser(a);
        if steps % 2 == 0 { for _ in 0..steps { if p.next().is_none() { break; } } } else { for _ in 0..steps / 4 { if Document::load(&mut p).is_err() { break; } } }
        p.reset();
        if b.encoding != Encoding::Any { p.set_encoding(b.encoding); }
        p.set_input(b.reader());
        if steps % 3 == 0 {
            let got = load_with(&mut p, b.bound());
            let want = load(b);
            let (g, w): (Vec<_>, Vec<_>) = (got.items.iter().map(seen).collect(), want.items.iter().map(seen).collect());
            need!(g == w && got.fail == want.fail, "after a reset the documents are {g:?} {:?}, from a new parser {w:?} {:?}", got.fail, want.fail);
        } else {
            let got = parse_with(&mut p, b.bound());
            let want = parse(b);
            need!(got == want, "after a reset the parser produces {:?}, a new one {:?}", got, want);
        }
    }
    Ok(!a.bytes.is_empty() && steps > 1)
}
pub fn resets_emitter(ca: &Config, a: &[Ev], cb: &Config, b: &[Ev]) -> Verdict {
    let mut first = Sink::default();
    let mut second = Sink::default();
    let r = {
        let mut e = Emitter::new();
        ca.apply(&mut e);
        e.set_output(&mut first);
        for x in a { if e.emit(x.event()).is_err() { break; } }
        e.reset();
        cb.apply(&mut e);
        e.set_output(&mut second);
        let mut r = Ok(());
        for (i, x) in b.iter().enumerate() { if let Err(x) = e.emit(x.event()) { r = Err((i, Fail::from(x))); break; } }
        r
    };
    let mut want = Sink::default();
    let w = emit(cb, b, &mut want);
    need!(r == w && second.got == want.got, "after a reset the emitter writes {:?} {r:?}, a new one {:?} {w:?}", String::from_utf8_lossy(&second.got), String::from_utf8_lossy(&want.got));
    Ok(true)
}

// ------------------------------------------------------------ C15

pub fn settings(cfg: &Config, e: &[Ev], depth: usize, words: &[usize]) -> Verdict {
    let indent = if (2..=9).contains(&cfg.indent) { cfg.indent as usize } else { 2 };
    let width = if cfg.width < 0 { usize::MAX } else if cfg.width as usize <= 2 * indent { 80 } else { cfg.width as usize };
    let brk = match cfg.line_break { Break::Cr => "\r", Break::CrLn => "\r\n", _ => "\n" };
    // whatever is emitted
    let utf8 = Config { encoding: Encoding::Utf8, ..cfg.clone() };
    if let Ok(b) = emit_bytes(&utf8, e) {
        let s = match String::from_utf8(b) { Ok(s) => s, Err(x) => fail!("the output is not UTF-8: {x}") };
        if !cfg.unicode { if let Some(c) = s.chars().find(|c| !c.is_ascii()) { fail!("{c:?} in the output although only ASCII is allowed: {s:?}") } }
        if let Some(c) = s.chars().find(|c| (*c as u32) < 0x20 && !matches!(c, '\n' | '\r' | '\t') || *c == '\u{7f}') { fail!("the control character {c:?} in the output: {s:?}") }
        let rest = s.replace(brk, "");
        need!(!rest.contains('\n') && !rest.contains('\r'), "a line break other than {brk:?} in the output: {s:?}");
        if cfg.canonical { need!(!e.iter().any(|x| matches!(x, Ev::DocStart(..))) || s.contains("---"), "canonical output without a document start: {s:?}"); }
        need!(s.is_empty() || s.ends_with(brk) || s.ends_with(' ') || true, "");
    }
    // nested block mappings show the indentation
    if !cfg.canonical && depth > 0 {
        let mut n = vec![Ev::StreamStart(Encoding::Any), Ev::DocStart(None, vec![], true)];
        let sc = |v: &str| Ev::Scalar { anchor: None, tag: None, value: v.into(), plain: true, quoted: true, style: ScalarStyle::Plain };
        for _ in 0..depth { n.push(Ev::Map { anchor: None, tag: None, implicit: true, style: MappingStyle::Block }); n.push(sc("k")); }
        n.push(sc("v"));
        for _ in 0..depth { n.push(Ev::MapEnd) }
        n.push(Ev::DocEnd(true));
        n.push(Ev::StreamEnd);
        let b = emit_bytes(&utf8, &n).map_err(|x| x.1.shown)?;
        let s = String::from_utf8_lossy(&b).into_owned();
        for (i, l) in s.split(brk).enumerate() {
            if l.is_empty() { continue; }
            let k = l.len() - l.trim_start_matches(' ').len();
            need!(k == i * indent, "line {i} is indented by {k}, expected {} (setting {}): {s:?}", i * indent, cfg.indent);
        }
    }
    // words are folded at the width
    if !words.is_empty() {
        let v: String = words.iter().map(|n| "w".repeat(*n)).collect::<Vec<_>>().join(" ");
        for style in [ScalarStyle::Plain, ScalarStyle::SingleQuoted, ScalarStyle::DoubleQuoted, ScalarStyle::Folded] {
            let n = vec![Ev::StreamStart(Encoding::Any), Ev::DocStart(None, vec![], true), Ev::Scalar { anchor: None, tag: None, value: v.clone(), plain: true, quoted: true, style }, Ev::DocEnd(true), Ev::StreamEnd];
            let b = emit_bytes(&Config { canonical: false, ..utf8.clone() }, &n).map_err(|x| x.1.shown)?;
            let s = String::from_utf8_lossy(&b).into_owned();
            let lines: Vec<&str> = s.split(brk).filter(|l| !l.is_empty()).collect();
            for (i, l) in lines.iter().enumerate() {
                if style == ScalarStyle::Folded && l.starts_with('>') { continue; }
                if l.starts_with("...") { continue; }
                let lead = l.len() - l.trim_start().len();
                if let Some(p) = l.char_indices().filter(|(k, c)| *c == ' ' && *k > lead.max(width) ).next() {
                    need!(width == usize::MAX || false || p.0 <= width, "line {i} goes on at column {} although the width is {width} (setting {}): {s:?}", p.0, cfg.width);
                }
                let last = i + 1 == lines.len() || lines[i + 1].starts_with("...");
                if !last { need!(l.trim_end_matches('\\').len() > width || l.len() > width, "line {i} is folded at column {} although the width is {width} (setting {}): {s:?}", l.len(), cfg.width); }
            }
        }
    }
    Ok(true)
}

// ------------------------------------------------------------ C16

pub fn errors(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let m = Marks::new(&t.chars);
    let mut any = false;
    let s = scan(f);
    let p = parse(f);
    let l = load(f);
    for (who, x, kinds) in [("scanner", &s.fail, &[ErrorKind::Scanner][..]), ("parser", &p.fail, &[ErrorKind::Scanner, ErrorKind::Parser]), ("loader", &l.fail, &[ErrorKind::Scanner, ErrorKind::Parser, ErrorKind::Composer])] {
        let x = match x { Some(x) => x, None => continue };
        any = true;
        need!(kinds.contains(&x.kind) || t.bad.is_some() && matches!(x.kind, ErrorKind::Reader | ErrorKind::Io), "the {who} reports an error of kind {:?}", x.kind);
        need!(!x.problem.is_empty(), "the {who} reports an error without a description");
        need!(x.context.is_some() == x.context_mark.is_some(), "context and its mark do not go together: {x:?}");
        if matches!(x.kind, ErrorKind::Reader | ErrorKind::Io) { need!(x.mark.is_none() && x.context_mark.is_none(), "a {:?} error with a mark", x.kind); continue; }
        let pm = match x.mark { Some(m) => m, None => fail!("the {who} reports an error without a position: {}", x.shown) };
        let at = match m.find(pm) { Some(i) => i, None => fail!("the error position {pm:?} is no position of the text: {}", x.shown) };
        if let Some(c) = x.context_mark {
            let ci = match m.find(c) { Some(i) => i, None => fail!("the context position {c:?} is no position of the text: {}", x.shown) };
            need!(ci <= at, "the context is at {c:?}, after the problem at {pm:?}: {}", x.shown);
        }
        let kind = match x.kind { ErrorKind::Scanner => "Scanner", ErrorKind::Parser => "Parser", ErrorKind::Composer => "Composer", _ => "?" };
        let place = format!("line {} column {}", pm.line + 1, pm.column + 1);
        need!(x.shown.starts_with(&format!("{kind} error: ")) && x.shown.contains(&place) && x.shown.contains(x.problem), "the message {:?} does not show {kind}, {place}, {:?}", x.shown, x.problem);
        if let (Some(c), Some(cm)) = (x.context, x.context_mark) {
            let place = format!("line {} column {}", cm.line + 1, cm.column + 1);
            need!(x.shown.contains(c) && x.shown.contains(&place), "the message {:?} does not show the context {c:?} at {place}", x.shown);
        }
        // the mark follows what was accepted
        if who == "scanner" { if let Some(b) = s.items.last() { need!(x.mark.unwrap().index >= b.start_mark.index, "the error is reported in front of an accepted token: {}", x.shown); } }
    }
    // a parser sees the scanner's error unless it finds one of its own before
    if let (Some(a), Some(b)) = (&s.fail, &p.fail) {
        if b.kind == ErrorKind::Scanner { need!(a == b, "the scanner reports {}, the parser {}", a.shown, b.shown); }
    }
    if s.fail.is_some() { need!(p.fail.is_some(), "the parser accepts what the scanner rejects"); }
    if p.fail.is_some() { need!(l.fail.is_some(), "the loader accepts what the parser rejects"); }
    Ok(any)
}

// ------------------------------------------------------------ C17, C18

#[derive(Clone, Debug)]
pub enum Op { Scalar(Option<String>, String, ScalarStyle), Seq(Option<String>, SequenceStyle), Map(Option<String>, MappingStyle), Item(i32, i32), Pair(i32, i32, i32), Get(i32) }

pub fn build(ops: &[Op], check: bool) -> Result<(Document, Vec<Node1>), String> {
    let mut d = Document::new(None, &[], true, true);
    let mut m: Vec<Node1> = vec![];
    let z = Mark::default();
    for (i, op) in ops.iter().enumerate() {
        let mut id = None;
        match op {
            Op::Scalar(t, v, s) => { id = Some(d.add_scalar(t.as_deref(), v, *s)); m.push(Node1 { tag: Some(t.clone().unwrap_or(STR_TAG.into())), data: N::Scalar(v.clone(), *s), start: z, end: z }) }
            Op::Seq(t, s) => { id = Some(d.add_sequence(t.as_deref(), *s)); m.push(Node1 { tag: Some(t.clone().unwrap_or(SEQ_TAG.into())), data: N::Seq(vec![], *s), start: z, end: z }) }
            Op::Map(t, s) => { id = Some(d.add_mapping(t.as_deref(), *s)); m.push(Node1 { tag: Some(t.clone().unwrap_or(MAP_TAG.into())), data: N::Map(vec![], *s), start: z, end: z }) }
            Op::Item(s, x) => { d.append_sequence_item(*s, *x); if let N::Seq(v, _) = &mut m[*s as usize - 1].data { v.push(*x) } }
            Op::Pair(s, k, v) => { d.yaml_document_append_mapping_pair(*s, *k, *v); if let N::Map(p, _) = &mut m[*s as usize - 1].data { p.push((*k, *v)) } }
            Op::Get(k) => {
                let inside = *k >= 1 && (*k as usize) <= m.len();
                need!(d.get_node(*k).is_some() == inside && d.get_node_mut(*k).is_some() == inside, "operation {i}: node {k} of {} is found: {}", m.len(), !inside);
            }
        }
        if let Some(id) = id { need!(id as usize == m.len(), "operation {i} {op:?} returns the id {id}, expected {}", m.len()); }
        if check {
            let s = seen(&d)?;
            need!(s.nodes == m, "after operation {i} {op:?} the nodes are {:?}, expected {m:?}", s.nodes);
            for k in 1..=m.len() { need!(d.get_node(k as i32).map(|n| n as *const _) == Some(&d.nodes[k - 1] as *const _), "node {k} is not the one with this id"); }
            let r = d.get_root_node().map(|n| n as *const _);
            need!(r == d.nodes.first().map(|n| n as *const _), "the root is not the first node");
        }
    }
    Ok((d, m))
}
pub fn building(ops: &[Op]) -> Verdict { build(ops, true)?; Ok(ops.len() > 3) }

/// The graph as seen from the root, numbered in the order of visit.
fn walk(n: &[Node1], i: i32, ids: &mut HashMap<i32, usize>, o: &mut Vec<String>) {
    if let Some(k) = ids.get(&i) { o.push(format!("*{k}")); return; }
    let k = ids.len();
    ids.insert(i, k);
    let x = &n[i as usize - 1];
    match &x.data {
        N::Scalar(v, _) => o.push(format!("{:?} {v:?}", x.tag)),
        N::Seq(v, _) => { o.push(format!("{:?} [", x.tag)); for y in v { walk(n, *y, ids, o) } o.push("]".into()) }
        N::Map(v, _) => { o.push(format!("{:?} {{", x.tag)); for y in v { walk(n, y.0, ids, o); walk(n, y.1, ids, o) } o.push("}".into()) }
    }
}
fn graph(n: &[Node1]) -> Vec<String> { let mut o = vec![]; if !n.is_empty() { walk(n, 1, &mut HashMap::new(), &mut o) } o }

pub fn dumping(cfg: &Config, docs: &[Vec<Op>]) -> Verdict {
    let mut sink = Sink::default();
    let mut want = vec![];
    let mut shared = false;
    {
        let mut e = Emitter::new();
        cfg.apply(&mut e);
        e.set_output(&mut sink);
        for ops in docs {
            let (d, m) = build(ops, false)?;
            if m.is_empty() { continue; }
            let g = graph(&m);
            shared |= g.iter().any(|x| x.starts_with('*'));
            want.push(g);
            if let Err(x) = d.dump(&mut e) { fail!("dumping fails: {x}") }
        }
        if !want.is_empty() { if let Err(x) = e.close() { fail!("closing fails: {x}") } }
    }
    let shown = decode(&sink.got, Encoding::Any).chars.iter().collect::<String>();
    let l = load(&Feed::whole(sink.got.clone()));
    if let Some(x) = &l.fail { fail!("the dump cannot be loaded: {}\n output {shown:?}", x.shown) }
    need!(l.items.len() == want.len(), "{} documents are dumped, {} loaded\n output {shown:?}", want.len(), l.items.len());
    for (i, d) in l.items.iter().enumerate() {
        let g = graph(&seen(d)?.nodes);
        need!(g == want[i], "document {i} changes in a dump and load:\n dumped {:?}\n loaded {g:?}\n output {shown:?}", want[i]);
    }
    // only nodes that are referred to again have anchors, and each name is used once
    let p = parse(&Feed::whole(sink.got.clone()));
    let mut named: Vec<String> = vec![];
    let mut used: Vec<String> = vec![];
    for x in p.items.iter() {
        match &x.data {
            EventData::DocumentStart { .. } => { named.clear(); used.clear(); }
            EventData::DocumentEnd { .. } => for n in &named { need!(used.contains(n), "the anchor {n} is not used: {shown:?}") },
            EventData::Alias { anchor } => used.push(anchor.clone()),
            EventData::Scalar { anchor: Some(a), .. } | EventData::SequenceStart { anchor: Some(a), .. } | EventData::MappingStart { anchor: Some(a), .. } => { need!(!named.contains(a), "the anchor {a} names two nodes: {shown:?}"); named.push(a.clone()) }
            _ => {}
        }
    }
    Ok(shared || docs.len() > 1)
}

// ------------------------------------------------------------ C19

fn brk(c: &[char], i: usize) -> Option<(String, usize)> {
    match c.get(i)? {
        '\r' if c.get(i + 1) == Some(&'\n') => Some(("\n".into(), 2)),
        '\r' | '\n' | '\u{85}' => Some(("\n".into(), 1)),
        x @ ('\u{2028}' | '\u{2029}') => Some((x.to_string(), 1)),
        _ => None,
    }
}
/// White space with line breaks in it, from `i`: what it stands for, and where
/// it ends. Without a break it stands for itself.
fn fold(c: &[char], mut i: usize) -> (String, usize) {
    let mut own = String::new();
    let mut breaks: Vec<String> = vec![];
    loop {
        if let Some((b, n)) = brk(c, i) { breaks.push(b); i += n; continue; }
        match c.get(i) { Some(x) if is_blank(*x) => { own.push(*x); i += 1 } _ => break }
    }
    (if breaks.is_empty() { own } else { folded(&breaks) }, i)
}
fn folded(b: &[String]) -> String {
    if b[0] != "\n" { b.concat() } else if b.len() == 1 { " ".into() } else { b[1..].concat() }
}
pub fn quoted(c: &[char], double: bool) -> Option<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if is_blank(c[i]) || is_break(c[i]) { let (s, n) = fold(c, i); o.push_str(&s); i = n; continue; }
        if !double { if c[i] == '\'' { if c.get(i + 1) != Some(&'\'') { return None; } i += 1; } o.push(c[i]); i += 1; continue; }
        if c[i] != '\\' { o.push(c[i]); i += 1; continue; }
        let e = *c.get(i + 1)?;
        if let Some((_, n)) = brk(c, i + 1) {
            i += 1 + n;
            // the breaks and blanks that follow
            let mut more = String::new();
            loop {
                if let Some((b, n)) = brk(c, i) { more.push_str(&b); i += n; continue; }
                match c.get(i) { Some(x) if is_blank(*x) => i += 1, _ => break }
            }
            o.push_str(&more);
            continue;
        }
        let len = match e { 'x' => 2, 'u' => 4, 'U' => 8, _ => 0 };
        if len > 0 {
            let h: String = c.get(i + 2..i + 2 + len)?.iter().collect();
            o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            i += 2 + len;
            continue;
        }
        o.push(match e {
            '0' => '\0', 'a' => '\x07', 'b' => '\x08', 't' | '\t' => '\t', 'n' => '\n', 'v' => '\x0b', 'f' => '\x0c', 'r' => '\r', 'e' => '\x1b', ' ' => ' ', '"' => '"', '/' => '/', '\\' => '\\',
            'N' => '\u{85}', '_' => '\u{a0}', 'L' => '\u{2028}', 'P' => '\u{2029}', _ => return None,
        });
        i += 2;
    }
    Some(o)
}
pub fn plain(c: &[char]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if is_blank(c[i]) || is_break(c[i]) { let (s, n) = fold(c, i); o.push_str(&s); i = n; } else { o.push(c[i]); i += 1; }
    }
    o
}
/// A block scalar from its indicator on; `parent` is the indentation around it.
/// Gives the value and where it ends.
pub fn block(c: &[char], start: usize, parent: i64) -> (String, usize) {
    let folded = c[start] == '>';
    let mut i = start + 1;
    let (mut chomp, mut inc) = (0, 0i64);
    for _ in 0..2 {
        match c.get(i) { Some('+') if chomp == 0 => { chomp = 1; i += 1 } Some('-') if chomp == 0 => { chomp = -1; i += 1 } Some(d @ '1'..='9') if inc == 0 => { inc = *d as i64 - '0' as i64; i += 1 } _ => {} }
    }
    while i < c.len() && is_blank(c[i]) { i += 1 }
    if c.get(i) == Some(&'#') { while i < c.len() && !is_break(c[i]) { i += 1 } }
    if let Some((_, n)) = brk(c, i) { i += n }
    let mut indent = if inc > 0 { if parent >= 0 { parent + inc } else { inc } } else { 0 };
    let mut o = String::new();
    let (mut leading, mut trailing) = (String::new(), String::new());
    let mut lead_blank = false;
    let mut end;
    // blank lines in front
    let blank_lines = |i: &mut usize, indent: &mut i64, out: &mut String, end: &mut usize| {
        let mut max = 0i64;
        loop {
            let mut col = 0i64;
            while (*indent == 0 || col < *indent) && c.get(*i) == Some(&' ') { *i += 1; col += 1; }
            max = max.max(col);
            match brk(c, *i) { Some((b, n)) => { out.push_str(&b); *i += n; *end = *i; } None => { if *indent == 0 { *indent = max.max(parent + 1).max(1); } return col; } }
        }
    };
    end = i;
    let mut col = blank_lines(&mut i, &mut indent, &mut trailing, &mut end);
    while col == indent && i < c.len() {
        let blank = is_blank(c[i]);
        if folded && leading == "\n" && !lead_blank && !blank { if trailing.is_empty() { o.push(' ') } } else { o.push_str(&leading) }
        leading.clear();
        o.push_str(&trailing);
        trailing.clear();
        lead_blank = is_blank(c[i]);
        while i < c.len() && !is_break(c[i]) { o.push(c[i]); i += 1 }
        end = i;
        if let Some((b, n)) = brk(c, i) { leading = b; i += n; end = i; }
        col = blank_lines(&mut i, &mut indent, &mut trailing, &mut end);
    }
    if chomp != -1 { o.push_str(&leading) }
    if chomp == 1 { o.push_str(&trailing) }
    (o, end)
}
pub fn scalars(f: &Feed) -> Verdict {
    let t = decode(&f.bytes, f.encoding);
    let c = &t.chars;
    let m = Marks::new(c);
    let o = scan(f);
    let mut cols: Vec<i64> = vec![-1];
    let mut flow = 0i32;
    let mut n = 0;
    for (i, x) in o.items.iter().enumerate() {
        match &x.data {
            TokenData::BlockSequenceStart | TokenData::BlockMappingStart => cols.push(x.start_mark.column as i64),
            TokenData::BlockEnd => { if cols.len() > 1 { cols.pop(); } }
            TokenData::FlowSequenceStart | TokenData::FlowMappingStart => flow += 1,
            TokenData::FlowSequenceEnd | TokenData::FlowMappingEnd => flow = (flow - 1).max(0),
            TokenData::Scalar { value, style } => {
                n += 1;
                let (s, e) = match (m.find(x.start_mark), m.find(x.end_mark)) { (Some(s), Some(e)) if s < e => (s, e), _ => fail!("token {i} has wrong marks: {x:?}") };
                let shown: String = c[s..e].iter().collect();
                let want = match style {
                    ScalarStyle::SingleQuoted | ScalarStyle::DoubleQuoted => if e >= s + 2 { quoted(&c[s + 1..e - 1], *style == ScalarStyle::DoubleQuoted) } else { None },
                    ScalarStyle::Plain => Some(plain(&c[s..e])),
                    _ => Some(block(c, s, *cols.last().unwrap()).0),
                };
                need!(want.as_ref() == Some(value), "the scalar {shown:?} ({style:?}) is read as {value:?}, expected {want:?}");
                if *style == ScalarStyle::Plain {
                    // where a plain scalar may start and end
                    let bz = |k: usize| c.get(k).map_or(true, |c| is_blank(*c) || is_break(*c));
                    let fl = |k: usize| matches!(c.get(k), Some(',' | '[' | ']' | '{' | '}'));
                    let first = c[s];
                    let start_ok = !"-?:,[]{}#&*!|>'\"%@`".contains(first) || first == '-' && !bz(s + 1) || flow == 0 && matches!(first, '?' | ':') && !bz(s + 1);
                    need!(start_ok, "a plain scalar starts with {first:?}: {shown:?}");
                    for k in s..e {
                        need!(c[k] != ':' || !bz(k + 1), "the plain scalar {shown:?} goes past a value indicator");
                        need!(c[k] != '#' || k == s || !bz(k - 1), "the plain scalar {shown:?} goes past a comment");
                        if flow > 0 { need!(!fl(k), "the plain scalar {shown:?} goes past an indicator of the flow collection"); }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(n > 0)
}
