//! Runs the real code and records what it does.
use libyaml_safer::*;
use std::io::{BufRead, Read};

/// An input delivered in pieces.
pub struct Chunked<'a> {
    data: &'a [u8],
    chunks: Vec<usize>,
    next: usize,
    left: usize,
    interrupt: bool,
    turn: bool,
}
impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8], chunks: &[usize], interrupt: bool) -> Self {
        Chunked { data, chunks: chunks.to_vec(), next: 0, left: 0, interrupt, turn: true }
    }
}
impl Read for Chunked<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(out.len());
        out[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Chunked<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.interrupt {
            self.turn = !self.turn;
            if !self.turn { return Err(std::io::ErrorKind::Interrupted.into()); }
        }
        if self.left == 0 {
            self.left = if self.chunks.is_empty() { self.data.len() } else { let n = self.chunks[self.next % self.chunks.len()].max(1); self.next += 1; n };
        }
        Ok(&self.data[..self.left.min(self.data.len())])
    }
    fn consume(&mut self, n: usize) {
        self.data = &self.data[n..];
        self.left -= n.min(self.left);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub kind: ErrorKind,
    pub problem: &'static str,
    pub context: Option<&'static str>,
    pub mark: Option<Mark>,
    pub context_mark: Option<Mark>,
    pub shown: String,
}
impl From<Error> for Fail {
    fn from(e: Error) -> Fail {
        Fail { kind: e.kind(), problem: e.problem(), context: e.context(), mark: e.problem_mark(), context_mark: e.context_mark(), shown: e.to_string() }
    }
}

/// How an input is handed over.
#[derive(Clone, Debug)]
pub struct Feed {
    pub bytes: Vec<u8>,
    pub encoding: Encoding,
    pub chunks: Vec<usize>,
    pub interrupt: bool,
}
impl Feed {
    pub fn whole(b: Vec<u8>) -> Feed { Feed { bytes: b, encoding: Encoding::Any, chunks: vec![], interrupt: false } }
    pub fn reader(&self) -> Chunked<'_> { Chunked::new(&self.bytes, &self.chunks, self.interrupt) }
    pub fn bound(&self) -> usize { self.bytes.len() * 8 + 100 }
}

#[derive(Debug, PartialEq)]
pub struct Out<T> {
    pub items: Vec<T>,
    pub fail: Option<Fail>,
    /// The run did not come to an end by itself.
    pub endless: bool,
}

pub fn scan(f: &Feed) -> Out<Token> {
    let mut s = Scanner::new();
    if f.encoding != Encoding::Any { s.set_encoding(f.encoding); }
    s.set_input(f.reader());
    scan_with(&mut s, f.bound())
}
pub fn scan_with<R: BufRead>(s: &mut Scanner<R>, bound: usize) -> Out<Token> {
    let mut o = Out { items: vec![], fail: None, endless: false };
    loop {
        match s.next() {
            None => return o,
            Some(Ok(t)) => { o.items.push(t) }
            Some(Err(e)) => { o.fail = Some(e.into()); return o; }
        }
        if o.items.len() > bound { o.endless = true; return o; }
    }
}
pub fn parser(f: &Feed) -> Parser<Chunked<'_>> {
    let mut p = Parser::new();
    if f.encoding != Encoding::Any { p.set_encoding(f.encoding); }
    p.set_input(f.reader());
    p
}
pub fn parse(f: &Feed) -> Out<Event> { parse_with(&mut parser(f), f.bound()) }
pub fn parse_with<R: BufRead>(p: &mut Parser<R>, bound: usize) -> Out<Event> {
    let mut o = Out { items: vec![], fail: None, endless: false };
    loop {
        match p.next() {
            None => return o,
            Some(Ok(t)) => { o.items.push(t) }
            Some(Err(e)) => { o.fail = Some(e.into()); return o; }
        }
        if o.items.len() > bound { o.endless = true; return o; }
    }
}
/// All documents; the last one, which is empty, is left out.
pub fn load(f: &Feed) -> Out<Document> { load_with(&mut parser(f), f.bound()) }
pub fn load_with<R: BufRead>(p: &mut Parser<R>, bound: usize) -> Out<Document> {
    let mut o = Out { items: vec![], fail: None, endless: false };
    loop {
        match Document::load(p) {
            Ok(mut d) => { if d.get_root_node().is_none() { return o; } o.items.push(d) }
            Err(e) => { o.fail = Some(e.into()); return o; }
        }
        if o.items.len() > bound { o.endless = true; return o; }
    }
}

/// An event that can be cloned, without marks.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    StreamStart(Encoding),
    StreamEnd,
    DocStart(Option<(i32, i32)>, Vec<(String, String)>, bool),
    DocEnd(bool),
    Alias(String),
    Scalar { anchor: Option<String>, tag: Option<String>, value: String, plain: bool, quoted: bool, style: ScalarStyle },
    Seq { anchor: Option<String>, tag: Option<String>, implicit: bool, style: SequenceStyle },
    SeqEnd,
    Map { anchor: Option<String>, tag: Option<String>, implicit: bool, style: MappingStyle },
    MapEnd,
}
pub fn ev(e: &Event) -> Ev {
    match &e.data {
        EventData::StreamStart { encoding } => Ev::StreamStart(*encoding),
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart { version_directive, tag_directives, implicit } => Ev::DocStart(
            version_directive.map(|v| (v.major, v.minor)),
            tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(), *implicit),
        EventData::DocumentEnd { implicit } => Ev::DocEnd(*implicit),
        EventData::Alias { anchor } => Ev::Alias(anchor.clone()),
        EventData::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => Ev::Scalar {
            anchor: anchor.clone(), tag: tag.clone(), value: value.clone(), plain: *plain_implicit, quoted: *quoted_implicit, style: *style },
        EventData::SequenceStart { anchor, tag, implicit, style } => Ev::Seq { anchor: anchor.clone(), tag: tag.clone(), implicit: *implicit, style: *style },
        EventData::SequenceEnd => Ev::SeqEnd,
        EventData::MappingStart { anchor, tag, implicit, style } => Ev::Map { anchor: anchor.clone(), tag: tag.clone(), implicit: *implicit, style: *style },
        EventData::MappingEnd => Ev::MapEnd,
    }
}
pub fn evs(e: &[Event]) -> Vec<Ev> { e.iter().map(ev).collect() }

/// Directive values cannot be made outside the crate; take them from a parse.
pub fn version(v: (i32, i32)) -> VersionDirective {
    thread_local!(static V: VersionDirective = {
        match &parse(&Feed::whole(b"%YAML 1.1\n--- a\n".to_vec())).items[1].data {
            EventData::DocumentStart { version_directive: Some(v), .. } => *v,
            _ => panic!("replay: no version directive"),
        }
    });
    let mut x = V.with(|x| *x);
    x.major = v.0;
    x.minor = v.1;
    x
}
pub fn directive(h: &str, p: &str) -> TagDirective {
    thread_local!(static T: TagDirective = {
        match &parse(&Feed::whole(b"%TAG !a! b\n--- a\n".to_vec())).items[1].data {
            EventData::DocumentStart { tag_directives, .. } => tag_directives[0].clone(),
            _ => panic!("replay: no tag directive"),
        }
    });
    let mut x = T.with(|x| x.clone());
    x.handle = h.into();
    x.prefix = p.into();
    x
}
impl Ev {
    pub fn event(&self) -> Event {
        match self {
            Ev::StreamStart(e) => Event::stream_start(*e),
            Ev::StreamEnd => Event::stream_end(),
            Ev::DocStart(v, t, i) => Event::document_start(v.map(version), &t.iter().map(|(h, p)| directive(h, p)).collect::<Vec<_>>(), *i),
            Ev::DocEnd(i) => Event::document_end(*i),
            Ev::Alias(a) => Event::alias(a),
            Ev::Scalar { anchor, tag, value, plain, quoted, style } => Event::scalar(anchor.as_deref(), tag.as_deref(), value, *plain, *quoted, *style),
            Ev::Seq { anchor, tag, implicit, style } => Event::sequence_start(anchor.as_deref(), tag.as_deref(), *implicit, *style),
            Ev::SeqEnd => Event::sequence_end(),
            Ev::Map { anchor, tag, implicit, style } => Event::mapping_start(anchor.as_deref(), tag.as_deref(), *implicit, *style),
            Ev::MapEnd => Event::mapping_end(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub canonical: bool,
    pub indent: i32,
    pub width: i32,
    pub unicode: bool,
    pub line_break: Break,
    pub encoding: Encoding,
}
impl Config {
    pub fn plain() -> Config { Config { canonical: false, indent: 0, width: 0, unicode: true, line_break: Break::Any, encoding: Encoding::Any } }
    pub fn apply(&self, e: &mut Emitter<'_>) {
        e.set_canonical(self.canonical);
        if self.indent != 0 { e.set_indent(self.indent); }
        if self.width != 0 { e.set_width(self.width); }
        e.set_unicode(self.unicode);
        if self.line_break != Break::Any { e.set_break(self.line_break); }
        if self.encoding != Encoding::Any { e.set_encoding(self.encoding); }
    }
}

/// A writer that takes pieces, is interrupted, or fails.
#[derive(Clone, Debug, Default)]
pub struct Sink {
    pub got: Vec<u8>,
    pub piece: usize,
    pub interrupt: bool,
    pub fail_after: Option<usize>,
    pub turn: bool,
    pub failed: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.interrupt { self.turn = !self.turn; if self.turn { return Err(std::io::ErrorKind::Interrupted.into()); } }
        let mut n = if self.piece == 0 { b.len() } else { b.len().min(self.piece) };
        if let Some(m) = self.fail_after {
            if self.got.len() >= m { self.failed += 1; return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink is full")); }
            n = n.min(m - self.got.len());
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Emits the events; the outcome of each, up to the first failure.
pub fn emit(cfg: &Config, evs: &[Ev], sink: &mut Sink) -> Result<(), (usize, Fail)> {
    let mut e = Emitter::new();
    cfg.apply(&mut e);
    e.set_output(sink);
    for (i, x) in evs.iter().enumerate() {
        if let Err(err) = e.emit(x.event()) { return Err((i, err.into())); }
    }
    Ok(())
}
pub fn emit_bytes(cfg: &Config, evs: &[Ev]) -> Result<Vec<u8>, (usize, Fail)> {
    let mut s = Sink::default();
    emit(cfg, evs, &mut s)?;
    Ok(s.got)
}
