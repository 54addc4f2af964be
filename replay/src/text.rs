//! What the bytes of an input mean: the oracle for decoding and for marks.
//! Independent of the code under test.
use libyaml_safer::{Encoding, Mark};

pub fn allowed(c: char) -> bool {
    let v = c as u32;
    matches!(v, 0x09 | 0x0A | 0x0D | 0x85 | 0x20..=0x7E | 0xA0..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
pub fn is_break(c: char) -> bool { matches!(c, '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}') }
pub fn is_blank(c: char) -> bool { c == ' ' || c == '\t' }
pub fn is_alpha(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' || c == '-' }

pub struct Text {
    pub encoding: Encoding,
    pub chars: Vec<char>,
    /// Byte offset of the first thing that is no allowed character.
    pub bad: Option<usize>,
    /// Whether it is an allowed-character violation (as opposed to malformed).
    pub bad_is_control: bool,
    /// The malformed sequence ends with the input.
    pub bad_at_end: bool,
}

fn utf8(mut b: &[u8], mut off: usize, e: Encoding) -> Text {
    let mut t = Text { encoding: e, chars: vec![], bad: None, bad_is_control: false, bad_at_end: false };
    while !b.is_empty() {
        let mut found = None;
        for n in 1..=4.min(b.len()) {
            if let Ok(s) = std::str::from_utf8(&b[..n]) { found = s.chars().next().map(|c| (c, n)); break; }
        }
        match found {
            Some((c, n)) if allowed(c) => { t.chars.push(c); b = &b[n..]; off += n; }
            Some(_) => { t.bad = Some(off); t.bad_is_control = true; return t; }
            None => { t.bad = Some(off); t.bad_at_end = b.len() < 4; return t; }
        }
    }
    t
}
fn utf16(b: &[u8], be: bool, off0: usize, e: Encoding) -> Text {
    let mut t = Text { encoding: e, chars: vec![], bad: None, bad_is_control: false, bad_at_end: false };
    let unit = |i: usize| -> Option<u32> {
        if i + 1 < b.len() { Some(if be { (b[i] as u32) << 8 | b[i + 1] as u32 } else { (b[i + 1] as u32) << 8 | b[i] as u32 }) } else { None }
    };
    let mut i = 0;
    while i < b.len() {
        let u = match unit(i) { Some(u) => u, None => { t.bad = Some(off0 + i); t.bad_at_end = true; return t; } };
        let (c, n) = if u & 0xF800 != 0xD800 { (char::from_u32(u), 2) } else if u & 0x0400 == 0 {
            match unit(i + 2) {
                Some(w) if w & 0xFC00 == 0xDC00 => (char::from_u32(0x10000 + ((u & 0x3FF) << 10) + (w & 0x3FF)), 4),
                Some(_) => (None, 0),
                None => { t.bad = Some(off0 + i); t.bad_at_end = true; return t; }
            }
        } else { t.bad = Some(off0 + i); t.bad_at_end = i + 4 > b.len(); return t; };
        match c {
            Some(c) if allowed(c) => { t.chars.push(c); i += n; }
            Some(_) => { t.bad = Some(off0 + i); t.bad_is_control = true; return t; }
            None => { t.bad = Some(off0 + i); return t; }
        }
    }
    t
}

pub fn decode(b: &[u8], setting: Encoding) -> Text {
    match setting {
        Encoding::Utf8 => utf8(b, 0, Encoding::Utf8),
        Encoding::Utf16Le => utf16(b, false, 0, Encoding::Utf16Le),
        Encoding::Utf16Be => utf16(b, true, 0, Encoding::Utf16Be),
        _ => {
            if b.starts_with(&[0xff, 0xfe]) { return utf16(&b[2..], false, 2, Encoding::Utf16Le); }
            if b.starts_with(&[0xfe, 0xff]) { return utf16(&b[2..], true, 2, Encoding::Utf16Be); }
            if !b.is_empty() && (b[0] == 0xff || b[0] == 0xfe) {
                return Text { encoding: Encoding::Any, chars: vec![], bad: Some(0), bad_is_control: false, bad_at_end: b.len() < 2 };
            }
            if b.starts_with(&[0xef, 0xbb, 0xbf]) { return utf8(&b[3..], 3, Encoding::Utf8); }
            utf8(b, 0, Encoding::Utf8)
        }
    }
}

pub fn encode(s: &str, e: Encoding, bom: bool) -> Vec<u8> {
    let mut v = vec![];
    match e {
        Encoding::Utf16Le | Encoding::Utf16Be => {
            let be = e == Encoding::Utf16Be;
            let mut put = |u: u16| v.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
            if bom { put(0xfeff) }
            for u in s.encode_utf16() { put(u) }
        }
        _ => { if bom { v.extend([0xef, 0xbb, 0xbf]) } v.extend(s.as_bytes()) }
    }
    v
}

pub fn mk(index: u64, line: u64, column: u64) -> Mark { let mut m = Mark::default(); m.index = index; m.line = line; m.column = column; m }

/// The marks of all positions of a text.
pub struct Marks {
    /// By byte of the text: position in characters, and the mark.
    at: Vec<Option<(usize, Mark)>>,
    pub end: Mark,
    len: usize,
}
impl Marks {
    pub fn new(chars: &[char]) -> Marks {
        let mut m = Mark::default();
        let mut at = vec![];
        let mut i = 0;
        while i < chars.len() {
            at.push(Some((i, m)));
            let c = chars[i];
            if c == '\r' && chars.get(i + 1) == Some(&'\n') {
                // No mark points between the two.
                at.push(None);
                m.index += 2; m.line += 1; m.column = 0;
                i += 2;
                continue;
            }
            for _ in 1..c.len_utf8() { at.push(None) }
            m.index += c.len_utf8() as u64;
            if is_break(c) { m.line += 1; m.column = 0; } else { m.column += 1; }
            i += 1;
        }
        at.push(Some((i, m)));
        Marks { at, end: m, len: chars.len() }
    }
    /// The position a mark points to. The end of the stream may be marked as
    /// the start of a line of its own.
    pub fn find(&self, m: Mark) -> Option<usize> {
        if let Some(Some((i, x))) = self.at.get(m.index as usize) {
            if *x == m { return Some(*i); }
        }
        let end = self.end;
        if end.column != 0 && m == mk(end.index, end.line + 1, 0) { return Some(self.len); }
        None
    }
}
