//! Generated inputs, event sequences and documents.
use crate::run::*;
use crate::text;
use crate::util::Rng;
use libyaml_safer::*;

pub const FRAGS: &[&str] = &[
    "a", "b", " ", "\n", "- ", ": ", "? ", "[", "]", "{", "}", ", ", ",", ":", "&a ", "*a", "*a ", "!t ", "!", "!!str ", "!e!x ", "!<x> ",
    "'", "\"", "'q'", "\"q\"", "|\n", ">\n", "|-\n", ">2\n", "  ", "\t", "# c\n", "#", "---\n", "--- ", "...\n", "%YAML 1.1\n", "%TAG !e! x\n",
    "\\n", "\\\n", "\u{e9}", "\r\n", "\r", "\u{85}", "\u{2028}", "-", "?", "\n  ", "\u{feff}", "%", "\\x41", "@", "\u{1F600}",
];

/// The n-th sequence of fragments, shortest first.
pub fn nth(mut i: u64) -> Vec<usize> {
    let k = FRAGS.len() as u64;
    let mut len = 1;
    let mut count = k;
    while i >= count { i -= count; count *= k; len += 1; }
    let mut v = vec![];
    for _ in 0..len { v.push((i % k) as usize); i /= k; }
    v
}
pub fn nth_text(i: u64) -> String { nth(i).into_iter().map(|x| FRAGS[x]).collect() }

pub fn frags(r: &mut Rng, n: usize) -> String {
    let n = r.range(1, n);
    (0..n).map(|_| *r.pick(FRAGS)).collect()
}

struct W<'a> { r: &'a mut Rng, o: String, anchors: Vec<String>, handles: Vec<&'static str>, budget: i32 }

const WORDS: &[&str] = &["a", "b", "key", "value", "x y", "1.5", "true", "~", "\u{e9}t\u{e9}", "a:b", "a#b", "-x", "?x", ":x", "a b  c", "\u{1F600}", "k\u{feff}", "z-", "q'r", "q\"r", "%x", "a,b", "null"];
const FLOWWORDS: &[&str] = &["a", "b", "key", "x y", "1", "\u{e9}", "a-b", "-x", "a#b", "q'r", "\u{1F600}x"];
const PIECES: &[&str] = &["a", "b", "word", " ", "  ", "\u{e9}", ":", "#", "-", "x", "\u{1F600}", ",", "[", "k: v", "# n", "\t", "%", "---", "...", "\u{a0}"];

impl W<'_> {
    fn props(&mut self) -> bool {
        let mut any = false;
        let order = self.r.one_in(2);
        for i in 0..2 {
            if (i == 0) == order {
                if self.r.one_in(6) {
                    let n = if self.r.one_in(8) && !self.anchors.is_empty() { self.r.pick(&self.anchors.clone()).clone() } else { format!("a{}", self.anchors.len()) };
                    self.o.push_str(&format!("&{n} "));
                    self.anchors.push(n);
                    any = true;
                }
            } else if self.r.one_in(6) {
                let t = match self.r.below(8) {
                    0 => "!".to_string(),
                    1 => "!!str".into(),
                    2 => "!local".into(),
                    3 => "!<tag:x,y>".into(),
                    4 => format!("{}sfx", self.r.pick(&self.handles.clone())),
                    5 => "!a%C3%A9%20z".into(),
                    6 => "!!map".into(),
                    _ => "!!a%F0%9F%98%80b".into(),
                };
                self.o.push_str(&t);
                self.o.push(' ');
                any = true;
            }
        }
        any
    }
    fn ws(&mut self) { if self.r.one_in(8) { for _ in 0..self.r.range(1, 3) { self.o.push(if self.r.one_in(6) { '\t' } else { ' ' }) } } }
    fn brk(&mut self) {
        let b = *self.r.pick(&["\n", "\n", "\n", "\n", "\n", "\n", "\r\n", "\r", "\u{85}", "\u{2028}", "\u{2029}"]);
        self.o.push_str(b);
    }
    fn eol(&mut self) {
        if self.r.one_in(10) { self.o.push_str("  "); }
        if self.r.one_in(12) { self.o.push_str(" # note"); }
        self.nl();
        if self.r.one_in(20) { self.o.push_str("   # more\n"); }
        if self.r.one_in(20) { self.o.push('\n'); }
    }
    fn nl(&mut self) { if self.r.one_in(12) { self.brk() } else { self.o.push('\n') } }
    fn spaces(&mut self, n: usize) { for _ in 0..n { self.o.push(' ') } }
    fn pieces(&mut self, single: bool, double: bool) {
        for _ in 0..self.r.below(5) {
            if double && self.r.one_in(3) {
                let e = *self.r.pick(&["\\n", "\\t", "\\x41", "\\u00e9", "\\U0001F600", "\\\\", "\\\"", "\\0", "\\_", "\\N", "\\L", "\\P", "\\e", "\\ ", "\\/", "\\a", "\\b", "\\v", "\\f", "\\r", "\\u263A", "\\xfF"]);
                self.o.push_str(e);
            } else {
                let p = *self.r.pick(PIECES);
                if p == "---" || p == "..." { self.o.push('x'); }
                self.o.push_str(p);
                if single && self.r.one_in(5) { self.o.push_str("''"); }
            }
        }
    }
    /// A scalar that may stand on one line; true if it ends its line.
    fn scalar(&mut self, indent: usize, flow: bool, key: bool) -> bool {
        let multi = !key && self.r.one_in(3);
        match self.r.below(if flow || key { 5 } else { 8 }) {
            0 | 1 => {
                let w = *self.r.pick(if flow || key { FLOWWORDS } else { WORDS });
                self.o.push_str(w);
                if multi {
                    for _ in 0..self.r.range(1, 3) {
                        self.ws();
                        for _ in 0..self.r.range(1, 2) { self.ws(); self.brk(); }
                        self.spaces(indent + 1);
                        self.ws();
                        let w = *self.r.pick(FLOWWORDS);
                        self.o.push_str(w);
                    }
                }
                false
            }
            2 | 3 => {
                let d = self.r.one_in(2);
                self.o.push(if d { '"' } else { '\'' });
                self.pieces(!d, d);
                if multi {
                    for _ in 0..self.r.range(1, 3) {
                        self.ws();
                        if d && self.r.one_in(4) { self.o.push('\\'); }
                        for _ in 0..self.r.range(1, 2) { self.brk(); self.spaces(indent + 1); self.ws(); }
                        self.pieces(!d, d);
                    }
                }
                self.o.push(if d { '"' } else { '\'' });
                false
            }
            4 => false,
            _ => {
                let folded = self.r.one_in(2);
                self.o.push(if folded { '>' } else { '|' });
                let chomp = *self.r.pick(&["", "", "-", "+"]);
                let mut add = self.r.range(1, 3);
                let explicit = self.r.one_in(3);
                if indent == 0 && !explicit { add = self.r.range(0, 2).max(1); }
                if explicit && self.r.one_in(2) { self.o.push_str(&format!("{add}{chomp}")) } else if explicit { self.o.push_str(&format!("{chomp}{add}")) } else { self.o.push_str(chomp) }
                if self.r.one_in(6) { self.o.push_str("  # c"); }
                self.nl();
                let n = if indent == 0 && self.r.one_in(2) && !explicit { 1 } else { indent + add };
                for i in 0..self.r.below(5) {
                    if self.r.one_in(4) { let k = self.r.below(n + 1); self.spaces(k); self.brk(); continue; }
                    self.spaces(n);
                    if self.r.one_in(4) && (i > 0 || explicit) { let w = *self.r.pick(&[" ", "  ", "\t"]); self.o.push_str(w); }
                    let w = *self.r.pick(WORDS);
                    self.o.push_str(w);
                    if self.r.one_in(6) { self.o.push_str("  "); }
                    if i == 4 && self.r.one_in(3) { break; }
                    self.brk();
                }
                if !self.o.ends_with(text::is_break) { self.o.push('\n'); }
                true
            }
        }
    }
    fn flow(&mut self, indent: usize, depth: usize) {
        let map = self.r.one_in(2);
        self.o.push(if map { '{' } else { '[' });
        let n = self.r.below(4);
        for i in 0..n {
            self.fsep(indent);
            let pair = map || self.r.one_in(4);
            if pair {
                if self.r.one_in(6) { self.o.push_str("? "); }
                self.flow_item(indent, depth, true);
                if !map || !self.r.one_in(5) {
                    if self.r.one_in(8) { self.o.push(' '); }
                    self.o.push_str(if self.r.one_in(12) { ":" } else { ": " });
                    if !self.r.one_in(8) { self.flow_item(indent, depth, false); }
                }
            } else { self.flow_item(indent, depth, false); }
            self.fsep(indent);
            if i + 1 < n || self.r.one_in(6) { self.o.push(','); if !self.r.one_in(4) { self.o.push(' ') } }
        }
        self.fsep(indent);
        self.o.push(if map { '}' } else { ']' });
    }
    fn fsep(&mut self, indent: usize) {
        if self.r.one_in(10) { if self.r.one_in(3) { self.o.push_str(" # c"); } self.nl(); self.spaces(indent + 1); } else { self.ws() }
    }
    fn flow_item(&mut self, indent: usize, depth: usize, key: bool) {
        if self.r.one_in(8) && !self.anchors.is_empty() { let a = self.r.pick(&self.anchors.clone()).clone(); self.o.push_str(&format!("*{a} ")); return; }
        self.props();
        self.budget -= 1;
        if depth > 0 && self.budget > 0 && self.r.one_in(4) { self.flow(indent, depth - 1) } else { self.scalar(indent, true, key); }
    }
    /// A node after an indicator on the same line, its parent at `indent`.
    /// Ends with a line break.
    fn node(&mut self, indent: isize, depth: usize, after_value: bool) {
        self.budget -= 1;
        let ind = indent.max(0) as usize;
        if self.r.one_in(10) && !self.anchors.is_empty() {
            let a = self.r.pick(&self.anchors.clone()).clone();
            self.o.push_str(&format!("*{a}"));
            return self.eol();
        }
        let p = self.props();
        let k = if depth == 0 || self.budget < 0 { self.r.below(5) } else { self.r.below(12) };
        match k {
            0..=3 => { if !self.scalar(ind, false, false) { self.eol() } }
            4 => { let d = depth.min(2); self.flow(ind, d); self.eol() }
            5..=7 => {
                let nested = !after_value && !p && self.r.one_in(2) && indent >= 0;
                let less = after_value && self.r.one_in(3);
                let n = if less { ind } else { (indent + self.r.range(1, 4) as isize) as usize };
                let n = if indent < 0 && self.r.one_in(2) { 0 } else { n };
                if !nested { self.eol(); }
                let col = if nested { self.column() } else { n };
                for i in 0..self.r.range(1, 3) {
                    if i > 0 || !nested { self.spaces(col); }
                    self.o.push('-');
                    if self.r.one_in(10) { self.eol(); continue; }
                    let k = self.r.range(1, 3); self.spaces(k);
                    self.node(col as isize, depth - 1, false);
                }
            }
            _ => {
                let nested = !after_value && !p && self.r.one_in(2) && indent >= 0;
                let n = (indent + self.r.range(1, 4) as isize) as usize;
                let n = if indent < 0 && self.r.one_in(2) { 0 } else { n };
                if !nested { self.eol(); }
                let col = if nested { self.column() } else { n };
                for i in 0..self.r.range(1, 3) {
                    if i > 0 || !nested { self.spaces(col); }
                    if self.r.one_in(8) {
                        self.o.push_str("? ");
                        self.node(col as isize, depth - 1, false);
                        if self.r.one_in(5) { continue; }
                        self.spaces(col);
                    } else {
                        if self.r.one_in(12) && !self.anchors.is_empty() { let a = self.r.pick(&self.anchors.clone()).clone(); self.o.push_str(&format!("*{a} ")); }
                        else if self.r.one_in(12) { let d = depth.min(1); self.flow(col, d); }
                        else { self.props(); self.scalar(col, false, true); }
                        if self.r.one_in(10) { self.o.push(' '); }
                    }
                    self.o.push(':');
                    if self.r.one_in(8) { self.eol(); continue; }
                    self.o.push(' ');
                    self.ws();
                    self.node(col as isize, depth - 1, true);
                }
            }
        }
    }
    fn column(&self) -> usize { self.o.chars().rev().take_while(|c| !text::is_break(*c)).count() }
}

/// Mostly well-formed text.
pub fn tree_text(r: &mut Rng) -> String {
    let docs = if r.one_in(3) { r.range(1, 4) } else { 1 };
    let budget = r.range(3, 25) as i32;
    let mut w = W { r, o: String::new(), anchors: vec![], handles: vec!["!", "!!"], budget };
    for d in 0..docs {
        w.anchors.clear();
        w.handles = vec!["!", "!!"];
        let mut explicit = d > 0;
        if w.r.one_in(4) {
            if w.r.one_in(2) { let v = *w.r.pick(&["1.1", "1.2", "1.2", "1.1", "1.10", "2.0", "01.1"]); w.o.push_str(&format!("%YAML {v}\n")); }
            for _ in 0..w.r.below(3) {
                let h = *w.r.pick(&["!e!", "!", "!!", "!f-1!"]);
                let p = *w.r.pick(&["tag:e,1:", "!loc", "x%20y", "tag:yaml.org,2002:", "a[b]"]);
                w.o.push_str(&format!("%TAG {h} {p}\n"));
                w.handles.push(h);
            }
            explicit = true;
        }
        if explicit || w.r.one_in(3) {
            w.o.push_str("---");
            if w.r.one_in(2) { w.o.push(' ') } else { w.eol() }
        }
        w.node(-1, 4, false);
        if w.r.one_in(4) { w.o.push_str("..."); w.eol(); }
    }
    if w.r.one_in(5) { while w.o.ends_with(text::is_break) { w.o.pop(); } }
    w.o
}

pub fn mutate(r: &mut Rng, s: String) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(v.len() + 1);
        match r.below(5) {
            0 => { if i < v.len() { v.remove(i); } }
            1 => { let j = (i + r.below(6)).min(v.len()); v.drain(i..j); }
            2 => { let f = *r.pick(FRAGS); v.splice(i..i, f.chars()); }
            3 => { if i < v.len() { let f = *r.pick(FRAGS); v.splice(i..i + 1, f.chars()); } }
            _ => { v.truncate(i); }
        }
    }
    v.into_iter().collect()
}

/// Texts that cross a size limit: simple keys of about 1024 characters, buffers
/// of 16384 bytes, deep nesting, long numbers and names.
pub fn big_text(r: &mut Rng) -> String {
    let n = *r.pick(&[8usize, 9, 10, 11, 120, 1018, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 4000, 16370, 16380, 16383, 16384, 16385, 16390, 33000]);
    let n = n + r.below(3);
    let c = *r.pick(&["a", "a", "a", "\u{e9}", "\u{1F600}", "\u{20ac}"]);
    let long = c.repeat(n / c.len());
    let deep = n.min(400);
    match r.below(20) {
        0 => format!("{long}: v\n"),
        1 => format!("'{long}': v\n"),
        2 => format!("[{long}: v, b]\n"),
        3 => format!("{}{}", "[".repeat(deep), "]".repeat(deep)),
        4 => format!("{}{}", "- ".repeat(deep), "x"),
        5 => format!("# {long}\na: b\n"),
        6 => format!("- {long}\n- \"{}\\x41\u{e9}\" : z\n", "b".repeat(n / 3)),
        7 => format!("a: |\n  {long}\n  \u{e9}x\n"),
        8 => format!("\u{e9}{}\n- {}", "\n".repeat(n), c),
        9 => format!("%YAML 1.{}\n---\n", "0".repeat(n.min(12)) + "1"),
        10 => format!("&{} x\n", "a".repeat(n)),
        11 => format!("- !{} x\n", "a".repeat(n)),
        12 => format!("%TAG !{}! y\n--- !{}!z w\n", "a".repeat(n), "a".repeat(n)),
        13 => format!("? {long}\n: v\n"),
        14 => format!("{}a: b\n", "{x: ".repeat(deep)),
        15 => { let mut s = String::new(); for i in 0..deep { s.push_str(&" ".repeat(i)); s.push_str("k:\n"); } s }
        16 => format!("a: {}\n", "b c ".repeat(n / 4)),
        17 => format!("[? {long}\n , b]\n"),
        18 => format!("\"{}\\\n  {long}\" : b\n", "x".repeat(n % 40)),
        _ => format!("a:\n  - 'x{long}\n\n     y'\n  - b\n"),
    }
}

pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => frags(r, 10),
        2..=5 => tree_text(r),
        6..=8 => { let t = tree_text(r); mutate(r, t) }
        9 => { let t = frags(r, 6); let u = tree_text(r); if r.one_in(2) { t + &u } else { u + &t } }
        10 => {
            let e = events(r);
            let c = config(r, false);
            let s = emit_bytes(&c, &e).ok().and_then(|b| String::from_utf8(b).ok()).unwrap_or_default();
            if r.one_in(3) { mutate(r, s) } else { s }
        }
        _ => if r.one_in(8) { big_text(r) } else { let t = frags(r, 4); format!("{t}{t}") },
    }
}

pub fn chunks(r: &mut Rng) -> Vec<usize> {
    match r.below(6) {
        0 => vec![1],
        1 => vec![2],
        2 => vec![3],
        3 => (0..r.range(1, 6)).map(|_| r.range(1, 7)).collect(),
        4 => vec![r.range(1, 64), r.range(1, 5)],
        _ => vec![],
    }
}

/// Text in some encoding, delivered in some way.
pub fn feed(r: &mut Rng, s: &str) -> Feed {
    let e = *r.pick(&[Encoding::Utf8, Encoding::Utf8, Encoding::Utf16Le, Encoding::Utf16Be]);
    let utf8 = e == Encoding::Utf8;
    let told = r.one_in(4);
    let bom = !told && (!utf8 || r.one_in(4));
    Feed { bytes: text::encode(s, e, bom), encoding: if told { e } else { Encoding::Any }, chunks: chunks(r), interrupt: r.one_in(5) }
}

/// Bytes that may not be decodable.
pub fn broken(r: &mut Rng, f: Feed) -> Feed {
    let mut f = f;
    for _ in 0..r.range(1, 2) {
        let b = &mut f.bytes;
        let i = r.below(b.len() + 1);
        match r.below(7) {
            0 => { if i < b.len() { b.remove(i); } }
            1 => b.truncate(i),
            2 => { let k = *r.pick(&[0x80u8, 0xff, 0xfe, 0xc3, 0xe2, 0xf0, 0xd8, 0xdc, 0x00, 0x1b, 0x7f, 0xc0, 0xf8, 0xed, 0xf4]); b.insert(i, k) }
            3 => { if i < b.len() { b[i] = r.next() as u8 } }
            4 => { let k: &[u8] = *r.pick(&[&[0xed, 0xa0, 0x80][..], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xef, 0xbf, 0xbe], &[0xef, 0xbf, 0xbf], &[0xc2, 0x84], &[0xc2, 0x80], &[0xf0, 0x90, 0x80, 0x80], &[0xee, 0x80, 0x80], &[0xf4, 0x8f, 0xbf, 0xbf]]); b.splice(i..i, k.iter().copied()); }
            5 => { let k: &[u8] = *r.pick(&[&[0xd8, 0x00][..], &[0x00, 0xd8], &[0xdc, 0x00], &[0x00, 0xdc], &[0xd8, 0x3d, 0xde, 0x00], &[0x3d, 0xd8, 0x00, 0xde], &[0xff, 0xff], &[0xfe, 0xff]]); b.splice(i..i, k.iter().copied()); }
            _ => { let k: &[u8] = *r.pick(&[&[0xff][..], &[0xfe], &[0xef], &[0xef, 0xbb], &[0xff, 0xfe], &[0xfe, 0xff], &[0xef, 0xbb, 0xbf], &[0xef, 0x80, 0x80], &[0xfe, 0xfe]]); b.splice(0..0, k.iter().copied()); }
        }
    }
    f
}

// ---------------------------------------------------------------- events

pub const VALUE: &[&str] = &[
    "a", "b", "word", "x", "1", " ", "  ", "\n", "\n", "\n\n", "\t", ":", ": ", " #", "#", "-", "- ", "?", "? ", "'", "\"", "\\", "\u{e9}", "\u{1F600}", "[", "]", "{", "}", ",", "&", "*", "!", "|", ">", "%", "@", "`", "---", "...", "\r",
    "\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "\0", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{a0}", "\u{9f}", "\u{fffe}", "\u{ffff}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "\r\n", "k: v", "=", "~", "/", ".", "\u{fffd}", "\u{100}", "\u{12345}",
];
pub fn value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 | 2 => (*r.pick(WORDS)).to_string(),
        3 => (0..r.range(1, 4)).map(|_| *r.pick(VALUE)).collect(),
        4 => { let n = r.range(2, 30); let k = r.range(2, 6); (0..n).map(|_| *r.pick(&["alpha", "be", "gamma ray", " ", "\n", "x", "\u{e9}", ", ", ". "][..k + 3])).collect() }
        5 => { let n = r.range(5, 60); (0..n).map(|_| *r.pick(&["alpha ", "be ", "gamma-ray ", "x ", "\u{e9} "])).collect::<String>().trim_end().into() }
        6 => (0..r.range(1, 8)).map(|_| *r.pick(VALUE)).collect(),
        _ => (0..r.range(2, 8)).map(|_| *r.pick(&["a", "b", " ", "\n", "  b", "\n\n", "word"])).collect(),
    }
}
/// All strings over a small alphabet, shortest first.
pub fn nth_value(mut i: u64) -> String {
    const A: &[&str] = &["a", " ", "\n", ":", "#", "-", "'", "\"", "\\", "\u{e9}", "\t", ",", "[", "?", "\u{2028}", "\u{85}", "!", "\u{feff}", "\r"];
    let k = A.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count { i -= count; count *= k; len += 1; }
    let mut s = String::new();
    for _ in 0..len { s.push_str(A[(i % k) as usize]); i /= k; }
    s
}
fn name(r: &mut Rng) -> String { (*r.pick(&["a", "b1", "x-y", "_", "A9"])).into() }
pub fn tag(r: &mut Rng) -> String {
    (*r.pick(&["!", "!t", "!t", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:e,1:thing", "tag:e,1:", "x", "!loc\u{e9}al", "tag:yaml.org,2002:\u{1F600}", "!a%b", "!e!x", "tag:x y", "!a,b", "!a[0]", "\u{e9}", "tag:yaml.org,2002:", "!!x", "a{b}", "tag:e,1:\u{7ff}\u{800}\u{ffff}", "!;/?:@&=+$_.~*'()z", "tag:\"#<>|\\^`"])).into()
}
pub fn style(r: &mut Rng) -> ScalarStyle { *r.pick(&[ScalarStyle::Any, ScalarStyle::Plain, ScalarStyle::SingleQuoted, ScalarStyle::DoubleQuoted, ScalarStyle::Literal, ScalarStyle::Folded]) }
pub fn scalar(r: &mut Rng, anchors: &mut Vec<String>) -> Ev {
    let v = value(r);
    let anchor = new_anchor(r, anchors);
    let tag = if r.one_in(4) { Some(tag(r)) } else { None };
    let (plain, quoted) = if tag.is_some() { *r.pick(&[(false, false), (false, false), (true, true), (true, false), (false, true)]) } else { *r.pick(&[(true, true), (true, true), (true, false), (false, true)]) };
    Ev::Scalar { anchor, tag, value: v, plain, quoted, style: style(r) }
}
fn new_anchor(r: &mut Rng, anchors: &mut Vec<String>) -> Option<String> {
    if r.one_in(8) { let n = if r.one_in(3) { name(r) } else { format!("n{}", anchors.len()) }; anchors.push(n.clone()); Some(n) } else { None }
}
fn ev_node(r: &mut Rng, o: &mut Vec<Ev>, depth: usize, anchors: &mut Vec<String>, n: &mut i32) {
    *n -= 1;
    if !anchors.is_empty() && r.one_in(8) { let a = r.pick(anchors).clone(); return o.push(Ev::Alias(a)); }
    if depth == 0 || *n < 0 || r.one_in(2) { let s = scalar(r, anchors); return o.push(s); }
    let a = new_anchor(r, anchors);
    let t = if r.one_in(5) { Some(tag(r)) } else { None };
    let implicit = t.is_none() || r.one_in(3);
    let k = r.below(4);
    if r.one_in(2) {
        o.push(Ev::Seq { anchor: a, tag: t, implicit, style: *r.pick(&[SequenceStyle::Any, SequenceStyle::Block, SequenceStyle::Flow]) });
        for _ in 0..k { ev_node(r, o, depth - 1, anchors, n) }
        o.push(Ev::SeqEnd);
    } else {
        o.push(Ev::Map { anchor: a, tag: t, implicit, style: *r.pick(&[MappingStyle::Any, MappingStyle::Block, MappingStyle::Flow]) });
        for _ in 0..2 * k { ev_node(r, o, depth - 1, anchors, n) }
        o.push(Ev::MapEnd);
    }
}
/// A well-formed event sequence.
pub fn events(r: &mut Rng) -> Vec<Ev> {
    let mut o = vec![Ev::StreamStart(Encoding::Any)];
    let docs = if r.one_in(3) { r.below(4) } else { 1 };
    for _ in 0..docs {
        let v = if r.one_in(6) { Some((1, r.range(1, 2) as i32)) } else { None };
        let mut t = vec![];
        if r.one_in(5) {
            t.push(("!e!".to_string(), "tag:e,1:".to_string()));
            if r.one_in(3) { t.push(("!".into(), (*r.pick(&["!", "!loc", "tag:"])).into())) }
            if r.one_in(4) { t.push(("!!".into(), "tag:other:".into())) }
            if r.one_in(4) { t.push(("!f-1!".into(), (*r.pick(&["tag:e", "x y", "\u{e9}", "tag:yaml.org,2002:"])).into())) }
        }
        o.push(Ev::DocStart(v, t, r.one_in(2)));
        let mut n = *r.pick(&[1, 3, 8, 20]);
        let depth = r.range(0, 4);
        ev_node(r, &mut o, depth, &mut vec![], &mut n);
        o.push(Ev::DocEnd(r.one_in(2)));
    }
    o.push(Ev::StreamEnd);
    o
}
/// Streams whose output is long enough to pass the buffer size.
pub fn long_events(r: &mut Rng) -> Vec<Ev> {
    let mut o = vec![Ev::StreamStart(Encoding::Any), Ev::DocStart(None, vec![], true)];
    o.push(Ev::Seq { anchor: None, tag: None, implicit: true, style: SequenceStyle::Any });
    let n = r.range(5, 60);
    for _ in 0..n {
        let k = r.range(1, 120);
        let w = *r.pick(&["alpha ", "\u{e9}", "\u{1F600}", "x", "\u{20ac}b ", "line\n"]);
        o.push(Ev::Scalar { anchor: None, tag: None, value: w.repeat(k) + "z", plain: true, quoted: true, style: style(r) });
        if r.one_in(4) { let k = *r.pick(&[16377usize, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 5000]); o.push(Ev::Scalar { anchor: None, tag: None, value: w.repeat(k / w.len()), plain: true, quoted: true, style: style(r) }); }
    }
    o.push(Ev::SeqEnd);
    o.push(Ev::DocEnd(true));
    o.push(Ev::StreamEnd);
    o
}
pub fn config(r: &mut Rng, any_encoding: bool) -> Config {
    Config {
        canonical: r.one_in(6),
        indent: *r.pick(&[0, 0, 2, 3, 4, 9, 10, 1, -1, 100]),
        width: *r.pick(&[0, 0, 0, 80, 20, 10, 5, 40, -1, 1000, 30]),
        unicode: !r.one_in(3),
        line_break: *r.pick(&[Break::Any, Break::Any, Break::Ln, Break::Cr, Break::CrLn]),
        encoding: if any_encoding { *r.pick(&[Encoding::Any, Encoding::Utf8, Encoding::Utf16Le, Encoding::Utf16Be]) } else { Encoding::Any },
    }
}
/// An event sequence that need not be well-formed.
pub fn any_events(r: &mut Rng) -> Vec<Ev> {
    let mut e = events(r);
    for _ in 0..r.range(1, 3) {
        let i = r.below(e.len() + 1);
        match r.below(4) {
            0 => { if i < e.len() { e.remove(i); } }
            1 => { let x = any_event(r); e.insert(i, x) }
            2 => { if i < e.len() { e[i] = any_event(r) } }
            _ => { if i + 1 < e.len() { e.swap(i, i + 1) } }
        }
    }
    e
}
pub fn any_event(r: &mut Rng) -> Ev {
    match r.below(10) {
        0 => Ev::StreamStart(Encoding::Utf8),
        1 => Ev::StreamEnd,
        2 => Ev::DocStart(*r.pick(&[None, None, Some((1, 1)), Some((1, 3)), Some((2, 1)), Some((0, 2))]), (0..r.below(3)).map(|_| ((*r.pick(&["!", "!!", "!e!", "", "e", "!e", "e!", "!\u{e9}!", "!a b!", "\u{e9}"])).to_string(), (*r.pick(&["tag:x", "", "!", "\u{e9}"])).to_string())).collect(), r.one_in(2)),
        3 => Ev::DocEnd(r.one_in(2)),
        4 => Ev::Alias((*r.pick(&["a", "", "a b", "\u{e9}", "x-y"])).into()),
        5 => Ev::Seq { anchor: r.one_in(3).then(|| (*r.pick(&["a", "", "\u{e9}"])).to_string()), tag: r.one_in(3).then(|| (*r.pick(&["!t", "", "x"])).to_string()), implicit: r.one_in(2), style: SequenceStyle::Any },
        6 => Ev::SeqEnd,
        7 => Ev::Map { anchor: None, tag: None, implicit: r.one_in(2), style: MappingStyle::Flow },
        8 => Ev::MapEnd,
        _ => Ev::Scalar { anchor: None, tag: r.one_in(3).then(|| (*r.pick(&["!t", "", "\u{e9}"])).to_string()), value: value(r), plain: r.one_in(2), quoted: r.one_in(2), style: style(r) },
    }
}

// ---------------------------------------------------------------- documents

use crate::oracle::Op;

fn op_tag(r: &mut Rng) -> Option<String> { if r.one_in(4) { Some((*r.pick(&["!t", "tag:yaml.org,2002:int", "tag:e,1:thing", "!loc\u{e9}al", "x"])).into()) } else { None } }
fn op_value(r: &mut Rng) -> String { if r.one_in(3) { value(r) } else { (*r.pick(WORDS)).to_string() } }
fn op_style(r: &mut Rng) -> ScalarStyle { style(r) }
fn op_node(r: &mut Rng) -> Op {
    match r.below(4) {
        0 => Op::Seq(op_tag(r), *r.pick(&[SequenceStyle::Any, SequenceStyle::Block, SequenceStyle::Flow])),
        1 => Op::Map(op_tag(r), *r.pick(&[MappingStyle::Any, MappingStyle::Block, MappingStyle::Flow])),
        _ => { let (t, v, s) = (op_tag(r), op_value(r), op_style(r)); Op::Scalar(t, v, s) }
    }
}
/// Calls that build a document, each within what the interface allows.
pub fn ops(r: &mut Rng) -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    let mut kinds: Vec<u8> = vec![];
    let n = *r.pick(&[0usize, 1, 4, 8, 16, 30]);
    for i in 0..n {
        let links: Vec<usize> = (0..kinds.len()).filter(|k| kinds[*k] != b'x').collect();
        if r.one_in(12) { let k = r.below(kinds.len() + 4) as i32 - 1; o.push(Op::Get(k)); continue; }
        if r.one_in(40) { o.push(Op::Get(*r.pick(&[i32::MAX, i32::MIN, -1, 0, 1 << 30]))); continue; }
        if !links.is_empty() && r.one_in(2) {
            let s = *r.pick(&links);
            let m = kinds.len();
            // mostly forward, so that the graph has few cycles
            let node = |r: &mut Rng| if r.one_in(8) { r.range(1, m) } else { r.range((s + 2).min(m), m) } as i32;
            let (a, b) = (node(r), node(r));
            o.push(if kinds[s] == b's' { Op::Item(s as i32 + 1, a) } else { Op::Pair(s as i32 + 1, a, b) });
            continue;
        }
        let x = if i == 0 && !r.one_in(6) { loop { let x = op_node(r); if !matches!(x, Op::Scalar(..)) { break x; } } } else { op_node(r) };
        kinds.push(match &x { Op::Seq(..) => b's', Op::Map(..) => b'm', _ => b'x' });
        o.push(x);
    }
    o
}

/// All short byte sequences over bytes that matter for decoding.
pub fn nth_bytes(mut i: u64) -> Feed {
    const B: &[u8] = &[0x41, 0xef, 0xbb, 0xbf, 0xff, 0xfe, 0x00, 0x80, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xd8, 0xdc, 0xed, 0xa0, 0xc0, 0xf4, 0x8f, 0x90, 0x7f, 0x0a, 0x85, 0xc2, 0x3d, 0xee];
    let e = *[Encoding::Any, Encoding::Utf8, Encoding::Utf16Le, Encoding::Utf16Be].get((i % 4) as usize).unwrap();
    i /= 4;
    let prefix: &[u8] = [&[][..], &[0xff, 0xfe], &[0xfe, 0xff], &[0xef, 0xbb, 0xbf]][(i % 4) as usize];
    i /= 4;
    let chunk = i % 2 == 1;
    i /= 2;
    let k = B.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count { i -= count; count *= k; len += 1; }
    let mut s = prefix.to_vec();
    for _ in 0..len { s.push(B[(i % k) as usize]); i /= k; }
    Feed { bytes: s, encoding: e, chunks: if chunk { vec![1] } else { vec![] }, interrupt: false }
}
/// All short event sequences.
pub fn nth_events(mut i: u64) -> Vec<Ev> {
    let sc = |v: &str| Ev::Scalar { anchor: None, tag: None, value: v.into(), plain: true, quoted: true, style: ScalarStyle::Any };
    let a = [
        Ev::DocStart(None, vec![], true), Ev::DocEnd(true), sc("a"), Ev::Seq { anchor: None, tag: None, implicit: true, style: SequenceStyle::Any }, Ev::SeqEnd,
        Ev::Map { anchor: None, tag: None, implicit: true, style: MappingStyle::Any }, Ev::MapEnd, Ev::Alias("x".into()), Ev::StreamEnd, Ev::StreamStart(Encoding::Utf8), Ev::DocStart(Some((1, 1)), vec![("!e!".into(), "x".into())], false), sc(""),
        Ev::Seq { anchor: Some("x".into()), tag: Some("!t".into()), implicit: false, style: SequenceStyle::Flow },
    ];
    let mut o = vec![];
    let k = a.len() as u64;
    let mut len = 1;
    let mut count = k;
    while i >= count { i -= count; count *= k; len += 1; }
    if i % 7 != 3 { o.push(Ev::StreamStart(Encoding::Any)); }
    for _ in 0..len { o.push(a[(i % k) as usize].clone()); i /= k; }
    o
}
/// Text in which the property shows up often.
pub fn special(r: &mut Rng, prop: &str) -> String {
    let handles = ["!", "!!", "!e!", "!f-1!", "!x!", "!E_!"];
    let pre = ["tag:e,1:", "!loc", "x%20y", "tag:yaml.org,2002:", "a[b]", "!", "%C3%A9", "tag:\u{e9}", "a%", "q%zz", "p,q"];
    let suf = ["", "a", "int", "a%20b", "%C3%A9", "%F0%9F%98%80", "a%C3", "%E2%82%ACx", "a,b", "a[0]", "x!y", "%", "%4", "%FF", "%C3%28", "a:b", "%41%42", "#", "%21"];
    match prop {
        "C07" if r.one_in(8) => {
            // many anchors, some of them defined again or used from another document
            let mut o = String::new();
            for d in 0..r.range(1, 3) {
                if d > 0 { o.push_str("---\n") }
                let n = r.range(9, 40);
                let flow = r.one_in(3);
                if flow { o.push_str("[") }
                let back = r.one_in(3);
                let wrong = if r.one_in(2) { r.below(n) } else { n };
                for i in 0..n {
                    let a = if i == wrong && r.one_in(2) { r.below(n) } else { i };
                    let b = if back { i / 2 } else if i == wrong { r.below(n + 2) } else { r.below(i + 1) };
                    let body = match r.below(6) { 0 => format!("[&a{a} x, *a{b} ]"), 1 => format!("*a{b} "), 2 => format!("&a{a} [*a{b} ]"), _ => format!("&a{a} v{i}") };
                    if flow { o.push_str(&body); o.push_str(", ") } else { o.push_str(&format!("- {body}\n")) }
                }
                if flow { o.push_str("]\n") }
            }
            o
        }
        "C12" | "C13" if r.one_in(12) => {
            let mut o = String::new();
            for _ in 0..r.range(1, 2) {
                let n = r.range(5, 40);
                let wrong = if r.one_in(2) { r.below(n) } else { n };
                for i in 0..n { let h = if i == wrong { r.below(n) } else { i }; o.push_str(&format!("%TAG !h{h}! tag:p{i}:\n")) }
                o.push_str("---\n");
                for _ in 0..r.range(1, 12) { let x = if r.one_in(10) { 2 } else { 0 }; o.push_str(&format!("- !h{}!s v\n", r.below(n + x))) }
                if r.one_in(2) { o.push_str("...\n") }
            }
            o
        }
        "C12" | "C13" => {
            let mut o = String::new();
            for _ in 0..r.range(1, 3) {
                let n = r.below(4);
                for _ in 0..n {
                    if r.one_in(3) {
                        let v = *r.pick(&["1.1", "1.2", "1.1", "1.2", "1.3", "2.1", "01.2", "1.", ".1", "1.1234567890", "123456789.1", "0000000001.1", "1 .1", "999999999.999999999", "1.02", "1.10", "11.1"]);
                        let s = *r.pick(&[" ", " ", "  ", "\t", ""]);
                        o.push_str(&format!("%YAML{s}{v}"));
                    } else if r.one_in(12) {
                        o.push_str(*r.pick(&["%FOO x", "%YAMLX 1.1", "%", "% YAML 1.1", "%TAGS ! x", "%yaml 1.1"]));
                    } else {
                        let (h, p) = (*r.pick(&handles), *r.pick(&pre));
                        let (s, t) = (*r.pick(&[" ", " ", "  ", "\t", ""]), *r.pick(&[" ", " ", "  ", "\t", ""]));
                        o.push_str(&format!("%TAG{s}{h}{t}{p}"));
                    }
                    if r.one_in(6) { o.push_str("  # c"); }
                    o.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}", " \n", "x\n"]));
                }
                if n > 0 || r.one_in(2) { o.push_str(*r.pick(&["---\n", "--- ", "---\n", "...\n", ""])) }
                let k = r.range(1, 4);
                let flow = r.one_in(3);
                if flow { o.push('[') }
                for i in 0..k {
                    if flow { if i > 0 { o.push_str(", ") } } else if k > 1 { o.push_str("- ") }
                    if r.one_in(4) { o.push_str("&a"); o.push_str(&i.to_string()); o.push(' ') }
                    let (h, s) = (*r.pick(&handles), *r.pick(&suf));
                    match r.below(8) { 0 => o.push_str(&format!("!<{}{s}>", r.pick(&pre))), 1 => o.push('!'), 2 => {} _ => o.push_str(&format!("{h}{s}")) }
                    o.push(' ');
                    if r.one_in(5) { o.push_str("&b"); o.push_str(&i.to_string()); o.push(' ') }
                    o.push_str(*r.pick(&["v", "'q'", "[a, !t b]", "{a: !!x b}", "", "\"d\"", "{!t k: v}"]));
                    if !flow { o.push('\n') }
                }
                if flow { o.push_str("]\n") }
                if r.one_in(3) { o.push_str("...\n") }
            }
            o
        }
        "C07" => {
            let names = ["a", "b", "a1", "x-y", "_"];
            let mut o = String::new();
            for d in 0..r.range(1, 3) {
                if d > 0 { o.push_str("---\n") }
                let n = r.range(1, 8);
                for i in 0..n {
                    let a = *r.pick(&names);
                    let anchor = if r.one_in(2) { format!("&{a}{i} ") } else { format!("&{a} ") };
                    let b = *r.pick(&names);
                    let alias = if r.one_in(3) { format!("*{b} ") } else { format!("*{b}{} ", r.below(i + 1)) };
                    let body = match r.below(9) { 0 => format!("{anchor}v"), 1 => format!("{anchor}[x, {alias}]"), 2 => format!("{anchor}{{k: {alias}, {alias}: w}}"), 3 => alias, 4 => format!("{anchor}\n   - x\n   - {alias}"), 5 => format!("{anchor}\n   k: {alias}\n   {alias}: z"), 6 => "plain".into(), 7 => format!("? {anchor}k\n  : {alias}"), _ => anchor };
                    o.push_str(&format!("- {body}\n"));
                }
            }
            o
        }
        "C19" => {
            let mut o = String::new();
            let pre = *r.pick(&["", "- ", "k: ", "- - ", "[", "{a: ", "- k: ", "--- ", "!t ", "  - "]);
            o.push_str(pre);
            let k = r.below(4);
            let ind = r.below(4);
            let n = r.range(1, 12);
            let brk = ["\n", "\n", "\n", "\n", "\r\n", "\r", "\u{85}", "\u{2028}", "\u{2029}"];
            match k {
                0 => o.push('\''),
                1 => o.push('"'),
                2 => { o.push_str(*r.pick(&["|", ">"])); o.push_str(*r.pick(&["", "-", "+", "1", "2", "+1", "2-", "3"])); o.push_str(*r.pick(&["", " ", " # c"])); o.push('\n') }
                _ => o.push('x'),
            }
            for _ in 0..n {
                match r.below(if k == 1 { 7 } else { 5 }) {
                    0 => { o.push_str(*r.pick(&brk)); for _ in 0..r.below(4) + ind { o.push(' ') } }
                    1 => { o.push_str(*r.pick(&brk)); for _ in 0..ind { o.push(' ') } }
                    2 => o.push_str(*r.pick(&[" ", "  ", "\t", " \t "])),
                    3 | 4 => o.push_str(*r.pick(&["a", "word", "\u{e9}", ":", "#", "-", "a: b", "''", "\u{1F600}", ",", "?", "z#", "x:y", "--- ", "..."])),
                    5 => o.push_str(*r.pick(&["\\n", "\\t", "\\x41", "\\u00e9", "\\U0001F600", "\\\\", "\\\"", "\\0", "\\_", "\\N", "\\L", "\\P", "\\e", "\\ ", "\\/", "\\a", "\\b", "\\v", "\\f", "\\r", "\\xfF", "\\\t", "\\ud800", "\\U00110000", "\\uD7ff", "\\U0010ffff", "\\x4", "\\xAb", "\\u12aF"])),
                    _ => { o.push('\\'); o.push_str(*r.pick(&brk)); for _ in 0..r.below(3) { o.push(' ') } }
                }
            }
            match k { 0 => o.push('\''), 1 => o.push('"'), _ => {} }
            o.push_str(match pre { "[" => "]", "{a: " => "}", _ => *r.pick(&["\n", "", "\n\n", "\n# c\n", "\n  x\n", "\nend: 1\n", "\n- y\n"]) });
            o
        }
        "C04" | "C16" if r.one_in(5) => big_text(r),
        "C03" if r.one_in(12) => big_text(r),
        _ => tree_text(r),
    }
}
