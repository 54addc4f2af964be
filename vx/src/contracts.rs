//! The contract language.
//!
//! ```text
//! fn Path::name -> ret            start of a contract
//!   attr #[...]                   attribute put before the function
//!   sig                           clauses: put between signature and body
//!     requires
//!     [C01] clause,
//!     ensures
//!     [C03,C04] clause,
//!   loop 0 iter=it                the 0th loop in source order
//!     invariant
//!     [*] clause,
//!     decreases x,
//!   block NAME#1                  the statement with NAME, checked by itself: only
//!     ensures                     the clauses are known after it
//!     clause,
//!   hint start | end-of-loop:0 | start-of-loop:0 | before:NAME#1 | after:NAME#1
//!     proof { .. }
//! item Name
//!   attr #[...]
//! ```
//! A line of a clause may start with `[tags]`: the properties it serves.
//! Continuation lines inherit the tags.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Default, Debug)]
pub struct Contract {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub sig: Vec<String>,
    pub loops: BTreeMap<usize, (Option<String>, Vec<String>)>,
    pub closures: BTreeMap<usize, (String, Vec<String>)>,
    pub hints: Vec<(String, Vec<String>)>,
    pub blocks: Vec<(String, Vec<String>)>,
    pub used: bool,
    pub lost: RefCell<Vec<String>>,
}

enum Cur {
    None,
    Sig,
    Loop(usize),
    Hint(usize),
    Block(usize),
    Closure(usize),
}

fn tag_lines(path: &str, kind: &str, lines: &[String]) -> Vec<String> {
    const SECTIONS: &[&str] = &["requires", "invariant_except_break", "invariant", "ensures", "decreases"];
    let mut tags = "*".to_string();
    let hint = kind == "hint";
    let mut groups: Vec<Vec<String>> = vec![vec![]; SECTIONS.len() + 1];
    let mut g = 0;
    for l in lines {
        let out = &mut groups[g];
        let t = l.trim_start();
        let mut body = l.as_str();
        if t.starts_with('[') {
            if let Some(i) = t.find(']') {
                let inner = &t[1..i];
                if inner.chars().all(|c| c.is_ascii_alphanumeric() || c == ',' || c == '*') && !inner.is_empty() {
                    tags = inner.to_string();
                    body = &t[i + 1..];
                }
            }
        }
        let b = body.trim();
        if b.is_empty() {
            continue;
        }
        let word = b.split(' ').next().unwrap();
        if let (false, Some(i)) = (hint, SECTIONS.iter().position(|s| *s == word)) {
            // Sections may be given in pieces; they are put in the order the
            // verifier wants.
            g = i + 1;
            if groups[g].is_empty() {
                groups[g].push(format!("{body} //@{path}|{kind}|*"));
            } else if b != word {
                groups[g].push(format!("{} //@{path}|{kind}|*", &b[word.len()..]));
            }
            tags = "*".into();
            continue;
        }
        let body = match body.find(" //") {
            Some(i) => &body[..i],
            None => body,
        };
        out.push(format!("{body} //@{path}|{kind}|{tags}"));
    }
    groups.concat()
}

pub fn parse(file: &str, text: &str, all: &mut BTreeMap<String, Contract>) {
    let mut path = String::new();
    let mut cur = Cur::None;
    let mut defs: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut in_def: Option<String> = None;
    let mut lines: Vec<(usize, String)> = vec![];
    for (n, line) in text.lines().enumerate() {
        if line.trim() == "enddef" {
            in_def = None;
            continue;
        }
        if let Some(r) = line.strip_prefix("def ") {
            in_def = Some(r.trim().to_string());
            defs.insert(r.trim().to_string(), vec![]);
            continue;
        }
        let here = match line.trim().strip_prefix("use ").and_then(|d| d.strip_suffix(';')).and_then(|d| defs.get(d)) {
            Some(d) => d.clone(),
            None => vec![line.to_string()],
        };
        match &in_def {
            Some(d) => defs.get_mut(d).unwrap().extend(here),
            None => lines.extend(here.into_iter().map(|l| (n, l))),
        }
    }
    for (n, line) in lines.iter() {
        let line: &str = line;
        let err = |m: &str| -> ! { panic!("{file}.vc:{}: {m}: {line}", n + 1) };
        if line.trim().is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(r) = line.strip_prefix("fn ") {
            let (p, ret) = match r.split_once(" -> ") {
                Some((p, r)) => (p.trim(), Some(r.trim().to_string())),
                None => (r.trim(), None),
            };
            path = format!("{file}::{p}");
            if all.contains_key(&path) {
                err("duplicate contract");
            }
            all.insert(path.clone(), Contract { ret, ..Default::default() });
            cur = Cur::None;
            continue;
        }
        if let Some(r) = line.strip_prefix("item ") {
            path = format!("{file}::{}", r.trim());
            all.insert(path.clone(), Contract::default());
            cur = Cur::None;
            continue;
        }
        let c = match all.get_mut(&path) {
            Some(c) => c,
            None => err("text outside a contract"),
        };
        if let Some(r) = line.strip_prefix("  ") {
            if !r.starts_with(' ') {
                let (w, rest) = r.split_once(' ').unwrap_or((r, ""));
                match w {
                    "attr" => {
                        c.attrs.push(rest.to_string());
                        continue;
                    }
                    "sig" => {
                        cur = Cur::Sig;
                        continue;
                    }
                    "loop" => {
                        let mut it = rest.split_whitespace();
                        let k: usize = it.next().unwrap().parse().unwrap();
                        let iter = it.next().and_then(|s| s.strip_prefix("iter=")).map(|s| s.to_string());
                        c.loops.insert(k, (iter, vec![]));
                        cur = Cur::Loop(k);
                        continue;
                    }
                    "closure" => {
                        let (k, h) = rest.split_once(' ').unwrap();
                        let k: usize = k.parse().unwrap();
                        c.closures.insert(k, (h.to_string(), vec![]));
                        cur = Cur::Closure(k);
                        continue;
                    }
                    "hint" => {
                        c.hints.push((rest.trim().to_string(), vec![]));
                        cur = Cur::Hint(c.hints.len() - 1);
                        continue;
                    }
                    "block" => {
                        c.blocks.push((rest.trim().to_string(), vec![]));
                        cur = Cur::Block(c.blocks.len() - 1);
                        continue;
                    }
                    _ => err("unknown keyword"),
                }
            }
        } else {
            err("bad indentation");
        }
        let line = line.to_string();
        {
            match &cur {
                Cur::None => err("no section"),
                Cur::Sig => c.sig.push(line),
                Cur::Loop(k) => c.loops.get_mut(k).unwrap().1.push(line),
                Cur::Hint(k) => c.hints[*k].1.push(line),
                Cur::Block(k) => c.blocks[*k].1.push(line),
                Cur::Closure(k) => c.closures.get_mut(k).unwrap().1.push(line),
            }
        }
    }
    for (p, c) in all.iter_mut() {
        if p.starts_with(&format!("{file}::")) && !c.used {
            c.sig = tag_lines(p, "sig", &c.sig);
            for (k, l) in c.loops.iter_mut() {
                l.1 = tag_lines(p, &format!("loop{k}"), &l.1);
            }
            for (k, l) in c.closures.iter_mut() {
                l.1 = tag_lines(p, &format!("closure{k}"), &l.1);
            }
            for h in c.blocks.iter_mut() {
                h.1 = tag_lines(p, "block", &h.1);
            }
            for h in c.hints.iter_mut() {
                h.1 = tag_lines(p, "hint", &h.1);
            }
        }
    }
}
