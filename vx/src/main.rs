//! vx: splices contracts into the real sources of libyaml-safer.
//!
//! usage: vx SRC_DIR CONTRACT_DIR OUT_DIR [--external FN]... [--drop-hints FN]... [--probe]
//!
//! Reads every .rs file directly under SRC_DIR, keeps its text, applies the
//! rewrites listed in `rewrites` below (each recorded in OUT_DIR/map.txt), and
//! inserts the ghost text of CONTRACT_DIR/*.vc at positions found in the syntax
//! tree.  Nothing is copied from an earlier run.
mod contracts;
mod edit;
mod rewrites;

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub struct Report {
    pub lines: Vec<String>,
}
impl Report {
    pub fn add(&mut self, s: String) {
        self.lines.push(s);
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let src: PathBuf = args.next().expect("SRC_DIR").into();
    let con: PathBuf = args.next().expect("CONTRACT_DIR").into();
    let out: PathBuf = args.next().expect("OUT_DIR").into();
    let mut external = BTreeSet::new();
    let mut nohints = BTreeSet::new();
    let mut probe = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--external" => {
                external.insert(args.next().unwrap());
            }
            // Adds an assertion that must fail to every function under contract.
            "--probe" => probe = true,
            "--drop-hints" => {
                nohints.insert(args.next().unwrap());
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    std::fs::create_dir_all(&out).unwrap();
    let mut report = Report { lines: vec![] };
    let mut contracts = BTreeMap::new();
    let mut pre: BTreeMap<String, String> = BTreeMap::new();
    let mut names: Vec<_> = std::fs::read_dir(&con)
        .unwrap()
        .map(|e| e.unwrap().path())
        .collect();
    names.sort();
    for p in names {
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        match p.extension().and_then(|e| e.to_str()) {
            Some("vc") => {
                let text = std::fs::read_to_string(&p).unwrap();
                contracts::parse(&stem, &text, &mut contracts);
            }
            // NAME.rs: appended to module NAME; MOD.NAME.rs: appended to module MOD.
            Some("rs") => {
                let text = std::fs::read_to_string(&p).unwrap();
                let module = stem.split('.').next().unwrap().to_string();
                pre.entry(module).or_default().push_str(&text);
            }
            _ => {}
        }
    }

    if probe {
        for c in contracts.values_mut() {
            c.hints.insert(0, ("start".into(), vec![" proof { assert(false); }".into()]));
        }
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(&src)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.is_file() && p.extension().map_or(false, |e| e == "rs"))
        .collect();
    files.sort();
    let mut modules: Vec<String> = vec![];
    let mut defaults = vec![];
    for f in &files {
        let stem = f.file_stem().unwrap().to_str().unwrap().to_string();
        let (names, text) = rewrites::defaults(&stem, &std::fs::read_to_string(f).unwrap());
        defaults.extend(names);
        pre.entry("vxderive".into()).or_default().push_str(&text);
    }
    for f in &files {
        let stem = f.file_stem().unwrap().to_str().unwrap().to_string();
        let text = std::fs::read_to_string(f).unwrap();
        let new = rewrites::process(
            &stem,
            &text,
            &mut contracts,
            pre.get(&stem).map(|s| s.as_str()),
            &external,
            &nohints,
            &defaults,
            &mut report,
        );
        modules.push(stem.clone());
        std::fs::write(out.join(format!("{stem}.rs")), new).unwrap();
    }
    // Whole ghost modules: contracts for which no source file exists.
    for (m, text) in &pre {
        if !modules.contains(m) {
            std::fs::write(out.join(format!("{m}.rs")), text).unwrap();
            let p = out.join("lib.rs");
            let lib = std::fs::read_to_string(&p).unwrap();
            std::fs::write(&p, format!("{lib}\npub mod {m};\n")).unwrap();
            report.add(format!("ghostmod {m}"));
        }
    }
    for (k, c) in &contracts {
        if !c.used {
            report.add(format!("lost-fn {k}"));
        }
        for t in c.lost.borrow().iter() {
            report.add(format!("lost-anchor {k} {t}"));
        }
    }
    std::fs::write(out.join("map.txt"), report.lines.join("\n") + "\n").unwrap();
}
