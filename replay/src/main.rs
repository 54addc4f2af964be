//! Executable judges of the properties: `search` looks for a violation among
//! generated cases, `replay` runs one again.
mod gen;
mod oracle;
mod run;
mod text;
mod util;

use libyaml_safer::Encoding;
use run::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: Limit = Limit;

#[derive(Clone, Debug)]
enum Case {
    Text(Feed),
    Emit(Config, Vec<Ev>, Sink),
    Reset(Feed, Feed, usize),
    ResetEmitter(Config, Vec<Ev>, Config, Vec<Ev>),
    Settings(Config, Vec<Ev>, usize, Vec<usize>),
    Build(Vec<oracle::Op>),
    Dump(Config, Vec<Vec<oracle::Op>>),
}

const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];

fn one_scalar(r: &mut Rng, v: String) -> Vec<Ev> {
    let place = r.below(6);
    let s = Ev::Scalar { anchor: None, tag: None, value: v, plain: true, quoted: true, style: gen::style(r) };
    let fixed = Ev::Scalar { anchor: None, tag: None, value: "k".into(), plain: true, quoted: true, style: libyaml_safer::ScalarStyle::Any };
    let mut e = vec![Ev::StreamStart(Encoding::Any), Ev::DocStart(None, vec![], r.one_in(2))];
    let flow = r.one_in(3);
    let seq = Ev::Seq { anchor: None, tag: None, implicit: true, style: if flow { libyaml_safer::SequenceStyle::Flow } else { libyaml_safer::SequenceStyle::Block } };
    let map = Ev::Map { anchor: None, tag: None, implicit: true, style: if flow { libyaml_safer::MappingStyle::Flow } else { libyaml_safer::MappingStyle::Block } };
    match place {
        0 | 1 => e.push(s),
        2 => { e.push(seq); e.push(s.clone()); e.push(s); e.push(Ev::SeqEnd) }
        3 => { e.push(map); e.push(fixed); e.push(s); e.push(Ev::MapEnd) }
        4 => { e.push(map); e.push(s.clone()); e.push(fixed.clone()); e.push(fixed); e.push(s); e.push(Ev::MapEnd) }
        _ => { e.push(seq.clone()); e.push(seq); e.push(s.clone()); e.push(Ev::SeqEnd); e.push(s); e.push(Ev::SeqEnd) }
    }
    e.push(Ev::DocEnd(r.one_in(2)));
    e.push(Ev::StreamEnd);
    e
}
fn sink(r: &mut Rng, fails: bool) -> Sink {
    Sink { piece: *r.pick(&[0usize, 0, 1, 7, 100, 5000]), interrupt: r.one_in(4), fail_after: if fails && r.one_in(3) { Some(if r.one_in(2) { r.below(60) } else { r.below(40000) }) } else { None }, ..Sink::default() }
}

/// The case with this number.
fn case(prop: &str, seed: u64, i: u64) -> Case {
    let mut rng = Rng(hash(format!("{prop} {seed} {i}").as_bytes()));
    let r = &mut rng;
    let exhaustive = i % 3 == 0;
    let n = i / 3;
    let plain_text = |r: &mut Rng| if exhaustive { Feed::whole(gen::nth_text(n).into_bytes()) } else { let t = gen::text(r); if r.one_in(3) { gen::feed(r, &t) } else { Feed::whole(t.into_bytes()) } };
    match prop {
        "C01" => {
            if i % 4 == 1 {
                let e = if r.one_in(2) { gen::any_events(r) } else if r.one_in(30) { gen::long_events(r) } else { gen::events(r) };
                return Case::Emit(gen::config(r, true), e, sink(r, true));
            }
            let f = plain_text(r);
            Case::Text(if r.one_in(4) { gen::broken(r, f) } else { f })
        }
        "C02" => {
            if i % 9 == 0 { return Case::Text(gen::nth_bytes(i / 9)); }
            let t = if r.one_in(20) { gen::big_text(r) } else { gen::text(r) };
            let f = gen::feed(r, &t);
            Case::Text(if r.one_in(2) { gen::broken(r, f) } else { f })
        }
        "C03" | "C04" | "C05" | "C06" | "C07" | "C12" | "C13" | "C16" | "C19" => {
            if !exhaustive && r.one_in(2) {
                let t = gen::special(r, prop);
                let t = if r.one_in(3) { gen::mutate(r, t) } else { t };
                return Case::Text(Feed::whole(t.into_bytes()));
            }
            Case::Text(plain_text(r))
        }
        "C08" => { let c = gen::config(r, false); let e = if exhaustive { gen::nth_events(n) } else if r.one_in(3) { gen::events(r) } else { gen::any_events(r) }; Case::Emit(c, e, Sink::default()) }
        "C09" | "C10" => {
            let c = gen::config(r, false);
            let e = if exhaustive { one_scalar(r, gen::nth_value(n)) } else if i % 3 == 1 { let v = gen::value(r); one_scalar(r, v) } else { gen::events(r) };
            Case::Emit(c, e, Sink::default())
        }
        "C11" => { let c = gen::config(r, true); let e = if r.one_in(4) { gen::long_events(r) } else { gen::events(r) }; Case::Emit(c, e, sink(r, true)) }
        "C14" => {
            if i % 2 == 0 {
                let (s, t) = (gen::text(r), gen::text(r));
                let (a, b) = (gen::feed(r, &s), gen::feed(r, &t));
                let a = if r.one_in(3) { gen::broken(r, a) } else { a };
                Case::Reset(a, b, r.below(30))
            } else {
                let a = if r.one_in(2) { gen::any_events(r) } else { gen::events(r) };
                let n = if r.one_in(2) { a.len() } else { r.below(a.len() + 1) };
                let a = a[..n].to_vec();
                Case::ResetEmitter(gen::config(r, true), a, gen::config(r, true), gen::events(r))
            }
        }
        "C15" => {
            let mut c = gen::config(r, false);
            if r.one_in(2) { c.indent = r.range(0, 12) as i32 - 1; c.width = r.range(0, 90) as i32 - 2; }
            let e = gen::events(r);
            let d = r.below(5);
            let k = r.range(2, 30);
            Case::Settings(c, e, d, (0..k).map(|_| r.range(1, 12)).collect())
        }
        "C17" => Case::Build(gen::ops(r)),
        "C18" => { let k = r.range(1, 3); Case::Dump(gen::config(r, false), (0..k).map(|_| gen::ops(r)).collect()) }
        _ => panic!("replay: no property {prop}"),
    }
}

fn judge(prop: &str, c: &Case) -> oracle::Verdict {
    use oracle::*;
    match (prop, c) {
        ("C01", Case::Text(f)) => no_panic_text(f),
        ("C01", Case::Emit(c, e, s)) => no_panic_emit(c, e, s),
        ("C02", Case::Text(f)) => decoding(f),
        ("C03", Case::Text(f)) => marks(f),
        ("C04", Case::Text(f)) => tokens(f),
        ("C05", Case::Text(f)) => event_grammar(f),
        ("C06", Case::Text(f)) => loading(f, false),
        ("C07", Case::Text(f)) => loading(f, true),
        ("C08", Case::Emit(c, e, _)) => emitting(c, e),
        ("C09", Case::Emit(c, e, _)) => round_trip(c, e, true),
        ("C10", Case::Emit(c, e, _)) => round_trip(c, e, false),
        ("C11", Case::Emit(c, e, s)) => output(c, e, s),
        ("C12", Case::Text(f)) => tags(f),
        ("C13", Case::Text(f)) => directives(f),
        ("C14", Case::Reset(a, b, n)) => resets(a, b, *n),
        ("C14", Case::ResetEmitter(a, b, c, d)) => resets_emitter(a, b, c, d),
        ("C15", Case::Settings(c, e, d, w)) => settings(c, e, *d, w),
        ("C16", Case::Text(f)) => errors(f),
        ("C17", Case::Build(o)) => building(o),
        ("C18", Case::Dump(c, d)) => dumping(c, d),
        ("C19", Case::Text(f)) => scalars(f),
        _ => panic!("replay: {prop} has no case of this form"),
    }
}
fn judged(prop: &str, c: &Case) -> oracle::Verdict {
    match catch_unwind(AssertUnwindSafe(|| judge(prop, c))) {
        Ok(v) => v,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("replay:") { eprintln!("{m}"); std::process::exit(2); }
            Err(format!("the code panics: {m}{}", LAST.with(|l| l.borrow().clone())))
        }
    }
}
thread_local!(static LAST: std::cell::RefCell<String> = Default::default());

/// Tries shorter inputs with the same outcome.
fn shrink(prop: &str, c: Case, until: Instant) -> Case {
    let mut c = c;
    if let Case::Text(f) = &c {
        let simple = Case::Text(Feed::whole(f.bytes.clone()));
        if judged(prop, &simple).is_err() { c = simple; }
    }
    loop {
        let mut better = None;
        let tries: Vec<Case> = match &c {
            Case::Text(f) => {
                let n = f.bytes.len();
                let mut v = vec![];
                let mut k = n / 2;
                while k > 0 {
                    for i in (0..n).step_by(k) { let mut g = f.clone(); g.bytes.drain(i..(i + k).min(n)); v.push(Case::Text(g)); }
                    k /= 2;
                }
                v
            }
            Case::Emit(cfg, e, s) => {
                let mut v = vec![];
                let p = Config { canonical: cfg.canonical, encoding: cfg.encoding, ..Config::plain() };
                if format!("{p:?}") != format!("{cfg:?}") { v.push(Case::Emit(p, e.clone(), s.clone())); }
                for i in 0..e.len() {
                    match &e[i] {
                        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
                            let mut d = e.clone(); d.remove(i); v.push(Case::Emit(cfg.clone(), d, s.clone()));
                            if i + 1 < e.len() { let mut d = e.clone(); d.drain(i..i + 2); v.push(Case::Emit(cfg.clone(), d, s.clone())); }
                            let cs: Vec<char> = value.chars().collect();
                            let mut put = |value: String, anchor: Option<String>, tag: Option<String>, plain, quoted| { let mut d = e.clone(); d[i] = Ev::Scalar { anchor, tag, value, plain, quoted, style: *style }; v.push(Case::Emit(cfg.clone(), d, s.clone())); };
                            if tag.is_some() || anchor.is_some() { put(value.clone(), None, None, true, true); }
                            if cs.len() > 1 && *value != "a" { put("a".into(), anchor.clone(), tag.clone(), *plain, *quoted); }
                            let mut k = cs.len() / 2;
                            while k > 0 { for j in (0..cs.len()).step_by(k) { let t: String = cs.iter().enumerate().filter(|(x, _)| *x < j || *x >= j + k).map(|x| *x.1).collect(); put(t, anchor.clone(), tag.clone(), *plain, *quoted); } k /= 2; }
                        }
                        Ev::Seq { .. } | Ev::Map { .. } => {
                            let mut depth = 0; let mut j = i;
                            while j < e.len() { match &e[j] { Ev::Seq { .. } | Ev::Map { .. } => depth += 1, Ev::SeqEnd | Ev::MapEnd => { depth -= 1; if depth == 0 { break } } _ => {} } j += 1 }
                            if j < e.len() {
                                let mut d = e.clone(); d.drain(i..=j); v.push(Case::Emit(cfg.clone(), d, s.clone()));
                                let mut d = e.clone(); d.remove(j); d.remove(i); v.push(Case::Emit(cfg.clone(), d, s.clone()));
                            }
                        }
                        Ev::DocStart(..) => {
                            if let Some(j) = e[i..].iter().position(|x| matches!(x, Ev::DocEnd(_))) { let mut d = e.clone(); d.drain(i..=i + j); v.push(Case::Emit(cfg.clone(), d, s.clone())); }
                        }
                        _ => {}
                    }
                }
                v.into_iter().filter(|c| matches!(c, Case::Emit(_, e, _) if oracle::grammar(e) == Ok(true) )).collect()
            }
            _ => vec![],
        };
        for t in tries {
            if Instant::now() > until { return c; }
            if judged(prop, &t).is_err() { better = Some(t); break; }
        }
        match better { Some(b) => c = b, None => return c }
    }
}

struct Run { prop: String, seed: u64, out: String, case: Mutex<Vec<(u64, Option<Instant>)>> }
static RUN: std::sync::OnceLock<Run> = std::sync::OnceLock::new();
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
/// Writes the violation down and ends the process.
fn violation(index: u64, c: Option<&Case>, message: &str) -> ! {
    static ONCE: AtomicBool = AtomicBool::new(false);
    if ONCE.swap(true, Relaxed) { loop { std::thread::sleep(Duration::from_secs(1)) } }
    let run = RUN.get().unwrap();
    let mut t = format!("property: {}\nseed: {}\nindex: {index}\n", run.prop, run.seed);
    if let Some(Case::Text(f)) = c {
        t.push_str(&format!("bytes: {}\nencoding: {:?}\nchunks: {:?}\ninterrupt: {}\n", hex(&f.bytes), f.encoding, f.chunks, f.interrupt));
        t.push_str(&format!("text: {:?}\n", String::from_utf8_lossy(&f.bytes)));
    }
    t.push_str(&format!("message: {}\n", message.replace('\n', "\n  ")));
    if let Some(c) = c { t.push_str(&format!("case: {c:?}\n")); }
    if let Err(e) = std::fs::write(&run.out, &t) { eprintln!("replay: {}: {e}", run.out); std::process::exit(2); }
    println!("FOUND {message}");
    std::process::exit(1);
}
pub fn out_of_memory() -> ! {
    if OVER.fetch_add(1, Relaxed) > 0 { loop { std::thread::sleep(Duration::from_millis(100)) } }
    USED.store(0, Relaxed);
    let me = ME.with(|m| m.get());
    if me == usize::MAX { eprintln!("replay: out of memory"); std::process::exit(2); }
    let i = RUN.get().unwrap().case.lock().unwrap()[me].0;
    violation(i, None, "the memory in use grows without bound");
}

fn search(prop: &str, seed: u64, secs: f64, out: &str, stats: Option<&str>) {
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let _ = RUN.set(Run { prop: prop.into(), seed, out: out.into(), case: Mutex::new(vec![(0, None); threads]) });
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static DONE: AtomicU64 = AtomicU64::new(0);
    let distinct: &'static Mutex<std::collections::HashSet<u64>> = Box::leak(Box::new(Mutex::new(Default::default())));
    let samples: &'static Mutex<Vec<String>> = Box::leak(Box::new(Mutex::new(vec![])));
    let live: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(threads as u64)));
    for me in 0..threads {
        let prop = prop.to_string();
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            ME.with(|m| m.set(me));
            let run = RUN.get().unwrap();
            let mut mine = std::collections::HashSet::new();
            let mut kept: Vec<String> = vec![];
            let mut n = 0u64;
            while Instant::now() < end {
                let i = NEXT.fetch_add(1, Relaxed);
                run.case.lock().unwrap()[me] = (i, Some(Instant::now()));
                let c = case(&prop, seed, i);
                let v = judged(&prop, &c);
                match v {
                    Err(m) => {
                        run.case.lock().unwrap()[me] = (i, None);
                        let c = shrink(&prop, c, Instant::now() + Duration::from_secs(5));
                        let m = judged(&prop, &c).err().unwrap_or(m);
                        violation(i, Some(&c), &m);
                    }
                    Ok(true) => { let d = format!("{c:?}"); mine.insert(hash(d.as_bytes())); if kept.len() < 2 && n > 50 { kept.push(d.chars().take(400).collect()); } }
                    Ok(false) => {}
                }
                n += 1;
            }
            run.case.lock().unwrap()[me] = (0, None);
            DONE.fetch_add(n, Relaxed);
            distinct.lock().unwrap().extend(mine);
            samples.lock().unwrap().extend(kept);
            live.fetch_sub(1, Relaxed);
        }).unwrap();
    }
    while live.load(Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let slow = RUN.get().unwrap().case.lock().unwrap().iter().find(|c| c.1.map_or(false, |t| t.elapsed() > Duration::from_secs(20))).map(|c| c.0);
        if let Some(i) = slow { violation(i, None, "the code does not end within 20 s"); }
    }
    let s = samples.lock().unwrap();
    let t = format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}, \"samples\": [{}]}}", DONE.load(Relaxed), distinct.lock().unwrap().len(), start.elapsed().as_secs_f64(), s.iter().take(6).map(|x| json(x)).collect::<Vec<_>>().join(", "));
    if let Some(p) = stats { if let Err(e) = std::fs::write(p, &t) { eprintln!("replay: {p}: {e}"); std::process::exit(2); } }
    println!("{t}");
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map_or(String::new(), |l| format!(" ({}:{})", l.file(), l.line()));
        LAST.with(|x| *x.borrow_mut() = l);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let prop = &a[2];
            if !PROPS.contains(&prop.as_str()) { eprintln!("replay: no property {prop}"); std::process::exit(2); }
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            search(prop, seed, secs, &opt("--out").unwrap_or("violation.txt".into()), opt("--stats").as_deref());
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| { eprintln!("replay: {}: {e}", a[2]); std::process::exit(2) });
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).map(|s| s.to_string());
            let prop = get("property").unwrap_or_default();
            let num = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            let c = match get("bytes") {
                Some(b) => Case::Text(Feed {
                    bytes: (0..b.len() / 2).map(|i| u8::from_str_radix(&b[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
                    encoding: match get("encoding").as_deref() { Some("Utf8") => Encoding::Utf8, Some("Utf16Le") => Encoding::Utf16Le, Some("Utf16Be") => Encoding::Utf16Be, _ => Encoding::Any },
                    chunks: get("chunks").unwrap_or_default().trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect(),
                    interrupt: get("interrupt").as_deref() == Some("true"),
                }),
                None => case(&prop, num("seed"), num("index")),
            };
            println!("{c:?}");
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || judged(&prop, &c)).unwrap();
            let start = Instant::now();
            while !h.is_finished() {
                std::thread::sleep(Duration::from_millis(20));
                if start.elapsed() > Duration::from_secs(60) { println!("FOUND the code does not end within 60 s"); std::process::exit(1); }
            }
            match h.join().unwrap() { Ok(_) => println!("the property holds"), Err(m) => { println!("FOUND {m}"); std::process::exit(1) } }
        }
        _ => { eprintln!("usage: replay search PROPERTY [--seed N] [--secs S] [--out FILE] [--stats FILE] | replay replay FILE"); std::process::exit(2) }
    }
    let _ = std::io::stdout().flush();
}
