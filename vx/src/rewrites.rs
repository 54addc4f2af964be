//! Text edits on the real source, found in its syntax tree.
use crate::contracts::Contract;
use crate::edit::Edits;
use crate::Report;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

/// Trait implementations the verifier does not look at (formatting, error
/// conversion, iterator sugar); listed in the evidence.
const EXTERNAL_TRAITS: &[&str] = &["Display", "Error", "TryFrom", "Iterator", "FusedIterator"];

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "").contains("(test)")
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn process(
    stem: &str,
    text: &str,
    contracts: &mut BTreeMap<String, Contract>,
    pre: Option<&str>,
    external: &BTreeSet<String>,
    nohints: &BTreeSet<String>,
    defaults: &[String],
    report: &mut Report,
) -> String {
    let file = syn::parse_file(text).unwrap_or_else(|e| panic!("{stem}.rs: {e}"));
    let mut ed = Edits::default();
    for a in &file.attrs {
        let (s, e) = rng(a.span());
        ed.replace(s, e, "");
        report.add(format!("drop {stem} inner attribute {}", a.path().to_token_stream()));
    }
    let mut open = false;
    let mut used_group = false;
    let mut last_end = 0;
    for item in &file.items {
        let (s, e) = rng(item.span());
        let outside = match item {
            syn::Item::Macro(_) | syn::Item::Use(_) | syn::Item::ExternCrate(_) => true,
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    ed.replace(s, e, "");
                    report.add(format!("drop {stem} test module {}", m.ident));
                }
                true
            }
            _ => false,
        };
        if let syn::Item::Macro(m) = item {
            macro_rules(stem, m.mac.tokens.clone(), &mut ed, report);
        }
        if outside && open {
            ed.insert(last_end, "\n} // verus!\n");
            open = false;
        }
        if !outside && !open {
            ed.insert(s, "::vstd::prelude::verus!{\n");
            if !used_group {
                // `error` defines what the larger group states.
                let group = match stem {
                    "error" => "group_base",
                    "scanner" | "reader" | "macros" => "group_all",
                    _ => "group_parser",
                };
                ed.insert(s, &format!("broadcast use {{ {} }};\n", std::iter::once(format!("crate::spec::{group}")).chain(defaults.iter().filter(|d| stem != "error" || d.contains("::error::")).cloned()).collect::<Vec<_>>().join(", ")));
                used_group = true;
            }
            open = true;
        }
        last_end = e;
        if !outside {
            process_item(stem, item, contracts, external, nohints, &mut ed, report);
            if let Some((name, def)) = derived(item) {
                ed.insert(e, &format!("\npub assume_specification [<{name} as Default>::default] () -> (x: {name}) ensures {def}, crate::vxstd::default_of::<{name}>(x);\n"));
            }
        }
    }
    if open {
        ed.insert(last_end, "\n} // verus!\n");
    }
    let mut out = ed.apply(text);
    if stem == "lib" {
        out = format!("#![feature(allocator_api, pattern)]\n#![allow(unused, non_camel_case_types)]\n#![verifier::exec_allows_no_decreases_clause]\n{out}");
    }
    if let Some(p) = pre {
        out.push_str(&format!("\n//@pre {stem}\n"));
        out.push_str(p);
    }
    if stem != "lib" {
        out = format!("#[allow(unused)] use vstd::prelude::*; #[allow(unused)] use crate::spec::*; #[allow(unused)] use crate::vxstd::VxBytes;\n{out}");
    } else {
        out.push_str("\n#[allow(unused)] use vstd::prelude::*; #[allow(unused)] use crate::spec::*; #[allow(unused)] use crate::vxstd::VxBytes;\n");
    }
    out
}

/// In the body of a macro: `E.map(|x| F).unwrap_or(D)` becomes
/// `match E { Some(x) => F, None => D }`, which means the same for an Option.
fn macro_rules(stem: &str, ts: TokenStream, ed: &mut Edits, report: &mut Report) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for t in &v {
        if let TokenTree::Group(g) = t {
            macro_rules(stem, g.stream(), ed, report);
        }
    }
    let word = |t: &TokenTree, w: &str| t.to_string() == w;
    for i in 1..v.len() {
        if i + 5 < v.len()
            && word(&v[i], ".")
            && word(&v[i + 1], "map")
            && word(&v[i + 3], ".")
            && word(&v[i + 4], "unwrap_or")
        {
            let (TokenTree::Group(f), TokenTree::Group(d)) = (&v[i + 2], &v[i + 5]) else { continue };
            let c: Vec<TokenTree> = f.stream().into_iter().collect();
            if c.len() < 4 || !word(&c[0], "|") || !word(&c[2], "|") || i + 6 != v.len() {
                continue;
            }
            let start = rng(v[0].span()).0;
            let dot = rng(v[i].span()).0;
            let end = rng(d.span()).1;
            let id = c[1].to_string();
            let fs = rng(c[3].span()).0;
            let fe = rng(c.last().unwrap().span()).1;
            ed.insert(start, "match ");
            ed.replace(dot, fs, format!(" {{ Some({id}) => "));
            ed.replace(fe, end, format!(", None => {} }}", d.stream()));
            report.add(format!("rewrite {stem} macro map-unwrap_or"));
        }
    }
}

fn attrs_for(c: Option<&Contract>) -> String {
    c.map(|c| c.attrs.iter().map(|a| format!("{a}\n")).collect()).unwrap_or_default()
}

/// Start of an item proper, after its outer attributes.
fn after_attrs(item: &impl ToTokens, nattrs: &[syn::Attribute]) -> usize {
    match nattrs.last() {
        Some(a) => {
            let end = rng(a.span()).1;
            // first token after `end`
            for t in item.to_token_stream() {
                let (s, _) = rng(t.span());
                if s >= end {
                    return s;
                }
            }
            end
        }
        None => rng(item.span()).0,
    }
}

/// Types that derive PartialEq and Copy: `==` is equality of the values, which
/// is what `Structural` tells the verifier.
fn structural(attrs: &[syn::Attribute], ed: &mut Edits) {
    for a in attrs {
        if a.path().is_ident("derive") {
            let t = a.meta.to_token_stream().to_string().replace(' ', "");
            if t.contains("PartialEq") && t.contains("Copy") {
                let (_, e) = rng(a.span());
                ed.insert(e, "\n#[derive(Structural)]");
            }
        }
    }
}

fn derives(attrs: &[syn::Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == what)
    })
}

/// What the derived `Default` of the types of a file ensures: names, and the
/// text of the ghost module that states them.
pub fn defaults(stem: &str, text: &str) -> (Vec<String>, String) {
    let file = syn::parse_file(text).unwrap_or_else(|e| panic!("{stem}.rs: {e}"));
    let mut v = vec![];
    for item in &file.items {
        if let Some(d) = derived(item) {
            v.push(d);
        }
    }
    if v.is_empty() {
        return (vec![], String::new());
    }
    let path = if stem == "lib" { String::new() } else { format!("::{stem}") };
    let mut out = format!("pub mod {stem} {{ use vstd::prelude::*; use crate{path}::*; use alloc::string::String; use alloc::vec::Vec;\n");
    if stem != "lib" {
        for item in &file.items {
            if let syn::Item::Use(u) = item {
                out.push_str(&u.to_token_stream().to_string());
                out.push('\n');
            }
        }
    }
    out.push_str("verus! {\n");
    for (name, def) in &v {
        out.push_str(&format!("#[verifier::external_body] pub broadcast proof fn vx_default_{name}(x: {name}) requires #[trigger] crate::vxstd::default_of::<{name}>(x) ensures {def} {{}}\n"));
    }
    out.push_str("} }\n");
    (v.iter().map(|(n, _)| format!("crate::vxderive::{stem}::vx_default_{n}")).collect(), out)
}

/// What the derived `Default` of a type does, written out for the
/// verifier, which has no specification for them.
fn derived(item: &syn::Item) -> Option<(String, String)> {
    match item {
        syn::Item::Enum(e) if e.generics.params.is_empty() && matches!(e.vis, syn::Visibility::Public(_)) => {
            if !derives(&e.attrs, "Default") {
                return None;
            }
            let Some(v) = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) else { return None };
            Some((e.ident.to_string(), format!("x is {}", v.ident)))
        }
        syn::Item::Struct(s) if s.generics.params.is_empty() && matches!(s.vis, syn::Visibility::Public(_)) => {
            let syn::Fields::Named(f) = &s.fields else { return None };
            if !f.named.iter().all(|f| matches!(f.vis, syn::Visibility::Public(_))) {
                return None;
            }
            let name = s.ident.to_string();
            let def = derives(&s.attrs, "Default").then(|| {
                let all: Vec<String> = f.named.iter().map(|f| {
                    let i = f.ident.as_ref().unwrap();
                    let t = f.ty.to_token_stream().to_string().replace(' ', "");
                    match t.as_str() {
                        "bool" => format!("!x.{i}"),
                        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" => format!("x.{i} == 0"),
                        "String" => format!("x.{i}@.len() == 0"),
                        t if t.starts_with("Option<") => format!("x.{i} is None"),
                        t if t.starts_with("Vec<") => format!("x.{i}@.len() == 0"),
                        t => format!("crate::vxstd::default_of::<{t}>(x.{i})"),
                    }
                }).collect();
                all.join(" && ")
            });
            def.map(|d| (name, d))
        }
        _ => None,
    }
}

fn process_item(
    stem: &str,
    item: &syn::Item,
    contracts: &mut BTreeMap<String, Contract>,
    external: &BTreeSet<String>,
    nohints: &BTreeSet<String>,
    ed: &mut Edits,
    report: &mut Report,
) {
    match item {
        syn::Item::Struct(s) => {
            structural(&s.attrs, ed);
            let path = format!("{stem}::{}", s.ident);
            let fields: Vec<String> = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
            report.add(format!("fields {path} {}", fields.join(",")));
            if let Some(c) = contracts.get_mut(&path) {
                c.used = true;
                ed.insert(after_attrs(item, &s.attrs), attrs_for(Some(c)));
            }
            let mut v = V { ed, report, stem, path: path.clone(), loops: vec![], closures: vec![], arrays: vec![] };
            v.visit_item(item);
        }
        syn::Item::Enum(s) => {
            structural(&s.attrs, ed);
            let path = format!("{stem}::{}", s.ident);
            if let Some(c) = contracts.get_mut(&path) {
                c.used = true;
                ed.insert(after_attrs(item, &s.attrs), attrs_for(Some(c)));
            }
        }
        syn::Item::Type(_) => {}
        syn::Item::Const(c) => {
            if let syn::Visibility::Restricted(r) = &c.vis {
                let (s, e) = rng(r.span());
                ed.replace(s, e, "pub");
            }
            if let syn::Type::Reference(r) = &*c.ty {
                if r.lifetime.is_none() {
                    ed.insert(rng(r.and_token.span()).1, "'static ");
                }
            }
        }
        syn::Item::Fn(f) => {
            if is_cfg_test(&f.attrs) {
                let (s, e) = rng(f.span());
                ed.replace(s, e, "");
                return;
            }
            let path = format!("{stem}::{}", f.sig.ident);
            function(stem, &path, &f.attrs, after_attrs(item, &f.attrs), &f.sig, &f.block, contracts, external, nohints, ed, report);
        }
        syn::Item::Impl(im) => {
            let ty = type_name(&im.self_ty);
            if let Some((_, tr, _)) = &im.trait_ {
                let t = tr.segments.last().unwrap().ident.to_string();
                if EXTERNAL_TRAITS.contains(&t.as_str()) {
                    ed.insert(after_attrs(item, &im.attrs), "#[verifier::external]\n");
                    report.add(format!("external-impl {stem}::{t} for {ty}"));
                    return;
                }
            }
            let mut v = V { ed, report, stem, path: format!("{stem}::{ty}"), loops: vec![], closures: vec![], arrays: vec![] };
            for g in &im.generics.params {
                v.visit_generic_param(g);
            }
            for i in &im.items {
                if let syn::ImplItem::Fn(f) = i {
                    let path = match &im.trait_ {
                        Some((_, tr, _)) => format!("{stem}::{ty}::{}::{}", tr.segments.last().unwrap().ident, f.sig.ident),
                        None => format!("{stem}::{ty}::{}", f.sig.ident),
                    };
                    function(stem, &path, &f.attrs, after_attrs(i, &f.attrs), &f.sig, &f.block, contracts, external, nohints, ed, report);
                }
            }
        }
        other => {
            report.add(format!("unhandled-item {stem} {}", other.to_token_stream().to_string().chars().take(60).collect::<String>()));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn function(
    stem: &str,
    path: &str,
    attrs: &[syn::Attribute],
    start: usize,
    sig: &syn::Signature,
    block: &syn::Block,
    contracts: &mut BTreeMap<String, Contract>,
    external: &BTreeSet<String>,
    nohints: &BTreeSet<String>,
    ed: &mut Edits,
    report: &mut Report,
) {
    let _ = attrs;
    let ext = external.contains(path);
    let mut c = contracts.get_mut(path);
    let mut head = attrs_for(c.as_deref());
    if ext {
        head.push_str("#[verifier::external_body]\n");
    }
    // A marker the driver uses to find the function of a generated line.
    head = format!("/*@fn {path}*/ {head}");
    ed.insert(start, head);
    let body_open = rng(block.brace_token.span.open()).0;
    let mut sig_text = String::new();
    if let Some(c) = &mut c {
        c.used = true;
        if let Some(r) = &c.ret {
            match &sig.output {
                syn::ReturnType::Type(_, ty) => {
                    let (s, e) = rng(ty.span());
                    ed.insert(s, format!("({r}: "));
                    ed.insert(e, ")");
                }
                syn::ReturnType::Default => c.lost.borrow_mut().push("return value".into()),
            }
        }
        if !c.sig.is_empty() {
            sig_text = format!("\n{}\n", c.sig.join("\n"));
        }
    }
    ed.insert(body_open, format!("{sig_text}/*@body*/ "));
    let closures;
    let nloops = {
        let mut v = V { ed, report, stem, path: path.to_string(), loops: vec![], closures: vec![], arrays: vec![] };
        v.visit_signature(sig);
        v.visit_block(block);
        // Some(output), where the parameter `output: &mut Vec<u8>` is unsized to
        // `&mut dyn Write`.
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let ty = t.ty.to_token_stream().to_string().replace(' ', "");
                if ty.starts_with('&') && ty.ends_with("mutVec<u8>") {
                    let mut s = Unsize { name: t.pat.to_token_stream().to_string(), found: vec![] };
                    s.visit_block(block);
                    for (x, y) in s.found {
                        v.ed.insert(x, "crate::vxstd::vec_sink(");
                        v.ed.insert(y, ")");
                        v.note("unsize-vec-to-Sink");
                    }
                }
            }
        }
        // `mut self`
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if r.reference.is_none() {
                if let Some(m) = r.mutability {
                    let (s, e) = rng(m.span());
                    v.ed.replace(s, e, "");
                    v.ed.insert(body_open + 1, " let mut vx_self = self; ");
                    rename_self(block.to_token_stream(), v.ed);
                    v.report.add(format!("rewrite {path} mut-self"));
                }
            }
        }
        let mut sh = Shape::default();
        sh.visit_block(block);
        v.report.add(format!(
            "shape {path} loops={} calls={}",
            if sh.loops.is_empty() { "-" } else { &sh.loops },
            sh.calls.into_iter().collect::<Vec<_>>().join(",")
        ));
        let l = std::mem::take(&mut v.loops);
        closures = std::mem::take(&mut v.closures);
        l
    };
    let Some(c) = contracts.get(path) else {
        report.add(format!("fn {path} loops={} contract=no external={ext}", nloops.len()));
        return;
    };
    report.add(format!(
        "fn {path} loops={} contract=yes external={ext} loop-contracts={}",
        nloops.len(),
        c.loops.len()
    ));
    if ext {
        return;
    }
    if !c.loops.is_empty() && c.loops.keys().max().unwrap() + 1 != nloops.len() {
        c.lost.borrow_mut().push(format!("loop-count {} expected {}", nloops.len(), c.loops.keys().max().unwrap() + 1));
    }
    for (k, (iter, lines)) in &c.loops {
        match nloops.get(*k) {
            Some(l) => {
                if let (Some(i), Some(at)) = (iter, l.iter_at) {
                    ed.insert(at, format!("{i}: "));
                }
                ed.insert(l.body.0, format!("\n{}\n", lines.join("\n")));
            }
            None => c.lost.borrow_mut().push(format!("loop {k}")),
        }
    }
    for (k, (header, lines)) in &c.closures {
        match closures.get(*k) {
            Some((s, e)) => ed.replace(*s, *e, format!("{header}\n{}\n", lines.join("\n"))),
            None => c.lost.borrow_mut().push(format!("closure {k}")),
        }
    }
    if nohints.contains(path) {
        return;
    }
    let calls = {
        let mut cv = Calls { stmts: vec![], found: vec![], rets: vec![] };
        cv.visit_block(block);
        cv
    };
    // A block: `loop CLAUSES { STATEMENT; break; }`.
    for (anchor, lines) in &c.blocks {
        let (name, n) = anchor.split_once('#').unwrap_or((anchor, "0"));
        let hit = calls.found.iter().filter(|f| f.0 == name).nth(n.parse().unwrap_or(usize::MAX)).map(|h| h.1);
        match hit.filter(|h| free_statement(block, *h)) {
            Some((a, b)) => {
                ed.insert(a, format!("\nloop\n{}\n    decreases 0int,\n{{\n", lines.join("\n")));
                ed.insert(b, "\n; break; }\n");
                report.add(format!("rewrite {path} block-contract"));
            }
            None => c.lost.borrow_mut().push(format!("block {anchor}")),
        }
    }
    for (anchor, lines) in &c.hints {
        let text = format!("\n{}\n", lines.join("\n"));
        // After the value of the body is known: `let vx_ret = VALUE; HINT vx_ret`.
        if anchor == "ret" {
            match block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => {
                    let (a, b) = rng(e.span());
                    ed.insert(a, "let vx_ret = ");
                    ed.insert(b, format!(";{text}vx_ret "));
                }
                _ => c.lost.borrow_mut().push(format!("hint {anchor}")),
            }
            continue;
        }
        let at = (|| -> Option<usize> {
            if anchor == "start" {
                return Some(body_open + 1);
            }
            if anchor == "end" {
                return Some(rng(block.brace_token.span.close()).0);
            }
            let (kind, rest) = anchor.split_once(':')?;
            match kind {
                "loop-start" => return Some(nloops.get(rest.parse::<usize>().ok()?)?.body.0 + 1),
                "loop-end" => return Some(nloops.get(rest.parse::<usize>().ok()?)?.body.1 - 1),
                "loop-before" => return Some(nloops.get(rest.parse::<usize>().ok()?)?.stmt_start),
                "loop-after" => return Some(nloops.get(rest.parse::<usize>().ok()?)?.body.1),
                "before-return" => return Some(*calls.rets.get(rest.parse::<usize>().ok()?)?),
                _ => {}
            }
            let (name, n) = rest.split_once('#').unwrap_or((rest, "0"));
            let n: usize = n.parse().ok()?;
            let hit = calls.found.iter().filter(|f| f.0 == name).nth(n)?;
            match kind {
                "before" => Some(hit.1 .0),
                "after" => Some(hit.1 .1),
                _ => None,
            }
        })();
        match at {
            Some(at) => ed.insert(at, text),
            None => c.lost.borrow_mut().push(format!("hint {anchor}")),
        }
    }
}

/// Whether the statement at `at` is an expression of no value that does not leave a loop
/// around it.
fn free_statement(block: &syn::Block, at: (usize, usize)) -> bool {
    struct Find {
        at: (usize, usize),
        ok: bool,
    }
    impl<'ast> Visit<'ast> for Find {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            let last = b.stmts.len().wrapping_sub(1);
            for (i, s) in b.stmts.iter().enumerate() {
                if rng(s.span()) == self.at {
                    if let syn::Stmt::Expr(e, semi) = s {
                        let mut j = Jumps { found: false };
                        j.visit_expr(e);
                        self.ok = !j.found && (semi.is_some() || i != last);
                    }
                }
            }
            visit::visit_block(self, b);
        }
    }
    let mut f = Find { at, ok: false };
    f.visit_block(block);
    f.ok
}
/// A `break` or `continue` of a loop outside.
struct Jumps {
    found: bool,
}
impl<'ast> Visit<'ast> for Jumps {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.found = true;
    }
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
        self.found = true;
    }
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

fn rename_self(ts: TokenStream, ed: &mut Edits) {
    for t in ts {
        match t {
            TokenTree::Group(g) => rename_self(g.stream(), ed),
            TokenTree::Ident(i) if i == "self" => {
                let (s, e) = rng(i.span());
                ed.replace(s, e, "vx_self");
            }
            _ => {}
        }
    }
}

struct Unsize {
    name: String,
    found: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for Unsize {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if c.func.to_token_stream().to_string() == "Some" && c.args.len() == 1 && c.args[0].to_token_stream().to_string() == self.name {
            self.found.push(rng(c.args[0].span()));
        }
        visit::visit_expr_call(self, c);
    }
}

/// std functions that are called through a wrapper of the same meaning.
const WRAPPED_PATHS: &[(&str, &str)] = &[
    ("String::from", "crate::vxstd::string_from"),
    ("core::char::decode_utf16", "crate::vxstd::decode_utf16"),
    ("char::decode_utf16", "crate::vxstd::decode_utf16"),
    ("u16::from_be_bytes", "crate::vxstd::u16_from_be_bytes"),
    ("u16::from_le_bytes", "crate::vxstd::u16_from_le_bytes"),
    ("i32::from_be_bytes", "crate::vxstd::i32_from_be_bytes"),
    ("i32::from_le_bytes", "crate::vxstd::i32_from_le_bytes"),
];
const WRAPPED_METHODS: &[(&str, &str)] = &[("to_be_bytes", "vx_to_be_bytes"), ("to_le_bytes", "vx_to_le_bytes")];

struct LoopPos {
    body: (usize, usize),
    iter_at: Option<usize>,
    stmt_start: usize,
}

struct V<'a> {
    ed: &'a mut Edits,
    report: &'a mut Report,
    stem: &'a str,
    path: String,
    loops: Vec<LoopPos>,
    /// From the first `|` of a closure to its body.
    closures: Vec<(usize, usize)>,
    /// Local variables of an array type.
    arrays: Vec<String>,
}

impl V<'_> {
    fn note(&mut self, what: &str) {
        let p = self.path.clone();
        self.report.add(format!("rewrite {p} {what}"));
        let _ = self.stem;
    }
    fn macro_text(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        // format!("{}{}", a, b) of two strings is their concatenation.
        if name == "format" {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(args) = syn::parse::Parser::parse2(p, m.tokens.clone()) {
                let a: Vec<_> = args.iter().collect();
                if a.len() == 3 && a[0].to_token_stream().to_string() == "\"{}{}\"" {
                    let (s, e) = rng(m.span());
                    let text = |x: &syn::Expr| x.span().source_text().unwrap_or_else(|| x.to_token_stream().to_string());
                    self.ed.replace(s, e, format!("crate::vxstd::format2(&{}, &{})", text(a[1]), text(a[2])));
                    self.note("format-two-strings");
                }
            }
        }
        if name == "assert_eq" || name == "assert_ne" || name == "debug_assert_eq" || name == "debug_assert_ne" {
            // assert_eq!(a, b) panics exactly when assert!(a == b) does.
            let op = if name.ends_with("eq") { " == " } else { " != " };
            let mut depth_commas = vec![];
            for t in m.tokens.clone() {
                if let TokenTree::Punct(p) = &t {
                    if p.as_char() == ',' {
                        depth_commas.push(rng(p.span()));
                    }
                }
            }
            let (s, e) = rng(m.path.span());
            self.ed.replace(s, e, "assert");
            if let Some((s, e)) = depth_commas.first() {
                self.ed.replace(*s, *e, op);
            }
            self.note("assert_eq/ne");
        }
    }
}

/// `break VALUE` expressions that leave this loop.
struct Breaks {
    found: Vec<(usize, usize, usize, usize)>,
}
impl<'ast> Visit<'ast> for Breaks {
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        if let (None, Some(e)) = (&b.label, &b.expr) {
            let (s, t) = rng(b.span());
            let (es, et) = rng(e.span());
            self.found.push((s, t, es, et));
        }
    }
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

impl<'ast> Visit<'ast> for V<'_> {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let t = p.to_token_stream().to_string().replace(' ', "");
        if let Some((_, w)) = WRAPPED_PATHS.iter().find(|w| w.0 == t) {
            let (a, b) = rng(p.span());
            self.ed.replace(a, b, *w);
            self.note(&format!("wrapped-std {t}"));
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let t = m.method.to_string();
        if let Some((_, w)) = WRAPPED_METHODS.iter().find(|w| w.0 == t) {
            let (a, b) = rng(m.method.span());
            self.ed.replace(a, b, *w);
            self.note(&format!("wrapped-std {t}"));
        }
        // X.chunks_exact(N).map(F) => map_chunks(X, N, F)
        if t == "map" && m.args.len() == 1 {
            if let syn::Expr::MethodCall(r) = &*m.receiver {
                if r.method == "chunks_exact" && r.args.len() == 1 {
                    let (xs, xe) = rng(r.receiver.span());
                    let (fs, _) = rng(m.args[0].span());
                    let n = r.args[0].to_token_stream().to_string();
                    self.ed.insert(xs, "crate::vxstd::map_chunks(");
                    self.ed.replace(xe, fs, format!(", {n}, "));
                    self.note("chunks_exact-map");
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closures.push((rng(c.or1_token.span()).0, rng(c.body.span()).0));
        visit::visit_expr_closure(self, c);
    }
    fn visit_type_reference(&mut self, t: &'ast syn::TypeReference) {
        if let syn::Type::TraitObject(o) = &*t.elem {
            let s = o.to_token_stream().to_string().replace(' ', "");
            let (a, b) = rng(o.span());
            match s.as_str() {
                "dynBufRead" | "dynstd::io::BufRead" => {
                    self.ed.replace(a, b, "impl BufRead");
                    self.note("dyn-BufRead-to-impl");
                }
                "dynstd::io::Write" | "dynWrite" => {
                    self.ed.replace(a, b, "crate::vxstd::Sink");
                    self.note("dyn-Write-to-Sink");
                }
                _ => self.note(&format!("unknown-dyn {s}")),
            }
        }
        visit::visit_type_reference(self, t);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if matches!(&*a.left, syn::Expr::Infer(_)) {
            self.ed.insert(rng(a.span()).0, "let ");
            self.note("discard-assign");
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macro_text(m);
        // Expressions in the arguments of assert!, matches! ... are not edited.
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let syn::Pat::Type(t) = &l.pat {
            if let (syn::Pat::Ident(i), syn::Type::Array(_)) = (&*t.pat, &*t.ty) {
                self.arrays.push(i.ident.to_string());
            }
        }
        if let Some(init) = &l.init {
            if let syn::Expr::Loop(lp) = &*init.expr {
                let mut b = Breaks { found: vec![] };
                b.visit_block(&lp.body);
                if !b.found.is_empty() {
                    let var = format!("vx_brk{}", self.loops.len());
                    let (ls, le) = rng(l.span());
                    let (xs, xe) = rng(lp.span());
                    let _ = le;
                    // let PAT = loop { .. break v .. };
                    //   => let vx; loop { .. { vx = v; break } .. } let PAT = vx;
                    let pat = l.pat.span().source_text().unwrap_or_else(|| l.pat.to_token_stream().to_string());
                    self.ed.replace(ls, xs, format!("let {var}; "));
                    for (s, e, es, et) in &b.found {
                        self.ed.replace(*s, *es, format!("{{ {var} = "));
                        self.ed.replace(*et, *e, "; break; }");
                        if et == e {
                            // the replacement above was an insertion at `e`
                        }
                    }
                    let (_, se) = rng(l.semi_token.span());
                    self.ed.replace(xe, se, format!(" let {pat} = {var};"));
                    self.note("loop-break-value");
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let syn::Pat::TupleStruct(t) = &a.pat {
            if t.elems.len() == 1 {
                if let syn::Pat::Slice(s) = &t.elems[0] {
                    if s.elems.is_empty() && a.guard.is_none() {
                        let (x, y) = rng(s.span());
                        self.ed.replace(x, y, "vx_e");
                        let (_, pe) = rng(a.pat.span());
                        self.ed.insert(pe, " if vx_e.len() == 0");
                        self.note("empty-slice-pattern");
                    }
                }
            }
        }
        // [a, b] => E  becomes  vx_s if vx_s.len() == 2 => { let a = &vx_s[0]; .. E }
        if let syn::Pat::Slice(s) = &a.pat {
            let names: Vec<String> = s
                .elems
                .iter()
                .filter_map(|e| match e {
                    syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
                    _ => None,
                })
                .collect();
            if !names.is_empty() && names.len() == s.elems.len() && a.guard.is_none() {
                let (x, y) = rng(s.span());
                self.ed.replace(x, y, format!("vx_s if vx_s.len() == {}", names.len()));
                let (bs, be) = rng(a.body.span());
                let lets: String = names.iter().enumerate().map(|(i, n)| format!("let {n} = &vx_s[{i}]; ")).collect();
                self.ed.insert(bs, format!("{{ {lets}"));
                self.ed.insert(be, " }");
                self.note("slice-pattern");
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let b = &l.body.brace_token.span;
        self.loops.push(LoopPos { body: (rng(b.open()).0, rng(b.close()).1), iter_at: None, stmt_start: rng(l.span()).0 });
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let b = &l.body.brace_token.span;
        self.loops.push(LoopPos { body: (rng(b.open()).0, rng(b.close()).1), iter_at: None, stmt_start: rng(l.span()).0 });
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let b = &l.body.brace_token.span;
        let at = rng(l.expr.span()).0;
        let (ls, le) = rng(l.span());
        let mut c = Continues { found: false };
        c.visit_block(&l.body);
        if c.found && l.label.is_none() {
            // for P in E { .. continue .. }
            //   => { let mut vx = E.into_iter(); loop { let P = match vx.next() { .. }; .. } }
            let it = format!("vx_it{}", self.loops.len());
            let (es, ee) = rng(l.expr.span());
            let pat = l.pat.span().source_text().unwrap_or_else(|| l.pat.to_token_stream().to_string());
            self.ed.replace(ls, es, format!("{{ let mut {it} = ("));
            let open = rng(b.open()).0;
            self.ed.replace(ee, open, ").into_iter(); loop ");
            self.ed.insert(open + 1, format!(" let {pat} = match {it}.next() {{ Some(vx_x) => vx_x, None => break, }}; "));
            self.ed.insert(le, " }");
            self.loops.push(LoopPos { body: (open, rng(b.close()).1), iter_at: None, stmt_start: ls });
            self.note("for-continue");
        } else {
            self.loops.push(LoopPos { body: (rng(b.open()).0, rng(b.close()).1), iter_at: Some(at), stmt_start: ls });
        }
        // An array that is iterated by value: as a vector.
        if let syn::Expr::Path(p) = &*l.expr {
            if let Some(i) = p.path.get_ident() {
                if self.arrays.contains(&i.to_string()) {
                    let (es, ee) = rng(l.expr.span());
                    self.ed.insert(es, "crate::vxstd::array_vec(");
                    self.ed.insert(ee, ")");
                    self.note("array-by-value-to-vec");
                }
            }
        }
        // `&mut place` of a vector or slice iterates as `place.iter_mut()`.
        if let syn::Expr::Reference(r) = &*l.expr {
            if r.mutability.is_some() && matches!(&*r.expr, syn::Expr::Path(_) | syn::Expr::Field(_)) {
                let (es, ee) = rng(l.expr.span());
                self.ed.replace(es, rng(r.expr.span()).0, "");
                self.ed.insert(ee, ".iter_mut()");
                self.note("for-mut-to-iter_mut");
            }
        }
        visit::visit_expr_for_loop(self, l);
    }
}

/// The loops and the callees of a function body, in source order and as a set.
#[derive(Default)]
struct Shape {
    loops: String,
    calls: std::collections::BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Shape {
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops.push('L');
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loops.push('W');
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.loops.push('F');
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        self.calls.insert(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
}

/// A `continue` of this loop.
struct Continues {
    found: bool,
}
impl<'ast> Visit<'ast> for Continues {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.found = true;
    }
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct Calls {
    stmts: Vec<(usize, usize)>,
    found: Vec<(String, (usize, usize))>,
    rets: Vec<usize>,
}
impl Calls {
    fn hit(&mut self, n: String) {
        if let Some(s) = self.stmts.last() {
            self.found.push((n, *s));
        }
    }
}
impl<'ast> Visit<'ast> for Calls {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(rng(s.span()));
        visit::visit_stmt(self, s);
        self.stmts.pop();
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.hit(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.hit(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        self.hit(format!("={}", a.left.to_token_stream().to_string().replace(' ', "")));
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, a: &'ast syn::ExprBinary) {
        if matches!(a.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_)) {
            self.hit(format!("={}", a.left.to_token_stream().to_string().replace(' ', "")));
        }
        visit::visit_expr_binary(self, a);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let syn::Pat::Ident(i) = &l.pat {
            self.hit(format!("let:{}", i.ident));
        }
        if let syn::Pat::Type(t) = &l.pat {
            if let syn::Pat::Ident(i) = &*t.pat {
                self.hit(format!("let:{}", i.ident));
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.hit(format!("{}!", m.path.segments.last().unwrap().ident));
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let Some(s) = self.stmts.last() {
            self.rets.push(s.0);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_break(&mut self, r: &'ast syn::ExprBreak) {
        self.hit("break".into());
        visit::visit_expr_break(self, r);
    }
    fn visit_expr_if(&mut self, r: &'ast syn::ExprIf) {
        self.hit("if".into());
        visit::visit_expr_if(self, r);
    }
    fn visit_expr_match(&mut self, r: &'ast syn::ExprMatch) {
        self.hit("match".into());
        visit::visit_expr_match(self, r);
    }
}
