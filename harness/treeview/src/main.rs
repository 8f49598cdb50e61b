//! Calls the libraries of bulloak, and describes what they return as JSON.
//!
//! Reads one JSON object per line, `{"op": ..., "text": ..., ...}`, and writes one per line. This
//! tool only copies what the public interface gives: syntax trees, the intermediate
//! representation, the emitted code, and errors.
use std::{
    io::{self, BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
};

use bulloak_foundry::{
    check::{
        context::Context,
        rules::{Checker, StructuralMatcher},
    },
    config::Config,
    hir::{self, Hir},
    scaffold,
    violation::Violation,
};
use bulloak_syntax::{Ast, Span};
use serde_json::{json, Map, Value};

fn place(v: &mut Map<String, Value>, s: &Span) {
    v.insert("sl".into(), s.start.line.into());
    v.insert("sc".into(), s.start.column.into());
    v.insert("so".into(), s.start.offset.into());
    v.insert("el".into(), s.end.line.into());
    v.insert("ec".into(), s.end.column.into());
    v.insert("eo".into(), s.end.offset.into());
}

fn node(kind: &str, title: &str, parent: usize, span: &Span) -> Value {
    let mut v = Map::new();
    v.insert("kind".into(), kind.into());
    v.insert("title".into(), title.into());
    v.insert("parent".into(), parent.into());
    place(&mut v, span);
    Value::Object(v)
}

/// Branches in the order in which they are drawn; the parent of a top-level one is 0.
fn branches(asts: &[Ast], parent: usize, out: &mut Vec<Value>) {
    for a in asts {
        let (kind, title, span, kids): (_, _, _, &[Ast]) = match a {
            Ast::Root(x) => ("root", &x.contract_name, &x.span, &x.children),
            Ast::Condition(x) => ("cond", &x.title, &x.span, &x.children),
            Ast::Action(x) => ("action", &x.title, &x.span, &x.children),
            Ast::ActionDescription(x) => ("desc", &x.text, &x.span, &[]),
        };
        out.push(node(kind, title, parent, span));
        let me = out.len();
        branches(kids, me, out);
    }
}

fn tree(a: &Ast) -> Value {
    match a {
        Ast::Root(r) => {
            let mut nodes = vec![];
            branches(&r.children, 0, &mut nodes);
            json!({"root": node("root", &r.contract_name, 0, &r.span), "nodes": nodes})
        }
        _ => {
            let mut nodes = vec![];
            branches(std::slice::from_ref(a), 0, &mut nodes);
            json!({"root": Value::Null, "nodes": nodes})
        }
    }
}

fn failed(e: &impl std::fmt::Display) -> Value {
    json!({"ok": false, "panicked": false, "err": e.to_string()})
}

fn parse(text: &str) -> Value {
    match bulloak_syntax::parse(text) {
        Ok(asts) => json!({"ok": true, "panicked": false, "trees": asts.iter().map(tree).collect::<Vec<_>>()}),
        Err(e) => failed(&e),
    }
}

fn function(f: &hir::FunctionDefinition) -> Value {
    let mut comments = vec![];
    let mut skips = 0;
    let mut others = 0;
    for c in f.children.iter().flatten() {
        match c {
            Hir::Comment(c) => comments.push(c.lexeme.trim_end().to_owned()),
            Hir::Statement(_) => skips += 1,
            _ => others += 1,
        }
    }
    let mut v = Map::new();
    v.insert("ty".into(), if f.is_modifier() { "modifier" } else { "function" }.into());
    v.insert("name".into(), f.identifier.clone().into());
    v.insert("mods".into(), json!(f.modifiers.clone().unwrap_or_default()));
    v.insert("comments".into(), json!(comments));
    v.insert("skips".into(), skips.into());
    v.insert("others".into(), others.into());
    place(&mut v, &f.span);
    Value::Object(v)
}

fn hir_view(h: &Hir) -> Value {
    let mut contracts = 0;
    let mut others = 0;
    let mut parts = vec![];
    if let Hir::Root(r) = h {
        for c in &r.children {
            if let Hir::ContractDefinition(c) = c {
                contracts += 1;
                for p in &c.children {
                    match p {
                        Hir::FunctionDefinition(f) => parts.push(function(f)),
                        _ => others += 1,
                    }
                }
            } else {
                others += 1;
            }
        }
    } else {
        others += 1;
    }
    let name = h.find_contract().map(|c| c.identifier.clone()).unwrap_or_default();
    json!({"ok": true, "panicked": false, "contracts": contracts, "others": others, "name": name, "parts": parts})
}

fn translate(text: &str, cfg: &Config) -> Value {
    match hir::translate(text, cfg) {
        Err(e) => failed(&e),
        Ok(h) => hir_view(&h),
    }
}

/// What the stages make of a text, one by one.
#[cfg(feature = "stages")]
fn stages(text: &str, cfg: &Config) -> Value {
    use bulloak_foundry::scaffold::modifiers::ModifierDiscoverer;
    let one = match bulloak_syntax::parse_one(text) {
        Ok(a) => json!({"ok": true, "panicked": false, "trees": [tree(&a)]}),
        Err(e) => failed(&e),
    };
    let asts = bulloak_syntax::parse(text).unwrap_or_default();
    let each: Vec<Value> = asts
        .iter()
        .map(|a| {
            let mut d = ModifierDiscoverer::new();
            let mods: Vec<Value> = d.discover(a).iter().map(|(title, name)| json!([title, name])).collect();
            json!({"mods": mods, "hir": hir_view(&hir::translate_one(a, cfg))})
        })
        .collect();
    json!({"ok": true, "panicked": false, "one": one, "each": each})
}

fn emit(text: &str, cfg: &Config) -> Value {
    match scaffold::scaffold(text, cfg) {
        Ok(s) => json!({"ok": true, "panicked": false, "out": s}),
        Err(e) => failed(&e),
    }
}

/// The problems of the file at a path, in the words of the library.
fn check(path: &str, cfg: &Config) -> Value {
    let vs = match Context::new(PathBuf::from(path), cfg) {
        Err(v) => vec![v],
        Ok(ctx) => StructuralMatcher::check(&ctx),
    };
    let all: Vec<Value> = vs.iter().map(|v| json!({"text": v.to_string(), "fixable": v.is_fixable()})).collect();
    json!({"ok": true, "panicked": false, "problems": all})
}

#[cfg(feature = "steps")]
fn texts(vs: &[Violation]) -> Vec<String> {
    vs.iter().map(ToString::to_string).collect()
}

/// Repairs one problem after the other, in the order that is asked for, until there is none.
///
/// Either looks for problems after every repair, or repairs those which were there at first.
#[cfg(feature = "steps")]
fn steps(path: &str, order: &[usize], stale: bool, cfg: &Config) -> Value {
    use bulloak_foundry::{check::violation::fix_order, sol::find_contract, violation::ViolationKind};
    let mut ctx = match Context::new(PathBuf::from(path), cfg) {
        Err(v) => return failed(&v),
        Ok(ctx) => ctx,
    };
    let is_order = |v: &Violation| matches!(v.kind, ViolationKind::FunctionOrderMismatch(..));
    let mut vs = StructuralMatcher::check(&ctx);
    if stale {
        vs.retain(|v| !is_order(v));
    }
    let mut seen = vec![];
    loop {
        let done = vs.is_empty() || seen.len() > 300;
        let pick = if done { 0 } else { order[seen.len() % order.len()] % vs.len() + 1 };
        seen.push(json!({"src": ctx.src, "problems": texts(&vs), "pick": pick}));
        if done {
            break;
        }
        let v = vs.remove(pick - 1);
        ctx = if is_order(&v) {
            let hir = ctx.hir.clone();
            fix_order(&find_contract(&ctx.pt).unwrap(), hir.find_contract().unwrap(), ctx)
        } else {
            v.kind.fix(ctx)
        };
        if !stale {
            vs = StructuralMatcher::check(&ctx);
        }
    }
    json!({"ok": true, "panicked": false, "steps": seen})
}

fn answer(q: &Value) -> Value {
    let text = q["text"].as_str().unwrap_or_default();
    let cfg = Config {
        skip_modifiers: q["nomods"].as_bool().unwrap_or_default(),
        emit_vm_skip: q["vmskip"].as_bool().unwrap_or_default(),
        solidity_version: q["version"].as_str().unwrap_or("0.8.0").to_owned(),
        ..Config::default()
    };
    match q["op"].as_str() {
        Some("parse") => parse(text),
        Some("translate") => translate(text, &cfg),
        Some("scaffold") => emit(text, &cfg),
        #[cfg(feature = "stages")]
        Some("stages") => stages(text, &cfg),
        Some("check") => check(text, &cfg),
        #[cfg(feature = "steps")]
        Some("steps") => {
            let order: Vec<usize> = q["order"].as_array().into_iter().flatten().map(|n| n.as_u64().unwrap() as usize).collect();
            steps(text, &order, q["stale"].as_bool().unwrap_or_default(), &cfg)
        }
        _ => json!({"ok": false, "panicked": true, "err": "no such operation"}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Deep trees need as much stack here as they do in bulloak.
    let serve = || {
        let mut out = io::stdout().lock();
        for l in io::stdin().lock().lines() {
            let q: Value = serde_json::from_str(&l.unwrap()).unwrap();
            let v = catch_unwind(AssertUnwindSafe(|| answer(&q)))
                .unwrap_or_else(|_| json!({"ok": false, "panicked": true, "err": "panic"}));
            writeln!(out, "{v}").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(serve).unwrap().join().unwrap();
}
