//! Describes Solidity sources as JSON.
//!
//! Reads one JSON object per line, `{"src": ...}`, and writes one per line. This tool knows
//! nothing of bulloak: it only parses and formats Solidity.
use std::io::{self, BufRead, Write};

use forge_fmt::solang_ext::CodeLocationExt;
use serde_json::{json, Value};
use solang_parser::pt::{
    self, CodeLocation, Comment, ContractPart, ContractTy, FunctionAttribute, FunctionTy, Import, SourceUnitPart,
};

fn line(src: &str, at: usize) -> usize {
    1 + src.as_bytes()[..at.min(src.len())].iter().filter(|b| **b == b'\n').count()
}

fn text(src: &str, loc: pt::Loc) -> String {
    src[loc.range()].to_owned()
}

fn function(src: &str, f: &pt::FunctionDefinition) -> Value {
    let loc = CodeLocationExt::loc(f);
    let ty = match f.ty {
        FunctionTy::Constructor => "constructor",
        FunctionTy::Function => "function",
        FunctionTy::Fallback => "fallback",
        FunctionTy::Receive => "receive",
        FunctionTy::Modifier => "modifier",
    };
    let mut mods = vec![];
    let mut attrs = vec![];
    for a in &f.attributes {
        match a {
            FunctionAttribute::BaseOrModifier(_, base) => mods.push(text(src, base.loc)),
            other => attrs.push(text(src, CodeLocation::loc(other))),
        }
    }
    let (bs, be) = match &f.body {
        Some(b) => {
            let l = CodeLocation::loc(b);
            (l.start(), l.end())
        }
        None => (0, 0),
    };
    json!({
        "ty": ty,
        "name": f.name.as_ref().map(|n| n.name.clone()).unwrap_or_default(),
        "line": line(src, f.loc.start()),
        "start": loc.start(), "end": loc.end(),
        "mods": mods, "attrs": attrs,
        "params": f.params.len(), "returns": f.returns.len(),
        "bstart": bs, "bend": be,
        "text": text(src, loc),
    })
}

fn view(src: &str) -> Value {
    let (unit, comments) = match solang_parser::parse(src, 0) {
        Ok(x) => x,
        Err(_) => return json!({"ok": false}),
    };
    let comments: Vec<Value> = comments
        .iter()
        .map(|c| {
            let (loc, s) = match c {
                Comment::Line(l, s) | Comment::Block(l, s) | Comment::DocLine(l, s) | Comment::DocBlock(l, s) => (l, s),
            };
            json!({"start": loc.start(), "end": loc.end(), "text": s})
        })
        .collect();
    let mut top = vec![];
    let mut contracts = vec![];
    let mut pragmas = vec![];
    let mut imports = vec![];
    for part in &unit.0 {
        let loc = CodeLocationExt::loc(part);
        match part {
            SourceUnitPart::ContractDefinition(c) => {
                let kind = match c.ty {
                    ContractTy::Abstract(_) => "abstract",
                    ContractTy::Contract(_) => "contract",
                    ContractTy::Interface(_) => "interface",
                    ContractTy::Library(_) => "library",
                };
                let parts: Vec<Value> = c
                    .parts
                    .iter()
                    .map(|p| match p {
                        ContractPart::FunctionDefinition(f) => function(src, f),
                        other => {
                            let loc = CodeLocationExt::loc(other);
                            json!({"ty": "other", "name": "", "line": line(src, loc.start()),
                                   "start": loc.start(), "end": loc.end(), "mods": [], "attrs": [],
                                   "params": 0, "returns": 0, "bstart": 0, "bend": 0,
                                   "text": text(src, loc)})
                        }
                    })
                    .collect();
                contracts.push(json!({
                    "kind": kind,
                    "name": c.name.as_ref().map(|n| n.name.clone()).unwrap_or_default(),
                    "line": line(src, c.loc.start()),
                    "start": c.loc.start(), "end": c.loc.end(),
                    "bases": c.base.iter().map(|b| text(src, b.loc)).collect::<Vec<_>>(),
                    "parts": parts,
                }));
                top.push(json!({"ty": "contract", "text": "", "start": c.loc.start(), "end": c.loc.end()}));
            }
            SourceUnitPart::PragmaDirective(..) => {
                pragmas.push(json!(text(src, loc)));
                top.push(json!({"ty": "pragma", "text": text(src, loc), "start": loc.start(), "end": loc.end()}));
            }
            SourceUnitPart::ImportDirective(i) => {
                let path = match i {
                    Import::Plain(p, _) | Import::GlobalSymbol(p, _, _) | Import::Rename(p, _, _) => match p {
                        pt::ImportPath::Filename(s) => s.string.clone(),
                        pt::ImportPath::Path(p) => p.to_string(),
                    },
                };
                imports.push(json!({"path": path, "text": text(src, loc)}));
                top.push(json!({"ty": "import", "text": text(src, loc), "start": loc.start(), "end": loc.end()}));
            }
            _ => top.push(json!({"ty": "other", "text": text(src, loc), "start": loc.start(), "end": loc.end()})),
        }
    }
    json!({"ok": true, "top": top, "contracts": contracts, "pragmas": pragmas, "imports": imports, "comments": comments})
}

/// Formats a source as bulloak does: whatever directives it holds.
fn format(src: &str) -> Result<String, ()> {
    let parsed = forge_fmt::Parsed { inline_config: Default::default(), ..forge_fmt::parse(src).map_err(|_| ())? };
    let mut out = String::new();
    forge_fmt::format(&mut out, parsed, Default::default()).map_err(|_| ())?;
    Ok(out)
}

fn main() {
    let stdin = io::stdin();
    let mut out = io::BufWriter::new(io::stdout());
    std::panic::set_hook(Box::new(|_| {}));
    for l in stdin.lock().lines() {
        let l = l.expect("a line");
        let v: Value = serde_json::from_str(&l).expect("json");
        let src = v["src"].as_str().expect("src").to_owned();
        let fmt = v["fmt"].as_bool().unwrap_or(false);
        let r = std::panic::catch_unwind(|| {
            let mut r = view(&src);
            if fmt && r["ok"] == json!(true) {
                r["fmt"] = match format(&src) {
                    Ok(s) => json!(s),
                    Err(_) => Value::Null,
                };
            }
            r
        });
        let r = r.unwrap_or_else(|_| json!({"ok": false, "panic": true}));
        writeln!(out, "{r}").expect("write");
        out.flush().expect("flush");
    }
}
