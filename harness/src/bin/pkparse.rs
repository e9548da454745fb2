//! Conformance harness: runs the real parser on one text per input line and
//! logs the declarations or the position of the error. It contains no oracle.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use packetc_lib as pkt;
use pkt::ast::{Node, Type};
use serde_json::{json, Value};

fn ast_json(ast: &[Node]) -> Value {
    Value::Array(
        ast.iter()
            .map(|n| match n {
                Node::Export(n) => json!({"n": "export", "name": n}),
                Node::Decl(n, Type::Enum(e)) => json!({"n": "enum", "name": n, "variants": e.0}),
                Node::Decl(n, Type::Struct(s)) => json!({"n": "struct", "name": n, "fields": s.0.iter()
                    .map(|(f, t)| json!({"name": f, "ty": t.0, "arr": t.1, "opt": t.2})).collect::<Vec<_>>()}),
            })
            .collect(),
    )
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

fn parse(text: &str) -> Value {
    match catch_unwind(AssertUnwindSafe(|| match pkt::parser::pkt::schema(text) {
        Ok(ast) => json!({"r": "ok", "ast": ast_json(&ast)}),
        Err(e) => json!({"r": "err", "line": e.location.line, "column": e.location.column, "offset": e.location.offset}),
    })) {
        Ok(v) => v,
        Err(e) => json!({"r": "panic", "msg": panic_msg(e)}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("json");
        let res = json!({"id": req["id"], "parse": parse(req["text"].as_str().expect("text"))});
        writeln!(out, "{}", res).expect("stdout");
        out.flush().expect("flush");
    }
}
