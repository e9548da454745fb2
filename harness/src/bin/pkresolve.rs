//! Conformance harness: runs the real parser and type checker on one schema
//! text per input line and logs the resolved types as a graph. It contains no
//! oracle.
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use packetc_lib as pkt;
use pkt::check::{ResolvedType, Struct};
use serde_json::{json, Value};

/// Types by where they are stored: each is described once, fields refer to
/// them by number.
#[derive(Default)]
struct Graph {
    ids: HashMap<usize, usize>,
    nodes: Vec<Value>,
}

impl Graph {
    fn fields(&mut self, s: &Struct) -> Value {
        let mut out = Vec::new();
        for f in s.fields.iter() {
            let to = self.add(&*f.r#type.borrow());
            out.push(json!({"name": f.name, "arr": f.array, "opt": f.optional, "to": to}));
        }
        Value::Array(out)
    }

    fn add(&mut self, ty: &(&str, ResolvedType)) -> usize {
        let at = ty as *const _ as usize;
        if let Some(id) = self.ids.get(&at) {
            return *id;
        }
        let id = self.nodes.len() + 1;
        self.ids.insert(at, id);
        self.nodes.push(Value::Null);
        let mut v = json!({"name": ty.0, "repr": "", "variants": [], "fields": []});
        match &ty.1 {
            ResolvedType::Builtin(b) => {
                v["kind"] = json!("builtin");
                v["repr"] = json!(format!("{:?}", b));
            }
            ResolvedType::Enum(e) => {
                v["kind"] = json!("enum");
                v["repr"] = json!(e.repr.to_string());
                v["variants"] = e.variants.iter().map(|x| json!({"name": x.name, "value": x.value})).collect();
            }
            ResolvedType::Struct(s) => {
                v["kind"] = json!("struct");
                v["fields"] = self.fields(s);
            }
        }
        self.nodes[id - 1] = v;
        id
    }
}

fn resolve(text: &str) -> Value {
    let ast = match pkt::parser::pkt::schema(text) {
        Ok(ast) => ast,
        Err(_) => return json!({"r": "noparse"}),
    };
    match pkt::check::type_check(ast) {
        Err(e) => json!({"r": "err", "msg": e.to_string()}),
        Ok(res) => {
            let mut g = Graph::default();
            let fields = g.fields(&res.export.r#struct);
            let types: Vec<Value> = res
                .types
                .iter()
                .map(|(name, ty)| json!({"name": name, "to": g.add(&*ty.borrow())}))
                .collect();
            json!({"r": "ok", "export": {"name": res.export.name, "fields": fields}, "types": types, "nodes": g.nodes})
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("json");
        let text = req["text"].as_str().expect("text");
        let outs: Vec<Value> = (0..req["reps"].as_u64().unwrap_or(1))
            .map(|_| catch_unwind(AssertUnwindSafe(|| resolve(text))).unwrap_or_else(|_| json!({"r": "panic"})))
            .collect();
        writeln!(out, "{}", json!({"id": req["id"], "outs": outs})).expect("stdout");
        out.flush().expect("flush");
    }
}
