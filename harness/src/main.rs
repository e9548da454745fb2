//! Conformance harness: runs the real compiler on one schema text
//! per input line, or on several side by side, and logs what it did. It contains no oracle: every
//! judgement is made by the TLA+ specification over these logs.
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use packetc_lib as pkt;
use serde_json::{json, Value};

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// The first line of the generated file is a comment with version and time.
fn split_meta(s: String) -> (String, String) {
    match s.find('\n') {
        Some(i) if s.starts_with("//") => (s[..i].to_string(), s[i + 1..].to_string()),
        _ => (String::new(), s),
    }
}

fn compile(text: &str) -> Value {
    match catch_unwind(AssertUnwindSafe(|| {
        match pkt::compile::<pkt::gen::ts::TypeScript>(text) {
            Ok(s) => {
                let (meta, body) = split_meta(s);
                json!({"r": "ok", "meta": meta, "body": body})
            }
            Err(e) => {
                let kind = match &e {
                    pkt::Error::Parse(_) => "parse",
                    pkt::Error::Check(_) => "check",
                };
                json!({"r": "err", "kind": kind, "msg": e.to_string()})
            }
        }
    })) {
        Ok(v) => v,
        Err(e) => json!({"r": "panic", "msg": panic_msg(e)}),
    }
}

/// Stands for the generated code.
fn sum(s: &str) -> String {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s.as_bytes());
    format!("{:016x}", h.finish())
}

/// Compiles several texts side by side: `plan` holds for each thread the texts
/// it compiles one after another, so many rounds. Gives the starts and ends in
/// the order in which they happened; of the later rounds only those with an
/// outcome the text did not have before.
fn session(texts: &[String], plan: &[Vec<usize>], rounds: u64) -> Vec<Value> {
    use std::sync::{Barrier, Mutex};
    let log = Mutex::new(Vec::new());
    let seen = Mutex::new(std::collections::HashSet::new());
    let gate = Barrier::new(plan.len());
    std::thread::scope(|s| {
        for (th, todo) in plan.iter().enumerate() {
            let (log, gate, seen) = (&log, &gate, &seen);
            std::thread::Builder::new()
                .stack_size(1 << 23)
                .spawn_scoped(s, move || {
                    gate.wait();
                    for (round, &i) in (0..rounds).flat_map(|r| todo.iter().map(move |i| (r, i))) {
                        let start = json!({"e": "start", "th": th, "i": i});
                        if round == 0 {
                            log.lock().unwrap().push(start.clone());
                        }
                        let mut v = compile(&texts[i]);
                        if let Some(body) = v["body"].as_str() {
                            v = json!({"r": "ok", "sum": sum(body)});
                        }
                        let new = rounds == 1 || seen.lock().unwrap().insert((i, v.to_string()));
                        if round > 0 && !new {
                            continue;
                        }
                        if round > 0 {
                            log.lock().unwrap().push(start);
                        }
                        v["e"] = json!("end");
                        v["th"] = json!(th);
                        v["i"] = json!(i);
                        log.lock().unwrap().push(v);
                    }
                })
                .expect("spawn");
        }
    });
    log.into_inner().unwrap()
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    // as much stack as the main thread of a program usually has
    let worker = std::thread::Builder::new().stack_size(1 << 23).spawn(move || {
        for line in stdin.lock().lines() {
            let line = line.expect("stdin");
            if line.trim().is_empty() {
                continue;
            }
            let req: Value = serde_json::from_str(&line).expect("json");
            if !req["plan"].is_null() {
                let texts: Vec<String> = serde_json::from_value(req["texts"].clone()).expect("texts");
                let plan: Vec<Vec<usize>> = serde_json::from_value(req["plan"].clone()).expect("plan");
                let res = json!({"id": req["id"], "events": session(&texts, &plan, req["rounds"].as_u64().unwrap_or(1))});
                let mut out = stdout.lock();
                writeln!(out, "{}", res).expect("stdout");
                out.flush().expect("flush");
                continue;
            }
            let text = req["text"].as_str().expect("text");
            let reps = req["reps"].as_u64().unwrap_or(1);
            let mut res = json!({"id": req["id"]});
            // distinct outcomes over `reps` runs (hash maps reseed on every run)
            let mut seen: BTreeMap<String, (Value, u64)> = BTreeMap::new();
            for _ in 0..reps {
                let v = compile(text);
                let mut key = v.clone();
                key["meta"] = Value::Null;
                seen.entry(key.to_string()).or_insert((v, 0)).1 += 1;
            }
            res["outcomes"] = Value::Array(
                seen.into_values().map(|(mut v, n)| { v["count"] = json!(n); v }).collect(),
            );
            let mut out = stdout.lock();
            writeln!(out, "{}", res).expect("stdout");
            out.flush().expect("flush");
        }
    });
    worker.expect("spawn").join().expect("worker");
}
