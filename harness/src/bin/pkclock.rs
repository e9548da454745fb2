//! Compiles while the clock says what the driver wants, and reports the first
//! line of what was generated together with the times the clock gave.
use packetc_lib as pkt;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

const REALTIME: i32 = 0;
const SYS_CLOCK_GETTIME: i64 = 228;

/// The time it is, how far it moves each time it is asked for, what it gave
struct Clock {
    now: (i64, i64),
    step: (i64, i64),
    reads: Vec<i64>,
}

static CLOCK: Mutex<Option<Clock>> = Mutex::new(None);

/// Takes the place of the function of the C library.
///
/// # Safety
/// As for the original.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if clock == REALTIME {
        if let Ok(mut guard) = CLOCK.lock() {
            if let Some(c) = guard.as_mut() {
                (*ts).sec = c.now.0;
                (*ts).nsec = c.now.1;
                c.reads.push(c.now.0);
                let n = c.now.1 + c.step.1;
                c.now = (c.now.0 + c.step.0 + n / 1_000_000_000, n % 1_000_000_000);
                return 0;
            }
        }
    }
    syscall(SYS_CLOCK_GETTIME, clock as i64, ts) as i32
}

fn pair(v: &Value) -> (i64, i64) { (v[0].as_i64().expect("seconds"), v[1].as_i64().expect("nanoseconds")) }

fn run(text: &str, at: &Value) -> Value {
    *CLOCK.lock().expect("clock") = Some(Clock {
        now: pair(&at["now"]),
        step: pair(&at["step"]),
        reads: Vec::new(),
    });
    let res = catch_unwind(AssertUnwindSafe(|| pkt::compile::<pkt::gen::ts::TypeScript>(text)));
    let reads = CLOCK.lock().expect("clock").take().map(|c| c.reads).unwrap_or_default();
    match res {
        Ok(Ok(code)) => json!({"r": "ok", "reads": reads, "line": code.lines().next().unwrap_or(""),
                               "heads": code.lines().filter(|l| l.contains("//")).count()}),
        Ok(Err(_)) => json!({"r": "err", "reads": reads, "line": "", "heads": 0}),
        Err(_) => json!({"r": "panic", "reads": reads, "line": "", "heads": 0}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("json");
        let outs: Vec<Value> = req["runs"]
            .as_array()
            .expect("runs")
            .iter()
            .map(|r| {
                let text = r["text"].as_str().expect("text");
                match r["thread"].as_bool() {
                    Some(true) => std::thread::scope(|s| s.spawn(|| run(text, r)).join().expect("thread")),
                    _ => run(text, r),
                }
            })
            .collect();
        writeln!(out, "{}", json!({"id": req["id"], "outcomes": outs})).expect("stdout");
        out.flush().expect("flush");
    }
}
