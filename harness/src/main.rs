//! JSON-lines server which drives the real instrumenter and istanbul-oxide code.
//! One request per line on stdin, one answer per line on stdout.
mod instr;
mod oxide;
mod plugin;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

thread_local! {
    pub static THREAD_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn take_panic() -> String {
    THREAD_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic (no message)".into())
}

fn dispatch(req: &Value) -> Value {
    match req["op"].as_str().unwrap_or("") {
        "ping" => json!({"ok": true}),
        "instrument" => instr::instrument(req),
        "plain" => instr::plain(req),
        "parallel" => instr::parallel(req),
        "batch" => {
            let items = req["items"].as_array().cloned().unwrap_or_default();
            json!({"ok": true, "results": items.iter().map(guarded).collect::<Vec<_>>()})
        }
        "plugin_begin" => plugin::begin(req),
        "plugin_call" => plugin::call(req),
        "plugin_end" => plugin::end(req),
        "oxide" => oxide::run(req),
        o => json!({"ok": false, "harness_error": format!("unknown op {o}")}),
    }
}

/// Runs one request; a panic of the code under test becomes an observation, not the end.
pub fn guarded(req: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| dispatch(req))) {
        Ok(v) => v,
        Err(_) => json!({"ok": false, "panic": take_panic()}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        *LAST_PANIC.lock().unwrap() = Some(msg.clone());
        THREAD_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
    // swc recurses over the AST: give the worker a deep stack, so that a stack overflow
    // of the host is not mistaken for one of the code under test.
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let Ok(line) = line else { break };
                if line.trim().is_empty() {
                    continue;
                }
                let req: Value = match serde_json::from_str(&line) {
                    Ok(v) => v,
                    Err(e) => json!({"op": format!("bad json {e}")}),
                };
                let mut res = guarded(&req);
                if let Some(id) = req.get("id") {
                    res["id"] = id.clone();
                }
                let mut out = stdout.lock();
                let _ = writeln!(out, "{}", res);
                let _ = out.flush();
            }
        })
        .unwrap();
    let _ = h.join();
}
