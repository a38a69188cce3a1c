// Verification driver, compiled into the binary with `--cfg burn_verif` through
// the hook in src/main.rs. It replays scenarios (one JSON object per
// line of $BURN_VERIF_SCEN) against the real code and writes what it observed
// (one JSON object per line of $BURN_VERIF_OUT). Without that variable the
// binary is the ordinary command line program.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};


pub fn entry() -> bool {
    let Ok(input) = std::env::var("BURN_VERIF_SCEN") else { return false };
    let output = std::env::var("BURN_VERIF_OUT").expect("BURN_VERIF_OUT");
    let start: usize = std::env::var("BURN_VERIF_START").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(output).expect("open output");
    let message = Arc::new(Mutex::new(String::new()));
    let hook_message = message.clone();
    std::panic::set_hook(Box::new(move |info| {
        if let Ok(mut m) = hook_message.lock() { *m = format!("{}", info); }
    }));
    let lines = std::io::BufReader::new(std::fs::File::open(input).expect("open scenarios")).lines();
    for line in lines.skip(start) {
        let scen: Value = serde_json::from_str(&line.expect("read")).expect("scenario json");
        let id = scen["id"].clone();
        let wall = scen["wall_ms"].as_u64().unwrap_or(20000);
        let partial = Arc::new(Mutex::new(json!({})));
        let worker_partial = partial.clone();
        let (tx, rx) = mpsc::channel();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let res = catch_unwind(AssertUnwindSafe(|| run(&scen, &worker_partial)));
            let _ = tx.send(res.is_ok());
        }).expect("spawn");
        let status = match rx.recv_timeout(Duration::from_millis(wall)) {
            Ok(true) => "done",
            Ok(false) => "panic",
            Err(_) => "hang",
        };
        let body = match partial.lock() { Ok(g) => g.clone(), Err(p) => p.into_inner().clone() };
        let msg = if status == "panic" { message.lock().map(|m| m.clone()).unwrap_or_default() } else { String::new() };
        let rec = json!({"id": id, "status": status, "msg": msg, "res": body});
        writeln!(out, "{}", rec).expect("write");
        out.flush().expect("flush");
        if status == "hang" {
            std::process::exit(3);
        }
    }
    true
}

type Out = Arc<Mutex<Value>>;

fn put(out: &Out, key: &str, v: Value) {
    let mut g = match out.lock() { Ok(g) => g, Err(p) => p.into_inner() };
    g[key] = v;
}

fn add(out: &Out, key: &str, v: Value) -> usize {
    let mut g = match out.lock() { Ok(g) => g, Err(p) => p.into_inner() };
    if !g[key].is_array() { g[key] = json!([]); }
    let a = g[key].as_array_mut().unwrap();
    a.push(v);
    a.len() - 1
}

fn num(v: &Value) -> usize { v.as_u64().unwrap() as usize }
