//! Conformance harness: replays behaviours exported by the TLA+ specification on the real code.
//!
//! `harness replay STATUS FIRST < behaviours.ndjson`: one JSON record per line, dispatched on its
//! field "k". Failures are printed as one JSON object per line, followed by a summary line.
//! STATUS receives the index of the record being replayed, so that the caller can tell which record
//! brought the process down (abort, stack overflow, memory limit) and go on behind it.
mod codec;
mod dbg;
mod device;
mod kinds;
mod offsets;
mod pages;
mod pdb;
mod robust;
mod rows;
mod setting;
mod store;
mod strings;
mod util;
mod xml;
mod xor;

use serde_json::{json, Value};
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Res = Result<(), String>;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
/// Length of its record: long ones may take longer.
static SIZE: AtomicU64 = AtomicU64::new(0);
const CASE_SECONDS: u64 = 20;

fn dispatch(v: &Value) -> Res {
    match util::str_of(&v["k"]) {
        "xor" => xor::replay(v),
        "str" => strings::replay(v),
        "codec" => codec::replay(v),
        "setting" => setting::replay(v),
        "xml" => xml::replay(v),
        "pdb" => pdb::replay(v),
        "kinds" => kinds::replay(v),
        "row" => rows::replay(v),
        "page" => pages::replay(v),
        "header" => pages::header(v),
        "number" => pages::numbers(v),
        "made" => pages::made(v),
        "tree" => device::tree(v),
        "cli" => device::cli(v),
        "export" => device::export(v),
        "offs" => offsets::replay(v),
        "robust" => robust::replay(v),
        k => Err(format!("unknown behaviour kind {k:?}")),
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn replay(status: &str, first: u64) {
    let defs: serde_json::Map<String, Value> = match std::env::var("HARNESS_DEFS") {
        Ok(p) => serde_json::from_str(&std::fs::read_to_string(p).expect("definitions"))
            .expect("definitions"),
        Err(_) => Default::default(),
    };
    let mut st = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(status)
        .expect("status file");
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(Ordering::Relaxed);
            if c != last {
                last = c;
                since = 0;
            } else {
                since += 1;
            }
            if c != u64::MAX && since > (CASE_SECONDS + SIZE.load(Ordering::Relaxed) / 200_000) * 2
            {
                eprintln!("HARNESS-TIMEOUT record {c}");
                std::process::exit(97);
            }
        }
    });
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let (mut n, mut bad) = (0u64, 0u64);
    for (i, line) in stdin.lock().lines().enumerate() {
        let line = line.expect("stdin");
        if line.is_empty() || (i as u64) < first {
            continue;
        }
        st.seek(SeekFrom::Start(0)).unwrap();
        st.write_all(format!("{i:>20}").as_bytes()).unwrap();
        SIZE.store(line.len() as u64, Ordering::Relaxed);
        CASE.store(i as u64, Ordering::Relaxed);
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let mut v: Value = match serde::Deserialize::deserialize(&mut de) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("bad record {i}: {e}");
                std::process::exit(98);
            }
        };
        if let Some(o) = v.as_object_mut() {
            for x in o.values_mut() {
                if let Some(d) = x
                    .as_str()
                    .and_then(|s| s.strip_prefix('@'))
                    .and_then(|s| defs.get(s))
                {
                    *x = d.clone();
                }
            }
        }
        n += 1;
        let r = match catch_unwind(AssertUnwindSafe(|| dispatch(&v))) {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", panic_text(e))),
        };
        if let Err(why) = r {
            bad += 1;
            if bad <= 2000 {
                let why: String = why.chars().take(3000).collect();
                writeln!(out.lock(), "{}", json!({"i": i, "why": why})).unwrap();
            }
        }
    }
    writeln!(out.lock(), "{}", json!({"done": true, "n": n, "bad": bad})).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2], args.get(3).map_or(0, |s| s.parse().unwrap())),
        _ => {
            eprintln!("usage: harness replay STATUS [FIRST]");
            std::process::exit(2);
        }
    }
}
