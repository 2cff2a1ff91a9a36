//! Runs contracts concretely against the real code: replays counterexamples of the
//! verifier and searches for failing inputs.
//!
//! qmreplay list
//! qmreplay replay FILE        (FILE: {"contract", "tape", "ufs"} or {"contract", "case_seed"})
//! qmreplay search CONTRACT SEED MAX_CASES MAX_SECONDS
extern crate serde_json;

use qmharness::proofs;
use qmharness::sym::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

enum Outcome { Held, Rejected, Failed(String) }

fn run_case(f: fn(), seed: u64, tape: &Value, ufs: &Value) -> Outcome {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.rng = Rng(seed);
        c.tape.clear();
        c.used.clear();
        c.uf.clear();
        c.log.clear();
        c.texts.clear();
        if let Some(o) = tape.as_object() {
            for (k, v) in o {
                c.tape.insert(k.clone(), v.as_array().unwrap().iter().map(num).collect());
            }
        }
        if let Some(a) = ufs.as_array() {
            for e in a {
                let args: Vec<f64> = e[1].as_array().unwrap().iter().map(num).collect();
                let key = ufkey(e[0].as_str().unwrap(), &args);
                c.uf.insert(key, num(&e[2]));
            }
        }
    });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Outcome::Held,
        Err(e) => {
            if e.downcast_ref::<Rejected>().is_some() { return Outcome::Rejected }
            if let Some(x) = e.downcast_ref::<Failed>() { return Outcome::Failed(x.0.clone()) }
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                else { "panic".to_string() };
            Outcome::Failed(format!("no panic: {}", m))
        }
    }
}

fn num(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse().unwrap_or(f64::NAN),
        _ => v.as_f64().unwrap_or(f64::NAN)
    }
}

fn find(name: &str) -> fn() {
    for (n, f) in proofs::all() {
        if n == name { return f }
    }
    eprintln!("no contract {}", name);
    std::process::exit(2)
}

fn inputs() -> Value {
    CTX.with(|c| {
        let c = c.borrow();
        let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (k, v) in c.log.iter() { m.entry(k.clone()).or_insert_with(Vec::new).push(fnum(*v)); }
        let u: BTreeMap<String, Value> = c.uf.iter().take(200).map(|(k, v)| (k.clone(), fnum(*v))).collect();
        json!({ "inputs": m, "functions": u, "texts": c.texts })
    })
}

fn fnum(v: f64) -> Value { if v.is_finite() { json!(v) } else { json!(format!("{}", v)) } }

static CASE: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn watchdog(t0: Instant, limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && t0.elapsed().as_millis() as u64 > s + limit * 1000 {
            println!("{}", json!({ "outcome": "failed", "label": format!("terminates (no result after {} s)", limit),
                "case_seed": CASE.load(Ordering::SeqCst).to_string() }));
            std::process::exit(1);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let code = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real_main(a, t0)).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}

fn real_main(a: Vec<String>, t0: Instant) -> i32 {
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in proofs::all() { println!("{}", n); }
            0
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let f = find(v["contract"].as_str().unwrap());
            watchdog(t0, 20);
            let seed: u64 = v["case_seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(1);
            CASE.store(seed, Ordering::SeqCst);
            STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            match run_case(f, seed, &v["tape"], &v["ufs"]) {
                Outcome::Held => { println!("{}", json!({ "outcome": "held", "case": inputs() })); 0 }
                Outcome::Rejected => { println!("{}", json!({ "outcome": "rejected" })); 3 }
                Outcome::Failed(l) => { println!("{}", json!({ "outcome": "failed", "label": l, "case": inputs() })); 1 }
            }
        }
        Some("search") => {
            let f = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let secs: f64 = a[5].parse().unwrap();
            watchdog(t0, 20);
            let mut mix = Rng(seed ^ 0x5eed);
            let (mut held, mut rejected) = (0u64, 0u64);
            let mut sample = Value::Null;
            while held + rejected < n && t0.elapsed().as_secs_f64() < secs {
                let cs = mix.next();
                CASE.store(cs, Ordering::SeqCst);
                STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                match run_case(f, cs, &Value::Null, &Value::Null) {
                    Outcome::Held => { held += 1; if held == 1 { sample = inputs(); } }
                    Outcome::Rejected => rejected += 1,
                    Outcome::Failed(l) => {
                        println!("{}", json!({ "outcome": "failed", "label": l, "case_seed": cs.to_string(), "case": inputs() }));
                        return 1;
                    }
                }
            }
            let (proved, covered) = CTX.with(|c| { let c = c.borrow(); (c.proved, c.covered.clone()) });
            println!("{}", json!({ "outcome": "held", "held": held, "rejected": rejected, "proved": proved,
                "covered": covered, "sample": sample }));
            0
        }
        _ => { eprintln!("usage: qmreplay list|replay|search"); 2 }
    }
}
