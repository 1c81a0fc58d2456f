//! Runs the real crate on generated inputs and compares with what the property says.
//! replay --prop C01 --seed 1 --seconds 5 --out FILE      search
//! replay --prop C01 --seed 1 --case 17                   one case again
mod elems;
mod framing;
mod model;
mod readers;
mod util;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

static CASE: AtomicU64 = AtomicU64::new(0);
static STARTED_MS: AtomicU64 = AtomicU64::new(0);
static SHARED: Mutex<(String, Vec<u8>)> = Mutex::new((String::new(), Vec::new()));
pub fn publish_input(what: &str, b: &[u8]) {
    let mut g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
    g.0 = what.to_string();
    g.1 = b.to_vec();
}

fn run(prop: u32, seed: u64, idx: u64) -> Res<(bool, u64, String)> {
    let mut r = Rng::new(seed, prop as u64, idx);
    match prop {
        1..=7 | 16 | 18 => elems::case(prop, &mut r, idx),
        8 => framing::c08(&mut r, idx),
        9 => framing::c09(&mut r, idx),
        10 => framing::c10(&mut r, idx),
        11 => framing::c11(&mut r, idx),
        12 => readers::c12(&mut r, idx),
        13 => readers::c13(&mut r, idx),
        14 | 15 => readers::c14_15(prop, &mut r, idx),
        17 => framing::c17(&mut r, idx),
        _ => panic!("no such property"),
    }
}
fn guarded(prop: u32, seed: u64, idx: u64) -> Res<(bool, u64, String)> {
    match catch_unwind(AssertUnwindSafe(|| run(prop, seed, idx))) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {m} {}", LAST.lock().unwrap_or_else(|e| e.into_inner())))
        }
    }
}
static LAST: Mutex<String> = Mutex::new(String::new());

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn report(out: &str, s: &str) {
    let tmp = format!("{out}.tmp");
    let _ = std::fs::write(&tmp, s);
    let _ = std::fs::rename(&tmp, out);
}
fn failure(prop: &str, seed: u64, idx: u64, why: &str, input: &(String, Vec<u8>)) -> String {
    let mut why = why.to_string();
    if why.len() > 3000 {
        why = why.chars().take(3000).collect();
    }
    format!(
        "{{\"property\":{},\"seed\":{seed},\"case\":{idx},\"failure\":{},\"input\":{},\"bytes\":{}}}",
        json(prop),
        json(&why),
        json(&input.0),
        json(&hex(&input.1))
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let p: u32 = prop.trim_start_matches('C').parse().expect("--prop");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = i.location().map_or(String::new(), |l| format!("at {l}"));
    }));
    if let Some(c) = get("--case") {
        let r = guarded(p, seed, c.parse().unwrap());
        match r {
            Ok(_) => println!("{prop} case {c}: holds"),
            Err(e) => {
                println!("{prop} case {c}: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let secs: f64 = get("--seconds").map_or(2.0, |s| s.parse().unwrap());
    let cap: u64 = get("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    let out = get("--out").expect("--out");
    let t0 = Instant::now();
    {
        let (prop, out) = (prop.clone(), out.clone());
        // a case that does not come to an end
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = STARTED_MS.load(SeqCst);
            if s != 0 && t0.elapsed().as_millis() as u64 > s + 60_000 {
                let g = SHARED.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let f = failure(&prop, seed, CASE.load(SeqCst), "does not come to an end within 60 s", &g);
                report(&out, &format!("{{\"failed\":{f}}}"));
                std::process::exit(1);
            }
        });
    }
    let mut distinct = HashSet::new();
    let mut evals = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut idx = 0;
    let least = 30;
    while (idx < least || t0.elapsed().as_secs_f64() < secs) && idx < cap {
        CASE.store(idx, SeqCst);
        STARTED_MS.store(1 + t0.elapsed().as_millis() as u64, SeqCst);
        // for the case that the process is ended
        if idx % 64 == 0 {
            report(&out, &format!("{{\"under_way\":{idx},\"seed\":{seed}}}"));
        }
        match guarded(p, seed, idx) {
            Ok((nontrivial, h, sample)) => {
                evals += 1;
                if nontrivial && distinct.insert(h) && samples.len() < 3 && idx > 3 {
                    samples.push(sample.chars().take(400).collect());
                }
            }
            Err(e) => {
                let inp = INPUT.with(|c| c.borrow().clone());
                let f = failure(&prop, seed, idx, &e, &inp);
                report(&out, &format!("{{\"failed\":{f},\"evaluations\":{},\"distinct_nontrivial\":{}}}", evals + 1, distinct.len()));
                let _ = std::fs::remove_dir_all(framing::scratch());
                std::process::exit(1);
            }
        }
        STARTED_MS.store(0, SeqCst);
        idx += 1;
    }
    let s: Vec<String> = samples.iter().map(|s| json(s)).collect();
    report(&out, &format!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{},\"samples\":[{}]}}", distinct.len(), s.join(",")));
    let _ = std::fs::remove_dir_all(framing::scratch());
}
