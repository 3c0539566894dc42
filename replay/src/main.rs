//! Replay and bounded exploration: `replay run PROP SEED SECS quick|thorough OUT [MAXCASES]`,
//! `replay file PATH`.
mod ast;
mod cases;
mod check;
mod eval;
mod found;
mod funcs;
mod gen;
mod parse;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::{AtomicU64, Ordering}, Mutex};
use std::time::{Duration, Instant};

static N: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());

fn exec1(prop: &str, c: &Value) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| check::run(prop, c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}
/// number of cases that failed as a known finding does
static KNOWN: AtomicU64 = AtomicU64::new(0);
fn exec(prop: &str, c: &Value) -> Result<bool, String> {
    let r = exec1(prop, c);
    let Err(e) = r else { return r };
    if e.starts_with("KNOWN ") {
        KNOWN.fetch_add(1, Ordering::Relaxed);
        return Ok(true);
    }
    // what the tree is known to do wrong (known-findings.txt), and nothing else
    for bits in 1..8 {
        eval::FOUND.store(bits, Ordering::Relaxed);
        let k = exec1(prop, c);
        eval::FOUND.store(0, Ordering::Relaxed);
        if k.is_ok() {
            KNOWN.fetch_add(1, Ordering::Relaxed);
            return k;
        }
    }
    Err(e)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("file") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap().to_string();
            match exec(&prop, &v["case"]) {
                Ok(_) => println!("case passes"),
                Err(e) => {
                    println!("FAIL {e}");
                    std::process::exit(1)
                }
            }
        }
        Some("one") => {
            let t = &a[2];
            println!("oracle {:?}", parse::parse(t));
            println!("real {:?}", serde_json_path::JsonPath::parse(t));
        }
        Some("run") => {
            let (prop, seed, secs, tier, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), &a[5], a[6].clone());
            let trace = std::env::var("REPLAY_TRACE").ok();
            let all = std::env::var("REPLAY_ALL").is_ok();
            let t0 = Instant::now();
            let (p2, o2) = (prop.clone(), out.clone());
            std::thread::spawn(move || {
                let mut last = (0, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let n = N.load(Ordering::Relaxed);
                    if n != last.0 {
                        last = (n, Instant::now());
                    } else if last.1.elapsed() > Duration::from_secs(15) {
                        let c: Value = serde_json::from_str(&CUR.lock().unwrap()).unwrap_or(Value::Null);
                        let v = json!({"property": p2, "case": c, "observed": "no result within 15 s"});
                        std::fs::write(&o2, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                        println!("FAIL no result within 15 s: {c}");
                        std::process::exit(1);
                    }
                }
            });
            let mut seen: HashSet<u64> = HashSet::new();
            let mut samples: Vec<Value> = vec![];
            let (mut evals, mut nontrivial) = (0u64, 0u64);
            let mut fail: Option<(Value, String)> = None;
            cases::stream(&prop, seed, tier == "thorough", &mut |c: Value| {
                evals += 1;
                let txt = c.to_string();
                if let Some(t) = &trace {
                    std::fs::write(t, &txt).unwrap();
                }
                *CUR.lock().unwrap() = txt.clone();
                N.store(evals, Ordering::Relaxed);
                let t1 = Instant::now();
                let res = exec(&prop, &c);
                if std::env::var("REPLAY_SLOW").is_ok() && t1.elapsed() > Duration::from_millis(100) {
                    println!("SLOW {:?} {}", t1.elapsed(), &txt.chars().take(200).collect::<String>());
                }
                match res {
                    Ok(nt) => {
                        if nt {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            txt.hash(&mut h);
                            if seen.insert(h.finish()) {
                                nontrivial += 1;
                                if nontrivial.is_power_of_two() && samples.len() < 8 {
                                    samples.push(c);
                                }
                            }
                        }
                    }
                    Err(e) => {
                        if all {
                            println!("FAIL {e}: {txt}");
                        } else {
                            fail = Some((c, e));
                            return false;
                        }
                    }
                }
                t0.elapsed().as_secs_f64() < secs
            });
            let st = json!({"evaluations": evals, "distinct_nontrivial": nontrivial, "samples": samples, "known": KNOWN.load(Ordering::Relaxed), "wall_s": t0.elapsed().as_secs_f64()});
            println!("STATS {st}");
            if let Some((c, e)) = fail {
                let v = json!({"property": prop, "case": c, "observed": e});
                std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("FAIL {e}: {c}");
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
