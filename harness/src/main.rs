mod model;
mod step;
mod gen;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2], a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(10.0), &a[5]),
        Some("replay") => replay(&a[2]),
        _ => { println!("usage: obh search PROP SEED SECONDS REPLAYFILE | obh replay FILE"); std::process::exit(2); }
    }
}
fn search(prop: &str, seed: u64, secs: f64, out: &str) {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let stop = AtomicBool::new(false);
    let (runs, ops, oks) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let found: Mutex<Option<(Vec<step::Op>, String, u64)>> = Mutex::new(None);
    let kinds: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
    let sample: Mutex<Option<Vec<step::Op>>> = Mutex::new(None);
    let next = AtomicU64::new(0);
    let maxruns: u64 = std::env::var("OBH_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    if n >= maxruns { break; }
                    let mut g = gen::Gen::new(prop, seed.wrapping_mul(1_000_003).wrapping_add(n));
                    let mut done: Vec<step::Op> = vec![];
                    let (mut w, vs) = step::World::new();
                    let mut hit = pick(&vs, prop);
                    while hit.is_none() {
                        let Some(op) = g.next(&w) else { break; };
                        done.push(op.clone());
                        let before = w.st.0.len();
                        let vs = step::step(&mut w, &op);
                        let _ = before;
                        ops.fetch_add(1, Ordering::Relaxed);
                        if g.interesting { oks.fetch_add(1, Ordering::Relaxed); }
                        if std::env::var("OBH_ALL").is_ok() { for v in &vs { println!("{:?} {}", v.props, v.what.chars().take(300).collect::<String>()); } }
                        hit = pick(&vs, prop);
                        if w.crafted { break; }
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    { let mut k = kinds.lock().unwrap(); for (a, b) in &g.count { *k.entry(a.to_string()).or_insert(0) += b; } }
                    if n == 3 { *sample.lock().unwrap() = Some(done.iter().take(12).cloned().collect()); }
                    if let Some(h) = hit {
                        let (done, h) = shrink(done, h, prop);
                        let mut f = found.lock().unwrap();
                        if f.is_none() { *f = Some((done, h, n)); }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let k = kinds.into_inner().unwrap();
    let sm = sample.into_inner().unwrap().map(|x| serde_json::to_value(x).unwrap_or_default());
    println!("STATS {}", serde_json::json!({"evaluations": ops.load(Ordering::Relaxed), "distinct_nontrivial": runs.load(Ordering::Relaxed), "rule": "random histories against the real contract entry points; every history has its own seed and counts once", "operations_by_kind": k, "samples": [sm]}));
    if let Some((ops, what, n)) = found.into_inner().unwrap() {
        let j = serde_json::json!({"property": prop, "what": what, "seed": seed, "history": n, "how_to_replay": "obh replay <this file>: executes the operations on a fresh contract instance and repeats the verdict", "ops": ops});
        std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("FOUND {what}");
        std::process::exit(3);
    }
}
fn pick(vs: &[step::Viol], prop: &str) -> Option<String> { vs.iter().find(|v| v.props.contains(&prop)).map(|v| v.what.clone()) }
fn run(ops: &[step::Op], prop: &str) -> Option<(usize, String)> {
    let (mut w, vs) = step::World::new();
    if let Some(h) = pick(&vs, prop) { return Some((0, h)); }
    for (i, op) in ops.iter().enumerate() {
        let vs = step::step(&mut w, op);
        if let Some(h) = pick(&vs, prop) { return Some((i + 1, h)); }
    }
    None
}
fn shrink(mut ops: Vec<step::Op>, mut what: String, prop: &str) -> (Vec<step::Op>, String) {
    let end = Instant::now() + Duration::from_secs(8);
    let mut chunk = (ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < ops.len() {
            if Instant::now() > end { return (ops, what); }
            let mut c = ops.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if let Some((n, h)) = run(&c, prop) { c.truncate(n); ops = c; what = h; any = true; } else { i += chunk; }
        }
        if chunk == 1 && !any { return (ops, what); }
        chunk = (chunk / 2).max(1);
    }
}
fn replay(f: &str) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let ops: Vec<step::Op> = serde_json::from_value(j["ops"].clone()).unwrap();
    let prop = j["property"].as_str().unwrap().to_string();
    match run(&ops, &prop) { Some((n, h)) => { println!("{prop} violated at operation {n}: {h}"); std::process::exit(3); } None => println!("{prop}: not violated by these operations") }
}
