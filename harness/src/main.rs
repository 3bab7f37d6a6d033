//! vh run <ID> <seconds> <max-cases> <seed> <replay-path> [--trace FILE]   explores one property
//! vh cases <P15|P17> <seed> <n> <file>                                     writes cases for other builds
//! vh replay <file>                                                         runs one saved case
mod props;
mod refenc;
mod typed;
mod util;
use props::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

fn checked(p: &Prop, c: &Value) -> Out {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Bad(format!("panic: {m}"))
        }
    }
}
fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {id}");
        std::process::exit(3)
    })
}
fn shrink(p: &Prop, mut c: Value, mut why: String) -> (Value, String) {
    let t0 = Instant::now();
    'again: loop {
        for y in shrink_case(&c) {
            if t0.elapsed() > Duration::from_secs(8) {
                break 'again;
            }
            if let Out::Bad(w) = checked(p, &y) {
                c = y;
                why = w;
                continue 'again;
            }
        }
        break;
    }
    (c, why)
}
fn write_replay(path: &str, id: &str, c: &Value, why: &str) {
    let j = json!({"property": id, "case": c, "what": why, "replay": format!("target/release/vh replay {path}")});
    let _ = std::fs::write(path, serde_json::to_string_pretty(&j).unwrap() + "\n");
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "replay" {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let p = find(j["property"].as_str().unwrap());
        let c = j["case"].clone();
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || checked(p, &c)).unwrap();
        match h.join().unwrap() {
            Out::Bad(w) => {
                println!("FAILS {w}");
                std::process::exit(1)
            }
            _ => println!("holds"),
        }
        return;
    }
    // known findings: dies while the finding is there (run on the ordinary 8 MiB main stack)
    if a[1] == "probe" {
        if a[2] == "repeated-map-key" {
            let m = typed::Node::KeyMap(vec![(typed::Node::Str("null".into()), typed::Node::I(1)), (typed::Node::None_, typed::Node::I(2))]);
            let o = toon_rs::Options::default();
            std::process::exit((toon_rs::ser::to_string(&m, &o).ok() != toon_rs::ser::to_string_streaming(&m, &o).ok()) as i32);
        }
        let (text, o) = match a[2].as_str() {
            "deep-dotted-key" => (format!("{}a: 1", "a.".repeat(100_000)), toon_rs::Options { expand_paths: toon_rs::ExpandPaths::Safe, ..Default::default() }),
            "deep-indentation" => ((0..20_000).map(|k| " ".repeat(k) + "a:\n").collect(), toon_rs::Options { indent: 1, ..Default::default() }),
            _ => std::process::exit(0),
        };
        let r = toon_rs::decode_from_str::<Value>(&text, &o);
        std::mem::forget(r);
        return;
    }
    if a[1] == "list" {
        for p in PROPS {
            println!("{}", p.id);
        }
        return;
    }
    if a[1] == "cases" {
        // vh cases <P15|P17> <seed> <n> <file>
        use std::io::Write;
        let seed: u64 = a[3].parse().unwrap();
        let n: u64 = a[4].parse().unwrap();
        let mut f = std::io::BufWriter::new(std::fs::File::create(&a[5]).unwrap());
        for i in 0..n {
            let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
            let c = catch_unwind(AssertUnwindSafe(|| if a[2] == "P15" { g15(&mut r) } else { g17(&mut r, i) }));
            if let Ok(c) = c {
                writeln!(f, "{c}").unwrap();
            }
        }
        f.flush().unwrap();
        return;
    }
    let p = find(&a[2]);
    let secs: f64 = a[3].parse().unwrap();
    let max: u64 = a[4].parse().unwrap();
    let seed: u64 = a[5].parse().unwrap();
    let replay = a[6].clone();
    let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
    let nt = if trace.is_some() { 1 } else { 6 };
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<(Value, String)>>> = Arc::new(Mutex::new(None));
    let t0 = Instant::now();
    // the case each worker is on, and since when
    type Slot = Arc<Mutex<Option<(Instant, Value)>>>;
    let slots: Vec<Slot> = (0..nt).map(|_| Arc::new(Mutex::new(None))).collect();
    let hs: Vec<_> = (0..nt)
        .map(|w| {
            let (stop, next, bad, slot, trace) = (stop.clone(), next.clone(), bad.clone(), slots[w].clone(), trace.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut n = 0u64;
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut samples = vec![];
                    loop {
                        if stop.load(SeqCst) || t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let i = next.fetch_add(1, SeqCst);
                        if i >= max {
                            break;
                        }
                        let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                        // making a case runs the encoder in places: a panic there is the crate's
                        let c = match catch_unwind(AssertUnwindSafe(|| (p.make)(&mut r, i))) {
                            Ok(c) => c,
                            Err(_) => continue,
                        };
                        if let Some(t) = &trace {
                            let _ = std::fs::write(t, serde_json::to_string(&json!({"property": p.id, "case": c, "what": "the process ended while running this case"})).unwrap());
                        }
                        *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                        let o = checked(p, &c);
                        *slot.lock().unwrap() = None;
                        n += 1;
                        match o {
                            Out::Trivial => {}
                            Out::Good => {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                c.to_string().hash(&mut h);
                                if seen.insert(h.finish()) && samples.len() < 2 && i > 200 {
                                    samples.push(c);
                                }
                            }
                            Out::Bad(why) => {
                                stop.store(true, SeqCst);
                                let (c, why) = shrink(p, c, why);
                                let mut b = bad.lock().unwrap();
                                if b.is_none() {
                                    *b = Some((c, why));
                                }
                                break;
                            }
                        }
                    }
                    (n, seen, samples)
                })
                .unwrap()
        })
        .collect();
    // a case that never ends
    let done = Arc::new(AtomicBool::new(false));
    {
        let (done, slots, replay) = (done.clone(), slots.clone(), replay.clone());
        std::thread::spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for s in &slots {
                    if let Some((t, c)) = &*s.lock().unwrap() {
                        if t.elapsed() > Duration::from_secs(20) {
                            write_replay(&replay, p.id, c, "does not finish within 20 s");
                            println!("{}", json!({"violation": "does not finish within 20 s", "evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [c]}));
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    }
    let mut n = 0;
    let mut seen = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    for h in hs {
        let (k, s, sm) = h.join().unwrap();
        n += k;
        seen.extend(s);
        samples.extend(sm);
    }
    done.store(true, SeqCst);
    samples.truncate(4);
    let b = bad.lock().unwrap().take();
    let mut out = json!({"evaluations": n, "distinct_nontrivial": seen.len(), "rule": p.rule, "samples": samples});
    if let Some((c, why)) = &b {
        write_replay(&replay, p.id, c, why);
        out["violation"] = json!(why);
    }
    println!("{out}");
    std::process::exit(if b.is_some() { 1 } else { 0 });
}
