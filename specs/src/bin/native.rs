//! Runs contracts natively: `native search NAME CASES SEED SECS` or `native replay NAME FILE`
//! (FILE holds one line of input leaves per case). Results go to the file in $NATIVE_OUT.
use auburn_specs::gen::Src;
use auburn_specs::rt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            '\n' => "\\n".chars().collect(),
            c if (c as u32) < 32 => " ".chars().collect(),
            c => vec![c],
        })
        .collect()
}
fn nums(v: &[f64]) -> String {
    let l: Vec<String> = v
        .iter()
        .map(|x| if x.is_finite() { format!("{x:?}") } else { format!("\"{x:?}\"") })
        .collect();
    format!("[{}]", l.join(","))
}

struct Outcome {
    skipped: bool,
    ensures: u64,
    failed: Vec<String>,
}

fn case(f: fn(&mut Src), s: &mut Src) -> Outcome {
    rt::reset();
    let r = catch_unwind(AssertUnwindSafe(|| f(s)));
    let (skipped, ensures, mut failed) = rt::take();
    if let Err(e) = r {
        if !skipped {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            failed.push(format!("no panic: {m}"));
        }
    }
    Outcome { skipped, ensures, failed }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = std::env::var("NATIVE_OUT").unwrap_or("/dev/stderr".into());
    std::panic::set_hook(Box::new(|_| {}));
    if let Ok(t) = std::env::var("NATIVE_TOL") {
        rt::set_tolerance(t.parse().unwrap());
    }
    if a[1] == "list" {
        for (p, n, _) in auburn_specs::registry::ALL {
            println!("{p} {n}");
        }
        return;
    }
    let f = auburn_specs::registry::ALL
        .iter()
        .find(|x| x.1 == a[2])
        .unwrap_or_else(|| panic!("no contract {}", a[2]))
        .2;
    let clock = Arc::new(AtomicU64::new(0));
    let trace: Arc<Mutex<Vec<f64>>> = Arc::new(Mutex::new(vec![]));
    let t0 = Instant::now();
    {
        // a case that does not end is a failure of its own
        let (clock, out, trace, a) = (clock.clone(), out.clone(), trace.clone(), a.clone());
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = clock.load(Ordering::SeqCst);
                if c != last.0 {
                    last = (c, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(30) {
                    // the inputs of the case can be drawn again from its seed
                    let t = trace.lock().unwrap().clone();
                    let inputs = if a[1] == "replay" {
                        nums(&t)
                    } else {
                        format!("{{\"seed\":{}}}", t[0] as u64)
                    };
                    std::fs::write(&out, format!("{{\"cases\":{c},\"run\":{c},\"ensures\":0,\"distinct\":{c},\"samples\":[],\"failure\":{{\"labels\":[\"returns\"],\"inputs\":{inputs}}}}}")).unwrap();
                    std::process::exit(0);
                }
            }
        });
    }
    if a[1] == "count" {
        // how often each label fails (a development aid)
        let (n, seed): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        let mut t = std::collections::BTreeMap::new();
        let mut run = 0;
        for i in 0..n {
            clock.fetch_add(1, Ordering::SeqCst);
            let mut s = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(i) & ((1 << 50) - 1));
            let o = case(f, &mut s);
            run += !o.skipped as u64;
            for l in o.failed {
                let e = t.entry(l).or_insert((0, s.trace.clone()));
                e.0 += 1;
                if s.trace.len() < e.1.len() {
                    e.1 = s.trace.clone();
                }
            }
        }
        eprintln!("run {run}");
        for (l, (n, v)) in t {
            eprintln!("{n} {l} {}", nums(&v));
        }
        return;
    }
    let mut samples: Vec<Vec<f64>> = vec![];
    let (mut cases, mut run, mut ens) = (0u64, 0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut failure = String::from("null");
    let mut one = |mut s: Src, cases: &mut u64| -> bool {
        clock.fetch_add(1, Ordering::SeqCst);
        *cases += 1;
        let o = case(f, &mut s);
        if !o.skipped {
            run += 1;
            ens += o.ensures;
            let h = s.trace.iter().fold(17u64, |h, x| h.wrapping_mul(0x100000001b3) ^ x.to_bits());
            seen.insert(h);
            if samples.len() < 3 {
                samples.push(s.trace.clone());
            }
            if !o.failed.is_empty() {
                let l: Vec<String> = o.failed.iter().map(|x| format!("\"{}\"", esc(x))).collect();
                failure = format!("{{\"labels\":[{}],\"inputs\":{}}}", l.join(","), nums(&s.trace));
                return true;
            }
        }
        false
    };
    if a[1] == "search" {
        let n: u64 = a[3].parse().unwrap();
        let seed: u64 = a[4].parse().unwrap();
        let secs: f64 = a[5].parse().unwrap();
        for i in 0..n {
            if i % 64 == 0 && t0.elapsed().as_secs_f64() > secs {
                break;
            }
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i) & ((1 << 50) - 1);
            *trace.lock().unwrap() = vec![s as f64];
            if one(Src::random(s), &mut cases) {
                break;
            }
        }
    } else {
        for line in std::fs::read_to_string(&a[3]).unwrap().lines() {
            let v: Vec<f64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
            *trace.lock().unwrap() = v.clone();
            if one(Src::replay(v), &mut cases) {
                break;
            }
        }
    }
    drop(one);
    let sm: Vec<String> = samples.iter().map(|x| nums(x)).collect();
    let n = seen.len();
    std::fs::write(&out, format!("{{\"cases\":{cases},\"run\":{run},\"ensures\":{ens},\"distinct\":{n},\"samples\":[{}],\"failure\":{failure}}}", sm.join(","))).unwrap();
}
