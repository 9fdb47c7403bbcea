//! Bounded exploration of the real crate through its public API against a reference model.
//!
//! engine run <PROP> <seed> <seconds> <threads> <progress file>
//! engine replay <PROP> <seed> <case>
mod hist;
mod model;
mod props;
mod rng;
mod stream;
mod ty;
mod view;

use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// What one case was, for the report.
#[derive(Default)]
pub struct Case {
    pub text: String,
    pub nontrivial: bool,
}

fn seed_of(prop: &str, seed: u64, case: u64) -> u64 {
    let mut h = DefaultHasher::new();
    (prop, seed, case).hash(&mut h);
    h.finish()
}

fn one(prop: &str, seed: u64, case: u64, info: &mut Case) -> Result<(), String> {
    let mut r = rng::Rng::new(seed_of(prop, seed, case));
    let res = catch_unwind(AssertUnwindSafe(|| props::run(prop, case, &mut r, info)));
    match res {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "replay" => {
            let mut info = Case::default();
            let res = one(&a[2], num(3), num(4), &mut info);
            println!("{}", info.text);
            match res {
                Ok(()) => println!("case {} of {}: holds", a[4], a[2]),
                Err(e) => {
                    println!("case {} of {}: FAILS: {e}", a[4], a[2]);
                    std::process::exit(1);
                }
            }
        }
        "run" => run(&a[2], num(3), num(4), num(5), &a[6]),
        _ => panic!("usage"),
    }
}

fn run(prop: &str, seed: u64, secs: u64, threads: u64, progress: &str) {
    let end = Instant::now() + Duration::from_secs(secs);
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let fail: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let now: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let t0 = Instant::now();
    let limit = props::case_limit(prop);
    std::thread::scope(|s| {
        for t in 0..threads as usize {
            let (stop, next, done, fail, seen, samples, now) = (&stop, &next, &done, &fail, &seen, &samples, &now);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut pf = std::fs::File::create(format!("{progress}.{t}")).unwrap();
                    while !stop.load(Relaxed) && Instant::now() < end {
                        let c = next.fetch_add(1, Relaxed);
                        if c >= limit {
                            break;
                        }
                        now[t].1.store(t0.elapsed().as_millis() as u64, Relaxed);
                        now[t].0.store(c, SeqCst);
                        use std::os::unix::fs::FileExt;
                        let _ = pf.write_at(&c.to_le_bytes(), 0);
                        let mut info = Case::default();
                        let res = one(prop, seed, c, &mut info);
                        now[t].0.store(u64::MAX, SeqCst);
                        let _ = pf.write_at(&u64::MAX.to_le_bytes(), 0);
                        done.fetch_add(1, Relaxed);
                        if info.nontrivial {
                            let mut h = DefaultHasher::new();
                            info.text.hash(&mut h);
                            let mut s = seen.lock().unwrap();
                            if s.insert(h.finish()) && s.len() % 997 == 5 && info.text.len() < 1500 {
                                let mut v = samples.lock().unwrap();
                                if v.len() < 3 {
                                    v.push(info.text.clone());
                                }
                            }
                        }
                        if let Err(e) = res {
                            let mut f = fail.lock().unwrap();
                            // keep the smallest failing case
                            if f.as_ref().is_none_or(|x| c < x.0) {
                                *f = Some((c, e, info.text));
                            }
                            stop.store(true, Relaxed);
                        }
                    }
                    let _ = pf.flush();
                })
                .unwrap();
        }
        // watchdog
        let now = &now;
        let (stop, done) = (&stop, &done);
        s.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let t = t0.elapsed().as_millis() as u64;
                let mut busy = false;
                for (c, st) in now {
                    let c = c.load(SeqCst);
                    if c != u64::MAX {
                        busy = true;
                        if t.saturating_sub(st.load(Relaxed)) > 60_000 {
                            println!("{{\"fail\":true,\"case\":{c},\"error\":\"does not end within 60 s\",\"text\":\"\",\"evaluations\":{},\"distinct\":0,\"samples\":[]}}", done.load(Relaxed));
                            std::process::exit(1);
                        }
                    }
                }
                if !busy && (stop.load(Relaxed) || Instant::now() >= end + Duration::from_millis(300)) {
                    break;
                }
                if !busy && t > 1000 && next_idle(now) {
                    break;
                }
            }
        });
    });
    let f = fail.into_inner().unwrap();
    let samples: Vec<String> = samples.into_inner().unwrap().iter().map(|s| esc(s)).collect();
    let (c, e, tx) = f.clone().unwrap_or_default();
    println!(
        "{{\"fail\":{},\"case\":{c},\"error\":{},\"text\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"limit_reached\":{}}}",
        f.is_some(),
        esc(&e),
        esc(&tx),
        done.load(SeqCst),
        seen.into_inner().unwrap().len(),
        samples.join(","),
        next.load(SeqCst) >= limit
    );
    std::process::exit(f.is_some() as i32);
}
fn next_idle(now: &[(AtomicU64, AtomicU64)]) -> bool {
    // all workers idle for several polls: they are finished
    for _ in 0..5 {
        std::thread::sleep(Duration::from_millis(20));
        if now.iter().any(|x| x.0.load(SeqCst) != u64::MAX) {
            return false;
        }
    }
    true
}
