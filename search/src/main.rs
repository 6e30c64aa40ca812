//! Concrete counterexample search against the real crate (the oracle is the
//! corresponding std collection).  Used (a) to turn a failed proof obligation
//! into a failing input, (b) as the bounded stand-in for functions that are
//! not under contract.
//!
//! search PROP [--seconds S] [--seed N] [--threads T] [--slots FILE]
//! search --replay FILE
mod ch;
mod lazy;
mod maps;
mod sets;
mod stacks;
mod fixedm;
mod entries;
mod serdes;

use ch::{Ch, R};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Test = (&'static str, fn(&mut Ch) -> R);

fn tests(prop: &str) -> Vec<Test> {
    let mut v = vec![];
    v.extend(maps::tests(prop));
    v.extend(sets::tests(prop));
    v.extend(stacks::tests(prop));
    v.extend(fixedm::tests(prop));
    v.extend(entries::tests(prop));
    v.extend(serdes::tests(prop));
    v.extend(lazy::tests(prop));
    v
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
    format!("panic: {m}")
}

fn run1(f: fn(&mut Ch) -> R, c: &mut Ch) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(r) => r,
        Err(e) => Err(panic_msg(e)),
    }
}

fn fails(f: fn(&mut Ch) -> R, d: &[u32]) -> bool {
    let mut c = Ch::replay(d.to_vec());
    c.logging = false;
    run1(f, &mut c).is_err()
}

fn shrink(f: fn(&mut Ch) -> R, mut d: Vec<u32>) -> Vec<u32> {
    let t0 = Instant::now();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(10) {
        progress = false;
        let mut sz = (d.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < d.len() && t0.elapsed() < Duration::from_secs(10) {
                let j = (i + sz).min(d.len());
                let mut e = d[..i].to_vec();
                e.extend_from_slice(&d[j..]);
                if fails(f, &e) {
                    d = e;
                    progress = true;
                } else {
                    i += sz;
                }
            }
            if sz == 1 {
                break;
            }
            sz /= 2;
        }
        for i in 0..d.len() {
            if t0.elapsed() > Duration::from_secs(10) {
                break;
            }
            for v in [0, d[i] / 2, d[i].saturating_sub(1)] {
                if v < d[i] {
                    let mut e = d.clone();
                    e[i] = v;
                    if fails(f, &e) {
                        d = e;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    d
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    if std::env::var("SEARCH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(f) = opt("--replay") {
        // file: "prop test\nchoices..."
        let t = std::fs::read_to_string(&f).unwrap();
        let l = t.lines().find(|l| l.starts_with("case: ")).expect("no case line");
        let mut w = l[6..].split_whitespace();
        let (prop, name) = (w.next().unwrap(), w.next().unwrap());
        let d: Vec<&str> = w.collect();
        let tst = tests(prop).into_iter().find(|t| t.0 == name).expect("unknown test");
        // "rnd:N": the case drawn from seed N (a case that kills the process
        // or does not end cannot be shrunk); otherwise the drawn choices
        let mut c = match d.first().and_then(|x| x.strip_prefix("rnd:")) {
            Some(n) => Ch::random(n.parse().unwrap()),
            None => Ch::replay(d.iter().map(|x| x.parse().unwrap()).collect()),
        };
        c.echo = opt("--echo").is_some();
        let (r, c2) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let r = run1(tst.1, &mut c);
                    (r, c)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        let c = c2;
        for l in &c.log {
            println!("{l}");
        }
        match r {
            Ok(()) => println!("passes"),
            Err(e) => {
                println!("FAILS: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = a[0].clone();
    let secs: f64 = opt("--seconds").map(|s| s.parse().unwrap()).unwrap_or(20.0);
    let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let threads: usize = opt("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let cap: u64 = opt("--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let ts = tests(&prop);
    if ts.is_empty() {
        println!("{{\"tests\": 0}}");
        return;
    }
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs_f64(secs);
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let evals = AtomicU64::new(0);
    let nontriv = Mutex::new(HashSet::<u64>::new());
    let found: Mutex<Option<(u64, usize, Vec<u32>, String)>> = Mutex::new(None);
    // what every thread is running: read by the watchdog, and (from the slots
    // file) by the runner when the process dies
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let slot_file = opt("--slots").map(|f| std::fs::File::create(f).unwrap());
    let over = AtomicBool::new(false);
    let running = AtomicU64::new(threads as u64);
    let seed_of = |i: u64| seed.wrapping_mul(1_000_003).wrapping_add(i / ts.len() as u64 + 1);
    std::thread::scope(|s| {
        let dog = s.spawn(|| {
            while !over.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64;
                for (i, t) in &slots {
                    let t = t.load(Ordering::Relaxed);
                    if t != 0 && now > t + 30_000 && !over.load(Ordering::Relaxed) {
                        let i = i.load(Ordering::Relaxed);
                        let n = ts[(i % ts.len() as u64) as usize].0;
                        println!(
                            "{{\"tests\": {}, \"evaluations\": {}, \"failure\": {{\"test\": {}, \"message\": \"the operation does not end (30 s)\", \"case\": {}, \"log\": \"\"}}}}",
                            ts.len(),
                            evals.load(Ordering::Relaxed),
                            esc(n),
                            esc(&format!("case: {prop} {n} rnd:{}", seed_of(i)))
                        );
                        std::process::exit(0);
                    }
                }
            }
        });
        let dog = dog.thread().clone();
        let running = &running;
        for tid in 0..threads {
            let (slots, slot_file, next, stop, ts, evals, nontriv, found, seed_of, over, dog) =
                (&slots, &slot_file, &next, &stop, &ts, &evals, &nontriv, &found, &seed_of, &over, dog.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                use std::os::unix::fs::FileExt;
                let mut seen = HashSet::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if stop.load(Ordering::Relaxed) || i >= cap || Instant::now() > end {
                        break;
                    }
                    let ti = (i % ts.len() as u64) as usize;
                    slots[tid].0.store(i, Ordering::Relaxed);
                    slots[tid].1.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    if let Some(f) = slot_file {
                        let l = format!("{:<60}\n", format!("case: {} rnd:{}", ts[ti].0, seed_of(i)));
                        let _ = f.write_at(l.as_bytes(), 61 * tid as u64);
                    }
                    let mut c = Ch::random(seed_of(i));
                    let r = run1(ts[ti].1, &mut c);
                    slots[tid].1.store(0, Ordering::Relaxed);
                    evals.fetch_add(1, Ordering::Relaxed);
                    if c.marks >= 2 && seen.len() < 200_000 {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        (ti, &c.data).hash(&mut h);
                        seen.insert(h.finish());
                    }
                    if let Err(e) = r {
                        stop.store(true, Ordering::Relaxed);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map_or(true, |x| x.0 > i) {
                            *g = Some((i, ti, c.data.clone(), e));
                        }
                        break;
                    }
                }
                nontriv.lock().unwrap().extend(seen);
                if let Some(f) = slot_file {
                    let _ = f.write_at(format!("{:<60}\n", "idle").as_bytes(), 61 * tid as u64);
                }
                if running.fetch_sub(1, Ordering::Relaxed) == 1 {
                    over.store(true, Ordering::Relaxed);
                    dog.unpark();
                }
            }).unwrap();
        }
    });
    let mut sample = Ch::random(seed.wrapping_mul(1_000_003).wrapping_add(3));
    sample.logging = true;
    let _ = run1(ts[0].1, &mut sample);
    let mut out = format!(
        "{{\"tests\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.1}, \"names\": [{}], \"sample\": {}",
        ts.len(),
        evals.load(Ordering::Relaxed),
        nontriv.lock().unwrap().len(),
        t0.elapsed().as_secs_f64(),
        ts.iter().map(|t| esc(t.0)).collect::<Vec<_>>().join(", "),
        esc(&sample.log.iter().take(12).map(|l| l.chars().take(160).collect::<String>()).collect::<Vec<_>>().join("; ")),
    );
    if let Some((_, ti, d, e)) = found.into_inner().unwrap() {
        let f = ts[ti].1;
        let d0 = d.clone();
        // first as found: shrinking may run into a crash or an endless loop
        {
            let case = format!("case: {} {} {}", prop, ts[ti].0, d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            println!("{out}, \"failure\": {{\"test\": {}, \"message\": {}, \"case\": {}, \"log\": \"\"}}}}", esc(ts[ti].0), esc(&e), esc(&case));
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
        let d = if fails(f, &d) { shrink(f, d) } else { d };
        let mut c = Ch::replay(d.clone());
        let r = run1(f, &mut c);
        let (d, msg, log) = match r {
            Err(m) => (d, m, c.log),
            Ok(()) => (d0, e, vec![]),
        };
        let case = format!("case: {} {} {}", prop, ts[ti].0, d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        out += &format!(", \"failure\": {{\"test\": {}, \"message\": {}, \"case\": {}, \"log\": {}}}", esc(ts[ti].0), esc(&msg), esc(&case), esc(&log.join("\n")));
    }
    out += "}";
    println!("{out}");
}
