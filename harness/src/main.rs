mod alloc;
mod counted;
mod fw;
mod gen;
mod geo;
mod num;
mod props;
mod rng;

use fw::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[cfg(not(miri))] // Miri's own checks the layouts
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const STACK: usize = 8 << 20;
const STALL_S: u64 = 120;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Out {
    ctxs: Vec<Ctx>,
    viols: Vec<(u64, String)>,
    harness: Vec<(u64, String)>,
}

fn stream(id: &str) -> u64 {
    id.bytes().fold(7u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(b as u64))
}

fn run_one(p: &Prop, seed: u64, index: u64, ctx: &mut Ctx) -> Result<R, String> {
    let mut rng = rng::Rng::new(seed, stream(p.id), index);
    let done = catch_unwind(AssertUnwindSafe(|| (p.case)(index, &mut rng, ctx)));
    if rng.big > 1 {
        ctx.cat("big case");
        ctx.max("largest count in a big case", rng.drawn as f64);
    }
    match done {
        Ok(r) => Ok(r),
        // outside the guarded calls, but raised by magog's code
        Err(_) if last_panic().contains("/repo/src/") => Ok(Err(Fail::Viol(format!("magog panicked: {}", last_panic())))),
        Err(_) => Err(last_panic()),
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).cloned().unwrap_or_default();
    let id = args.get(2).cloned().unwrap_or_default();
    let table = props::table();
    let p = match table.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2)
        }
    };
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    match mode.as_str() {
        "run" => run(p, seed, thorough, &args),
        "pick" => {
            // indexes of cases that are quick to run natively
            let n: usize = arg(&args, "--n").and_then(|s| s.parse().ok()).unwrap_or(40);
            let max: u64 = arg(&args, "--max-us").and_then(|s| s.parse().ok()).unwrap_or(20);
            let from: u64 = arg(&args, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut got = vec![];
            for i in from..from + 100_000 {
                if got.len() >= n {
                    break;
                }
                let mut ctx = Ctx { thorough, ..Ctx::default() };
                let t = Instant::now();
                let _ = run_one(p, seed, i, &mut ctx);
                // thread creation is slow natively, but not interpreted
                let us = t.elapsed().as_micros() as u64;
                if us <= max || !ctx.schedules.is_empty() && us <= 40 * max {
                    got.push(i);
                }
            }
            println!("{}", got.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        }
        "many" => {
            let list = arg(&args, "--indexes").expect("--indexes");
            let cap: u64 = arg(&args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(60);
            let start = Instant::now();
            let mut ctx = Ctx { thorough, ..Ctx::default() };
            let mut n = 0;
            for i in list.split(',').filter_map(|s| s.parse::<u64>().ok()) {
                if start.elapsed() > Duration::from_secs(cap) {
                    break;
                }
                eprintln!("CASE {}", i);
                match run_one(p, seed, i, &mut ctx) {
                    Ok(Ok(())) => (),
                    Ok(Err(Fail::Viol(m))) => {
                        println!("VIOLATED {} {}", i, m);
                        std::process::exit(1)
                    }
                    Err(m) => {
                        println!("HARNESS {} {}", i, m);
                        std::process::exit(2)
                    }
                }
                n += 1;
            }
            let cats: Vec<String> = ctx.cats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            println!("DONE {{\"cases\":{},\"distinct\":{},\"schedules\":{},\"categories\":{{{}}}}}", n, ctx.distinct.len(), ctx.schedules.len(), cats.join(","));
        }
        "one" => {
            let index: u64 = arg(&args, "--index").and_then(|s| s.parse().ok()).expect("--index");
            let (p, idx) = (Prop { ..*p }, index);
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut ctx = Ctx { thorough, want_sample: true, ..Ctx::default() };
                    let r = run_one(&p, seed, idx, &mut ctx);
                    (r, ctx)
                })
                .unwrap();
            let (r, ctx) = h.join().unwrap();
            match r {
                Ok(Ok(())) => {
                    println!("OK {:?}", ctx.cats);
                    for s in ctx.samples {
                        println!("{}", s);
                    }
                }
                Ok(Err(Fail::Viol(m))) => {
                    println!("VIOLATED {}", m);
                    std::process::exit(1)
                }
                Err(m) => {
                    println!("HARNESS {}", m);
                    std::process::exit(2)
                }
            }
        }
        _ => {
            eprintln!("usage: run|one ID ...");
            std::process::exit(2)
        }
    }
}

fn run(p: &Prop, seed: u64, thorough: bool, args: &[String]) {
    let work = arg(args, "--work").expect("--work");
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap: u64 = arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(600);
    let total = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(match (thorough, p.id) {
        (true, _) => p.thorough,
        (_, "C23" | "C26" | "C27" | "C28") => p.quick,
        _ => p.quick * 5 / 2,
    });
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let late = AtomicBool::new(false);
    // per thread: (case + 1, started at ms) ; 0 = idle
    let inflight: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let alive = AtomicU64::new(threads as u64);
    let out = Mutex::new(Out { ctxs: vec![], viols: vec![], harness: vec![] });
    let mut slow: Vec<(u64, u64)> = vec![];
    let slow_m = Mutex::new(&mut slow);

    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, late, inflight, out, alive, work, slow_m) =
                (&next, &stop, &late, &inflight, &out, &alive, &work, &slow_m);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let file = std::fs::File::create(format!("{}/inflight.{}", work, t)).expect("inflight file");
                    let mut ctx = Ctx { thorough, ..Ctx::default() };
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > Duration::from_secs(cap) {
                            late.store(true, Ordering::Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let _ = file.write_all_at(&(i + 1).to_le_bytes(), 0);
                        let t0 = start.elapsed().as_millis() as u64;
                        inflight[t].1.store(t0, Ordering::Relaxed);
                        inflight[t].0.store(i + 1, Ordering::Relaxed);
                        ctx.want_sample = ctx.samples.len() < 2 && i > 20 && i % 7 == t as u64 % 7;
                        let r = run_one(p, seed, i, &mut ctx);
                        inflight[t].0.store(0, Ordering::Relaxed);
                        let t1 = start.elapsed().as_millis() as u64;
                        if t1 - t0 > 3000 {
                            slow_m.lock().unwrap().push((i, t1 - t0));
                        }
                        match r {
                            Ok(Ok(())) => (),
                            Ok(Err(Fail::Viol(m))) => {
                                stop.store(true, Ordering::Relaxed);
                                out.lock().unwrap().viols.push((i, m));
                            }
                            Err(m) => {
                                stop.store(true, Ordering::Relaxed);
                                out.lock().unwrap().harness.push((i, m));
                            }
                        }
                    }
                    let _ = file.write_all_at(&0u64.to_le_bytes(), 0);
                    out.lock().unwrap().ctxs.push(ctx);
                    alive.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // watchdog: a case that does not end leaves its index in the in-flight file
        while alive.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for f in &inflight {
                let c = f.0.load(Ordering::Relaxed);
                if c != 0 && now.saturating_sub(f.1.load(Ordering::Relaxed)) > STALL_S * 1000 && f.0.load(Ordering::Relaxed) == c {
                    eprintln!("stalled in case {}", c - 1);
                    std::process::exit(4);
                }
            }
        }
    });

    let mut o = out.into_inner().unwrap();
    o.viols.sort();
    let mut cats: BTreeMap<&str, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut schedules: HashSet<u64> = HashSet::new();
    let (mut evals, mut calls) = (0, 0);
    let mut samples = vec![];
    let mut maxes: BTreeMap<&str, f64> = BTreeMap::new();
    for c in o.ctxs {
        for (k, v) in c.cats {
            *cats.entry(k).or_insert(0) += v;
        }
        if distinct.is_empty() {
            distinct = c.distinct;
        } else {
            distinct.extend(c.distinct);
        }
        schedules.extend(c.schedules);
        for (k, v) in c.maxes {
            let e = maxes.entry(k).or_insert(v);
            *e = e.max(v);
        }
        evals += c.evals;
        calls += c.calls;
        samples.extend(c.samples);
    }
    samples.truncate(6);
    let mut missing = vec![];
    let floors = if arg(args, "--cases").is_some() { &[] } else { p.floors };
    for (name, n) in floors {
        let got = cats.get(name).copied().unwrap_or(0);
        if got < *n {
            missing.push(format!("{}: {} < {}", name, got, n));
        }
    }
    let started = next.load(Ordering::Relaxed).min(total);
    let mut j = String::from("{");
    let _ = write!(j, "\"cases\":{},\"planned\":{},\"evaluations\":{},\"calls\":{},\"distinct_nontrivial\":{},\"time_cap_hit\":{},\"worker_s\":{:.2},", started, total, evals, calls, distinct.len(), late.load(Ordering::Relaxed), start.elapsed().as_secs_f64());
    if !schedules.is_empty() {
        let _ = write!(j, "\"distinct_schedules\":{},", schedules.len());
    }
    if !maxes.is_empty() {
        let _ = write!(j, "\"largest\":{{{}}},", maxes.iter().map(|(k, v)| format!("{}:{:.3}", jstr(k), v)).collect::<Vec<_>>().join(","));
    }
    let _ = write!(j, "\"rule\":{},", jstr(p.rule));
    let _ = write!(j, "\"categories\":{{{}}},", cats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"slow\":{:?},", slow.iter().map(|x| vec![x.0, x.1]).collect::<Vec<_>>());
    let _ = write!(j, "\"missing\":[{}],", missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"samples\":[{}],", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"violations\":[{}],", o.viols.iter().map(|(i, m)| format!("{{\"index\":{},\"message\":{}}}", i, jstr(m))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"harness\":[{}]", o.harness.iter().map(|(i, m)| format!("{{\"index\":{},\"message\":{}}}", i, jstr(m))).collect::<Vec<_>>().join(","));
    j.push('}');
    std::fs::write(format!("{}/result.json", work), j).expect("result file");
}
