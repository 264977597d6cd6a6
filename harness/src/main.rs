#![allow(non_snake_case)]
mod ctx;
mod gen;
mod model;
mod props;
mod refgraph;
mod rng;
mod sys;
mod views;

use ctx::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub(crate) static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: sys::Counting = sys::Counting;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    if cfg!(miri) { run() }
    // a big stack: recursion depth by itself is not what is being judged
    match std::thread::Builder::new().stack_size(1 << 29).spawn(run) {
        Ok(h) => { let _ = h.join(); }
        Err(_) => run(),
    }
    std::process::exit(3);
}

/// vpharness <prop> <tier> <seed> <first> <step> <out-prefix> <scratch> [--verbose] [--one]
fn run() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--list") {
        for p in props::all() { println!("{}\t{}\t{}\t{}", p.id, p.quick, p.thorough, p.rule); }
        std::process::exit(0);
    }
    if a.len() < 8 { eprintln!("usage: vpharness prop tier seed first step out scratch [--one] [--verbose]"); std::process::exit(3) }
    let prop = match props::all().into_iter().find(|p| p.id == a[1]) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", a[1]); std::process::exit(3) }
    };
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap_or(1);
    let first: usize = a[4].parse().unwrap_or(0);
    let step: usize = a[5].parse().unwrap_or(1);
    let out = a[6].clone();
    let one = a.iter().any(|x| x == "--one");
    let mut ctx = Ctx::new(seed, thorough, a[7].clone());
    ctx.verbose = a.iter().any(|x| x == "--verbose");
    let scale = if a.iter().any(|x| x == "--noscale") { 0 } else { props::scale::count(prop.id) };
    let total = scale + if thorough { prop.thorough } else { prop.quick };
    let limit: u64 = std::env::var("VP_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let wall: u64 = std::env::var("VP_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(100_000);
    let t0 = std::time::Instant::now();

    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        if let Ok(mut p) = PANIC.lock() { if p.is_none() { *p = Some((loc, msg)); } }
    }));
    sys::ignore_sigxfsz();
    if !cfg!(miri) { std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != u64::MAX && sys::cpu_ms() > s + limit * 1000 {
            eprintln!("CASE CPU BUDGET EXCEEDED ({limit} CPU seconds)");
            std::process::exit(97);
        }
    }); }

    let progress = format!("{out}.progress");
    let mut pf = std::fs::File::create(&progress).ok();
    let mut violations: Vec<(usize, String, String)> = vec![];
    let mut cases = 0u64;
    let mut complete = true;
    let mut c = first;
    let prop_run = prop.run;
    while c < total || one {
        if t0.elapsed().as_secs() > wall { complete = false; break }
        if let Some(f) = pf.as_mut() {
            use std::io::Seek;
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("{c:>12}\n").as_bytes());
        }
        ctx.start(prop.id, c);
        INPUT.with(|i| i.borrow_mut().clear());
        if let Ok(mut p) = PANIC.lock() { *p = None }
        sys::reset_budget();
        CASE_START.store(sys::cpu_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| if c < scale { props::scale::run(&mut ctx, prop.id, c) } else { prop_run(&mut ctx, c - scale) }));
        CASE_START.store(u64::MAX, Ordering::SeqCst);
        sys::restore_limits();
        cases += 1;
        let input = INPUT.with(|i| i.borrow().clone());
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => violations.push((c, m, input)),
            Err(_) => {
                let (loc, msg) = PANIC.lock().ok().and_then(|p| p.clone()).unwrap_or_default();
                if loc.starts_with("src/") && !msg.starts_with("GraphContract") {
                    eprintln!("HARNESS ERROR: case {c}: panic at {loc}: {msg}\ninput: {input}");
                    std::process::exit(3);
                }
                violations.push((c, format!("panic at {loc}: {msg}"), input));
            }
        }
        if one || violations.len() >= 3 { break }
        c += step;
    }
    let _ = std::fs::remove_file(&progress);

    let mut s = String::new();
    let _ = write!(s, "{{\"evaluations\":{},\"cases\":{},\"complete\":{},\"counters\":{{", ctx.evals, cases, complete);
    s.push_str(&ctx.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"maxima\":{");
    s.push_str(&ctx.maxima.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&ctx.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"findings\":{");
    s.push_str(&ctx.findings.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(","));
    s.push_str("},\"violations\":[");
    s.push_str(&violations.iter().map(|(c, m, i)| format!("{{\"case\":{},\"message\":{},\"input\":{}}}", c, esc(m), esc(i))).collect::<Vec<_>>().join(","));
    s.push_str("]}");
    let ok = std::fs::write(format!("{out}.json"), s).is_ok();
    let mut hb: Vec<u8> = Vec::with_capacity(ctx.hashes.len() * 8);
    for h in &ctx.hashes { hb.extend_from_slice(&h.to_le_bytes()) }
    let ok = ok && std::fs::write(format!("{out}.hashes"), hb).is_ok();
    if !ok { eprintln!("HARNESS ERROR: cannot write {out}"); std::process::exit(3) }
    if one { for (c, m, _) in &violations { println!("case {c}: {m}") } }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
