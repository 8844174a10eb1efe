//! Bounded execution of the compiled contract: looks for a concrete failing input for a property.
//! harness <prop> --seed S --secs T [--threads N] [--iter I]
extern crate alloc;
#[macro_use]
mod util;
mod model;
mod pmath;
mod wasmcmp;
mod world;
mod refmath;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::Rng;
type R = Result<(), String>;

fn prop(id: &str) -> Vec<(&'static str, fn(&mut Rng) -> R)> {
    match id {
        "A01" => vec![("decimal", pmath::a01)],
        "A02" => vec![("tick", pmath::a02)],
        "A03" => vec![("amounts", pmath::a03), ("history", |r| world::run("A03", r))],
        "A04" => vec![("step", pmath::a04)],
        "A05" => vec![("history", |r| world::run("A05", r))],
        "A06" => vec![("history", |r| world::run("A06", r))],
        "A07" => vec![("history", |r| world::run("A07", r))],
        "A08" => vec![("history", |r| world::run("A08", r))],
        "A09" => vec![("history", |r| world::run("A09", r))],
        "A10" => vec![("bitmap", wasmcmp::a10), ("history", |r| world::run("A10", r))],
        "A11" => vec![("history", |r| world::run("A11", r))],
        "A12" => vec![("history", |r| world::run("A12", r))],
        "A13" => vec![("minout", pmath::a13_unit), ("history", |r| world::run("A13", r))],
        "A14" => vec![("history", |r| world::run("A14", r))],
        "A15" => vec![("history", |r| world::run("A15", r))],
        "A19" => vec![("history", |r| world::run("A19", r)), ("history", |r| world::run("A19", r)), ("history", |r| world::run("A19", r)), ("pages", world::pages), ("words", world::words)],
        "A21" => vec![("history", |r| world::run("A21", r))],
        "A20" => vec![("history", |r| world::run("A20", r))],
        "A16" => vec![("keys", pmath::a16)],
        #[cfg(feature = "simswap")]
        "A17" => vec![("math", wasmcmp::math), ("math", wasmcmp::math), ("math", wasmcmp::math), ("swap", wasmcmp::swap)],
        #[cfg(not(feature = "simswap"))]
        "A17" => vec![("math", wasmcmp::math)],
        "A18" => vec![("estimate", pmath::a18)],
        _ => vec![],
    }
}
fn run_one(id: &str, seed: u64, iter: u64) -> R {
    if id == "A02" && iter < 64 { return pmath::a02_sweep(iter as i32, 64); }
    let ps = prop(id);
    let (name, f) = ps[(iter % ps.len() as u64) as usize];
    let mut r = Rng::new(&format!("{id}/{name}"), seed, iter);
    f(&mut r).map_err(|m| format!("[{name}] {m}"))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let (seed, secs, th) = (get("--seed", 1), get("--secs", 10), get("--threads", 8));
    if std::env::var("HDEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    if prop(&id).is_empty() { println!("NONE"); return; }
    if a.iter().any(|x| x == "--iter") {
        let i = get("--iter", 0);
        match util::guard(|| run_one(&id, seed, i)).unwrap_or(Err("harness panicked".into())) { Ok(()) => { println!("PASS iter={i}"); } Err(m) => { println!("FAIL iter={i} {m}"); std::process::exit(1) } }
        return;
    }
    let (next, stop) = (AtomicU64::new(0), AtomicBool::new(false));
    let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let end = Instant::now() + Duration::from_secs(secs);
    std::thread::scope(|s| {
        for _ in 0..th {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                while !stop.load(Relaxed) {
                    let chunk: u64 = 4;
                    let i0 = next.fetch_add(chunk, Relaxed);
                    for i in i0..i0 + chunk {
                        let res = util::guard(|| run_one(&id, seed, i)).unwrap_or(Err("harness panicked".into()));
                        if let Err(m) = res {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map(|x| x.0 > i).unwrap_or(true) { *f = Some((i, m)); }
                            stop.store(true, Relaxed);
                            return;
                        }
                    }
                    if Instant::now() > end && (id != "A02" || i0 > 64) { break; }
                }
            }).unwrap();
        }
    });
    let f = fail.lock().unwrap().clone();
    match f {
        Some((i, m)) => { println!("FAIL iter={i} {m}"); std::process::exit(1) }
        None => println!("PASS iters={}", next.load(Relaxed)),
    }
}
