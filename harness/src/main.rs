//! Replay harness: executes the property contracts on the real crate.
//! `vharness run <PROP> <seed> <quick|thorough> <report.json> <replay-file>`
//! `vharness case <PROP> <seed> <index>` re-runs one case and prints its verdict.
mod clusters;
mod colour;
mod gen;
mod graphs;
mod img;
mod neigh;
mod numeric;

use gen::Rng;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Info {
    pub input: String,
    pub nontrivial: bool,
    pub evals: u64,
}
pub type Res = Result<(), String>;
pub type CaseFn = fn(u64, &mut Rng, &mut Info) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub bound: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(img::props());
    v.extend(clusters::props());
    v.extend(neigh::props());
    v.extend(graphs::props());
    v.extend(colour::props());
    v.extend(numeric::props());
    v
}

fn case_rng(id: &str, seed: u64, idx: u64) -> Rng {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03));
    r.next();
    r.next();
    r
}

fn run_case(p: &Prop, seed: u64, idx: u64, info: &mut Info) -> Res {
    let mut rng = case_rng(p.id, seed, idx);
    let f = p.f;
    match catch_unwind(AssertUnwindSafe(|| f(idx, &mut rng, info))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {m}"))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

fn write_replay(path: &str, p: &Prop, seed: u64, idx: u64, input: &str, msg: &str) {
    let s = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"case\": {},\n \"failure\": {},\n \"input\": {},\n \"rerun\": {}\n}}\n",
        esc(p.id),
        seed,
        idx,
        esc(msg),
        esc(&cut(input, 400_000)),
        esc(&format!("sh /verif/replay.sh {} {} {}", p.id, seed, idx)),
    );
    let _ = std::fs::write(path, s);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 2 && a[1] == "extract-dump" {
        img::dump(&a[2..]);
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let all = props();
    let p = all.iter().find(|p| p.id == a[2]).expect("unknown property");
    let seed: u64 = a[3].parse().unwrap();
    if a[1] == "case" {
        let mut info = Info::default();
        let r = run_case(p, seed, a[4].parse().unwrap(), &mut info);
        println!("input: {}", info.input);
        match r {
            Ok(()) => println!("PASS"),
            Err(e) => {
                println!("FAIL: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let tier = a[4].as_str();
    let (report, replay) = (a[5].clone(), a[6].clone());
    let n = if tier == "thorough" { p.thorough } else { p.quick };
    let cap = Duration::from_secs(if tier == "thorough" { 600 } else { 150 });
    let case_limit = Duration::from_secs(90);
    let t0 = Instant::now();
    let threads = 8usize;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let fail: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let stats = Mutex::new((0u64, HashSet::<u64>::new(), Vec::<(u64, String)>::new()));
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, done, slots, fail, stats) = (&next, &stop, &done, &slots, &fail, &stats);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let (mut ev, mut hs, mut samples) = (0u64, HashSet::new(), Vec::new());
                    loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= n || stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                            break;
                        }
                        *slots[t].lock().unwrap() = Some((idx, Instant::now()));
                        let mut info = Info::default();
                        let r = run_case(p, seed, idx, &mut info);
                        *slots[t].lock().unwrap() = None;
                        ev += info.evals.max(1);
                        if info.nontrivial {
                            let mut h = 0xcbf29ce484222325u64;
                            for b in info.input.bytes() {
                                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                            }
                            hs.insert(h);
                            if samples.len() < 2 {
                                samples.push((idx, cut(&info.input, 300)));
                            }
                        }
                        if let Err(e) = r {
                            let mut f = fail.lock().unwrap();
                            // Keep the failing case with the shortest input for the replay file.
                            let better = f.as_ref().map_or(true, |o| info.input.len() < o.1.len());
                            if better {
                                *f = Some((idx, info.input, e));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let mut g = stats.lock().unwrap();
                    g.0 += ev;
                    g.1.extend(hs);
                    g.2.extend(samples);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        while done.load(Ordering::Relaxed) < threads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            for sl in &slots {
                let v = *sl.lock().unwrap();
                if let Some((idx, st)) = v {
                    if st.elapsed() > case_limit {
                        let msg = format!("did not terminate within {} s", case_limit.as_secs());
                        write_replay(&replay, p, seed, idx, "(re-run the case to regenerate the input)", &msg);
                        println!("FAIL case={idx} {msg}");
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let g = stats.into_inner().unwrap();
    let mut samples = g.2;
    samples.sort();
    samples.truncate(3);
    let f = fail.into_inner().unwrap();
    let rep = format!(
        "{{\"evaluations\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"bound\": {}, \"samples\": [{}], \"failed\": {}, \"wall_s\": {:.3}}}\n",
        g.0,
        n.min(next.load(Ordering::Relaxed)),
        g.1.len(),
        esc(p.rule),
        esc(p.bound),
        samples.iter().map(|s| esc(&format!("case {}: {}", s.0, s.1))).collect::<Vec<_>>().join(", "),
        f.is_some(),
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(&report, rep).unwrap();
    if let Some((idx, input, msg)) = f {
        write_replay(&replay, p, seed, idx, &input, &msg);
        println!("FAIL case={idx} {}", cut(&msg, 600));
        std::process::exit(1);
    }
    println!("OK evaluations={} distinct={}", g.0, g.1.len());
}
