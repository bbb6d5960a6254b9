//! Command line of a monitor process, shared by the program and the
//! procedural macro.
use crate::ctx::{self, Ctx};
use std::sync::atomic::Ordering;

pub struct Cli {
    pub ctx: Ctx,
    pub out: String,
    pub stack: usize,
    pub hang: f64,
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn parse(args: &[String]) -> Cli {
    let mut c = Ctx::new(&args[0], 1);
    let mut out = String::new();
    // only C01 promises anything about the stack (printing, say, recurses)
    let mut stack = if args[0] == "C01" { 1 << 20 } else { 64 << 20 };
    let mut hang = 60.0;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => c.seed = v.parse().unwrap(),
            "--tier" => c.thorough = v == "thorough",
            "--shard" => {
                let (a, b) = v.split_once('/').unwrap();
                c.shard = a.parse().unwrap();
                c.nshards = b.parse().unwrap();
            }
            "--scale" => c.scale = v.parse().unwrap(),
            "--only" => {
                let (a, b) = v.rsplit_once(':').unwrap();
                c.only = Some((a.to_string(), b.parse().unwrap()));
            }
            "--trace" => c.trace = crate::trace::Trace::open(&v),
            "--out" => out = v,
            "--stack" => stack = v.parse().unwrap(),
            "--hang" => hang = v.parse().unwrap(),
            "--deadline" => {
                c.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(v.parse().unwrap()))
            }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    Cli { ctx: c, out, stack, hang }
}

/// A case that makes no progress for `hang` seconds of CPU time is a hang, and
/// one that sleeps for three times as long is a deadlock.
pub fn watchdog(out: String, hang: f64) {
    if cfg!(miri) {
        return;
    }
    let idle = hang * 3.0;
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = 0.0;
        let mut wall = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = ctx::PROGRESS.load(Ordering::Relaxed);
            let t = cpu_seconds();
            if p != last {
                last = p;
                since = t;
                wall = std::time::Instant::now();
            } else if t - since > hang || wall.elapsed().as_secs_f64() > idle && t - since < idle / 20.0 {
                let phase = ctx::CURPHASE.lock().unwrap().clone();
                let idx = ctx::CURRENT.load(Ordering::Relaxed);
                let _ = std::fs::write(
                    &out,
                    format!(
                        "{{\"evals\":{},\"truncated\":true,\"distinct\":0,\"counters\":{{}},\"phases\":[],\"samples\":[],\"violations\":[{{\"phase\":{},\"index\":{},\"msg\":\"no result after {:.0} s ({:.0} s of CPU time)\",\"input\":\"\"}}]}}",
                        p, ctx::js(&phase), idx, wall.elapsed().as_secs_f64(), t - since
                    ),
                );
                std::process::exit(7);
            }
        }
    });
}

pub fn finish(c: &Ctx, out: &str) {
    if out.is_empty() {
        println!("{}", c.json());
        return;
    }
    std::fs::write(out, c.json()).unwrap();
    if !c.bitmap.is_empty() {
        let b: Vec<u8> = c.bitmap.iter().flat_map(|w| w.to_le_bytes()).collect();
        std::fs::write(format!("{}.bits", out), b).unwrap();
    }
}
