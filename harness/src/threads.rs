//! C18: threads are independent. Each process starts threads on a barrier so
//! that first use races; every thread's observations are digested and compared
//! with those of the same work done by a single thread.
use crate::ctx::Ctx;
use crate::gen;
use crate::hist::{self, World};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::forget_sources;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

thread_local! {
    /// dropped when the thread exits
    static KEPT: RefCell<Vec<TokenStream>> = const { RefCell::new(Vec::new()) };
}

#[derive(Default)]
pub struct Trace {
    ticket: AtomicUsize,
    /// which thread took which step, packed
    order: Mutex<Vec<u8>>,
    pub ops: AtomicU64,
}

impl Trace {
    fn step(&self, id: u8) {
        self.ops.fetch_add(1, Ordering::Relaxed);
        if self.ticket.fetch_add(1, Ordering::Relaxed) < 4096 {
            if let Ok(mut o) = self.order.try_lock() {
                o.push(id);
            }
        }
    }
}

fn delay(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop();
            }
        }
        2 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

fn describe(_s: &Span, _out: &mut String) {
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    {
        let (b, s, e) = (_s.byte_range(), _s.start(), _s.end());
        let _ = write!(_out, "@{}..{} {}:{}-{}:{} {} {:?};", b.start, b.end, s.line, s.column, e.line, e.column, _s.file(), _s.source_text());
    }
}

fn describe_stream(ts: TokenStream, out: &mut String, loc: bool) {
    for e in crate::flat::flat(ts) {
        let _ = write!(out, "{:?}", e.ev);
        if loc {
            describe(&e.span, out);
            describe(&e.span2, out);
        }
    }
}

/// Deterministic work of one thread; the observations as digests per step.
fn work(seed: u64, steps: usize, id: u8, tr: &Trace, jitter: u64, toggling: bool) -> Result<Vec<u64>, String> {
    let mut r = Rng::new(seed);
    if r.chance(1, 2) {
        // what the thread keeps to its end goes after everything the library keeps
        KEPT.with(|k| drop(k.borrow()));
    }
    let mut j = Rng::new(jitter);
    let mut digests = Vec::new();
    let mut kept: Vec<TokenStream> = Vec::new();
    let mut out = String::new();
    for _ in 0..steps {
        tr.step(id);
        delay(&mut j);
        out.clear();
        // with the fallback forced now and then by others nothing may change
        let _ = toggling;
        match r.below(12) {
            0..=3 => {
                let mut s = String::new();
                let n = r.below(6);
                gen::source(&mut r, &mut s, n, 3, true);
                if r.chance(1, 3) {
                    gen::mutate(&mut r, &mut s);
                }
                match s.parse::<TokenStream>() {
                    Ok(ts) => {
                        describe_stream(ts.clone(), &mut out, true);
                        let _ = write!(out, "{}", ts);
                        kept.push(ts);
                    }
                    Err(e) => {
                        let _ = write!(out, "error {}", e);
                        describe(&e.span(), &mut out);
                    }
                }
            }
            4 => {
                let mut s = String::new();
                gen::literal(&mut r, &mut s);
                match s.parse::<Literal>() {
                    Ok(l) => {
                        let _ = write!(out, "{}", l);
                        describe(&l.span(), &mut out);
                    }
                    Err(e) => {
                        let _ = write!(out, "error {}", e);
                    }
                }
            }
            5 => {
                let l = crate::text::any_literal(&mut r);
                let _ = write!(out, "{}", l);
                describe(&l.span(), &mut out);
            }
            6 => {
                let mut s = String::new();
                gen::ident(&mut r, &mut s);
                let i = Ident::new(&s, Span::call_site());
                let p = Punct::new('+', Spacing::Joint);
                let g = Group::new(Delimiter::Brace, TokenStream::new());
                let _ = write!(out, "{} {} {} {:?}", i, p, g, i == s);
                describe(&i.span(), &mut out);
                describe(&Span::mixed_site(), &mut out);
            }
            7 => {
                let n = r.range(1, 6);
                let mut w = World::new(hist::key_range, true, vec![]);
                let x = hist::run_history(&mut r, &mut w, n, false);
                let _ = write!(out, "{:?}", x);
                x?;
            }
            8 | 9 => {
                // earlier parses still say the same
                for k in &kept {
                    describe_stream(k.clone(), &mut out, true);
                }
            }
            10 => {
                if r.chance(1, 3) {
                    forget_sources();
                    kept.clear();
                    out.push_str("forgot");
                }
            }
            _ => {
                if let Some(k) = kept.last() {
                    let mut c = k.clone();
                    c.extend(kept.iter().cloned());
                    describe_stream(c, &mut out, false);
                }
            }
        }
        if kept.len() > 4 {
            kept.remove(0);
        }
        digests.push(hash_bytes(out.as_bytes()));
    }
    KEPT.with(|k| *k.borrow_mut() = kept);
    Ok(digests)
}

pub struct Report {
    pub err: Option<String>,
    pub order: u64,
    pub ops: u64,
    pub threads: u64,
    pub toggles: u64,
}

/// One process's worth of racing threads.
pub fn race(seed: u64, nthreads: usize, steps: usize, waves: usize) -> Report {
    let tr = Arc::new(Trace::default());
    let mut rng = Rng::new(seed);
    let toggling = rng.chance(1, 2);
    let stop = Arc::new(AtomicBool::new(false));
    let toggles = Arc::new(AtomicU64::new(0));
    let mut err = None;
    let mut results: Vec<(u64, usize, Result<Vec<u64>, String>)> = Vec::new();
    let mut threads = 0;
    let kind = rng.below(3);
    for wave in 0..waves {
        let extra = if toggling { 1 } else { 0 };
        let barrier = Arc::new(Barrier::new(nthreads + extra));
        let mut hs = Vec::new();
        for i in 0..nthreads {
            let (tr, b) = (tr.clone(), barrier.clone());
            let s = mix(seed ^ mix(((wave * 64 + i) as u64) << 8));
            let jitter = rng.next();
            // all threads doing the same work, or each its own
            let s = if kind == 0 { mix(seed ^ wave as u64) } else { s };
            let n = steps + (s % 5) as usize;
            threads += 1;
            hs.push((
                s,
                n,
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        b.wait();
                        let x = std::panic::catch_unwind(|| work(s, n, i as u8, &tr, jitter, true));
                        match x {
                            Ok(x) => x,
                            Err(_) => Err(format!("panicked: {}", crate::ctx::LAST_PANIC.with(|p| p.borrow().clone()))),
                        }
                    })
                    .unwrap(),
            ));
        }
        let toggler = if toggling {
            stop.store(false, Ordering::Relaxed);
            let (stop, b, t, jitter) = (stop.clone(), barrier.clone(), toggles.clone(), rng.next());
            Some(std::thread::spawn(move || {
                let mut j = Rng::new(jitter);
                b.wait();
                let mut n = 0;
                while !stop.load(Ordering::Relaxed) {
                    #[cfg(feature = "pm")]
                    {
                        proc_macro2::fallback::force();
                        delay(&mut j);
                        proc_macro2::fallback::unforce();
                    }
                    delay(&mut j);
                    t.fetch_add(1, Ordering::Relaxed);
                    n += 1;
                    if cfg!(miri) && n > 20 {
                        break;
                    }
                }
            }))
        } else {
            None
        };
        for (s, n, h) in hs {
            match h.join() {
                Ok(x) => results.push((s, n, x)),
                Err(_) => err = Some("a thread died while exiting".to_string()),
            }
        }
        stop.store(true, Ordering::Relaxed);
        if let Some(t) = toggler {
            let _ = t.join();
        }
    }
    // the same work done alone, each in a thread of its own
    let quiet = Trace::default();
    let quiet = Arc::new(quiet);
    let mut solo: std::collections::HashMap<(u64, usize), Vec<u64>> = std::collections::HashMap::new();
    for (i, (s, n, got)) in results.iter().enumerate() {
        let want = match solo.get(&(*s, *n)) {
            Some(w) => w.clone(),
            None => {
                let (q, s2, n2) = (quiet.clone(), *s, *n);
                match std::thread::spawn(move || work(s2, n2, 0, &q, 0, false)).join() {
                    Ok(Ok(w)) => {
                        solo.insert((*s, *n), w.clone());
                        w
                    }
                    Ok(Err(e)) => {
                        err = Some(format!("alone: {}", e));
                        break;
                    }
                    Err(_) => {
                        err = Some("panicked when alone".into());
                        break;
                    }
                }
            }
        };
        match got {
            Ok(g) if *g == want => {}
            Ok(g) => {
                let at = g.iter().zip(&want).position(|(a, b)| a != b);
                err = Some(format!("thread {} of {} observed something else than alone, first at its step {:?}", i, results.len(), at));
            }
            Err(e) => err = Some(format!("thread {} of {}: {}", i, results.len(), e)),
        }
    }
    let order = hash_bytes(&tr.order.lock().unwrap());
    Report { err, order, ops: tr.ops.load(Ordering::Relaxed), threads, toggles: toggles.load(Ordering::Relaxed) }
}

/// Child process: prints its report.
pub fn child(seed: u64, nthreads: usize, steps: usize, waves: usize) {
    let r = race(seed, nthreads, steps, waves);
    println!("{} {} {} {} {}", r.order, r.ops, r.threads, r.toggles, r.err.unwrap_or_default());
}

fn absorb(ctx: &mut Ctx, r: Report, what: &str) -> Result<(), String> {
    ctx.count("threads run", r.threads);
    ctx.count("concurrent operations", r.ops);
    ctx.count("fallback toggles", r.toggles);
    ctx.count(what, 1);
    ctx.nontrivial(r.order);
    match r.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn c18(ctx: &mut Ctx) {
    let exe = std::env::current_exe().unwrap();
    let n = ctx.n(240, 8_000);
    ctx.phase("processes", n, |ctx, i, r| {
        let seed = r.next();
        let nthreads = r.range(2, 12);
        let steps = r.range(1, 30);
        let waves = r.range(1, 3);
        ctx.set_input(&format!("T18 {} {} {} {}", seed, nthreads, steps, waves));
        let out = std::process::Command::new(&exe)
            .args(["T18", &seed.to_string(), &nthreads.to_string(), &steps.to_string(), &waves.to_string()])
            .output()
            .map_err(|e| format!("cannot start: {}", e))?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let errs = String::from_utf8_lossy(&out.stderr).to_string();
        if !out.status.success() {
            return Err(format!("process died: {:?}: {}", out.status, &errs[..errs.len().min(3000)]));
        }
        let line = text.lines().last().unwrap_or("").to_string();
        let mut f = line.splitn(5, ' ');
        let mut num = || f.next().and_then(|x| x.parse::<u64>().ok());
        let (order, ops, threads, toggles) = (num(), num(), num(), num());
        let e = f.next().unwrap_or("").to_string();
        let rep = Report {
            err: if e.is_empty() { None } else { Some(e) },
            order: order.ok_or_else(|| format!("no report: {:?}", text))?,
            ops: ops.unwrap_or(0),
            threads: threads.unwrap_or(0),
            toggles: toggles.unwrap_or(0),
        };
        ctx.sample(|| format!("process {}: {} threads, {} operations, {} toggles, interleaving {:x}", i, rep.threads, rep.ops, rep.toggles, rep.order));
        absorb(ctx, rep, "processes with racing first use")
    });
    let n = ctx.n(300, 10_000);
    ctx.phase("in-process", n, |ctx, _, r| {
        let rep = race(r.next(), r.range(2, 8), r.range(5, 60), r.range(1, 2));
        absorb(ctx, rep, "races in one process")
    });
}

/// Under the interpreter: small, with first use racing.
pub fn m18(ctx: &mut Ctx) {
    let n = ctx.nshards;
    ctx.phase("race", n, |ctx, _, r| {
        let seed = r.next() ^ ctx.shard;
        let rep = race(seed, 3, 3, 1);
        absorb(ctx, rep, "races interpreted")
    });
}
