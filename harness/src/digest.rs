//! C21: the same calls, recorded as digests of everything observed. The runner
//! executes this suite in every build configuration and compares the digests
//! block by block.
use crate::ctx::{catch, Ctx};
use crate::flat::{flat, IEv, IE};
use crate::gen;
use crate::hist::{self, World};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::{any_literal, assemble, forget_sources};
use proc_macro2::{Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::Write as _;

struct Rec {
    h: u64,
    n: u64,
    line: String,
    dump: Option<String>,
}

impl Rec {
    fn put(&mut self, what: &str, input: &str) {
        // which non-ASCII characters the standard library considers printable,
        // and so which ones are escaped in a literal, varies between compilers
        let escaped;
        let what = if what.is_ascii() {
            what
        } else {
            let mut o = String::with_capacity(what.len() + 32);
            for c in what.chars() {
                if c.is_ascii() {
                    o.push(c);
                } else {
                    let _ = write!(o, "\\u{{{:x}}}", c as u32);
                }
            }
            escaped = o;
            &escaped
        };
        self.n += 1;
        self.h = mix(self.h ^ hash_bytes(what.as_bytes())).wrapping_add(self.n);
        if self.dump.is_some() {
            let l = format!("{}\t{}\n", crate::ctx::js(input), crate::ctx::js(what));
            self.line.push_str(&l);
        }
    }
    fn done(self, ctx: &mut Ctx, phase: &str, i: u64) {
        ctx.digests.push((format!("{}:{}", phase, i), self.h));
        ctx.count("observations digested", self.n);
        if let Some(d) = &self.dump {
            std::fs::write(d, self.line).unwrap();
        }
        ctx.nontrivial(self.h);
    }
}

fn rec() -> Rec {
    Rec { h: 0, n: 0, line: String::new(), dump: std::env::var("MON_DUMP").ok() }
}

fn write_events(o: &mut String, evs: &[IE]) {
    for e in evs {
        let _ = match &e.ev {
            IEv::Open(d) => write!(o, "<{:?} ", d),
            IEv::Close(d) => write!(o, "{:?}> ", d),
            IEv::Ident(s) => write!(o, "i{} ", s),
            IEv::Punct(c, j) => write!(o, "p{}{} ", c, *j as u8),
            IEv::Lit(s) => write!(o, "l{} ", s),
        };
    }
}

/// Every location query that exists in all configurations.
fn query(s: Span) -> Result<(), String> {
    catch(|| {
        let _ = format!("{:?}", s);
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        {
            let _ = s.byte_range();
            let _ = s.start();
            let _ = s.end();
            let _ = s.file();
            let _ = s.local_file();
        }
        let _ = s.source_text();
        let _ = s.join(s).is_some();
        let _ = s.join(Span::call_site()).is_some();
        let _ = Span::mixed_site().join(s).is_some();
        let _ = format!("{:?}", s.located_at(Span::call_site()));
        let _ = format!("{:?}", s.resolved_at(Span::mixed_site()));
        #[cfg(procmacro2_semver_exempt)]
        {
            let _ = s.eq(&Span::call_site());
            let _ = Span::def_site();
        }
    })
    .map_err(|e| format!("a location query panicked: {}", e))
}

fn observe_source(rec: &mut Rec, s: &str, r: &mut Rng) -> Result<(), String> {
    let got = s.parse::<TokenStream>();
    let mut o = String::new();
    match got {
        Err(e) => {
            o.push_str("refused");
            query(e.span())?;
            let _ = format!("{:?}", e);
        }
        Ok(ts) => {
            let text = ts.to_string();
            let evs = flat(ts.clone());
            write_events(&mut o, &evs);
            o.push_str(" => ");
            o.push_str(&text);
            for _ in 0..2 {
                if !evs.is_empty() {
                    let e = &evs[r.below(evs.len())];
                    query(e.span)?;
                    query(e.span2)?;
                }
            }
            for t in ts.into_iter().take(4) {
                match &t {
                    TokenTree::Literal(l) => {
                        let n = l.to_string().len();
                        let _ = catch(|| l.subspan(0..n).is_some()).map_err(|e| format!("subspan panicked: {}", e))?;
                        let _ = catch(|| l.subspan(..).is_some()).map_err(|e| format!("subspan panicked: {}", e))?;
                        let _ = catch(|| l.subspan(1..n + 3).is_some()).map_err(|e| format!("subspan panicked: {}", e))?;
                    }
                    TokenTree::Group(g) => {
                        query(g.span_open())?;
                        query(g.span_close())?;
                        query(g.delim_span().join())?;
                    }
                    _ => {}
                }
                o.push('|');
                o.push_str(&t.to_string());
            }
        }
    }
    rec.put(&o, s);
    forget_sources();
    Ok(())
}

fn source_of(r: &mut Rng, files: &[(String, String)]) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 => gen::soup(r, &mut s, 9),
        1 => {
            let n = r.range(1, 12);
            gen::source(r, &mut s, n, 0, true)
        }
        2 | 3 => {
            let n = r.range(1, 10);
            let g = r.range(4, 10);
            gen::source(r, &mut s, n, g, true)
        }
        4 => {
            let n = r.range(1, 10);
            gen::source(r, &mut s, n, 3, true);
            gen::mutate(r, &mut s);
        }
        5 => {
            for _ in 0..r.below(12) {
                s.push(gen::any_char(r));
            }
        }
        6 if !files.is_empty() => {
            let f = &files[r.below(files.len())].1;
            if !f.is_empty() {
                let mut a = r.below(f.len());
                let mut b = (a + r.below(200)).min(f.len());
                while !f.is_char_boundary(a) {
                    a -= 1;
                }
                while !f.is_char_boundary(b) {
                    b += 1;
                }
                s.push_str(&f[a..b]);
                if r.chance(1, 2) {
                    gen::mutate(r, &mut s);
                }
            }
        }
        _ => {
            let t = &gen::THEMES[r.below(gen::THEMES.len())];
            s.push_str(t.pre);
            for _ in 0..r.below(9) {
                s.push_str(r.pick(t.alpha));
            }
            s.push_str(t.post);
        }
    }
    s
}

const BLOCK: u64 = 100;

pub fn c21(ctx: &mut Ctx) {
    let files = gen::corpus(if ctx.thorough { 400 } else { 60 });
    let n = ctx.n(2_000, 60_000);
    ctx.phase("sources", n, |ctx, i, r| {
        let mut rec = rec();
        let mut res = Ok(());
        for _ in 0..BLOCK {
            let s = source_of(r, &files);
            ctx.set_input(&s);
            res = observe_source(&mut rec, &s, r);
            if res.is_err() {
                break;
            }
        }
        ctx.sample(|| ctx_sample(r, &files));
        rec.done(ctx, "sources", i);
        res
    });
    let total: u64 = gen::THEMES.iter().map(|t| gen::nth_count(t.alpha, t.quick - 1)).sum();
    ctx.phase("all-short", total / BLOCK + 1, |ctx, i, r| {
        let mut rec = rec();
        for k in i * BLOCK..(i + 1) * BLOCK {
            let mut k = k;
            for t in gen::THEMES {
                let c = gen::nth_count(t.alpha, t.quick - 1);
                if k < c {
                    let mut s = String::from(t.pre);
                    gen::nth_string(t.alpha, k, &mut s);
                    s.push_str(t.post);
                    ctx.set_input(&s);
                    observe_source(&mut rec, &s, r)?;
                    break;
                }
                k -= c;
            }
        }
        rec.done(ctx, "all-short", i);
        Ok(())
    });
    const FEWER: &[usize] = &[16, 33, 64, 100, 129, 255, 256, 257, 511, 1000, 1024, 4097];
    const MANY: &[usize] = &[65_535, 65_537];
    let total = gen::LARGE_FORMS * (FEWER.len() + MANY.len()) as u64;
    ctx.phase("large", total, |ctx, i, r| {
        let k = (i / gen::LARGE_FORMS) as usize;
        let mut s = gen::large(i, if k < FEWER.len() { FEWER[k] } else { MANY[k - FEWER.len()] }, r);
        if gen::depth(&s) > 500 {
            // printing takes stack in proportion to the nesting
            s = gen::large(i, 200, r);
        }
        ctx.set_input(&s);
        let mut rec = rec();
        observe_source(&mut rec, &s, r)?;
        rec.done(ctx, "large", i);
        Ok(())
    });
    ctx.phase("files", files.len() as u64, |ctx, i, r| {
        let mut rec = rec();
        ctx.set_input(&format!("file {}", files[i as usize].0));
        observe_source(&mut rec, &files[i as usize].1, r)?;
        rec.done(ctx, "files", i);
        Ok(())
    });
    let n = ctx.n(2_000, 40_000);
    ctx.phase("literals", n, |ctx, i, r| {
        let mut rec = rec();
        for _ in 0..BLOCK {
            let mut s = String::new();
            match r.below(5) {
                0 => gen::soup(r, &mut s, 4),
                1 => {
                    gen::literal(r, &mut s);
                    gen::mutate(r, &mut s);
                }
                2 => {
                    s.push('-');
                    gen::number(r, &mut s);
                }
                _ => gen::literal(r, &mut s),
            }
            ctx.set_input(&s);
            let o = match s.parse::<Literal>() {
                Ok(l) => {
                    query(l.span())?;
                    let mut o = String::new();
                    write_events(&mut o, &flat(TokenStream::from(TokenTree::from(l.clone()))));
                    format!("{} {}", l, o)
                }
                Err(_) => "refused".to_string(),
            };
            rec.put(&o, &s);
            forget_sources();
        }
        rec.done(ctx, "literals", i);
        Ok(())
    });
    let n = ctx.n(2_000, 40_000);
    ctx.phase("values", n, |ctx, i, r| {
        let mut rec = rec();
        for _ in 0..BLOCK {
            let l = match r.below(4) {
                0 => {
                    // a float of any exponent
                    let f = f64::from_bits(r.next());
                    let f = if f.is_finite() { f } else { 0.5 };
                    if r.chance(1, 2) {
                        Literal::f64_unsuffixed(f)
                    } else if (f as f32).is_finite() {
                        Literal::f32_suffixed(f as f32)
                    } else {
                        Literal::f64_suffixed(f)
                    }
                }
                _ => any_literal(r),
            };
            query(l.span())?;
            rec.put(&l.to_string(), "value");
            forget_sources();
        }
        // printing of assembled streams
        for _ in 0..BLOCK / 4 {
            let mut want = Vec::new();
            let ts = assemble(r, &mut want, 3);
            let mut o = String::new();
            write_events(&mut o, &flat(ts.clone()));
            rec.put(&format!("{} => {}", o, ts), "assembled");
            forget_sources();
        }
        rec.done(ctx, "values", i);
        Ok(())
    });
    let n = ctx.n(2_000, 40_000);
    ctx.phase("identifiers", n, |ctx, i, r| {
        let mut rec = rec();
        let mut kept: Vec<Ident> = Vec::new();
        for _ in 0..BLOCK {
            let mut s = String::new();
            gen::ident(r, &mut s);
            match r.below(4) {
                0 => gen::mutate(r, &mut s),
                1 => s.insert(0, gen::any_char(r)),
                2 => s.push(gen::any_char(r)),
                _ => {}
            }
            ctx.set_input(&s);
            for raw in [false, true] {
                let x = catch(|| if raw { Ident::new_raw(&s, Span::call_site()) } else { Ident::new(&s, Span::mixed_site()) });
                match x {
                    Ok(x) => {
                        query(x.span())?;
                        rec.put(&x.to_string(), &s);
                        kept.push(x);
                    }
                    Err(_) => rec.put("refused", &s),
                }
            }
            let t = if r.chance(1, 2) { format!("r#{}", s) } else { s.clone() };
            for x in kept.iter().rev().take(6) {
                let a = kept[r.below(kept.len())].clone();
                rec.put(&format!("{} {:?} {}", a == *x, a.cmp(x), *x == *t), &s);
            }
        }
        // characters as punctuation
        for _ in 0..BLOCK {
            let c = if r.chance(1, 2) { gen::any_char(r) } else { (r.below(128) as u8) as char };
            let x = catch(|| Punct::new(c, if c as u32 % 2 == 0 { Spacing::Joint } else { Spacing::Alone }));
            match x {
                Ok(p) => {
                    query(p.span())?;
                    rec.put(&format!("{} {:?}", p, p.spacing()), "punct");
                }
                Err(_) => rec.put("refused", &c.to_string()),
            }
        }
        rec.done(ctx, "identifiers", i);
        Ok(())
    });
    let n = ctx.n(3_000, 100_000);
    ctx.phase("histories", n, |ctx, i, r| {
        let mut rec = rec();
        let mut w = World::new(hist::key_none, true, vec![]);
        for _ in 0..r.range(5, 60) {
            w.step(r, i % 2 == 0)?;
        }
        for (s, _) in &w.streams {
            let mut o = String::new();
            write_events(&mut o, &flat(s.clone()));
            rec.put(&format!("{} => {} {}", o, s, s.is_empty()), &w.log);
        }
        for (t, _) in &w.tokens {
            query(t.span())?;
            rec.put(&t.to_string(), &w.log);
            if let TokenTree::Group(g) = t {
                let g2 = Group::new(g.delimiter(), g.stream());
                rec.put(&g2.to_string(), &w.log);
            }
        }
        for (it, _, _) in &w.iters {
            rec.put(&it.clone().map(|t| t.to_string()).collect::<Vec<_>>().join(" "), &w.log);
        }
        let log = std::mem::take(&mut w.log);
        drop(w);
        forget_sources();
        ctx.set_input(&log);
        rec.done(ctx, "histories", i);
        Ok(())
    });
}

fn ctx_sample(r: &mut Rng, files: &[(String, String)]) -> String {
    source_of(&mut r.clone(), files)
}
