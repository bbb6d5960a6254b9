//! Monitors that run inside the compiler, as a procedural macro: C19, C20, C22.
extern crate proc_macro;

use crate::agree::{common_char, compiler_says, lf, same_inside};
use crate::ctx::{catch, Ctx};
use crate::flat::{flat, IEv};
use crate::gen;
use crate::hist::{self, expand_all, key_debug, World, M};
use crate::lit::decode;
use crate::reflex::{self, Lit, Verdict};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::{self, drive, Mix};
use proc_macro2::{fallback, Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use std::ffi::CString;

struct Inside {
    palette: Vec<proc_macro::Span>,
    long: Option<proc_macro::Span>,
    tokens: Option<proc_macro::TokenStream>,
    errfile: String,
    errlen: u64,
}

thread_local! {
    static IN: RefCell<Inside> = const { RefCell::new(Inside { palette: Vec::new(), long: None, tokens: None, errfile: String::new(), errlen: 0 }) };
}

fn spans_of(ts: proc_macro::TokenStream, out: &mut Vec<proc_macro::Span>) {
    for t in ts {
        out.push(t.span());
        if let proc_macro::TokenTree::Group(g) = t {
            out.push(g.span_open());
            out.push(g.span_close());
            spans_of(g.stream(), out);
        }
    }
}

/// Entry from the macro.
pub fn run(args: &[String], input: proc_macro::TokenStream) {
    crate::ctx::install_hook();
    let mut cli = crate::cli::parse(args);
    crate::cli::watchdog(cli.out.clone(), cli.hang);
    IN.with(|i| {
        let mut i = i.borrow_mut();
        spans_of(input.clone(), &mut i.palette);
        for t in input.clone() {
            if t.to_string() == "long_identifier_for_puncts" {
                i.long = Some(t.span());
            }
        }
        i.tokens = Some(input);
        i.errfile = std::env::var("MON_STDERR").unwrap_or_default();
    });
    if std::env::var_os("MON_FORCE").is_some() {
        fallback::force();
    }
    crate::run(&mut cli.ctx);
    fallback::unforce();
    crate::cli::finish(&cli.ctx, &cli.out);
    IN.with(|i| {
        let mut i = i.borrow_mut();
        i.palette.clear();
        i.tokens = None;
    });
}

/// What the compiler has printed since the last call.
fn complaints() -> Option<String> {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let n = std::fs::metadata(&i.errfile).map(|m| m.len()).unwrap_or(0);
        if n > i.errlen {
            let all = std::fs::read(&i.errfile).unwrap_or_default();
            let new = String::from_utf8_lossy(&all[i.errlen as usize..]).into_owned();
            i.errlen = n;
            // (warnings, as on an escaped line end, are the compiler's business)
            if new.lines().any(|l| l.trim_start().starts_with("error")) {
                return Some(new);
            }
        }
        None
    })
}

fn outside<T>(f: impl FnOnce() -> T) -> T {
    fallback::force();
    let r = catch(f);
    fallback::unforce();
    match r {
        Ok(r) => r,
        Err(e) => panic!("outside: {}", e),
    }
}

/// Inside a macro, and not forced for good.
pub fn inside() -> bool {
    IN.with(|i| i.borrow().tokens.is_some()) && std::env::var_os("MON_FORCE").is_none()
}

pub fn forget() {
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    outside(proc_macro2::extra::invalidate_current_thread_spans);
}

// ---------------------------------------------------------------- C19

fn text_case(ctx: &mut Ctx, src: &str) -> Result<(), String> {
    let mut refs = Vec::new();
    let verdict = reflex::lex(src, &mut refs);
    let out = outside(|| src.parse::<TokenStream>().map(flat));
    let judged = match (&out, verdict) {
        (Err(_), Verdict::Accept) => !compiler_says(src, &refs),
        (Err(_), _) => true,
        (Ok(_), Verdict::Accept) => !compiler_says(src, &refs),
        _ => false,
    };
    if !judged {
        ctx.count("left to the compiler", 1);
        return Ok(());
    }
    let ins = src.parse::<TokenStream>();
    if let Some(c) = complaints() {
        return Err(format!("the compiler complained: {}", c.chars().take(600).collect::<String>()));
    }
    match (out, ins) {
        (Err(_), Err(e)) => {
            let _ = (e.to_string(), format!("{:?}", e), format!("{:?}", e.span()));
            ctx.count("refused alike", 1);
            ctx.nontrivial(hash_bytes(src.as_bytes()));
        }
        (Ok(_), Err(e)) => return Err(format!("refused inside only: {}", e)),
        (Err(_), Ok(ts)) => return Err(format!("accepted inside only, as {}", ts)),
        (Ok(o), Ok(ts)) => {
            let i = flat(ts);
            same_inside(&o, &i, &refs)?;
            ctx.count("tokens agreed", o.len() as u64);
            if !o.is_empty() {
                ctx.nontrivial(hash_bytes(src.as_bytes()));
                ctx.sample(|| src.to_string());
            }
        }
    }
    Ok(())
}

fn literal_case(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    let body = s.strip_prefix('-').unwrap_or(s);
    let out = outside(|| s.parse::<Literal>().map(|l| l.to_string()));
    // (the compiler turns CR LF into LF on the way in)
    if out.is_ok() && s.contains('\r') {
        ctx.count("left to the compiler", 1);
        return Ok(());
    }
    let must = matches!(reflex::literal(body), Lit::Ok { end, may: false } if end == body.len());
    if out.is_ok() && !(must && body.chars().skip_while(|c| c.is_ascii()).all(common_char)) {
        ctx.count("left to the compiler", 1);
        return Ok(());
    }
    let ins = s.parse::<Literal>();
    if let Some(c) = complaints() {
        return Err(format!("the compiler complained: {}", c.chars().take(600).collect::<String>()));
    }
    match (out, ins) {
        (Err(_), Err(_)) => ctx.count("literals refused alike", 1),
        (Ok(a), Ok(b)) => {
            let u = unsafe { Literal::from_str_unchecked(s) };
            let (b, u) = (b.to_string(), u.to_string());
            if b != u {
                return Err(format!("{:?} when checked, {:?} when not", b, u));
            }
            if lf(&a) != lf(&b) {
                return Err(format!("outside {:?}, inside {:?}", a, b));
            }
            ctx.count("literals agreed", 1);
        }
        (a, b) => return Err(format!("outside {:?}, inside {:?}", a.map_err(|_| "refused"), b.map(|l| l.to_string()).map_err(|_| "refused"))),
    }
    ctx.nontrivial(hash_bytes(s.as_bytes()));
    Ok(())
}

macro_rules! ints {
    ($v:ident, $out:ident, $($t:ident $s:ident $u:ident;)*) => {
        $(
            $out.push((concat!(stringify!($t), " suffixed"), Literal::$s($v as $t)));
            $out.push((concat!(stringify!($t), " unsuffixed"), Literal::$u($v as $t)));
        )*
    };
}

/// Literals from one set of values, in whatever mode is on.
fn made(v: u128, f: f64, c: char, s: &str, bytes: &[u8]) -> Vec<(&'static str, Literal)> {
    let mut o: Vec<(&'static str, Literal)> = Vec::new();
    ints!(v, o,
        u8 u8_suffixed u8_unsuffixed; u16 u16_suffixed u16_unsuffixed; u32 u32_suffixed u32_unsuffixed;
        u64 u64_suffixed u64_unsuffixed; u128 u128_suffixed u128_unsuffixed; usize usize_suffixed usize_unsuffixed;
        i8 i8_suffixed i8_unsuffixed; i16 i16_suffixed i16_unsuffixed; i32 i32_suffixed i32_unsuffixed;
        i64 i64_suffixed i64_unsuffixed; i128 i128_suffixed i128_unsuffixed; isize isize_suffixed isize_unsuffixed;);
    o.push(("f64 suffixed", Literal::f64_suffixed(f)));
    o.push(("f64 unsuffixed", Literal::f64_unsuffixed(f)));
    let g = f as f32;
    let g = if g.is_finite() { g } else { 1.5 };
    o.push(("f32 suffixed", Literal::f32_suffixed(g)));
    o.push(("f32 unsuffixed", Literal::f32_unsuffixed(g)));
    o.push(("character", Literal::character(c)));
    o.push(("byte character", Literal::byte_character(v as u8)));
    o.push(("string", Literal::string(s)));
    o.push(("byte string", Literal::byte_string(bytes)));
    let z: Vec<u8> = bytes.iter().copied().filter(|b| *b != 0).collect();
    o.push(("C string", Literal::c_string(&CString::new(z).unwrap())));
    o
}

fn values_case(ctx: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let v = match r.below(4) {
        0 => r.below(300) as u128,
        1 => (r.below(300) as i128 - 150) as u128,
        2 => (1u128 << r.below(128)).wrapping_sub(r.below(2) as u128),
        _ => (r.next() as u128) << 64 | r.next() as u128,
    };
    let f = f64::from_bits(r.next());
    let f = if f.is_finite() && r.chance(1, 2) { f } else { (r.next() as i32) as f64 / 64.0 };
    let c = gen::any_char(r);
    let s: String = (0..r.below(8)).map(|_| gen::any_char(r)).collect();
    let b: Vec<u8> = (0..r.below(8)).map(|_| r.next() as u8).collect();
    let out: Vec<String> = outside(|| made(v, f, c, &s, &b).iter().map(|(_, l)| l.to_string()).collect());
    let ins = made(v, f, c, &s, &b);
    if out.len() != ins.len() {
        return Err("constructor lists differ".into());
    }
    for ((name, l), a) in ins.into_iter().zip(out) {
        let t = l.to_string();
        ctx.set_input(&t);
        let (x, y) = (decode(&a), decode(&t));
        if x.is_none() || x != y {
            return Err(format!("{}: outside {} ({:?}), inside {} ({:?})", name, a, x, t, y));
        }
        // as tokens
        let evs = flat(TokenStream::from(TokenTree::from(l)));
        let neg = t.starts_with('-') as usize;
        if evs.len() != 1 + neg || evs[neg].ev != IEv::Lit(t[neg..].to_string()) {
            return Err(format!("{}: {} as a token reads {:?}", name, t, evs.iter().map(|e| &e.ev).collect::<Vec<_>>()));
        }
        ctx.count("constructed literals agreed", 1);
        ctx.nontrivial(hash_bytes(t.as_bytes()));
    }
    Ok(())
}

fn ident_case(ctx: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let mut s = String::new();
    loop {
        s.clear();
        gen::ident(r, &mut s);
        if s.chars().all(common_char) {
            break;
        }
    }
    ctx.set_input(&s);
    let raw_ok = !reflex::raw_forbidden(&s);
    let mk = |raw: bool| {
        if raw {
            Ident::new_raw(&s, Span::call_site())
        } else {
            Ident::new(&s, Span::call_site())
        }
    };
    for raw in [false, true] {
        if raw && !raw_ok {
            let o = outside(|| catch(|| mk(true)).is_ok());
            let i = catch(|| mk(true)).is_ok();
            complaints();
            if o || i {
                return Err(format!("r#{}: created (outside {}, inside {})", s, o, i));
            }
            continue;
        }
        let o = outside(|| mk(raw).to_string());
        let i = mk(raw);
        if o != i.to_string() || i != o || (raw && i == s) {
            return Err(format!("outside {}, inside {}", o, i));
        }
        let mut t = String::new();
        gen::ident(r, &mut t);
        if !t.chars().all(common_char) {
            t = format!("{}x", s);
        }
        let (a, b) = (i.clone(), Ident::new(&t, Span::mixed_site()));
        if (a == b) != (o == t) || a.cmp(&b) != o.as_str().cmp(&t) || b.cmp(&a) != t.as_str().cmp(&o) {
            return Err(format!("{} and {} compare {:?}", a, b, a.cmp(&b)));
        }
        ctx.count("identifiers agreed", 1);
        ctx.nontrivial(hash_bytes(o.as_bytes()) ^ raw as u64);
    }
    // invalid ones are refused in both
    let mut bad = s.clone();
    gen::mutate(r, &mut bad);
    if !crate::vals::valid_ident(&bad) {
        ctx.set_input(&bad);
        for raw in [false, true] {
            let mk = || if raw { Ident::new_raw(&bad, Span::call_site()) } else { Ident::new(&bad, Span::call_site()) };
            // (an r# prefix means a raw identifier to the compiler)
            let i = catch(|| mk().to_string());
            complaints();
            if i.is_ok() && !bad.starts_with("r#") && bad.is_ascii() {
                return Err(format!("created inside from {:?}", bad));
            }
            if outside(|| catch(|| drop(mk())).is_ok()) {
                return Err(format!("created outside from {:?}", bad));
            }
            ctx.count("invalid identifiers refused alike", 1);
        }
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    let mix = Mix {
        themes: if ctx.thorough { 2 } else { 1 },
        soup: 30_000,
        source: 15_000,
        glued: 15_000,
        mutated: 15_000,
        corpus: 40,
        windows: 10_000,
        big: 4,
    };
    let mut n = 0;
    drive(ctx, mix, &mut |ctx, s, _| {
        n += 1;
        if n % 64 == 0 {
            forget();
        }
        text_case(ctx, s)
    });
    let n = ctx.n(60_000, 600_000);
    ctx.phase("literals", n, |ctx, _, r| {
        let mut s = String::new();
        match r.below(5) {
            0 => gen::soup(r, &mut s, 4),
            1 => {
                gen::literal(r, &mut s);
                gen::mutate(r, &mut s);
            }
            2 => {
                s.push('-');
                gen::number(r, &mut s);
            }
            _ => gen::literal(r, &mut s),
        }
        ctx.set_input(&s);
        let x = literal_case(ctx, &s);
        if r.chance(1, 64) {
            forget();
        }
        x
    });
    let n = ctx.n(4_000, 100_000);
    ctx.phase("values", n, |ctx, _, r| values_case(ctx, r));
    let n = ctx.n(10_000, 200_000);
    ctx.phase("identifiers", n, |ctx, _, r| ident_case(ctx, r));
    ctx.phase("hostile", 200, |ctx, i, _| {
        // refused input of every kind leaves the compiler silent and usable
        let d = 1 + (i as usize % 50) * 20;
        let s = match i % 5 {
            0 => "(".repeat(d),
            1 => format!("{}{}", "[".repeat(d), "}".repeat(d)),
            2 => format!("{}'", "a ".repeat(d)),
            3 => format!("\"{}", "x".repeat(d)),
            _ => format!("/*{}", "/*".repeat(d)),
        };
        ctx.set_input(&s);
        text_case(ctx, &s)?;
        text_case(ctx, "a + (b) \"c\" 'd")
    });
}

/// C07 inside a macro.
pub fn p07(ctx: &mut Ctx) {
    crate::vals::c07(ctx);
    told(ctx);
}

/// C09 inside a macro.
pub fn p09(ctx: &mut Ctx) {
    #[cfg(procmacro2_semver_exempt)]
    crate::vals::decoding(ctx, true);
    told(ctx);
}

/// C10 inside a macro.
pub fn p10(ctx: &mut Ctx) {
    crate::vals::comparisons(ctx, true);
    told(ctx);
}

fn told(ctx: &mut Ctx) {
    ctx.phase("complaints", ctx.nshards, |ctx, _, _| match complaints() {
        Some(c) => Err(format!("the compiler complained: {}", c.chars().take(600).collect::<String>())),
        None => {
            ctx.count("suites inside a macro without complaint", 1);
            Ok(())
        }
    });
}

// ---------------------------------------------------------------- C20

fn pm_delim(d: proc_macro::Delimiter) -> Delimiter {
    match d {
        proc_macro::Delimiter::Parenthesis => Delimiter::Parenthesis,
        proc_macro::Delimiter::Brace => Delimiter::Brace,
        proc_macro::Delimiter::Bracket => Delimiter::Bracket,
        proc_macro::Delimiter::None => Delimiter::None,
    }
}

fn pm_key(s: proc_macro::Span) -> u64 {
    hash_bytes(format!("{:?}", s).as_bytes())
}

/// What the compiler's own API says the stream holds.
fn pm_record(ts: proc_macro::TokenStream) -> Vec<M> {
    ts.into_iter()
        .map(|t| {
            let k = pm_key(t.span());
            match t {
                proc_macro::TokenTree::Ident(i) => M::I(i.to_string(), k),
                proc_macro::TokenTree::Punct(p) => M::P(p.as_char(), p.spacing() == proc_macro::Spacing::Joint, k),
                proc_macro::TokenTree::Literal(l) => M::L(l.to_string(), k),
                proc_macro::TokenTree::Group(g) => M::G(pm_delim(g.delimiter()), std::rc::Rc::new(pm_record(g.stream())), k),
            }
        })
        .collect()
}

fn pm_build(ts: TokenStream) -> proc_macro::TokenStream {
    // puts the tokens together again with the compiler's API only
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => proc_macro::Delimiter::Parenthesis,
                    Delimiter::Brace => proc_macro::Delimiter::Brace,
                    Delimiter::Bracket => proc_macro::Delimiter::Bracket,
                    Delimiter::None => proc_macro::Delimiter::None,
                };
                let mut n = proc_macro::Group::new(d, pm_build(g.stream()));
                n.set_span(g.span().unwrap());
                proc_macro::TokenTree::Group(n)
            }
            TokenTree::Punct(p) => {
                let mut n = proc_macro::Punct::new(
                    p.as_char(),
                    if p.spacing() == Spacing::Joint { proc_macro::Spacing::Joint } else { proc_macro::Spacing::Alone },
                );
                n.set_span(p.span().unwrap());
                proc_macro::TokenTree::Punct(n)
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                proc_macro::TokenTree::Ident(match s.strip_prefix("r#") {
                    Some(x) => proc_macro::Ident::new_raw(x, i.span().unwrap()),
                    None => proc_macro::Ident::new(&s, i.span().unwrap()),
                })
            }
            TokenTree::Literal(l) => {
                let mut n: proc_macro::Literal = l.to_string().parse().unwrap();
                n.set_span(l.span().unwrap());
                proc_macro::TokenTree::Literal(n)
            }
        })
        .collect()
}

fn inside_world(r: &mut Rng) -> World {
    let (palette, long) = IN.with(|i| {
        let i = i.borrow();
        (i.palette.clone(), i.long)
    });
    let spans: Vec<Span> = palette.into_iter().map(Span::from).collect();
    let mut w = World::new(key_debug, false, spans);
    // The compiler glues adjacent joint puncts and then has one location for
    // all of them: either all puncts share one, or none is joint.
    if r.chance(1, 2) {
        w.punct_span = long.map(Span::from);
    } else {
        w.alone = true;
    }
    w
}

fn convert_case(r: &mut Rng, ts: &TokenStream, m: &[M]) -> Result<(), String> {
    let m = expand_all(m);
    let p: proc_macro::TokenStream = ts.clone().into();
    let got = pm_record(p.clone());
    if got != m {
        return Err(format!("converted to the compiler's type it holds {:?}, expected {:?}", got, m));
    }
    if p.is_empty() != m.is_empty() {
        return Err("is_empty differs after conversion".into());
    }
    let back = TokenStream::from(p.clone());
    hist::observe(back, &m, key_debug).map_err(|e| format!("converted there and back: {}", e))?;
    hist::observe(ts.clone(), &m, key_debug).map_err(|e| format!("after conversion of a clone: {}", e))?;
    if r.chance(1, 4) {
        let want = pm_build(ts.clone());
        let (a, b) = (ts.to_string(), want.to_string());
        // (the compiler prints a negative literal put in as such in one piece)
        let solid = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        if solid(&a) != solid(&b) {
            return Err(format!("prints {:?}, the same tokens put together by the compiler {:?}", a, b));
        }
        let (a, b) = (format!("{:?}", ts), format!("{:?}", want));
        if a != b {
            return Err(format!("debug form {:?}, of the same tokens put together by the compiler {:?}", a, b));
        }
    }
    Ok(())
}

/// Locations of the macro's own input, by both APIs.
fn input_locations(ctx: &mut Ctx) -> Result<(), String> {
    fn walk(ctx: &mut Ctx, a: proc_macro::TokenStream, b: TokenStream) -> Result<(), String> {
        let (a, b): (Vec<_>, Vec<_>) = (a.into_iter().collect(), b.into_iter().collect());
        if a.len() != b.len() {
            return Err(format!("{} tokens, {} for the compiler", b.len(), a.len()));
        }
        for (x, y) in a.into_iter().zip(b) {
            same_span(ctx, x.span(), y.span())?;
            match (x, y) {
                (proc_macro::TokenTree::Group(g), TokenTree::Group(h)) => {
                    if pm_delim(g.delimiter()) != h.delimiter() {
                        return Err("delimiters differ".into());
                    }
                    same_span(ctx, g.span_open(), h.span_open())?;
                    same_span(ctx, g.span_close(), h.span_close())?;
                    let d = h.delim_span();
                    same_span(ctx, g.span(), d.join())?;
                    same_span(ctx, g.span_open(), d.open())?;
                    same_span(ctx, g.span_close(), d.close())?;
                    walk(ctx, g.stream(), h.stream())?;
                }
                (x, y) => {
                    if x.to_string() != y.to_string() {
                        return Err(format!("{} is {} for the compiler", y, x));
                    }
                    if let TokenTree::Literal(l) = &y {
                        let text = l.to_string();
                        if l.span().source_text().as_ref() == Some(&text) {
                            for a in 0..=text.len() + 1 {
                                for b in a..=text.len() + 1 {
                                    // (none where the compiler does not tell)
                                    let sub = l.subspan(a..b);
                                    if sub.is_some() && b > text.len() || sub.is_some_and(|s| s.source_text().as_deref() != text.get(a..b)) {
                                        return Err(format!("subspan({}..{}) of {} is {:?}", a, b, text, sub.map(|s| s.source_text())));
                                    }
                                    ctx.count("subspans inside", sub.is_some() as u64);
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn same_span(ctx: &mut Ctx, a: proc_macro::Span, b: Span) -> Result<(), String> {
        let bad = |what: &str| Err(format!("{} of {:?} differs from that of {:?}", what, b, a));
        if format!("{:?}", a) != format!("{:?}", b) || format!("{:?}", a) != format!("{:?}", b.unwrap()) {
            return bad("location");
        }
        if a.source_text() != b.source_text() {
            return bad("source text");
        }
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        {
            let (s, e) = (b.start(), b.end());
            if (s.line, s.column + 1) != (a.line(), a.column()) {
                return bad("start");
            }
            if (e.line, e.column + 1) != (a.end().line(), a.end().column()) {
                return bad("end");
            }
            // (zero where the compiler does not tell)
            let br = b.byte_range();
            if br != (0..0) && b.source_text().is_some_and(|t| t.len() != br.len()) {
                return bad("byte range");
            }
            if a.file() != b.file() || a.local_file() != b.local_file() {
                return bad("file");
            }
        }
        #[cfg(procmacro2_semver_exempt)]
        if !b.eq(&b) || !b.eq(&Span::from(a)) {
            return bad("identity");
        }
        ctx.count("input locations compared", 1);
        Ok(())
    }
    let input = IN.with(|i| i.borrow().tokens.clone().unwrap());
    walk(ctx, input.clone(), TokenStream::from(input))?;
    // combinations
    let spans = IN.with(|i| i.borrow().palette.clone());
    for a in &spans {
        for b in &spans {
            let (x, y) = (Span::from(*a), Span::from(*b));
            same_span(ctx, a.located_at(*b), x.located_at(y))?;
            same_span(ctx, a.resolved_at(*b), x.resolved_at(y))?;
            let (c, m) = (proc_macro::Span::call_site(), proc_macro::Span::mixed_site());
            same_span(ctx, c.located_at(*b), Span::call_site().located_at(y))?;
            same_span(ctx, m.resolved_at(*b), Span::mixed_site().resolved_at(y))?;
            same_span(ctx, b.resolved_at(m), y.resolved_at(Span::mixed_site()))?;
            #[cfg(procmacro2_semver_exempt)]
            {
                if x.eq(&y) != (format!("{:?}", a) == format!("{:?}", b)) {
                    return Err(format!("{:?} equals {:?}: {}", x, y, x.eq(&y)));
                }
                let d = Span::def_site().located_at(y);
                if d.source_text() != y.source_text() || d.start() != y.start() {
                    return Err(format!("def_site located at {:?} is {:?}", y, d));
                }
            }
            let j = x.join(y);
            if let Some(j) = j {
                // where joining works, it is the range from the first to the last
                #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
                {
                    let (p, q, o) = (x.byte_range(), y.byte_range(), j.byte_range());
                    // (locations of different macro expansions are the compiler's business)
                    let expansion = |s: Span| format!("{:?}", s).split('#').nth(1).map(str::to_string);
                    if expansion(x) == expansion(y) && o != (p.start.min(q.start)..p.end.max(q.end)) {
                        return Err(format!("joining {:?} and {:?} gave {:?}", x, y, j));
                    }
                    ctx.count("joins inside", 1);
                }
                let _ = j;
            }
        }
    }
    Ok(())
}

pub fn p24(ctx: &mut Ctx) {
    crate::dbg::worlds(ctx, true, &mut inside_world);
    crate::dbg::long(ctx, true, &mut inside_world);
}

pub fn c20(ctx: &mut Ctx) {
    ctx.phase("input", ctx.nshards, |ctx, _, _| input_locations(ctx));
    let n = ctx.n(12_000, 300_000);
    ctx.phase("histories", n, |ctx, i, r| {
        let mut w = inside_world(r);
        let steps = r.range(4, 50);
        let mut res = Ok(());
        for _ in 0..steps {
            res = w.step(r, i % 3 == 0);
            if res.is_err() {
                break;
            }
            if r.chance(1, 8) && !w.streams.is_empty() {
                let k = r.below(w.streams.len());
                let (s, m) = w.streams[k].clone();
                res = convert_case(r, &s, &m);
                ctx.count("conversions", 1);
                if res.is_err() {
                    break;
                }
                // and go on with the converted one
                if r.chance(1, 2) {
                    let p: proc_macro::TokenStream = s.into();
                    w.streams[k].0 = TokenStream::from(p);
                    w.note("convert there and back");
                }
            }
            if r.chance(1, 10) {
                // a piece of the compiler's input
                let input = TokenStream::from(IN.with(|i| i.borrow().tokens.clone().unwrap()));
                let m = hist::record(input.clone(), key_debug);
                if w.punct_span.is_none() && !w.alone {
                    w.streams.push((input, m));
                } else {
                    let t: TokenStream = input.into_iter().filter(|t| !matches!(t, TokenTree::Punct(_))).collect();
                    let m = m.into_iter().filter(|t| !matches!(t, M::P(..))).collect();
                    w.streams.push((t, m));
                }
                w.note("take the macro input");
            }
        }
        if res.is_ok() {
            for (s, m) in w.streams.clone() {
                res = convert_case(r, &s, &m);
                if res.is_err() {
                    break;
                }
            }
        }
        if res.is_ok() {
            res = hist::run_history(r, &mut w, 0, false);
        }
        let log = std::mem::take(&mut w.log);
        ctx.set_input(&log);
        ctx.count("operations", w.ops);
        ctx.count("iterator panics injected", w.panics);
        ctx.nontrivial(hash_bytes(log.as_bytes()) ^ mix(w.ops));
        ctx.sample(|| log.clone());
        res?;
        match complaints() {
            Some(c) => Err(format!("the compiler complained: {}", c)),
            None => Ok(()),
        }
    });
    hist::lengths(ctx, 130, 4_100, true, &mut inside_world, &mut |r, a, m| convert_case(r, a, m));
    let n = ctx.n(100, 2_000);
    ctx.phase("long", n, |ctx, _, r| {
        let mut w = inside_world(r);
        let k = r.range(100, 1500);
        let (ts, ms): (Vec<TokenTree>, Vec<M>) = (0..k).map(|_| w.fresh(r)).unzip();
        let m = expand_all(&ms);
        let mut a = TokenStream::new();
        let mut i = 0;
        while i < k {
            let n = r.range(1, 40).min(k - i);
            match r.below(4) {
                0 => a.extend(ts[i..i + n].iter().cloned()),
                1 => a.extend(ts[i..i + n].iter().cloned().map(TokenStream::from)),
                2 => a = [a, ts[i..i + n].iter().cloned().collect()].into_iter().collect(),
                _ => {
                    for t in &ts[i..i + n] {
                        match t.clone() {
                            TokenTree::Ident(x) => a.extend(Some(x)),
                            TokenTree::Punct(x) => a.extend(Some(x)),
                            TokenTree::Literal(x) => a.extend(Some(x)),
                            TokenTree::Group(x) => a.extend(Some(x)),
                        }
                    }
                }
            }
            i += n;
        }
        hist::observe(a.clone(), &m, key_debug)?;
        convert_case(r, &a, &ms)?;
        ctx.count("long streams", 1);
        ctx.nontrivial(mix(r.next()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C22

fn must_refuse<T>(what: &str, f: impl FnOnce() -> T, show: impl FnOnce(T) -> String) -> Result<(), String> {
    match catch(f) {
        Err(_) => Ok(()),
        Ok(t) => Err(format!("{} was not refused: {}", what, show(t))),
    }
}

fn some_span(r: &mut Rng) -> Span {
    match r.below(3) {
        0 => Span::call_site(),
        1 => Span::mixed_site(),
        _ => Ident::new("zz", Span::call_site()).span(),
    }
}

fn tok(r: &mut Rng, depth: usize) -> TokenTree {
    match r.below(if depth > 0 { 6 } else { 5 }) {
        0 => TokenTree::Ident(Ident::new(r.pick(&["a", "bc", "d_1"]), Span::call_site())),
        1 => TokenTree::Punct(Punct::new(r.ch("+-*=<>!&|,;"), Spacing::Alone)),
        2 => TokenTree::Literal(Literal::i32_suffixed(-(1 + r.below(50) as i32))),
        3 => TokenTree::Literal(Literal::string(r.pick(&["x", "", "y\"z"]))),
        4 => TokenTree::Literal(Literal::u64_unsuffixed(r.next())),
        _ => {
            let n = r.below(3);
            let s: TokenStream = (0..n).map(|_| tok(r, depth - 1)).collect();
            let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][r.below(3)];
            TokenTree::Group(Group::new(d, s))
        }
    }
}

fn toks(r: &mut Rng, n: usize) -> Vec<TokenTree> {
    (0..n).map(|_| tok(r, 2)).collect()
}

fn texts(ts: TokenStream) -> Vec<IEv> {
    flat(ts).into_iter().map(|e| e.ev).collect()
}

fn texts_of(ts: &[TokenTree]) -> Vec<IEv> {
    let mut v = Vec::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) => v.push(IEv::Ident(i.to_string())),
            TokenTree::Punct(p) => v.push(IEv::Punct(p.as_char(), p.spacing() == Spacing::Joint)),
            TokenTree::Literal(l) => {
                let s = l.to_string();
                match s.strip_prefix('-') {
                    Some(x) => v.extend([IEv::Punct('-', false), IEv::Lit(x.to_string())]),
                    None => v.push(IEv::Lit(s)),
                }
            }
            TokenTree::Group(g) => {
                v.push(IEv::Open(g.delimiter()));
                v.extend(texts(g.stream()));
                v.push(IEv::Close(g.delimiter()));
            }
        }
    }
    v
}

/// A value made by the compiler's side and one made by the fallback, combined.
fn mixing_case(ctx: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let (cn, fnn) = (r.range(1, 4), r.range(1, 4));
    let ct = toks(r, cn);
    let ft = outside(|| toks(r, fnn));
    let cs: TokenStream = ct.iter().cloned().collect();
    let fs: TokenStream = outside(|| ft.iter().cloned().collect());
    let (ctx_c, ctx_f) = (texts_of(&ct), texts_of(&ft));
    if texts(cs.clone()) != ctx_c || texts(fs.clone()) != ctx_f {
        return Err("a stream does not hold what was put in".into());
    }
    let forced = r.chance(1, 2);
    if forced {
        fallback::force();
    }
    let res = mixing_ops(ctx, r, forced, &ct, &ft, &cs, &fs);
    fallback::unforce();
    res?;
    // nothing was damaged
    if texts(cs.clone()) != ctx_c || texts(fs.clone()) != ctx_f {
        return Err("a stream changed although the combination was refused".into());
    }
    if texts(ct.iter().cloned().collect()) != ctx_c {
        return Err("compiler tokens changed".into());
    }
    let p: proc_macro::TokenStream = fs.clone().into();
    if texts(TokenStream::from(p)) != ctx_f {
        return Err(format!("a fallback stream converted to the compiler's type holds {:?}, expected {:?}", texts(TokenStream::from(proc_macro::TokenStream::from(fs))), ctx_f));
    }
    Ok(())
}

fn mixing_ops(ctx: &mut Ctx, r: &mut Rng, forced: bool, ct: &[TokenTree], ft: &[TokenTree], cs: &TokenStream, fs: &TokenStream) -> Result<(), String> {
    let op = r.below(22);
    ctx.set_input(&format!("op {} forced {} compiler {} fallback {}", op, forced, cs, fs));
    ctx.nontrivial(mix(op as u64 * 2 + forced as u64) ^ hash_bytes(format!("{} / {}", cs, fs).as_bytes()));
    ctx.count("combinations tried", 1);
    let show = |t: TokenStream| t.to_string();
    let c0 = ct[r.below(ct.len())].clone();
    let f0 = ft[r.below(ft.len())].clone();
    // a combination the implementation may refuse; if not, all tokens are there
    let keep = |what: &str, f: &mut dyn FnMut() -> TokenStream, want: Vec<IEv>| -> Result<bool, String> {
        match catch(f) {
            Err(_) => Ok(true),
            Ok(t) => {
                let got = texts(t.clone());
                if got != want {
                    return Err(format!("{}: holds {:?}, expected {:?}", what, got, want));
                }
                Ok(false)
            }
        }
    };
    match op {
        0 => {
            let mut s = cs.clone();
            let k = r.below(ct.len() + 1);
            let mut seq: Vec<TokenTree> = ct.to_vec();
            seq.insert(k, f0);
            must_refuse("extending a compiler stream with a fallback token", || s.extend(seq.clone()), |_| String::new())?;
            // a prefix
            let got = texts(s);
            let mut all = texts_of(ct);
            all.extend(texts_of(&ct[..k]));
            if got.len() < texts_of(ct).len() || !all.starts_with(&got) {
                return Err(format!("after a refused extension: {:?}", got));
            }
        }
        1 => {
            let mut s = cs.clone();
            must_refuse("extending a compiler stream with a fallback stream", || s.extend(fs.clone()), |_| String::new())?;
        }
        2 => {
            let mut s = cs.clone();
            must_refuse("extending a compiler stream with fallback streams", || s.extend([cs.clone(), fs.clone()]), |_| String::new())?;
        }
        3 => must_refuse("collecting compiler and fallback streams", || [cs.clone(), fs.clone()].into_iter().collect::<TokenStream>(), show)?,
        4 => must_refuse("collecting fallback and compiler streams", || [fs.clone(), cs.clone()].into_iter().collect::<TokenStream>(), show)?,
        5 => {
            let mut s = fs.clone();
            must_refuse("extending a fallback stream with a compiler stream", || s.extend([cs.clone()]), |_| String::new())?;
        }
        6 => {
            let mut want = texts_of(ft);
            want.extend(texts_of(&[c0.clone()]));
            if let TokenTree::Literal(l) = &c0 {
                if l.to_string().starts_with('-') {
                    return Ok(());
                }
            }
            keep("a fallback stream extended with a compiler token", &mut || { let mut s = fs.clone(); s.extend(Some(c0.clone())); s }, want)?;
        }
        7 if !forced => must_refuse("a compiler stream from a fallback token", || TokenStream::from(f0.clone()), show)?,
        8 if !forced => {
            let mut v = ct.to_vec();
            v.push(f0.clone());
            must_refuse("collecting compiler and fallback tokens", || v.into_iter().collect::<TokenStream>(), show)?;
        }
        9 => {
            let (a, b) = (Ident::new("a", ident_span(ct, cs)), Ident::new("a", fs_span(ft)));
            must_refuse("comparing a compiler identifier with a fallback one", || a == b, |x| x.to_string())?;
            must_refuse("comparing a fallback identifier with a compiler one", || b == a, |x| x.to_string())?;
            match catch(|| a.cmp(&b)) {
                Ok(std::cmp::Ordering::Equal) | Err(_) => {}
                Ok(o) => return Err(format!("a compared with a is {:?}", o)),
            }
        }
        10 | 11 => {
            let (c, f) = (ident_span(ct, cs), fs_span(ft));
            let mut x = c0.clone();
            let mut y = f0.clone();
            if !matches!(x, TokenTree::Punct(_)) {
                must_refuse("a fallback location on a compiler token", || x.set_span(f), |_| String::new())?;
                if x.to_string() != c0.to_string() {
                    return Err("the token changed".into());
                }
            }
            if !matches!(y, TokenTree::Punct(_)) {
                must_refuse("a compiler location on a fallback token", || y.set_span(c), |_| String::new())?;
                if y.to_string() != f0.to_string() {
                    return Err("the token changed".into());
                }
            }
        }
        12 => {
            let (c, f) = (ident_span(ct, cs), fs_span(ft));
            must_refuse("resolved_at across", || c.resolved_at(f), |s| format!("{:?}", s))?;
            must_refuse("resolved_at across", || f.resolved_at(c), |s| format!("{:?}", s))?;
            must_refuse("located_at across", || c.located_at(f), |s| format!("{:?}", s))?;
            must_refuse("located_at across", || f.located_at(c), |s| format!("{:?}", s))?;
        }
        13 => {
            let (c, f) = (ident_span(ct, cs), fs_span(ft));
            if c.join(f).is_some() || f.join(c).is_some() {
                return Err("joined a compiler location with a fallback one".into());
            }
            #[cfg(procmacro2_semver_exempt)]
            if c.eq(&f) || f.eq(&c) {
                return Err("a compiler location equals a fallback one".into());
            }
        }
        14 => {
            // a group follows its stream
            let g = Group::new(Delimiter::Brace, fs.clone());
            if texts(g.stream()) != texts_of(ft) {
                return Err("a group of a fallback stream lost tokens".into());
            }
            let mut s = cs.clone();
            must_refuse("a fallback group in a compiler stream", || s.extend(Some(g.clone())), |_| String::new())?;
            let g = Group::new(Delimiter::Brace, cs.clone());
            if texts(g.stream()) != texts_of(ct) {
                return Err("a group of a compiler stream lost tokens".into());
            }
            if g.span_open().unwrap().source_text() != g.span_open().source_text() {
                return Err("the group's location is not the compiler's".into());
            }
        }
        15 => {
            let (c, f) = (ident_span(ct, cs), fs_span(ft));
            must_refuse("unwrapping a fallback location", || f.unwrap(), |s| format!("{:?}", s))?;
            if format!("{:?}", c.unwrap()) != format!("{:?}", c) {
                return Err("unwrapping changed the location".into());
            }
        }
        16 => {
            // either kind of stream, converted and back
            let p = proc_macro::TokenStream::from(fs.clone());
            if texts(TokenStream::from(p.clone())) != texts_of(ft) {
                return Err("a fallback stream changed in conversion".into());
            }
            // what comes from the compiler is the compiler's, even while forced
            let q = TokenStream::from(p);
            let mut s = cs.clone();
            if let Err(e) = catch(|| s.extend(q)) {
                return Err(format!("a converted stream could not be used with the compiler's: {}", e));
            }
            let mut want = texts_of(ct);
            want.extend(texts_of(ft));
            if texts(s) != want {
                return Err("tokens lost after conversion".into());
            }
        }
        17 if forced => {
            // new things are the fallback's
            let n = r.below(4);
            let new = toks(r, n);
            let mut s = fs.clone();
            s.extend(new.clone());
            let mut want = texts_of(ft);
            want.extend(texts_of(&new));
            if texts(s) != want {
                return Err("forced: tokens lost".into());
            }
            let n = TokenStream::new();
            let mut n2 = cs.clone();
            must_refuse("forced: a new stream in a compiler stream", || n2.extend([n]), |_| String::new())?;
            let x = "a + b".parse::<TokenStream>().map_err(|_| "forced: refused a + b")?;
            must_refuse("forced: a parsed stream in a compiler stream", || n2.extend(x), |_| String::new())?;
            must_refuse("forced: call_site unwrapped", || Span::call_site().unwrap(), |s| format!("{:?}", s))?;
            must_refuse("forced: mixed_site unwrapped", || Span::mixed_site().unwrap(), |s| format!("{:?}", s))?;
        }
        17 => {
            let n = TokenStream::new();
            let mut n2 = fs.clone();
            let n3 = n.clone();
            must_refuse("a new compiler stream in a fallback stream", || n2.extend([n3]), |_| String::new())?;
            let x = "a + b".parse::<TokenStream>().map_err(|_| "refused a + b")?;
            let mut s = cs.clone();
            s.extend([n, x]);
            let mut want = texts_of(ct);
            want.extend([IEv::Ident("a".into()), IEv::Punct('+', false), IEv::Ident("b".into())]);
            if texts(s) != want {
                return Err("un-forced: tokens lost".into());
            }
            Span::call_site().unwrap();
            Span::mixed_site().unwrap();
        }
        18 if forced => {
            // streams put together while forced
            let all: Vec<TokenTree> = ct.iter().filter(|t| !matches!(t, TokenTree::Literal(l) if l.to_string().starts_with('-'))).cloned().collect();
            let want = texts_of(&all);
            keep("compiler tokens collected while forced", &mut || all.iter().cloned().collect(), want)?;
        }
        19 => {
            // fallback values stay usable in any mode
            let again: Vec<TokenTree> = fs.clone().into_iter().collect();
            let printed = fs.to_string();
            let evs = outside_keep(forced, || texts(printed.parse::<TokenStream>().unwrap()));
            if texts_of(&again) != texts_of(ft) || evs != texts_of(ft) {
                return Err("a fallback stream is not what it was".into());
            }
        }
        20 => {
            // literals
            if let (TokenTree::Literal(c), TokenTree::Literal(f)) = (&c0, &f0) {
                let (c, f) = (c.clone(), f.clone());
                let mut s = cs.clone();
                let f2 = f.clone();
                must_refuse("a fallback literal in a compiler stream", || s.extend([f2]), |_| String::new())?;
                let _ = (c.subspan(..), f.subspan(..));
            }
        }
        21 => {
            // a panic in the middle leaves the mode as it was
            let a = TokenStream::new();
            let mut s = if forced { fs.clone() } else { cs.clone() };
            s.extend([a]);
        }
        _ => {
            if forced {
                let mut s = fs.clone();
                s.extend(Some(TokenTree::Punct(Punct::new('+', Spacing::Joint))));
                let mut c = cs.clone();
                must_refuse("a fallback punct in a compiler stream", || c.extend(Some(Punct::new('+', Spacing::Joint))), |_| String::new())?;
            }
        }
    }
    let _ = some_span;
    Ok(())
}

fn outside_keep<T>(forced: bool, f: impl FnOnce() -> T) -> T {
    fallback::force();
    let r = catch(f);
    if !forced {
        fallback::unforce();
    }
    r.unwrap_or_else(|e| panic!("{}", e))
}

fn ident_span(ct: &[TokenTree], _: &TokenStream) -> Span {
    ct[0].span()
}

fn fs_span(ft: &[TokenTree]) -> Span {
    ft[0].span()
}

/// Parsed under force, converted: the compiler sees the same tokens.
fn converted_source(ctx: &mut Ctx, src: &str) -> Result<(), String> {
    let mut refs = Vec::new();
    if reflex::lex(src, &mut refs) != Verdict::Accept || compiler_says(src, &refs) {
        return Ok(());
    }
    let (ts, evs) = match outside(|| src.parse::<TokenStream>().map(|t| (t.clone(), flat(t)))) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let printed = ts.to_string();
    let mut again = Vec::new();
    if reflex::lex(&printed, &mut again) != Verdict::Accept || compiler_says(&printed, &again) {
        return Ok(());
    }
    let p = proc_macro::TokenStream::from(ts);
    if let Some(c) = complaints() {
        return Err(format!("the compiler complained: {}", c.chars().take(600).collect::<String>()));
    }
    let got = flat(TokenStream::from(p));
    same_inside(&evs, &got, &again)?;
    ctx.count("forced streams converted", 1);
    ctx.nontrivial(hash_bytes(src.as_bytes()));
    Ok(())
}

pub fn c22(ctx: &mut Ctx) {
    let n = ctx.n(60_000, 1_000_000);
    ctx.phase("mixing", n, |ctx, _, r| {
        let x = mixing_case(ctx, r);
        forget();
        x
    });
    let n = ctx.n(4_000, 60_000);
    ctx.phase("sides", n, |ctx, _, r| {
        let x = sides_case(ctx, r);
        fallback::unforce();
        forget();
        x
    });
    let mix = Mix { themes: 0, soup: 6_000, source: 6_000, glued: 8_000, mutated: 3_000, corpus: 20, windows: 3_000, big: 0 };
    drive(ctx, mix, &mut |ctx, s, _| {
        let x = converted_source(ctx, s);
        forget();
        x
    });
}

fn is_compilers(s: Span) -> bool {
    catch(|| s.unwrap()).is_ok()
}

/// A stream's side: whether the compiler's streams take it.
fn stream_is_compilers(ts: &TokenStream, compilers: &TokenStream) -> bool {
    let mut s = compilers.clone();
    catch(move || s.extend([ts.clone()])).is_ok()
}

enum Made {
    Tok(TokenTree),
    At(Span),
    Ts(TokenStream),
}

/// One value, made in one of all the ways there are.
fn make(way: usize, r: &mut Rng) -> (&'static str, Made) {
    let x = r.next();
    let f = (x % 100_000) as f64 / 8.0;
    macro_rules! lit {
        ($name:literal, $e:expr) => {
            ($name, Made::Tok(TokenTree::Literal($e)))
        };
    }
    match way {
        0 => lit!("u8_suffixed", Literal::u8_suffixed(x as u8)),
        1 => lit!("u16_suffixed", Literal::u16_suffixed(x as u16)),
        2 => lit!("u32_suffixed", Literal::u32_suffixed(x as u32)),
        3 => lit!("u64_suffixed", Literal::u64_suffixed(x)),
        4 => lit!("u128_suffixed", Literal::u128_suffixed(x as u128)),
        5 => lit!("usize_suffixed", Literal::usize_suffixed(x as usize)),
        6 => lit!("i8_suffixed", Literal::i8_suffixed(x as i8)),
        7 => lit!("i16_suffixed", Literal::i16_suffixed(x as i16)),
        8 => lit!("i32_suffixed", Literal::i32_suffixed(x as i32)),
        9 => lit!("i64_suffixed", Literal::i64_suffixed(x as i64)),
        10 => lit!("i128_suffixed", Literal::i128_suffixed(-(x as i128))),
        11 => lit!("isize_suffixed", Literal::isize_suffixed(x as isize)),
        12 => lit!("u8_unsuffixed", Literal::u8_unsuffixed(x as u8)),
        13 => lit!("u16_unsuffixed", Literal::u16_unsuffixed(x as u16)),
        14 => lit!("u32_unsuffixed", Literal::u32_unsuffixed(x as u32)),
        15 => lit!("u64_unsuffixed", Literal::u64_unsuffixed(x)),
        16 => lit!("u128_unsuffixed", Literal::u128_unsuffixed(x as u128)),
        17 => lit!("usize_unsuffixed", Literal::usize_unsuffixed(x as usize)),
        18 => lit!("i8_unsuffixed", Literal::i8_unsuffixed(x as i8)),
        19 => lit!("i16_unsuffixed", Literal::i16_unsuffixed(x as i16)),
        20 => lit!("i32_unsuffixed", Literal::i32_unsuffixed(x as i32)),
        21 => lit!("i64_unsuffixed", Literal::i64_unsuffixed(x as i64)),
        22 => lit!("i128_unsuffixed", Literal::i128_unsuffixed(-(x as i128))),
        23 => lit!("isize_unsuffixed", Literal::isize_unsuffixed(x as isize)),
        24 => lit!("f32_suffixed", Literal::f32_suffixed(f as f32)),
        25 => lit!("f64_suffixed", Literal::f64_suffixed(f)),
        26 => lit!("f32_unsuffixed", Literal::f32_unsuffixed(f as f32)),
        27 => lit!("f64_unsuffixed", Literal::f64_unsuffixed(f)),
        28 => lit!("string", Literal::string(r.pick(&["", "a", "\"", "é"]))),
        29 => lit!("character", Literal::character(r.ch("a'\"é"))),
        30 => lit!("byte_character", Literal::byte_character(x as u8)),
        31 => lit!("byte_string", Literal::byte_string(r.pick(&["", "a", "\"", "é"]).as_bytes())),
        32 => lit!("c_string", Literal::c_string([c"", c"a", c"\"", c"\xff"][r.below(4)])),
        33 if x % 2 == 0 => lit!("Literal::from_str_unchecked", unsafe { Literal::from_str_unchecked(r.pick(&["1", "-2", "1.5", "\"a\"", "b'x'"])) }),
        33 => lit!("Literal::from_str", r.pick(&["1", "-2", "1.5", "\"a\"", "b'x'", "r#\"\"#", "-0x1f"]).parse().unwrap()),
        34 => ("Ident::new", Made::Tok(TokenTree::Ident(Ident::new(r.pick(&["a", "é", "_", "fn", "Self"]), Span::call_site())))),
        35 => ("Ident::new_raw", Made::Tok(TokenTree::Ident(Ident::new_raw(r.pick(&["a", "é", "fn"]), Span::mixed_site())))),
        36 => ("call_site", Made::At(Span::call_site())),
        37 => ("mixed_site", Made::At(Span::mixed_site())),
        38 => ("TokenStream::new", Made::Ts(TokenStream::new())),
        39 => ("TokenStream::default", Made::Ts(TokenStream::default())),
        40 => ("TokenStream::from_str", Made::Ts(r.pick(&["a", "", "a + (b)", "'a' 1.5"]).parse().unwrap())),
        41 => ("collected from no tokens", Made::Ts(std::iter::empty::<TokenTree>().collect())),
        42 => ("collected from no streams", Made::Ts(std::iter::empty::<TokenStream>().collect())),
        43 => ("a stream from a punct", Made::Ts(TokenTree::Punct(Punct::new('+', Spacing::Joint)).into())),
        44 => ("a group of a new stream", Made::Tok(TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::new())))),
        45 => ("Punct::new", Made::Tok(TokenTree::Punct(Punct::new('+', Spacing::Alone)))),
        46 => ("collected from new tokens", Made::Ts((0..2).map(|_| TokenTree::Punct(Punct::new('+', Spacing::Alone))).collect())),
        47 => ("collected from new streams", Made::Ts((0..2).map(|_| TokenStream::new()).collect())),
        48 => ("a new stream, extended by a token", Made::Ts({ let mut s = TokenStream::new(); s.extend([Punct::new(';', Spacing::Alone)]); s })),
        #[cfg(procmacro2_semver_exempt)]
        49 => ("def_site", Made::At(Span::def_site())),
        _ => ("from proc_macro", Made::Ts(TokenStream::new())),
    }
}

const WAYS: usize = 51;

/// Whatever is made belongs to the side in force at that moment, whatever happened before.
fn sides_case(ctx: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    fallback::unforce();
    let compilers: TokenStream = TokenTree::Punct(Punct::new('+', Spacing::Alone)).into();
    // what comes from proc_macro is the compiler's whatever the mode
    let plain = proc_macro::TokenStream::from(compilers.clone());
    let mut forced = false;
    let mut kept: Vec<(&'static str, bool, Made)> = Vec::new();
    let mut said = String::new();
    let side = |m: &Made| match m {
        Made::Tok(t) => is_compilers(t.span()),
        Made::At(s) => is_compilers(*s),
        Made::Ts(t) => stream_is_compilers(t, &compilers),
    };
    let n = r.range(4, 40);
    for k in 0..n {
        match r.below(6) {
            0 => {
                fallback::force();
                forced = true;
            }
            1 => {
                fallback::unforce();
                forced = false;
            }
            _ => {}
        }
        let way = r.below(WAYS);
        let (name, made) = make(way, r);
        said.push_str(&format!("{}{}; ", if forced { "forced " } else { "" }, name));
        ctx.set_input(&said);
        ctx.nontrivial(mix(way as u64 * 2 + forced as u64));
        ctx.count("sides asked", 1);
        if side(&made) == forced {
            return Err(format!("step {}: {} {}: the value is {}", k, name, if forced { "while forced" } else { "while not forced" }, if forced { "the compiler's" } else { "the fallback's" }));
        }
        kept.push((name, forced, made));
        let t = TokenStream::from(plain.clone());
        if !stream_is_compilers(&t, &compilers) || t.into_iter().any(|t| !is_compilers(t.span())) {
            return Err(format!("step {}: what came from the compiler is not the compiler's", k));
        }
    }
    // nobody changed sides
    for (name, forced, made) in &kept {
        if side(made) == *forced {
            return Err(format!("{} made {} has changed sides", name, if *forced { "while forced" } else { "while not forced" }));
        }
    }
    Ok(())
}

/// Outside a macro, forcing and un-forcing change nothing.
pub fn o22(ctx: &mut Ctx) {
    let n = ctx.n(20_000, 400_000);
    ctx.phase("no-ops", n, |ctx, _, r| {
        let mut s = String::new();
        let k = r.range(1, 8);
        gen::source(r, &mut s, k, 3, true);
        ctx.set_input(&s);
        let look = |s: &str| s.parse::<TokenStream>().map(|t| (t.to_string(), texts(t))).map_err(|_| ());
        let a = look(&s);
        let kept = s.parse::<TokenStream>();
        for _ in 0..3 {
            if r.chance(1, 2) {
                fallback::force();
            } else {
                fallback::unforce();
            }
            let b = look(&s);
            if a != b {
                return Err(format!("before {:?}, after {:?}", a, b));
            }
            must_refuse("call_site unwrapped outside a macro", || Span::call_site().unwrap(), |s| format!("{:?}", s))?;
            if let Ok(k) = &kept {
                // old and new values still combine
                let mut x = TokenStream::new();
                x.extend([k.clone(), s.parse::<TokenStream>().unwrap()]);
                x.extend(k.clone());
                x.extend(k.clone().into_iter());
                let y: TokenStream = k.clone().into_iter().chain(s.parse::<TokenStream>().unwrap()).collect();
                if texts(x).len() != 4 * texts(k.clone()).len() || texts(y).len() != 2 * texts(k.clone()).len() {
                    return Err("tokens lost".into());
                }
                if Ident::new("a", Span::call_site()) != Ident::new("a", k.clone().into_iter().next().map_or(Span::mixed_site(), |t| t.span())) {
                    return Err("identifiers differ".into());
                }
            }
            ctx.count("fallback toggles outside", 1);
        }
        text::forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}
