//! C23: what things cost, as sizes grow.
use crate::alloc;
use crate::ctx::Ctx;
use crate::gen;
use crate::rng::{hash_bytes, Rng};
use crate::text::forget_sources;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in nanoseconds: what other processes do hardly matters
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 * 1e9 + t.nsec as f64
}

#[derive(Clone, Copy, Default)]
struct Cost {
    ns: f64,
    bytes: f64,
    peak: f64,
}

/// What each stage of a probe cost.
#[derive(Default)]
struct Meter(Vec<(&'static str, Cost)>);

impl Meter {
    fn run<T>(&mut self, stage: &'static str, f: impl FnOnce() -> T) -> T {
        let (b, l) = (alloc::bytes(), alloc::live().0);
        alloc::reset_peak();
        let t = cpu();
        let r = f();
        let c = Cost { ns: cpu() - t, bytes: (alloc::bytes() - b) as f64, peak: (alloc::peak() - l) as f64 };
        self.0.push((stage, c));
        r
    }
}

/// Sizes grow by 8; costs are compared over two such steps.
const STEP: usize = 8;
/// Per unit, 64 times the size may cost this many times as much (quadratic: 64).
const TIME: f64 = 20.0;
const SPACE: f64 = 8.0;
/// Times below this many nanoseconds, and bytes below this many, say nothing.
const FLOOR_NS: f64 = 3e6;
const FLOOR_BYTES: f64 = 1e6;

/// Runs a probe at growing sizes. `units` says by what the costs of a stage are divided.
fn grow(
    ctx: &mut Ctx,
    name: &str,
    sizes: &[usize],
    constant: &[&str],
    probe: &mut dyn FnMut(usize, &mut Meter) -> Result<(), String>,
) -> Result<(), String> {
    let mut complaint = None;
    // a suspicion has to be confirmed: four measurements in a row
    for _ in 0..4 {
        let mut seen: Vec<(usize, Vec<(&'static str, Cost)>)> = Vec::new();
        complaint = None;
        for &n in sizes {
            let mut best: Vec<(&'static str, Cost)> = Vec::new();
            let mut spent = 0.0;
            let mut reps = 0;
            while reps < 2 || spent < 1e6 && reps < 30 {
                let mut m = Meter::default();
                let t = cpu();
                probe(n, &mut m)?;
                let dt = cpu() - t;
                spent += dt;
                reps += 1;
                if best.is_empty() {
                    best = m.0;
                } else {
                    for (b, c) in best.iter_mut().zip(m.0) {
                        b.1.ns = b.1.ns.min(c.1.ns);
                    }
                }
                if dt > 1e9 {
                    break;
                }
            }
            ctx.count("costs measured", best.len() as u64);
            let slow = best.iter().any(|b| b.1.ns > 2e9);
            seen.push((n, best));
            let (n, now) = seen.last().unwrap();
            if seen.len() >= 3 {
                let (n0, then) = &seen[seen.len() - 3];
                for (a, b) in then.iter().zip(now) {
                    if a.0 != b.0 {
                        continue;
                    }
                    let grown = if constant.contains(&a.0) { 1.0 } else { *n as f64 / *n0 as f64 };
                    ctx.count("costs compared", 1);
                    if std::env::var_os("MON_COST").is_some() && b.1.ns > FLOOR_NS {
                        eprintln!("{:.2} {} {} {:?} -> {:.0} us", b.1.ns / (a.1.ns.max(500.0) * grown), n, a.0, ctx.input.chars().take(80).collect::<String>(), b.1.ns / 1e3);
                    }
                    if b.1.ns > FLOOR_NS && b.1.ns > a.1.ns.max(500.0) * grown * TIME {
                        complaint.get_or_insert(format!(
                            "{}: {} costs {:.0} us at size {} and {:.0} us at size {}",
                            name, a.0, a.1.ns / 1e3, n0, b.1.ns / 1e3, n
                        ));
                    }
                    for (what, x, y) in [("allocates", a.1.bytes, b.1.bytes), ("needs", a.1.peak, b.1.peak)] {
                        if y > FLOOR_BYTES && y > x.max(1000.0) * grown * SPACE {
                            complaint.get_or_insert(format!("{}: {} {} {} bytes at size {} and {} bytes at size {}", name, a.0, what, x, n0, y, n));
                        }
                    }
                }
            }
            if slow || complaint.is_some() {
                break;
            }
        }
        if complaint.is_none() {
            break;
        }
    }
    match complaint {
        Some(c) => Err(c),
        None => Ok(()),
    }
}

/// Visits every token, without recursion.
fn walk(ts: TokenStream, f: &mut dyn FnMut(&TokenTree)) -> usize {
    let mut depth = 0;
    let mut stack = vec![ts.into_iter()];
    while let Some(it) = stack.last_mut() {
        match it.next() {
            Some(t) => {
                f(&t);
                if let TokenTree::Group(g) = t {
                    stack.push(g.stream().into_iter());
                    depth = depth.max(stack.len());
                }
            }
            None => {
                stack.pop();
            }
        }
    }
    depth
}

#[cfg(any(feature = "loc", procmacro2_semver_exempt))]
fn ask(s: &Span) -> usize {
    let (a, b, c) = (s.start(), s.end(), s.byte_range());
    a.line + b.column + c.start
}

/// Everything done to one source text.
fn text_probe(s: &str, m: &mut Meter) -> Result<(), String> {
    forget_sources();
    let parsed = m.run("parsing", || s.parse::<TokenStream>());
    let Ok(ts) = parsed else {
        return Ok(());
    };
    let mut n = 0usize;
    let depth = {
        let c = ts.clone();
        m.run("walking", || walk(c, &mut |_| n += 1))
    };
    if depth < 300 {
        let p = m.run("printing", || ts.to_string());
        m.run("parsing what was printed", || p.parse::<TokenStream>()).map_err(|e| format!("printed text: {}", e))?;
    }
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    {
        let mut spans = Vec::with_capacity(n);
        walk(ts.clone(), &mut |t| spans.push(t.span()));
        // each order on a fresh copy of the source, which has answered nothing yet
        let mut order: Vec<usize> = (0..spans.len()).collect();
        m.run("locations in order", || order.iter().map(|&i| ask(&spans[i])).sum::<usize>());
        for stage in ["locations in reverse", "locations at random"] {
            drop(spans);
            forget_sources();
            let again: TokenStream = s.parse().map_err(|e| format!("parsed again: {}", e))?;
            spans = Vec::with_capacity(n);
            walk(again, &mut |t| spans.push(t.span()));
            order = (0..spans.len()).rev().collect();
            if stage == "locations at random" {
                let mut r = Rng::new(7);
                for i in (1..order.len()).rev() {
                    order.swap(i, r.below(i + 1));
                }
            }
            m.run(stage, || order.iter().map(|&i| ask(&spans[i])).sum::<usize>());
        }
    }
    m.run("dropping", move || drop(ts));
    Ok(())
}

fn tok(i: usize) -> TokenTree {
    match i % 4 {
        0 => TokenTree::Ident(Ident::new("abc", Span::call_site())),
        1 => TokenTree::Punct(Punct::new('+', Spacing::Alone)),
        2 => TokenTree::Literal(Literal::u8_suffixed(7)),
        _ => TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::new())),
    }
}

fn built(n: usize) -> TokenStream {
    (0..n).map(tok).collect()
}

pub const BUILDS: u64 = 19;

fn build_probe(which: u64, n: usize, m: &mut Meter) -> Result<(), String> {
    let want = |got: usize, n: usize| if got == n { Ok(()) } else { Err(format!("{} tokens instead of {}", got, n)) };
    match which {
        0 => {
            let mut ts = TokenStream::new();
            m.run("appending tokens one by one", || (0..n).for_each(|i| ts.extend(Some(tok(i)))));
            want(m.run("counting", || ts.into_iter().count()), n)
        }
        1 => {
            let mut ts = TokenStream::new();
            m.run("appending streams one by one", || (0..n).for_each(|i| ts.extend(Some(TokenStream::from(tok(i))))));
            want(ts.into_iter().count(), n)
        }
        2 => {
            let v: Vec<TokenTree> = (0..n).map(tok).collect();
            let ts = m.run("collecting tokens", || v.into_iter().collect::<TokenStream>());
            want(m.run("counting", || ts.into_iter().count()), n)
        }
        3 => {
            let v: Vec<TokenStream> = (0..n).map(|i| tok(i).into()).collect();
            let ts = m.run("collecting streams", || v.into_iter().collect::<TokenStream>());
            want(ts.into_iter().count(), n)
        }
        4 => {
            let mut ts = TokenStream::new();
            m.run("appending and asking whether empty", || {
                for i in 0..n {
                    ts.extend(Some(tok(i)));
                    assert!(!ts.is_empty());
                }
            });
            want(ts.into_iter().count(), n)
        }
        5 => {
            // a copy that is gone again costs nothing
            let mut ts = TokenStream::new();
            m.run("appending after copies that are gone", || {
                for i in 0..n {
                    drop(ts.clone());
                    ts.extend(Some(tok(i)));
                }
            });
            want(ts.into_iter().count(), n)
        }
        6 => {
            let mut ts = TokenStream::new();
            m.run("nesting", || {
                for _ in 0..n {
                    ts = TokenTree::Group(Group::new(Delimiter::Bracket, std::mem::take(&mut ts))).into();
                }
            });
            m.run("dropping", || drop(ts));
            Ok(())
        }
        7 => {
            let mut ts = built(n);
            ts.extend(Some(tok(0)));
            let v = m.run("copying a stream", || (0..2000).map(|_| ts.clone()).collect::<Vec<_>>());
            m.run("dropping copies", || drop(v));
            m.run("asking whether empty", || assert!((0..2000).all(|_| !ts.is_empty())));
            Ok(())
        }
        8 => {
            let g = Group::new(Delimiter::Parenthesis, built(n));
            let v = m.run("copying a group", || (0..2000).map(|_| g.clone()).collect::<Vec<_>>());
            drop(v);
            let v = m.run("taking a group's stream", || (0..2000).map(|_| g.stream()).collect::<Vec<_>>());
            drop(v);
            m.run("relocating a group", || {
                for _ in 0..2000 {
                    let mut h = g.clone();
                    h.set_span(Span::call_site());
                }
            });
            Ok(())
        }
        9 => {
            let ts = built(n);
            let mut it = ts.into_iter();
            let mut k = 0;
            m.run("iterating with bounds", || {
                while it.size_hint().0 > 0 {
                    it.next();
                    k += 1;
                }
            });
            want(k, n)
        }
        10 => {
            let s = "é\"\\\u{1}x".repeat(n / 5 + 1);
            let l = m.run("making a string literal", || Literal::string(&s));
            let p = m.run("printing it", || l.to_string());
            m.run("parsing it", || p.parse::<Literal>()).map_err(|e| e.to_string())?;
            let b = m.run("making a byte string", || Literal::byte_string(s.as_bytes()));
            m.run("printing the byte string", || b.to_string());
            #[cfg(procmacro2_semver_exempt)]
            {
                let v = m.run("decoding it", || l.str_value());
                want(v.map_err(|e| format!("{:?}", e))?.len(), s.len())?;
                m.run("decoding the byte string", || b.byte_str_value()).map_err(|e| format!("{:?}", e))?;
            }
            Ok(())
        }
        11 => {
            let s = "aé".repeat(n / 2 + 1);
            let i = m.run("making an identifier", || Ident::new(&s, Span::call_site()));
            let j = Ident::new(&s, Span::call_site());
            m.run("comparing identifiers", || assert!(i == j));
            m.run("printing an identifier", || i.to_string());
            Ok(())
        }
        12 => {
            forget_sources();
            m.run("parsing many small sources", || (0..n).for_each(|_| drop("a + b".parse::<TokenStream>())));
            Ok(())
        }
        13 => {
            forget_sources();
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend("éa\n b".parse::<TokenStream>().map_err(|e| e.to_string())?);
            }
            let mut r = Rng::new(9);
            m.run("locations among many sources", || {
                for _ in 0..n {
                    let t = &v[r.below(v.len())];
                    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
                    ask(&t.span());
                    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
                    drop((t.span().source_text(), t.span().file()));
                    let _ = t.span();
                }
            });
            forget_sources();
            Ok(())
        }
        14 => {
            let ts = built(n);
            m.run("printing for debugging", || format!("{:?}", ts).len());
            Ok(())
        }
        15 => {
            forget_sources();
            m.run("parsing many literals", || (0..n).for_each(|_| drop("-12.5e3".parse::<Literal>())));
            forget_sources();
            Ok(())
        }
        16 => {
            // taken apart and put together again, many times
            let mut ts = built(64);
            m.run("rebuilding", || {
                for _ in 0..n / 64 {
                    ts = std::mem::take(&mut ts).into_iter().collect();
                }
            });
            want(ts.into_iter().count(), 64)
        }
        17 => {
            let mut ts = TokenStream::new();
            m.run("appending negative literals", || (0..n).for_each(|_| ts.extend(Some(TokenTree::Literal(Literal::i32_suffixed(-5))))));
            want(ts.into_iter().count(), 2 * n)
        }
        _ => {
            // a shared beginning
            let base = built(n);
            let mut c = base.clone();
            m.run("first change of a copy", || c.extend(Some(tok(1))));
            m.run("further changes", || (0..n).for_each(|i| c.extend(Some(tok(i)))));
            want(c.into_iter().count(), 2 * n + 1)
        }
    }
}

/// stages whose cost has nothing to do with the size
const CONSTANT: &[&str] = &[
    "copying a stream",
    "dropping copies",
    "asking whether empty",
    "copying a group",
    "taking a group's stream",
    "relocating a group",
];

/// Nested `n` deep: printing, comparing and handing on visit every level once.
fn deep_probe(which: u64, n: usize, m: &mut Meter) -> Result<(), String> {
    forget_sources();
    let d = [Delimiter::Bracket, Delimiter::Parenthesis, Delimiter::Brace, Delimiter::None][which as usize % 4];
    let mut ts: TokenStream = match which / 4 {
        0 => tok(0).into(),
        _ => TokenStream::new(),
    };
    m.run("nesting", || {
        for _ in 0..n {
            let mut g = Group::new(d, std::mem::take(&mut ts));
            g.set_span(Span::call_site());
            if which / 4 == 2 {
                ts.extend([tok(0)]);
            }
            ts.extend([TokenTree::Group(g)]);
        }
    });
    let p = m.run("printing", || ts.to_string());
    m.run("printing for debugging", || format!("{:?}", ts).len());
    if which % 4 != 3 {
        let again = m.run("parsing what was printed", || p.parse::<TokenStream>()).map_err(|e| format!("printed text: {}", e))?;
        let (mut x, mut y) = (0usize, 0usize);
        walk(ts.clone(), &mut |_| x += 1);
        m.run("walking", || walk(again.clone(), &mut |_| y += 1));
        if x != y {
            return Err(format!("{} tokens, after printing and parsing {}", x, y));
        }
        m.run("dropping what was parsed", || drop(again));
    }
    m.run("dropping", || drop(ts));
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    let sizes: Vec<usize> = (0..4).map(|k| 16 * STEP.pow(k)).collect();
    ctx.phase("deep", 12, |ctx, i, _| {
        ctx.set_input(&format!("nesting of kind {}", i));
        grow(ctx, "deep nesting", &sizes, CONSTANT, &mut |n, m| deep_probe(i, n, m))?;
        ctx.count("nesting costs compared", 1);
        ctx.nontrivial(i ^ 0x200);
        Ok(())
    });
    let sizes: Vec<usize> = (0..4).map(|k| 1024 * STEP.pow(k)).collect();
    ctx.phase("building", BUILDS, |ctx, i, _| {
        ctx.set_input(&format!("way of building {}", i));
        grow(ctx, "tokens", &sizes, CONSTANT, &mut |n, m| build_probe(i, n, m))?;
        ctx.nontrivial(i);
        Ok(())
    });
    ctx.phase("forms", gen::LARGE_FORMS, |ctx, i, r| {
        let r = r.clone();
        ctx.set_input(&format!("{:?}...", gen::large(i, 30, &mut r.clone())));
        grow(ctx, "a long source", &sizes, CONSTANT, &mut |n, m| text_probe(&gen::large(i, n, &mut r.clone()), m))?;
        ctx.nontrivial(i ^ 0x100);
        Ok(())
    });
    // anything at all, over and over
    let sizes: Vec<usize> = (0..3).map(|k| 1024 * STEP.pow(k)).collect();
    let n = ctx.n(600, 20_000);
    ctx.phase("repeated", n, |ctx, _, r| {
        let (mut pre, mut unit, mut post) = (String::new(), String::new(), String::new());
        let most = if r.chance(1, 2) { 2 } else { 5 };
        gen::soup(r, &mut unit, most);
        if r.chance(1, 3) {
            gen::soup(r, &mut pre, 2);
        }
        if r.chance(1, 3) {
            gen::soup(r, &mut post, 2);
        }
        let unit: String = unit.chars().take(40).collect();
        ctx.set_input(&format!("{:?}, {:?} repeated, {:?}", pre, unit, post));
        grow(ctx, "a repetitive source", &sizes, CONSTANT, &mut |n, m| {
            let mut s = pre.clone();
            s.push_str(&unit.repeat(n));
            s.push_str(&post);
            text_probe(&s, m)
        })?;
        ctx.nontrivial(hash_bytes(unit.as_bytes()) ^ hash_bytes(pre.as_bytes()));
        Ok(())
    });
    forget_sources();
}

/// Inside the compiler: what the deferred appending is there for.
#[cfg(feature = "wrap")]
pub fn p23(ctx: &mut Ctx) {
    let sizes: Vec<usize> = (0..5).map(|k| 128 * STEP.pow(k)).collect();
    const WAYS: &[u64] = &[0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 16, 17];
    ctx.phase("building-inside", WAYS.len() as u64, |ctx, i, _| {
        ctx.set_input(&format!("way of building {}", i));
        let way = WAYS[i as usize];
        grow(ctx, "tokens inside a macro", &sizes, CONSTANT, &mut |n, m| build_probe(way, n, m))?;
        ctx.count("costs compared inside a macro", 1);
        ctx.nontrivial(i);
        Ok(())
    });
}
