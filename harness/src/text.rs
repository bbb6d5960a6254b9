//! Monitors over parsing source text: C01-C06, C08, C11, C14.
use crate::ctx::{catch, Ctx};
use crate::flat::{compare, flat, flatten, IEv, IE};
use crate::gen;
use crate::reflex::{self, Ev, Lit, Verdict, E};
use crate::rng::{hash_bytes, Rng};
use proc_macro2::{Delimiter, Literal, TokenStream, TokenTree};

pub const HAS_LOC: bool = cfg!(any(feature = "loc", procmacro2_semver_exempt));

pub fn forget_sources() {
    #[cfg(feature = "wrap")]
    if crate::pm::inside() {
        return crate::pm::forget();
    }
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    proc_macro2::extra::invalidate_current_thread_spans();
}

#[derive(Clone, Copy)]
pub struct Mix {
    /// exhaustive themes: 0 none, 1 short, 2 tier length
    pub themes: u32,
    pub soup: u64,
    pub source: u64,
    pub glued: u64,
    pub mutated: u64,
    pub corpus: usize,
    pub windows: u64,
    pub big: u64,
}

/// Drives a text monitor over the common workload.
pub fn drive(ctx: &mut Ctx, mix: Mix, f: &mut dyn FnMut(&mut Ctx, &str, &mut Rng) -> Result<(), String>) {
    if mix.themes > 0 {
        for t in gen::THEMES {
            let len = if ctx.thorough { t.thorough } else { t.quick };
            let len = if mix.themes == 1 { len - 1 } else { len };
            let n = gen::nth_count(t.alpha, len);
            ctx.phase(&format!("all:{}", t.name), n, |ctx, i, r| {
                let mut s = String::from(t.pre);
                gen::nth_string(t.alpha, i, &mut s);
                s.push_str(t.post);
                ctx.set_input(&s);
                f(ctx, &s, r)
            });
        }
    }
    let x = if ctx.thorough { 25 } else { 1 };
    let sc = |n: u64| n * x * ctx.scale / 100;
    let (soup, source, glued, mutated, windows) =
        (sc(mix.soup), sc(mix.source), sc(mix.glued), sc(mix.mutated), sc(mix.windows));
    ctx.phase("soup", soup, |ctx, _, r| {
        let mut s = String::new();
        gen::soup(r, &mut s, 9);
        ctx.set_input(&s);
        f(ctx, &s, r)
    });
    ctx.phase("source", source, |ctx, _, r| {
        let mut s = String::new();
        let n = if r.chance(1, 20) { 200 } else { 12 };
        let n = r.range(1, n);
        gen::source(r, &mut s, n, 0, true);
        ctx.set_input(&s);
        f(ctx, &s, r)
    });
    ctx.phase("glued", glued, |ctx, _, r| {
        let mut s = String::new();
        let n = r.range(1, 10);
        let g = r.range(4, 10);
        gen::source(r, &mut s, n, g, r.0 % 2 == 0);
        ctx.set_input(&s);
        f(ctx, &s, r)
    });
    ctx.phase("mutated", mutated, |ctx, _, r| {
        let mut s = String::new();
        let n = r.range(1, 10);
        gen::source(r, &mut s, n, 3, true);
        gen::mutate(r, &mut s);
        ctx.set_input(&s);
        f(ctx, &s, r)
    });
    if mix.corpus > 0 {
        let files = gen::corpus(if ctx.thorough { mix.corpus * 8 } else { mix.corpus });
        ctx.phase("files", files.len() as u64, |ctx, i, r| {
            let (name, s) = &files[i as usize % files.len()];
            ctx.set_input(&format!("file {}", name));
            ctx.count("real source files", 1);
            f(ctx, s, r)
        });
        if !files.is_empty() {
            ctx.phase("windows", windows, |ctx, _, r| {
                // a window of real source, possibly damaged
                let s = &files[r.below(files.len())].1;
                if s.is_empty() {
                    return Ok(());
                }
                let mut a = r.below(s.len());
                let mut b = (a + r.below(200)).min(s.len());
                while !s.is_char_boundary(a) {
                    a -= 1;
                }
                while !s.is_char_boundary(b) {
                    b += 1;
                }
                let mut w = s[a..b].to_string();
                if r.chance(1, 2) {
                    gen::mutate(r, &mut w);
                }
                ctx.set_input(&w);
                f(ctx, &w, r)
            });
        }
    }
    if mix.big > 0 {
        // every form of token, comment and nesting at sizes around powers of two
        let sizes = gen::LARGE_SIZES.len() as u64;
        ctx.phase("large", gen::LARGE_FORMS * sizes, |ctx, i, r| {
            let mut s = gen::large(i / sizes, gen::LARGE_SIZES[(i % sizes) as usize], r);
            if r.chance(1, 6) {
                s.push_str(r.pick(&[" )", " (", " '", "\n\\", " /*", " 0b2", " \""]));
            }
            ctx.set_input(&s);
            f(ctx, &s, r)
        });
    }
    let big = if ctx.thorough { mix.big * 6 } else { mix.big };
    ctx.phase("big", big, |ctx, i, r| {
        let mut s = String::new();
        match i % 4 {
            0 => gen::source(r, &mut s, 20000, 2, true),
            1 => {
                // many short lines of mixed width characters
                for k in 0..30000 {
                    if k % 7 == 0 {
                        s.push_str("\"日本😀\" /* é */ ");
                    }
                    gen::ident(r, &mut s);
                    s.push_str(r.pick(&["\n", " ", "\r\n", ";", "+=", "(", ")"]));
                }
                // repair the parentheses
                let mut depth = 0i32;
                s = s
                    .chars()
                    .filter(|c| match c {
                        '(' => {
                            depth += 1;
                            true
                        }
                        ')' if depth == 0 => false,
                        ')' => {
                            depth -= 1;
                            true
                        }
                        _ => true,
                    })
                    .collect();
                for _ in 0..depth {
                    s.push(')');
                }
            }
            2 => {
                // one long literal of every kind
                for (pre, kind, post) in [
                    ("\"", gen::Kind::Str, "\""),
                    ("b\"", gen::Kind::Byte, "\""),
                    ("c\"", gen::Kind::C, "\""),
                ] {
                    s.push_str(pre);
                    for _ in 0..r.range(1000, 20000) {
                        gen::cooked_unit(r, &mut s, kind, '"', false);
                    }
                    s.push_str(post);
                    s.push(' ');
                }
            }
            _ => {
                gen::source(r, &mut s, 6000, 1, true);
                gen::mutate(r, &mut s);
            }
        }
        ctx.set_input(&s);
        f(ctx, &s, r)
    });
}

pub fn count_events(ctx: &mut Ctx, evs: &[IE]) {
    let mut c = [0u64; 5];
    for e in evs {
        let i = match e.ev {
            IEv::Open(_) => 0,
            IEv::Close(_) => continue,
            IEv::Ident(_) => 1,
            IEv::Punct(..) => 2,
            IEv::Lit(_) => 3,
        };
        c[i] += 1;
    }
    ctx.count("groups observed", c[0]);
    ctx.count("identifiers observed", c[1]);
    ctx.count("puncts observed", c[2]);
    ctx.count("literals observed", c[3]);
}

/// Parses and flattens; Err(None) when refused.
pub fn parse(src: &str) -> Result<Vec<IE>, proc_macro2::LexError> {
    src.parse::<TokenStream>().map(flat)
}

// ---------------------------------------------------------------- C02, C03, C06

pub struct Scratch<'a> {
    pub refs: Vec<E<'a>>,
    pub evs: Vec<IE>,
}

/// A sign in a number belongs to an exponent and has digits behind it.
fn misread_number(t: &str) -> bool {
    if !t.starts_with(|c: char| c.is_ascii_digit()) {
        return false;
    }
    t.match_indices(['+', '-']).any(|(i, _)| {
        !t[..i].ends_with(['e', 'E']) || !t[i + 1..].trim_start_matches('_').starts_with(|c: char| c.is_ascii_digit())
    })
}

/// Where nothing says how a text splits into tokens, they still are the text.
fn conserved(src: &str, ts: TokenStream) -> Result<(), String> {
    let mut o = String::new();
    let evs = crate::flat::evs(ts);
    for e in &evs {
        match e {
            IEv::Open(d) => o.push(crate::flat::delim_char(*d, true)),
            IEv::Close(d) => o.push(crate::flat::delim_char(*d, false)),
            IEv::Ident(s) => o.push_str(s),
            IEv::Punct(c, _) => o.push(*c),
            IEv::Lit(s) => {
                if misread_number(s) {
                    return Err(format!("{:?} is not a number", s));
                }
                o.push_str(s);
            }
        }
    }
    // (comments are not tokens)
    if src.contains('/') {
        return Ok(());
    }
    let solid = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != '\u{feff}' && *c != '\u{200e}' && *c != '\u{200f}').collect::<String>();
    if solid(&o) != solid(src) {
        return Err(format!("the tokens {:?} are not the text", evs));
    }
    Ok(())
}

fn tokens_monitor(ctx: &mut Ctx, src: &str, tokens: bool, rejects: bool, spacing: bool) -> Result<(), String> {
    let mut refs = Vec::new();
    let verdict = reflex::lex(src, &mut refs);
    let got = src.parse::<TokenStream>();
    match (verdict, got) {
        (Verdict::Unspec, got) => {
            ctx.count("inputs without a claim", 1);
            if let (Ok(ts), true) = (got, tokens) {
                let r = conserved(src, ts);
                forget_sources();
                r?;
            }
        }
        (Verdict::Accept, Err(_)) => {
            ctx.count("verdict accept", 1);
            if tokens {
                return Err(format!("valid source was refused; expected tokens {}", show(&refs)));
            }
        }
        (Verdict::MayReject, Err(_)) => ctx.count("reserved syntax refused", 1),
        (v @ (Verdict::Accept | Verdict::MayReject), Ok(ts)) => {
            ctx.count(if v == Verdict::Accept { "verdict accept" } else { "reserved syntax split" }, 1);
            if tokens || spacing {
                let mut evs = Vec::with_capacity(refs.len());
                let empty = ts.is_empty();
                flatten(ts, &mut evs);
                count_events(ctx, &evs);
                if tokens {
                    compare(&refs, &evs, false)?;
                    if empty != refs.is_empty() {
                        return Err(format!("is_empty() is {} for {} tokens", empty, refs.len()));
                    }
                }
                if spacing && refs.len() == evs.len() {
                    compare(&refs, &evs, true)?;
                    let mut j = 0;
                    for e in &evs {
                        if let IEv::Punct(_, true) = e.ev {
                            j += 1;
                        }
                    }
                    ctx.count("joint puncts observed", j);
                }
                if refs.len() >= 2 {
                    ctx.nontrivial(hash_bytes(src.as_bytes()));
                    ctx.sample(|| format!("{:?} -> {}", src, show(&refs)));
                }
            }
        }
        (Verdict::Reject { pos, why, .. }, got) => {
            ctx.count(&format!("verdict reject ({:?})", why), 1);
            if rejects {
                if let Ok(ts) = got {
                    return Err(format!(
                        "malformed source was accepted (offending text at byte {}, {:?}) as {:?}",
                        pos,
                        why,
                        crate::flat::evs(ts)
                    ));
                }
                ctx.nontrivial(hash_bytes(src.as_bytes()));
                ctx.sample(|| format!("{:?} refused: {:?} at byte {}", src, why, pos));
            }
        }
    }
    forget_sources();
    Ok(())
}

pub fn show(refs: &[E]) -> String {
    let v: Vec<String> = refs.iter().take(40).map(|e| format!("{:?}", e.ev)).collect();
    v.join(" ")
}

const MIX: Mix = Mix {
    themes: 2,
    soup: 600_000,
    source: 120_000,
    glued: 250_000,
    mutated: 200_000,
    corpus: 250,
    windows: 150_000,
    big: 16,
};

pub fn c02(ctx: &mut Ctx) {
    drive(ctx, MIX, &mut |ctx, s, _| tokens_monitor(ctx, s, true, false, false));
    exact(ctx, true, false);
    error_form(ctx);
    long_tokens(ctx, &mut |ctx, s| tokens_monitor(ctx, s, true, false, false));
}

pub fn c03(ctx: &mut Ctx) {
    let mix = Mix { soup: 700_000, source: 20_000, glued: 100_000, mutated: 450_000, ..MIX };
    drive(ctx, mix, &mut |ctx, s, _| tokens_monitor(ctx, s, false, true, false));
    rejects(ctx);
    long_tokens(ctx, &mut |ctx, s| tokens_monitor(ctx, s, false, true, false));
}

pub fn c06(ctx: &mut Ctx) {
    let mix = Mix { mutated: 80_000, soup: 500_000, ..MIX };
    drive(ctx, mix, &mut |ctx, s, _| tokens_monitor(ctx, s, false, false, true));
    // every pair / triple of punctuation, and every punct before every fragment
    let ps: Vec<char> = reflex::PUNCTS.chars().collect();
    let n = ps.len() as u64;
    ctx.phase("punct-before-fragment", n * gen::FRAGS.len() as u64 * 4, |ctx, i, _| {
        let mut s = String::new();
        let j = i / 4;
        s.push_str(["", "a", "1 ", "="][(i % 4) as usize]);
        s.push(ps[(j % n) as usize]);
        s.push_str(gen::FRAGS[(j / n) as usize % gen::FRAGS.len()]);
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, false, true)?;
        s.push_str(" z");
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, false, true)
    });
    ctx.phase("punct-triples", n * n * n, |ctx, i, _| {
        let mut s = String::new();
        s.push(ps[(i % n) as usize]);
        s.push(ps[(i / n % n) as usize]);
        s.push(ps[(i / n / n % n) as usize]);
        s.push('a');
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, false, true)
    });
    // punct before every character, glued
    ctx.phase("punct-before-char", 0x110000, |ctx, i, r| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        let p = ps[r.below(ps.len())];
        let s = format!("{}{}", p, c);
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, false, true)
    });
    // constructor: exactly Rust's punctuation characters
    ctx.phase("construct", 0x110000, |ctx, i, r| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        ctx.set_input(&format!("Punct::new({:?})", c));
        let joint = r.chance(1, 2);
        let sp = if joint { proc_macro2::Spacing::Joint } else { proc_macro2::Spacing::Alone };
        match catch(|| proc_macro2::Punct::new(c, sp)) {
            Ok(p) => {
                if !reflex::is_punct_char(c) {
                    return Err("a character that is not punctuation was accepted".into());
                }
                ctx.count("puncts constructed", 1);
                if p.as_char() != c || p.spacing() != sp || p.to_string() != c.to_string() {
                    return Err(format!("constructed punct reads {:?}", p));
                }
                let q = TokenStream::from(TokenTree::Punct(p.clone())).into_iter().next();
                match q {
                    Some(TokenTree::Punct(q)) if q.as_char() == c && q.spacing() == sp => Ok(()),
                    other => Err(format!("punct came back from a stream as {:?}", other)),
                }
            }
            Err(_) => {
                ctx.count("non-punctuation refused", 1);
                if reflex::is_punct_char(c) {
                    Err("punctuation was refused".into())
                } else {
                    Ok(())
                }
            }
        }
    });
}

/// Constructive cases: the expected tokens are known from how the text was
/// built, not from the reference lexer.
fn exact(ctx: &mut Ctx, tokens: bool, spacing: bool) {
    let n = ctx.n(200_000, 4_000_000);
    ctx.phase("constructed", n, |ctx, _, r| {
        let mut s = String::new();
        let mut want: Vec<E<'static>> = Vec::new();
        let mut stack: Vec<(char, char)> = Vec::new();
        let push = |want: &mut Vec<E<'static>>, ev| want.push(E { ev, lo: 0, hi: 0, doc: false });
        for _ in 0..r.range(1, 15) {
            match r.below(10) {
                0 => {
                    let (o, c) = [('(', ')'), ('[', ']'), ('{', '}')][r.below(3)];
                    s.push(o);
                    stack.push((o, c));
                    push(&mut want, Ev::Open(o));
                }
                1 => {
                    if let Some((_, c)) = stack.pop() {
                        s.push(c);
                        push(&mut want, Ev::Close(c));
                    }
                }
                2 | 3 => {
                    let at = s.len();
                    gen::ident(r, &mut s);
                    push(&mut want, Ev::Ident(s[at..].to_string().into()));
                }
                4 => {
                    let at = s.len();
                    gen::raw_ident(r, &mut s);
                    push(&mut want, Ev::Ident(s[at..].to_string().into()));
                }
                5 => {
                    let at = s.len();
                    gen::lifetime(r, &mut s);
                    push(&mut want, Ev::Punct('\'', true));
                    push(&mut want, Ev::Ident(s[at + 1..].to_string().into()));
                }
                6 => {
                    let op = gen::OPS[r.below(gen::OPS.len())];
                    s.push_str(op);
                    let k = op.chars().count();
                    for (i, c) in op.chars().enumerate() {
                        // `|_|` is the only operator entry with an identifier
                        if c == '_' {
                            push(&mut want, Ev::Ident("_".into()));
                        } else {
                            push(&mut want, Ev::Punct(c, i + 1 < k && !op.contains('_')));
                        }
                    }
                }
                _ => {
                    let at = s.len();
                    gen::literal(r, &mut s);
                    push(&mut want, Ev::Lit(s[at..].to_string().into()));
                }
            }
            gen::sep(r, &mut s);
        }
        while let Some((_, c)) = stack.pop() {
            s.push(c);
            push(&mut want, Ev::Close(c));
        }
        ctx.set_input(&s);
        if s.contains("(/*ERROR*/)") {
            return Ok(());
        }
        match parse(&s) {
            Ok(evs) => {
                compare(&want, &evs, spacing)?;
                count_events(ctx, &evs);
            }
            Err(_) if tokens => return Err(format!("valid source was refused; expected {}", show(&want))),
            Err(_) => {}
        }
        forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}

/// `(/*ERROR*/)`, which the compiler prints for what it could not parse, is
/// either an ordinary empty group or one literal of that text.
fn error_form(ctx: &mut Ctx) {
    const ERROR: &str = "(/*ERROR*/)";
    let n = ctx.n(20_000, 200_000);
    ctx.phase("error-form", n, |ctx, _, r| {
        let (mut s, mut plain) = (String::new(), String::new());
        for k in 0..r.range(1, 4) {
            let mut piece = String::new();
            let m = r.below(6);
            gen::source(r, &mut piece, m, 3, true);
            if k > 0 {
                let open = r.pick(&["(", "[", "{", "", "x", "+"]);
                let close = match open { "(" => ")", "[" => "]", "{" => "}", _ => "" };
                s.push_str(&format!("{}{}{}", open, ERROR, close));
                plain.push_str(&format!("{}( /* */ ){}", open, close));
            }
            s.push_str(&piece);
            plain.push_str(&piece);
        }
        ctx.set_input(&s);
        let mut want = Vec::new();
        if !matches!(reflex::lex(&plain, &mut want), Verdict::Accept) {
            return Ok(());
        }
        let evs = parse(&s).map_err(|_| "valid source was refused")?;
        let mut flat = Vec::new();
        for e in evs {
            if matches!(&e.ev, IEv::Lit(t) if t == ERROR) {
                for ev in [IEv::Open(Delimiter::Parenthesis), IEv::Close(Delimiter::Parenthesis)] {
                    flat.push(IE { ev, ..e.clone() });
                }
                ctx.count("error literals", 1);
            } else {
                flat.push(e);
            }
        }
        compare(&want, &flat, true)?;
        count_events(ctx, &flat);
        forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}

/// Token forms at their limits.
fn long_tokens(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str) -> Result<(), String>) {
    // raw strings with every number of hashes around the limit, well and badly closed
    ctx.phase("hashes", 3 * 300 * 4, |ctx, i, _| {
        let n = (i / 12) as usize % 300;
        let pre = ["r", "br", "cr"][(i % 3) as usize];
        let close = match (i / 3) % 4 {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            _ => n,
        };
        let body = if (i / 3) % 4 == 3 && n > 0 { format!("a\"{}b", "#".repeat(n - 1)) } else { "a".into() };
        let s = format!("{}{}\"{}\"{}x", pre, "#".repeat(n), body, "#".repeat(close));
        ctx.set_input(&s);
        f(ctx, &s)
    });
    // every character in every position where characters matter
    let n = if ctx.thorough { 0x110000 } else { 0x110000 };
    ctx.phase("every-char", n, |ctx, i, r| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        let all: [String; 14] = [
            format!("{}", c),
            format!("a{}", c),
            format!("a{}b", c),
            format!("1{}", c),
            format!("'{}'", c),
            format!("'{}", c),
            format!("'a{}", c),
            format!("b'{}'", c),
            format!("\"{}\"", c),
            format!("b\"{}\"", c),
            format!("c\"{}\"", c),
            format!("br\"{}\"", c),
            format!("\"x\"{}", c),
            format!("r#{}", c),
        ];
        // common characters: everything; the rest: a sample of the forms
        let dense = i < 0x3000 || ctx.thorough;
        for (k, s) in all.iter().enumerate() {
            if dense || k < 2 || r.chance(1, 6) {
                ctx.set_input(s);
                f(ctx, s)?;
            }
        }
        Ok(())
    });
    // every code point value in escapes
    ctx.phase("every-escape", 0x110800, |ctx, i, r| {
        let s = match r.below(4) {
            0 => format!("\"\\u{{{:x}}}\"", i),
            1 => format!("'\\u{{{:X}}}'", i),
            2 => format!("c\"\\u{{{:06x}}}\"", i),
            _ => format!("b\"\\u{{{:x}}}\"", i),
        };
        ctx.set_input(&s);
        f(ctx, &s)
    });
    ctx.phase("hex-escapes", 5 * 128 * 128, |ctx, i, _| {
        let (a, b) = ((i / 5 % 128) as u8 as char, (i / 5 / 128) as u8 as char);
        let (pre, post) = [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'")][(i % 5) as usize];
        let s = format!("{}\\x{}{}{}", pre, a, b, post);
        ctx.set_input(&s);
        f(ctx, &s)
    });
    ctx.phase("char-escapes", 5 * 0x400, |ctx, i, _| {
        let c = char::from_u32((i / 5) as u32).unwrap();
        let (pre, post) = [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'")][(i % 5) as usize];
        let s = format!("{}\\{}{}", pre, c, post);
        ctx.set_input(&s);
        f(ctx, &s)
    });
}

/// Systematic damage: every way of unbalancing, every truncation, every forbidden thing.
fn rejects(ctx: &mut Ctx) {
    let n = ctx.n(3_000, 60_000);
    ctx.phase("truncations", n, |ctx, _, r| {
        let mut s = String::new();
        let k = r.range(1, 6);
        gen::source(r, &mut s, k, 2, true);
        for (at, _) in s.char_indices() {
            ctx.set_input(&s[..at]);
            tokens_monitor(ctx, &s[..at], false, true, false)?;
        }
        Ok(())
    });
    let n = ctx.n(20_000, 400_000);
    ctx.phase("unbalanced", n, |ctx, _, r| {
        // a balanced source with one delimiter removed, added, swapped or moved
        let mut s = String::new();
        let k = r.range(3, 40);
        gen::source(r, &mut s, k, 1, false);
        let ds: Vec<usize> =
            s.char_indices().filter(|(_, c)| "()[]{}".contains(*c)).map(|(i, _)| i).collect();
        if ds.is_empty() {
            return Ok(());
        }
        let at = ds[r.below(ds.len())];
        match r.below(3) {
            0 => {
                s.replace_range(at..at + 1, " ");
            }
            1 => {
                let d = r.pick(&["(", ")", "[", "]", "{", "}"]);
                s.replace_range(at..at + 1, d);
            }
            _ => {
                let d = r.pick(&["(", ")", "[", "]", "{", "}"]);
                s.insert_str(at, d);
            }
        }
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, true, false)
    });
    // a malformed piece anywhere inside valid surroundings
    const BAD: &[&str] = &[
        "'ab'", "''", "'\\x80'", "'\\u{D800}'", "'\\u{110000}'", "'\\q'", "\"\\x80\"", "\"\\u{}\"", "\"\\u{_1}\"",
        "\"\\u{1234567}\"", "\"\\u{DFFF}\"", "\"\\u{12\"", "\"\\xg0\"", "\"\\x0\"", "\"a\rb\"", "\"\\\rb\"",
        "b'é'", "b''", "b'ab'", "b'\\u{41}'", "b\"é\"", "b\"\\u{41}\"", "b\"a\rb\"", "br\"é\"", "br\"a\rb\"",
        "c\"\\0\"", "c\"\\x00\"", "c\"\\u{0}\"", "c\"\0\"", "cr\"\0\"", "c\"a\rb\"", "cr#\"a\rb\"#", "r#\"a\rb\"#",
        "0b", "0o", "0x", "0b2", "0o8", "0xg", "0b_", "0x_", "0b12", "0o78", "0b1_2", "r#self", "r#Self", "r#super",
        "r#crate", "r#_", "r#1", "r##x", "br#x", "cr#x", "'r#self", "'r#_", "'1", "'a#", "1\u{300}", "1\u{b7}",
        "\\", "`", "\u{0}", "\u{1}", "\u{7f}", "\u{300}", "\u{b7}", "—", "“", "\u{200b}", "😀", "x\u{feff}", "²",
        "/* /* */", "/*", "/**", "/*!", "///a\rb\n", "//!a\rb\n", "/**a\rb*/", "/*!\r*/", "r#\"", "\"", "b\"", "c\"",
        "br\"", "cr#\"a\"", "'", "'\\", "b'", "b'\\", "\"\\", "'\\u{}'", "'\\u{1_2_3_4_5_6_7}'", "\u{80}", "\u{200c}",
    ];
    let n = ctx.n(150_000, 3_000_000);
    ctx.phase("one-bad-piece", n, |ctx, _, r| {
        let mut s = String::new();
        let k = r.range(0, 5);
        gen::source(r, &mut s, k, 1, true);
        s.push_str(r.pick(&[" ", "\n", "\n( ", "\n{", "\n,", "\n= "]));
        s.push_str(BAD[r.below(BAD.len())]);
        s.push_str(r.pick(&[" ", "", "\n", " ) ", ";", " }"]));
        let k = r.range(0, 3);
        gen::source(r, &mut s, k, 1, true);
        ctx.set_input(&s);
        tokens_monitor(ctx, &s, false, true, false)
    });
}

// ---------------------------------------------------------------- C04

/// Builds the same tokens twice with different trivia and compares; doc comments
/// checked against the text they were written with.
pub fn c04(ctx: &mut Ctx) {
    let n = ctx.n(250_000, 5_000_000);
    ctx.phase("trivia-swap", n, |ctx, _, r| {
        let mut pieces = Vec::new();
        for _ in 0..r.range(1, 10) {
            let mut t = String::new();
            gen::token(r, &mut t);
            pieces.push(t);
        }
        let build = |r: &mut Rng, plain: bool| {
            let mut s = String::new();
            if !plain && r.chance(1, 8) {
                s.push('\u{feff}');
            }
            if !plain && r.chance(1, 2) {
                gen::sep(r, &mut s);
            }
            for (i, p) in pieces.iter().enumerate() {
                if i > 0 {
                    if plain {
                        s.push(' ');
                    } else {
                        gen::sep(r, &mut s);
                    }
                }
                s.push_str(p);
            }
            if !plain && r.chance(1, 2) {
                gen::sep(r, &mut s);
            }
            if !plain && r.chance(1, 6) {
                // comment up to the end of input
                if s.ends_with('/') {
                    s.push(' ');
                }
                s.push_str(r.pick(&["//", "// x", "////", "//*/", "// \u{e9}"]));
            }
            s
        };
        let a = build(r, true);
        let b = build(r, false);
        ctx.set_input(&b);
        let (ea, eb) = (parse(&a), parse(&b));
        forget_sources();
        match (ea, eb) {
            (Ok(x), Ok(y)) => {
                if x.len() != y.len() || x.iter().zip(&y).any(|(p, q)| p.ev != q.ev) {
                    return Err(format!("tokens differ from those of {:?}: {:?} vs {:?}", a, names(&y), names(&x)));
                }
                ctx.count("trivia insensitive pairs", 1);
                ctx.nontrivial(hash_bytes(b.as_bytes()));
                ctx.sample(|| format!("{:?} ~ {:?}", b, a));
                Ok(())
            }
            (Err(_), _) => Err(format!("plainly spaced tokens refused: {:?}", a)),
            (_, Err(_)) => Err("refused because of its comments or whitespace".into()),
        }
    });
    let n = ctx.n(250_000, 5_000_000);
    ctx.phase("doc-comments", n, |ctx, _, r| {
        // `a <doc> b`, the comment built from known content
        let inner = r.chance(1, 2);
        let line = r.chance(1, 2);
        let mut text = String::new();
        for _ in 0..r.below(8) {
            match r.below(5) {
                0 => text.push_str(r.pick(&["*", "/", "!", "\"", "\\", "'", "#", "{", "\\n", "\0", "r#\"", "é", "\t"])),
                1 if !line => text.push_str(r.pick(&["\n", "/*x*/", "\r\n", "//", "/* /**/ */"])),
                _ => {
                    let c = gen::any_char(r);
                    if c != '\n' && c != '\r' && (line || (c != '*' && c != '/')) {
                        text.push(c);
                    }
                }
            }
        }
        let open = match (line, inner) {
            (true, true) => "//!",
            (true, false) => "///",
            (false, true) => "/*!",
            (false, false) => "/**",
        };
        // what would change the kind of comment
        if !inner && (text.starts_with(if line { '/' } else { '*' }) || (!line && (text.is_empty() || text.starts_with('/')))) {
            text.insert(0, ' ');
        }
        if !line {
            // keep comment markers balanced
            let s = format!("/*{}*/", text);
            let mut refs = Vec::new();
            if text.ends_with('/') || text.starts_with('/') || text.ends_with('*') {
                text.push(' ');
            }
            let _ = (&s, &mut refs as &mut Vec<E>);
            let full = format!("/*{}*/", text);
            match reflex::trivia(&full) {
                reflex::Trivia::Skip(n, _) if n == full.len() => {}
                reflex::Trivia::Doc { end, .. } if end == full.len() => {}
                _ => return Ok(()),
            }
        }
        let mut s = String::new();
        let pre = r.pick(&["a ", "", "=", "1", "(", "'a ", "\"x\"", "//c\n"]);
        s.push_str(pre);
        s.push_str(open);
        s.push_str(&text);
        let lf = r.pick(&["\n", "\r\n", ""]);
        s.push_str(if line { lf } else { "*/" });
        let tail = if line && lf.is_empty() { "" } else { r.pick(&["b", " b", "", "=", "///x\n"]) };
        s.push_str(tail);
        if pre == "(" && !(line && lf.is_empty()) {
            s.push(')');
        } else if pre == "(" {
            return Ok(());
        }
        ctx.set_input(&s);
        let evs = match parse(&s) {
            Ok(e) => e,
            Err(_) => return Err(format!("doc comment with text {:?} refused", text)),
        };
        forget_sources();
        // find the attribute: # [!] [ doc = lit ]
        let skip = match pre {
            "" | "//c\n" => 0,
            "'a " => 2,
            _ => 1,
        };
        let mut i = skip;
        let mut want = vec![IEv::Punct('#', false)];
        if inner {
            want.push(IEv::Punct('!', false));
        }
        want.push(IEv::Open(proc_macro2::Delimiter::Bracket));
        want.push(IEv::Ident("doc".into()));
        want.push(IEv::Punct('=', false));
        for w in want {
            if evs.get(i).map(|e| &e.ev) != Some(&w) {
                return Err(format!("doc attribute: expected {:?} at token {}, got {:?}", w, i, names(&evs)));
            }
            i += 1;
        }
        match evs.get(i).map(|e| &e.ev) {
            Some(IEv::Lit(l)) => match crate::lit::decode(l) {
                Some(crate::lit::Value::Str(v, suf)) if suf.is_empty() => {
                    if v != text && v.replace("\r\n", "\n") != text.replace("\r\n", "\n") {
                        return Err(format!("doc text is {:?}, expected {:?}", v, text));
                    }
                }
                _ => return Err(format!("doc text is not a string: {}", l)),
            },
            e => return Err(format!("doc attribute without text: {:?}", e)),
        }
        if evs.get(i + 1).map(|e| &e.ev) != Some(&IEv::Close(proc_macro2::Delimiter::Bracket)) {
            return Err(format!("doc attribute not closed: {:?}", names(&evs)));
        }
        ctx.count(if inner { "inner doc comments" } else { "outer doc comments" }, 1);
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
    // everything else against the reference
    let mix = Mix { soup: 300_000, source: 80_000, glued: 100_000, mutated: 80_000, themes: 2, corpus: 120, windows: 60_000, big: 4 };
    drive(ctx, mix, &mut |ctx, s, _| {
        if s.contains('/') || !s.is_ascii() || s.contains('\n') || s.contains('\r') {
            tokens_monitor(ctx, s, true, true, false)
        } else {
            Ok(())
        }
    });
    // whitespace: every character alone and between tokens
    ctx.phase("every-whitespace", 0x110000, |ctx, i, _| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for s in [format!("a{}b", c), format!("={}=", c), format!("//{}\nb", c), format!("/*{}*/b", c), format!("1{}///x", c)] {
            ctx.set_input(&s);
            tokens_monitor(ctx, &s, true, true, true)?;
        }
        Ok(())
    });
}

pub fn names(evs: &[IE]) -> Vec<&IEv> {
    evs.iter().take(40).map(|e| &e.ev).collect()
}

// ---------------------------------------------------------------- C05

fn roundtrip(ctx: &mut Ctx, src: &str) -> Result<(), String> {
    let ts = match src.parse::<TokenStream>() {
        Ok(ts) => ts,
        Err(_) => return Ok(()),
    };
    let keep = ts.clone();
    let s1 = ts.to_string();
    let a = flat(ts);
    let b0 = flat(keep);
    if a.len() != b0.len() || a.iter().zip(&b0).any(|(x, y)| x.ev != y.ev) {
        return Err("printing changed the stream".into());
    }
    let ts2 = match s1.parse::<TokenStream>() {
        Ok(t) => t,
        Err(_) => return Err(format!("printed as {:?}, which does not parse", s1)),
    };
    let s2 = ts2.to_string();
    let b = flat(ts2);
    forget_sources();
    if a.len() != b.len() {
        return Err(format!("printed as {:?}, which parses into other tokens: {:?} vs {:?}", s1, names(&a), names(&b)));
    }
    for (x, y) in a.iter().zip(&b) {
        if x.ev != y.ev {
            return Err(format!("printed as {:?}: {:?} came back as {:?}", s1, x.ev, y.ev));
        }
    }
    if s1 != s2 {
        return Err(format!("printing is not stable: {:?} then {:?}", s1, s2));
    }
    ctx.count("parsed streams round tripped", 1);
    if a.len() >= 2 {
        ctx.nontrivial(hash_bytes(src.as_bytes()));
        ctx.sample(|| format!("{:?} prints {:?}", src, s1));
    }
    Ok(())
}

/// Width, precision, sign and the like change nothing about which tokens are printed.
fn with_flags(ctx: &mut Ctx, r: &mut Rng, ts: &TokenStream) -> Result<(), String> {
    let w = r.below(40);
    let p = r.below(6);
    let (how, s) = match r.below(8) {
        0 => ("a width", format!("{:w$}", ts)),
        1 => ("right alignment", format!("{:>w$}", ts)),
        2 => ("centring", format!("{:^w$}", ts)),
        3 => ("a precision", format!("{:.p$}", ts)),
        4 => ("width and precision", format!("{:w$.p$}", ts)),
        5 => ("#", format!("{:#}", ts)),
        6 => ("+", format!("{:+}", ts)),
        _ => ("zeros", format!("{:0w$}", ts)),
    };
    let plain = crate::flat::evs(ts.to_string().parse::<TokenStream>().map_err(|_| "what is printed does not parse")?);
    match s.parse::<TokenStream>() {
        Ok(t) if crate::flat::evs(t.clone()) == plain => {}
        _ => return Err(format!("printed with {} as {:?}, otherwise as {:?}", how, s, ts.to_string())),
    }
    ctx.count("streams printed with formatting flags", 1);
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    let mix = Mix { themes: 2, soup: 300_000, source: 100_000, glued: 150_000, mutated: 60_000, corpus: 150, windows: 60_000, big: 8 };
    drive(ctx, mix, &mut |ctx, s, _| roundtrip(ctx, s));
    let n = ctx.n(300_000, 6_000_000);
    ctx.phase("assembled", n, |ctx, _, r| {
        let mut asm = Assembly { want: Vec::new(), loose: Vec::new(), invisible: r.chance(1, 3) };
        let ts = asm.stream(r, 3, &mut None);
        if asm.invisible {
            ctx.count("streams with invisible groups", 1);
        }
        let mut want = asm.want;
        let s = ts.to_string();
        ctx.set_input(&s);
        let again = ts.to_string();
        let now = crate::flat::evs(ts);
        let ts2 = match s.parse::<TokenStream>() {
            Ok(t) => t,
            Err(_) => return Err(format!("assembled stream {:?} printed as {:?}, which does not parse", now, s)),
        };
        let s2 = ts2.to_string();
        let got = crate::flat::evs(ts2);
        forget_sources();
        for &at in &asm.loose {
            if let (Some(IEv::Punct(_, w)), Some(IEv::Punct(_, g))) = (want.get_mut(at), got.get(at)) {
                *w = *g;
            }
        }
        if got != want {
            return Err(format!("assembled stream printed as {:?}: expected {:?}, parsed back {:?}", s, want, got));
        }
        if again != s {
            return Err(format!("printing twice differs: {:?} / {:?}", s, again));
        }
        // once parsed, printing is stable
        let s3 = s2.parse::<TokenStream>().map(|t| t.to_string()).unwrap_or_default();
        forget_sources();
        if s3 != s2 {
            return Err(format!("printing is not stable: {:?} then {:?}", s2, s3));
        }
        ctx.count("assembled streams round tripped", 1);
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
    // tokens printed by themselves, and into writers that fail
    let n = ctx.n(60_000, 1_000_000);
    ctx.phase("pieces", n, |ctx, i, r| {
        let mut s = String::new();
        let k = r.range(1, 8);
        gen::source(r, &mut s, k, 4, true);
        ctx.set_input(&s);
        let ts = if i % 2 == 0 {
            match s.parse::<TokenStream>() {
                Ok(t) => t,
                Err(_) => return Ok(()),
            }
        } else {
            let mut asm = Assembly { want: Vec::new(), loose: Vec::new(), invisible: false };
            asm.stream(r, 3, &mut None)
        };
        if r.chance(1, 4) {
            crate::dbg::failing_writer(ctx, r, &|f| write!(f, "{}", ts))?;
        }
        if r.chance(1, 8) {
            crate::busy::busy_writer(&|f| write!(f, "{}", ts))?;
            ctx.count("printed into writers that use the library", 1);
        }
        if r.chance(1, 4) {
            with_flags(ctx, r, &ts)?;
        }
        for t in ts {
            if let TokenTree::Punct(p) = &t {
                if p.to_string() != p.as_char().to_string() || t.to_string() != p.to_string() {
                    return Err(format!("{:?} prints as {} and {}", p, p, t));
                }
                continue;
            }
            let text = t.to_string();
            let own = match &t {
                TokenTree::Group(g) => g.to_string(),
                TokenTree::Ident(i) => i.to_string(),
                TokenTree::Literal(l) => l.to_string(),
                TokenTree::Punct(p) => p.to_string(),
            };
            if own != text {
                return Err(format!("token prints as {:?} and {:?}", own, text));
            }
            let got = text.parse::<TokenStream>().map_err(|_| format!("token printed as {:?}, which does not parse", text))?;
            let mut want = crate::flat::evs(TokenStream::from(t.clone()));
            // as the printed form of the whole would have it
            let printed = TokenStream::from(t.clone()).to_string();
            if printed != text {
                return Err(format!("alone in a stream it prints as {:?}, by itself as {:?}", printed, text));
            }
            let got = crate::flat::evs(got);
            normal_spacing(&mut want);
            if got != want {
                return Err(format!("token printed as {:?}: expected {:?}, parsed back {:?}", text, want, got));
            }
            if r.chance(1, 4) {
                crate::dbg::failing_writer(ctx, r, &|f| write!(f, "{}", t))?;
            }
            ctx.count("tokens printed by themselves", 1);
        }
        forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()) ^ i % 2);
        Ok(())
    });
}

/// A joint punct that no punct follows reads back as standing alone, unless
/// it introduces a lifetime.
fn normal_spacing(evs: &mut [IEv]) {
    for i in 0..evs.len() {
        let glued = matches!(evs.get(i + 1), Some(IEv::Punct(..)));
        if let IEv::Punct(c, j) = &mut evs[i] {
            if *c != '\'' && !glued {
                *j = false;
            }
        }
    }
}

/// Random stream built token by token, and the events its printed form must
/// parse into.
pub fn assemble(r: &mut Rng, want: &mut Vec<IEv>, depth: usize) -> TokenStream {
    let mut a = Assembly { want: Vec::new(), loose: Vec::new(), invisible: false };
    let ts = a.stream(r, depth, &mut None);
    want.append(&mut a.want);
    ts
}

pub struct Assembly {
    pub want: Vec<IEv>,
    /// puncts next to the edge of an invisible group, whose spacing nothing fixes
    pub loose: Vec<usize>,
    pub invisible: bool,
}

/// the previous token, if it is a joint punct: character, place in `want`,
/// and whether an invisible group's edge follows it
type Prev = Option<(char, usize, bool)>;

impl Assembly {
    fn glued(&mut self, prev: &Prev) {
        if let Some((c, at, loose)) = *prev {
            self.want[at] = IEv::Punct(c, true);
            if loose {
                self.loose.push(at);
            }
        }
    }

    pub fn stream(&mut self, r: &mut Rng, depth: usize, prev: &mut Prev) -> TokenStream {
        use proc_macro2::*;
        let mut ts = TokenStream::new();
        let mut toks: Vec<TokenTree> = Vec::new();
        let n = r.below(8);
        for _ in 0..n {
            let mut k = r.below(10);
            if prev.is_some() && r.chance(2, 3) {
                k = 9;
            }
            if self.invisible && depth > 0 && r.chance(1, 6) {
                if let Some(p) = prev {
                    p.2 = true;
                }
                let inner = self.stream(r, depth - 1, prev);
                if let Some(p) = prev {
                    p.2 = true;
                }
                toks.push(Group::new(Delimiter::None, inner).into());
                continue;
            }
            // a joint `#` directly before a literal or `#` reads as reserved syntax
            match k {
                0 | 1 => {
                    let mut s = String::new();
                    let raw = r.chance(1, 5);
                    if raw {
                        gen::raw_ident(r, &mut s);
                        toks.push(Ident::new_raw(&s[2..], Span::call_site()).into());
                    } else {
                        gen::ident(r, &mut s);
                        toks.push(Ident::new(&s, Span::call_site()).into());
                    }
                    self.want.push(IEv::Ident(s));
                    *prev = None;
                }
                2 => {
                    // lifetime
                    let mut s = String::new();
                    gen::ident(r, &mut s);
                    self.glued(prev);
                    toks.push(Punct::new('\'', Spacing::Joint).into());
                    toks.push(Ident::new(&s, Span::call_site()).into());
                    self.want.push(IEv::Punct('\'', true));
                    self.want.push(IEv::Ident(s));
                    *prev = None;
                }
                3 if depth > 0 => {
                    let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][r.below(3)];
                    self.want.push(IEv::Open(d));
                    let inner = self.stream(r, depth - 1, &mut None);
                    self.want.push(IEv::Close(d));
                    toks.push(Group::new(d, inner).into());
                    *prev = None;
                }
                4..=6 => {
                    if prev.is_some_and(|p| p.0 == '#') {
                        continue;
                    }
                    let l = any_literal(r);
                    let text = l.to_string();
                    toks.push(l.into());
                    match text.strip_prefix('-') {
                        Some(pos) => {
                            self.glued(prev);
                            self.want.push(IEv::Punct('-', false));
                            self.want.push(IEv::Lit(pos.to_string()));
                        }
                        None => self.want.push(IEv::Lit(text)),
                    }
                    *prev = None;
                }
                _ => {
                    let c = r.ch("~!@#$%^&*-=+|;:,<.>/?");
                    let joint = r.chance(1, 2);
                    if let Some((p, ..)) = *prev {
                        if (p == '/' && (c == '/' || c == '*')) || (p == '#' && c == '#') {
                            continue;
                        }
                        self.glued(prev);
                    }
                    toks.push(Punct::new(c, if joint { Spacing::Joint } else { Spacing::Alone }).into());
                    self.want.push(IEv::Punct(c, false));
                    *prev = if joint { Some((c, self.want.len() - 1, false)) } else { None };
                }
            }
        }
        match r.below(3) {
            0 => toks.into_iter().collect(),
            1 => {
                ts.extend(toks);
                ts
            }
            _ => {
                for t in toks {
                    ts.extend(std::iter::once(t));
                }
                ts
            }
        }
    }
}

pub fn any_literal(r: &mut Rng) -> Literal {
    match r.below(12) {
        0 => Literal::i32_unsuffixed(r.next() as i32),
        1 => Literal::i64_suffixed(r.next() as i64),
        2 => Literal::u8_suffixed(r.next() as u8),
        3 => Literal::f64_unsuffixed((r.next() as i32) as f64 / 8.0),
        4 => Literal::f32_suffixed((r.next() as i16) as f32 / 4.0),
        5 => Literal::character(gen::any_char(r)),
        6 => Literal::byte_character(r.next() as u8),
        7 => {
            let v: Vec<u8> = (0..r.below(6)).map(|_| r.next() as u8).collect();
            Literal::byte_string(&v)
        }
        8 => {
            let v: Vec<u8> = (0..r.below(6)).map(|_| r.range(1, 255) as u8).collect();
            Literal::c_string(&std::ffi::CString::new(v).unwrap())
        }
        9 => {
            let s: String = (0..r.below(6)).map(|_| gen::any_char(r)).collect();
            Literal::string(&s)
        }
        10 => Literal::u128_unsuffixed(r.next() as u128 * r.next() as u128),
        _ => loop {
            let mut s = String::new();
            gen::literal(r, &mut s);
            if let Ok(l) = s.parse::<Literal>() {
                break l;
            }
        },
    }
}

// ---------------------------------------------------------------- C08

fn literal_monitor(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    let v = match s.strip_prefix('-') {
        Some(t) if t.starts_with(|c: char| c.is_ascii_digit()) => match reflex::literal(t) {
            Lit::Ok { end, may } => Lit::Ok { end: end + 1, may },
            o => o,
        },
        Some(_) => Lit::NotLit,
        None => reflex::literal(s),
    };
    let got = s.parse::<Literal>();
    let must = match v {
        Lit::Unspec => None,
        Lit::Ok { end, may } if end == s.len() => {
            if may {
                None
            } else {
                Some(true)
            }
        }
        _ => Some(false),
    };
    match (must, got) {
        (Some(true), Err(_)) => return Err("a complete literal was refused".into()),
        (Some(false), Ok(l)) => return Err(format!("accepted although it is not exactly one literal: {:?}", l.to_string())),
        (_, Ok(l)) => {
            ctx.count("literals accepted", 1);
            let t = l.to_string();
            if misread_number(t.strip_prefix('-').unwrap_or(&t)) {
                return Err(format!("{:?} is not a number", t));
            }
            if t != s {
                return Err(format!("prints as {:?}", t));
            }
            #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
            {
                if l.span().source_text().as_deref() != Some(s) || l.span().byte_range() != (0..s.len()) {
                    return Err(format!("location is {:?}", l.span().byte_range()));
                }
            }
            // as quote! makes it of a literal the compiler has already read
            let u = unsafe { Literal::from_str_unchecked(s) };
            if u.to_string() != t {
                return Err(format!("prints as {:?} when made unchecked", u.to_string()));
            }
            let back = TokenStream::from(TokenTree::Literal(l));
            let evs = crate::flat::evs(back);
            let unc = crate::flat::evs(TokenStream::from(TokenTree::Literal(u)));
            if unc != evs {
                return Err(format!("as a token it reads {:?}, made unchecked {:?}", evs, unc));
            }
            let joined: String = evs
                .iter()
                .map(|e| match e {
                    IEv::Lit(l) => l.clone(),
                    IEv::Punct(c, _) => c.to_string(),
                    _ => "?".into(),
                })
                .collect();
            if joined != s || evs.len() != 1 + s.starts_with('-') as usize {
                return Err(format!("as a token it reads {:?}", evs));
            }
            ctx.nontrivial(hash_bytes(s.as_bytes()));
            ctx.sample(|| format!("{} accepted", s));
        }
        (_, Err(_)) => ctx.count("non-literals refused", 1),
    }
    forget_sources();
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    let mix = Mix { themes: 2, soup: 300_000, source: 10_000, glued: 50_000, mutated: 50_000, corpus: 0, windows: 0, big: 4 };
    drive(ctx, mix, &mut |ctx, s, _| literal_monitor(ctx, s));
    let n = ctx.n(500_000, 10_000_000);
    ctx.phase("literals", n, |ctx, _, r| {
        let mut s = String::new();
        if r.chance(1, 6) {
            s.push('-');
            if r.chance(1, 10) {
                s.push('-');
            }
        }
        gen::literal(r, &mut s);
        match r.below(8) {
            0 => s.insert_str(0, r.pick(&[" ", "\n", "/**/", "+", "-", "\u{feff}", "a", "'"])),
            1 => s.push_str(r.pick(&[" ", "\n", "/**/", "//", "+", "a", "\"", "'", "#", ".", "_", "\0", "é", "1"])),
            2 => gen::mutate(r, &mut s),
            _ => {}
        }
        ctx.set_input(&s);
        literal_monitor(ctx, &s)
    });
    ctx.phase("negated", gen::FRAGS.len() as u64 * 2, |ctx, i, _| {
        let s = format!("{}{}", ["-", "--"][(i % 2) as usize], gen::FRAGS[(i / 2) as usize]);
        ctx.set_input(&s);
        literal_monitor(ctx, &s)
    });
    long_tokens(ctx, &mut |ctx, s| literal_monitor(ctx, s));
}

// ---------------------------------------------------------------- C01

fn total(ctx: &mut Ctx, s: &str, probe: bool) -> Result<(), String> {
    let ok = match s.parse::<TokenStream>() {
        Ok(ts) => {
            ctx.count("accepted", 1);
            let c = ts.clone();
            let mut n = 0u64;
            let mut v = Vec::new();
            flatten(c, &mut v);
            for e in &v {
                n += 1;
                touch_span(e);
            }
            ctx.count("tokens walked", n);
            drop(ts);
            true
        }
        Err(e) => {
            ctx.count("refused", 1);
            let _ = e.to_string();
            #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
            {
                let sp = e.span();
                let _ = (sp.byte_range(), sp.start(), sp.end(), sp.source_text(), sp.file());
            }
            false
        }
    };
    match s.parse::<Literal>() {
        Ok(l) => {
            ctx.count("literals accepted", 1);
            touch_literal(&l);
        }
        Err(e) => {
            let _ = e.span();
        }
    }
    if probe || !ok {
        // the thread still works, with the same result
        let evs = match "a+'b (\"é\" 1.5)".parse::<TokenStream>() {
            Ok(t) => crate::flat::evs(t),
            Err(_) => return Err("after this input a plain source is refused".into()),
        };
        use proc_macro2::Delimiter::Parenthesis as P;
        let want = [
            IEv::Ident("a".into()),
            IEv::Punct('+', true),
            IEv::Punct('\'', true),
            IEv::Ident("b".into()),
            IEv::Open(P),
            IEv::Lit("\"é\"".into()),
            IEv::Lit("1.5".into()),
            IEv::Close(P),
        ];
        if evs != want {
            return Err(format!("after this input a plain source parses as {:?}", evs));
        }
    }
    forget_sources();
    ctx.nontrivial(hash_bytes(s.as_bytes()));
    Ok(())
}

fn touch_span(e: &IE) {
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    {
        let _ = (e.span.byte_range(), e.span2.start());
    }
    let _ = e.span.source_text();
}

fn touch_literal(l: &Literal) {
    let _ = l.subspan(1..2);
    let _ = l.subspan(..);
    let _ = l.subspan(usize::MAX..=usize::MAX);
    let _ = l.subspan((std::ops::Bound::Excluded(usize::MAX), std::ops::Bound::Unbounded));
    #[cfg(procmacro2_semver_exempt)]
    {
        let _ = (l.str_value(), l.cstr_value(), l.byte_str_value());
    }
}

pub fn deep_source(kind: u64, depth: usize) -> String {
    let mut s = String::new();
    let pairs = [('(', ')'), ('[', ']'), ('{', '}')];
    match kind % 4 {
        0 => {
            for _ in 0..depth {
                s.push('(');
            }
            for _ in 0..depth {
                s.push(')');
            }
        }
        1 => {
            for i in 0..depth {
                s.push(pairs[i % 3].0);
                s.push_str("a ");
            }
            for i in (0..depth).rev() {
                s.push_str("+b");
                s.push(pairs[i % 3].1);
            }
        }
        2 => {
            // wide and deep: two groups per level, the second one empty
            for _ in 0..depth {
                s.push_str("[{} ");
            }
            for _ in 0..depth {
                s.push_str("()]");
            }
        }
        _ => {
            // deep inside the first of two siblings at the top
            s.push_str("x{");
            for _ in 0..depth {
                s.push_str("('a'");
            }
            for _ in 0..depth {
                s.push_str("1)");
            }
            s.push_str("}y");
        }
    }
    s
}

pub fn c01(ctx: &mut Ctx) {
    let mix = Mix { themes: 2, soup: 500_000, source: 30_000, glued: 60_000, mutated: 200_000, corpus: 60, windows: 100_000, big: 8 };
    drive(ctx, mix, &mut |ctx, s, r| {
        let probe = r.chance(1, 16);
        total(ctx, s, probe)
    });
    let n = ctx.n(300_000, 6_000_000);
    ctx.phase("unicode", n, |ctx, _, r| {
        let mut s = String::new();
        for _ in 0..r.range(1, 12) {
            s.push(gen::any_char(r));
        }
        ctx.set_input(&s);
        total(ctx, &s, false)
    });
    // every fragment cut at every byte boundary, next to multi byte characters
    ctx.phase("fragment-pairs", (gen::FRAGS.len() * gen::FRAGS.len()) as u64, |ctx, i, r| {
        let k = gen::FRAGS.len() as u64;
        let mut s = format!("{}{}", gen::FRAGS[(i % k) as usize], gen::FRAGS[(i / k) as usize]);
        ctx.set_input(&s);
        total(ctx, &s, false)?;
        s.push(gen::any_char(r));
        ctx.set_input(&s);
        total(ctx, &s, false)
    });
    // long repetitions of one or two fragments: time and stack stay bounded
    let reps = ctx.n(40_000, 300_000) as usize;
    ctx.phase("repeated", gen::FRAGS.len() as u64 * 2, |ctx, i, r| {
        let f = gen::FRAGS[(i / 2) as usize % gen::FRAGS.len()];
        let mut s = String::new();
        if i % 2 == 0 {
            s = f.repeat(reps);
        } else {
            let g = gen::FRAGS[r.below(gen::FRAGS.len())];
            for _ in 0..reps / 2 {
                s.push_str(f);
                s.push_str(g);
            }
        }
        ctx.set_input(&s);
        ctx.count("large repetitive inputs", 1);
        total(ctx, &s, true)
    });
    let top = if ctx.thorough { 1_500_000 } else { 300_000 };
    let depths = [100usize, 1_000, 10_000, 60_000, top];
    ctx.phase("deep", 4 * 5 * 6, |ctx, i, _| {
        let depth = depths[(i / 4 % 5) as usize];
        let s = deep_source(i, depth);
        ctx.set_input(&s);
        ctx.count("deeply nested inputs", 1);
        deep(ctx, &s, i / 20, depth)?;
        forget_sources();
        Ok(())
    });
}

fn deep(ctx: &mut Ctx, s: &str, how: u64, depth: usize) -> Result<(), String> {
    use proc_macro2::*;
    let opens = s.bytes().filter(|b| b"([{".contains(b)).count();
    let parse = |s: &str| s.parse::<TokenStream>().map_err(|_| format!("nested source of depth {} refused", depth));
    match how {
        0 => {
            // parse, walk a clone, drop both
            let ts = parse(s)?;
            let c = ts.clone();
            let evs = flat(c);
            let n = evs.iter().filter(|e| matches!(e.ev, IEv::Open(_))).count();
            if n != opens {
                return Err(format!("{} groups found instead of {}", n, opens));
            }
            ctx.count("tokens walked", evs.len() as u64);
            drop(ts);
        }
        1 => {
            // sole owner, dropped unvisited
            drop(parse(s)?);
        }
        2 => {
            // consumed top down without keeping the outer levels
            let mut ts = parse(s)?;
            let mut level = 0;
            loop {
                let g = ts.into_iter().find_map(|t| match t {
                    TokenTree::Group(g) if !g.stream().is_empty() => Some(g),
                    _ => None,
                });
                match g {
                    Some(g) => ts = g.stream(),
                    None => break,
                }
                level += 1;
            }
            if level + 2 < depth {
                return Err(format!("only {} levels of {} reached", level, depth));
            }
        }
        3 => {
            // iterator dropped half way; a clone of it as well
            let ts = parse(s)?;
            let mut it = ts.clone().into_iter();
            let first = it.next();
            let it2 = it.clone();
            drop(ts);
            drop(it);
            drop(first);
            drop(it2);
        }
        4 => {
            // shared in the middle: outer dropped first, then the inner part
            let ts = parse(s)?;
            let mut inner = ts.clone();
            for _ in 0..depth / 2 {
                let g = inner.clone().into_iter().find_map(|t| match t {
                    TokenTree::Group(g) if !g.stream().is_empty() => Some(g),
                    _ => None,
                });
                match g {
                    Some(g) => inner = g.stream(),
                    None => break,
                }
            }
            drop(ts);
            let mut more = inner.clone();
            more.extend(inner);
            drop(more);
        }
        _ => {
            // rebuilt through the API, refused variants
            let ts = parse(s)?;
            let mut out = TokenStream::new();
            out.extend(ts.clone());
            out.extend(std::iter::once(TokenTree::Group(Group::new(Delimiter::None, ts))));
            let all: TokenStream = vec![out.clone(), out].into_iter().collect();
            drop(all);
            let mut t = s.to_string();
            t.pop();
            if t.parse::<TokenStream>().is_ok() && !s.ends_with('y') {
                return Err("unclosed nest accepted".into());
            }
            let mut t = s.to_string();
            t.push(']');
            if t.parse::<TokenStream>().is_ok() {
                return Err("stray closing delimiter accepted".into());
            }
            // parsed level by level into API built groups
            let mut cur = TokenStream::new();
            for _ in 0..depth {
                cur = TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, cur)));
            }
            let c2 = cur.clone();
            drop(cur);
            drop(c2);
        }
    }
    Ok(())
}
