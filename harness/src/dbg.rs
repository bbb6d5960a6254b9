//! Debug output (C24), and writers that fail part-way (C05, C24).
use crate::ctx::Ctx;
use crate::gen;
use crate::hist::{self, key_range, World, M};
use crate::reflex;
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::forget_sources;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::{self, Debug, Write};

/// Accepts writes except one.
struct Sink {
    got: String,
    calls: usize,
    fail_at: usize,
    failed_with: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls - 1 == self.fail_at {
            self.failed_with = self.got.len();
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Formats into a writer that refuses one of the writes: the error comes out,
/// and nothing is written after it.
pub fn failing_writer(ctx: &mut Ctx, r: &mut Rng, args: &dyn Fn(&mut dyn Write) -> fmt::Result) -> Result<(), String> {
    let mut all = Sink { got: String::new(), calls: 0, fail_at: usize::MAX, failed_with: 0 };
    args(&mut all).map_err(|_| "formatting failed although the writer did not")?;
    if all.calls == 0 {
        return Ok(());
    }
    let mut at = vec![0, all.calls - 1];
    for _ in 0..3 {
        at.push(r.below(all.calls));
    }
    for fail_at in at {
        let mut s = Sink { got: String::new(), calls: 0, fail_at, failed_with: usize::MAX };
        let res = args(&mut s);
        if s.failed_with == usize::MAX {
            return Err(format!("{} writes the first time, {} now", all.calls, s.calls));
        }
        if res.is_ok() {
            return Err(format!("write {} of {} failed and formatting succeeded", fail_at, all.calls));
        }
        if s.got.len() != s.failed_with || !all.got.starts_with(&s.got) {
            return Err(format!("write {} of {} failed and then {:?} was written, of {:?}", fail_at, all.calls, s.got, all.got));
        }
        ctx.count("writer failures injected", 1);
    }
    Ok(())
}

fn dbg(d: &dyn Debug) -> (String, String) {
    (format!("{:?}", d), format!("{:#?}", d))
}

/// The same tokens put together differently.
fn rebuild(ts: &TokenStream, r: &mut Rng) -> TokenStream {
    let tokens: Vec<TokenTree> = ts.clone().into_iter().collect();
    let tokens = tokens.into_iter().map(|t| match t {
        TokenTree::Group(g) if r.chance(1, 2) => {
            let mut n = Group::new(g.delimiter(), rebuild(&g.stream(), r));
            n.set_span(g.span());
            // delimiters' own locations are lost on the compiler's side
            if format!("{:?}", n.span_open()) == format!("{:?}", g.span_open()) && format!("{:?}", n.span_close()) == format!("{:?}", g.span_close()) {
                TokenTree::Group(n)
            } else {
                TokenTree::Group(g)
            }
        }
        t => t,
    });
    let tokens: Vec<TokenTree> = tokens.collect();
    match r.below(4) {
        0 => tokens.into_iter().collect(),
        1 => {
            let mut s = TokenStream::new();
            s.extend(tokens);
            s
        }
        2 => {
            let mut s = TokenStream::new();
            for t in tokens {
                s.extend(Some(t));
            }
            s
        }
        _ => tokens.into_iter().map(TokenStream::from).collect(),
    }
}

/// One small difference somewhere; `None` if there was nothing to change.
fn tweak(ts: &TokenStream, r: &mut Rng) -> Option<TokenStream> {
    let mut v: Vec<TokenTree> = ts.clone().into_iter().collect();
    if v.is_empty() {
        return None;
    }
    let i = r.below(v.len());
    match r.below(6) {
        0 => {
            v.remove(i);
        }
        1 => {
            let t = v[i].clone();
            if matches!(t, TokenTree::Punct(_)) {
                return None; // may be glued to others inside the compiler
            }
            v.insert(i, t);
        }
        _ => {
            let span = v[i].span();
            let mut new = match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let bare = s.strip_prefix("r#").unwrap_or(&s);
                    match r.below(3) {
                        0 if s.len() == bare.len() && !reflex::raw_forbidden(bare) => TokenTree::Ident(Ident::new_raw(bare, span)),
                        1 if s.len() != bare.len() => TokenTree::Ident(Ident::new(bare, span)),
                        _ => TokenTree::Ident(Ident::new(&format!("{}_", bare), span)),
                    }
                }
                TokenTree::Punct(p) => {
                    let next_punct = matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                    if r.chance(1, 2) && (next_punct || p.spacing() == Spacing::Alone) {
                        TokenTree::Punct(Punct::new(p.as_char(), if p.spacing() == Spacing::Joint { Spacing::Alone } else { Spacing::Joint }))
                    } else {
                        TokenTree::Punct(Punct::new(if p.as_char() == '+' { ',' } else { '+' }, p.spacing()))
                    }
                }
                TokenTree::Literal(l) => {
                    let t = l.to_string();
                    TokenTree::Literal(match t.as_str() {
                        "7" => "7u8".parse().unwrap(),
                        _ if r.chance(1, 2) => Literal::string(&t),
                        _ => Literal::u8_unsuffixed(7),
                    })
                }
                TokenTree::Group(g) => TokenTree::Group(if r.chance(1, 2) || g.stream().is_empty() {
                    Group::new(if g.delimiter() == Delimiter::Bracket { Delimiter::Brace } else { Delimiter::Bracket }, g.stream())
                } else {
                    Group::new(g.delimiter(), tweak(&g.stream(), r)?)
                }),
            };
            new.set_span(span);
            v[i] = new;
        }
    }
    Some(v.into_iter().collect())
}

fn judge(ctx: &mut Ctx, r: &mut Rng, w: &World) -> Result<(), String> {
    // of every stream: does not depend on how it was made
    let mut seen: Vec<((String, String), &Vec<M>)> = Vec::new();
    for (s, m) in &w.streams {
        let d = dbg(s);
        if d != dbg(s) || d != dbg(&s.clone()) {
            return Err(format!("{} is not repeatable", d.0));
        }
        let e = dbg(&rebuild(s, r));
        if d != e {
            return Err(format!("same tokens put together differently:\n{}\n{}", d.0, e.0));
        }
        ctx.count("debug texts compared", 2);
        if let Some(t) = tweak(s, r) {
            let e = dbg(&t);
            if d.0 == e.0 || d.1 == e.1 {
                return Err(format!("{:?} and {:?} both give {}", s.to_string(), t.to_string(), d.0));
            }
            ctx.count("near misses told apart", 1);
        }
        // a partly used iterator shows what is left
        let k = r.below(m.len() + 1);
        let (mut a, mut b) = (s.clone().into_iter(), rebuild(s, r).into_iter());
        for _ in 0..k {
            a.next();
            b.next();
        }
        let rest = dbg(&s.clone().into_iter().skip(k).collect::<TokenStream>().into_iter());
        if dbg(&a) != rest || dbg(&b) != rest {
            return Err(format!("an iterator after {} of {} tokens shows {}, the remaining tokens {}", k, m.len(), dbg(&a).0, rest.0));
        }
        for (e, n) in &seen {
            if **n != *m && (e.0 == d.0 || e.1 == d.1) {
                return Err(format!("{:?} and {:?} both give {}", n, m, d.0));
            }
        }
        seen.push((d, m));
        failing_writer(ctx, r, &|f| write!(f, "{:?}", s))?;
        if w.fallback && r.chance(1, 16) {
            crate::busy::busy_writer(&|f| write!(f, "{:?}", s))?;
            crate::busy::busy_writer(&|f| write!(f, "{:#?}", s))?;
            ctx.count("debug texts into writers that use the library", 1);
        }
    }
    let mut seen: Vec<((String, String), &M)> = Vec::new();
    for (t, m) in &w.tokens {
        let d = dbg(t);
        if d != dbg(&t.clone()) {
            return Err(format!("{} is not repeatable", d.0));
        }
        for (e, n) in &seen {
            if **n != *m && (e.0 == d.0 || e.1 == d.1) {
                return Err(format!("{:?} and {:?} both give {}", n, m, d.0));
            }
        }
        seen.push((d, m));
        failing_writer(ctx, r, &|f| write!(f, "{:?}", t))?;
        if w.fallback && r.chance(1, 16) {
            crate::busy::busy_writer(&|f| write!(f, "{:?}", t))?;
            crate::busy::busy_writer(&|f| write!(f, "{:#?}", t))?;
            ctx.count("debug texts into writers that use the library", 1);
        }
    }
    w.check_all().map_err(|e| format!("after debug output: {}", e))
}

pub fn worlds(ctx: &mut Ctx, inside: bool, mk: &mut dyn FnMut(&mut Rng) -> World) {
    let n = ctx.n(6_000, 200_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let mut w = mk(r);
        let mut res = Ok(());
        for _ in 0..r.range(2, 30) {
            res = w.step(r, false);
            if res.is_err() {
                break;
            }
        }
        // a history that goes wrong is C15's business
        if res.is_ok() {
            res = judge(ctx, r, &w);
        } else {
            ctx.count("histories cut short", 1);
            res = Ok(());
        }
        let log = std::mem::take(&mut w.log);
        ctx.set_input(&log);
        ctx.nontrivial(hash_bytes(log.as_bytes()) ^ mix(w.ops));
        ctx.sample(|| log.clone());
        drop(w);
        if !inside {
            forget_sources();
        }
        res
    });
}

/// Long streams: a difference in any place shows.
pub fn long(ctx: &mut Ctx, inside: bool, mk: &mut dyn FnMut(&mut Rng) -> World) {
    let n = ctx.n(60, 1_000);
    ctx.phase("long", n, |ctx, i, r| {
        let mut w = mk(r);
        let k = r.range(200, if i % 10 == 0 { 20_000 } else { 3_000 });
        let mut tokens: Vec<TokenTree> = (0..k).map(|_| w.fresh(r).0).collect();
        ctx.set_input(&format!("{} tokens", k));
        let mut wrap = i % 2 == 1;
        loop {
            let s: TokenStream = tokens.iter().cloned().collect();
            let d = format!("{:?}", s);
            if d != format!("{:?}", rebuild(&s, r)) {
                return Err(format!("{} tokens put together differently give other debug output", k));
            }
            let it = format!("{:?}", s.clone().into_iter());
            // differing in one place: near the end, near the start, anywhere
            for j in 0..6 {
                let at = match j {
                    0 => k - 1 - r.below(3),
                    1 => r.below(3),
                    _ => r.below(k),
                };
                let mut other = tokens.clone();
                let new = TokenTree::Ident(Ident::new("different_here", Span::call_site()));
                let last = other.len() - 1;
                other[at.min(last)] = new;
                let t: TokenStream = other.into_iter().collect();
                if format!("{:?}", t) == d || format!("{:?}", t.clone().into_iter()) == it {
                    return Err(format!("{} tokens with another one in place {} give the same debug output", k, at));
                }
                ctx.count("near misses told apart", 1);
            }
            ctx.count("debug texts compared", 1);
            if !wrap {
                break;
            }
            // the same one level down
            wrap = false;
            let g = Group::new(Delimiter::Brace, s);
            tokens = vec![TokenTree::Group(g.clone()), TokenTree::Group(g)];
        }
        drop(w);
        if !inside {
            forget_sources();
        }
        ctx.nontrivial(r.next());
        Ok(())
    });
}

pub fn c24(ctx: &mut Ctx) {
    long(ctx, false, &mut |_| World::new(key_range, true, hist::palette()));
    worlds(ctx, false, &mut |_| World::new(key_range, true, hist::palette()));
    // sources
    let n = ctx.n(40_000, 1_000_000);
    ctx.phase("sources", n, |ctx, i, r| {
        let mut s = String::new();
        if i % 3 == 0 {
            gen::soup(r, &mut s, 8);
        } else {
            let k = r.below(12);
            gen::source(r, &mut s, k, 4, true);
        }
        if i % 5 == 0 {
            gen::mutate(r, &mut s);
        }
        ctx.set_input(&s);
        forget_sources();
        let a = s.parse::<TokenStream>();
        let d = dbg(&a);
        match &a {
            Ok(a) => {
                // every word and number is there
                for t in a.clone() {
                    if !matches!(t, TokenTree::Group(_) | TokenTree::Punct(_)) && !d.0.contains(&t.to_string()) {
                        return Err(format!("{} does not show {}", d.0, t));
                    }
                }
                ctx.count("debug texts of sources", 1);
            }
            Err(e) => {
                if e.to_string().is_empty() {
                    return Err("an error prints as nothing".into());
                }
                ctx.count("debug texts of errors", 1);
            }
        }
        forget_sources();
        let b = s.parse::<TokenStream>();
        if dbg(&b) != d {
            return Err(format!("parsed again:\n{}\n{}", d.0, dbg(&b).0));
        }
        if let (Ok(a), Ok(b)) = (&a, &b) {
            let e = dbg(&rebuild(b, r));
            if e.0 != format!("{:?}", a) {
                return Err(format!("put together again:\n{:?}\n{}", a, e.0));
            }
            if let Some(t) = tweak(a, r) {
                if format!("{:?}", t) == e.0 {
                    return Err(format!("{:?} and {:?} both give {}", a.to_string(), t.to_string(), e.0));
                }
                ctx.count("near misses told apart", 1);
            }
            locations(ctx, a)?;
        }
        forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}

/// Where locations are tracked they show, and different ones differently.
fn locations(_ctx: &mut Ctx, _ts: &TokenStream) -> Result<(), String> {
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    {
        let flat = crate::flat::flat(_ts.clone());
        let mut prev: Option<(Span, Span)> = None;
        let here = format!("{:?}", Span::call_site());
        for e in flat.iter().take(100) {
            for (a, b) in [Some((e.span, e.span2)), prev.map(|p| (p.0, e.span)), prev.map(|p| (p.1, e.span2))].into_iter().flatten() {
                let same = a.byte_range() == b.byte_range();
                let (x, y) = (format!("{:?}", a), format!("{:?}", b));
                if same != (x == y) {
                    return Err(format!("locations {:?} and {:?} show as {} and {}", a.byte_range(), b.byte_range(), x, y));
                }
                if x == here && !a.byte_range().is_empty() {
                    return Err(format!("location {:?} shows as the call site's {}", a.byte_range(), x));
                }
            }
            prev = Some((e.span, e.span2));
        }
        for t in _ts.clone().into_iter().take(20) {
            let mut u = t.clone();
            u.set_span(Span::call_site());
            if format!("{:?}", t) == format!("{:?}", u) {
                return Err(format!("{:?} at {:?} and at the call site", t, t.span()));
            }
            _ctx.count("locations told apart", 1);
        }
        // tokens at parts of a literal, empty ones too
        let lit = _ts.clone().into_iter().find_map(|t| match t {
            TokenTree::Literal(l) => Some(l),
            _ => None,
        });
        if let Some(l) = lit {
            let n = l.to_string().len().min(6);
            let parts: Vec<Span> = (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).filter_map(|(a, b)| l.subspan(a..b)).collect();
            let tokens: Vec<TokenTree> = vec![
                Ident::new("x", Span::call_site()).into(),
                Ident::new_raw("x", Span::call_site()).into(),
                Punct::new('+', Spacing::Alone).into(),
                Literal::u8_unsuffixed(1).into(),
                Group::new(Delimiter::Brace, TokenStream::new()).into(),
            ];
            for t in tokens {
                let seen: Vec<(std::ops::Range<usize>, (String, String))> = parts
                    .iter()
                    .map(|s| {
                        let mut t = t.clone();
                        t.set_span(*s);
                        (s.byte_range(), dbg(&t))
                    })
                    .collect();
                let plain = dbg(&t);
                for (i, (a, x)) in seen.iter().enumerate() {
                    if x.0 == plain.0 || x.1 == plain.1 {
                        return Err(format!("{:?} shows as {} whether at {:?} or at the call site", t.to_string(), x.0, a));
                    }
                    for (b, y) in &seen[..i] {
                        if (a == b) != (x.0 == y.0) || (a == b) != (x.1 == y.1) {
                            return Err(format!("{:?} at {:?} and {:?} shows as {} and {}", t.to_string(), a, b, x.0, y.0));
                        }
                        _ctx.count("locations told apart", 1);
                    }
                }
            }
        }
    }
    Ok(())
}
