//! Monitors over locations: C11 exactness, C12 separation, C13 algebra, C14
//! error positions. Only where locations are tracked.
#![cfg(any(feature = "loc", procmacro2_semver_exempt))]
use crate::ctx::{catch, Ctx};
use crate::flat::{compare, flat, IEv, IE};
use crate::gen;
use crate::reflex::{self, Ev, Verdict, E};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::{drive, forget_sources, Mix};
use proc_macro2::{Delimiter, Group, Ident, LineColumn, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::HashMap;

/// Positions in a source text.
pub struct Table<'a> {
    src: &'a str,
    starts: Vec<usize>,
}

impl<'a> Table<'a> {
    pub fn new(src: &'a str) -> Table<'a> {
        let mut starts = vec![0];
        starts.extend(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Table { src, starts }
    }
    pub fn at(&self, byte: usize) -> LineColumn {
        let line = self.starts.partition_point(|s| *s <= byte);
        LineColumn { line, column: self.src[self.starts[line - 1]..byte].chars().count() }
    }
}

/// One query about a span, compared with what the source says.
fn query(kind: usize, span: &Span, lo: usize, hi: usize, t: &Table) -> Result<(), String> {
    match kind {
        0 => {
            let r = span.byte_range();
            if r != (lo..hi) {
                return Err(format!("byte_range is {:?}, expected {:?}", r, lo..hi));
            }
        }
        1 => {
            let s = span.source_text();
            if s.as_deref() != Some(&t.src[lo..hi]) {
                return Err(format!("source_text is {:?}, expected {:?}", s, &t.src[lo..hi]));
            }
        }
        2 => {
            let (s, w) = (span.start(), t.at(lo));
            if s != w {
                return Err(format!("start is {:?}, expected {:?}", s, w));
            }
        }
        _ => {
            let (s, w) = (span.end(), t.at(hi));
            if s != w {
                return Err(format!("end is {:?}, expected {:?}", s, w));
            }
        }
    }
    Ok(())
}

fn all_queries(span: &Span, lo: usize, hi: usize, t: &Table) -> Result<(), String> {
    for k in 0..4 {
        query(k, span, lo, hi, t)?;
    }
    Ok(())
}

/// (span, lo, hi) that must agree, for every token of an accepted source.
fn expectations<'a>(src: &str, refs: &[E], got: &[IE], out: &mut Vec<(Span, usize, usize)>) -> Result<(), String> {
    for (r, g) in refs.iter().zip(got) {
        let (lo, mut hi) = (r.lo, r.hi);
        if r.doc {
            // a carriage return before the line feed may or may not be covered
            let end = g.span.byte_range().end;
            if end != hi && (src[..hi].ends_with('\r') && end + 1 == hi || src[hi..].starts_with('\r') && end == hi + 1) {
                hi = end;
            }
            out.push((g.span, lo, hi));
            continue;
        }
        out.push((g.span, lo, hi));
        match r.ev {
            Ev::Open(_) => out.push((g.span2, lo, lo + 1)),
            Ev::Close(_) => out.push((g.span2, hi - 1, hi)),
            _ => {}
        }
    }
    Ok(())
}

fn lex_and_parse<'a>(src: &'a str, refs: &mut Vec<E<'a>>) -> Option<Vec<IE>> {
    match reflex::lex(src, refs) {
        Verdict::Accept | Verdict::MayReject => {}
        _ => return None,
    }
    let ts: TokenStream = src.parse().ok()?;
    let got = flat(ts);
    if compare(refs, &got, false).is_err() {
        // not tokens of this text: decided by C02
        return None;
    }
    Some(got)
}

fn exact(ctx: &mut Ctx, src: &str, r: &mut Rng, cap: usize) -> Result<(), String> {
    let mut refs = Vec::new();
    let got = match lex_and_parse(src, &mut refs) {
        Some(g) => g,
        None => return Ok(()),
    };
    if got.is_empty() {
        return Ok(());
    }
    let t = Table::new(src);
    let mut want = Vec::new();
    let order = r.below(5);
    expectations(src, &refs, &got, &mut want)?;
    let mut qs: Vec<(usize, usize)> = Vec::new();
    for i in 0..want.len() {
        for k in 0..4 {
            qs.push((i, k));
        }
    }
    match order {
        0 => {}
        1 => qs.reverse(),
        2 => qs.sort_by_key(|(i, k)| (3 - k, *i)),
        _ => {
            for i in (1..qs.len()).rev() {
                let j = r.below(i + 1);
                qs.swap(i, j);
            }
        }
    }
    let again = r.below(qs.len());
    let n = qs.len().min(cap);
    for (i, k) in qs.iter().take(n).chain(qs[again..].iter().take(50)) {
        let (s, lo, hi) = &want[*i];
        query(*k, s, *lo, *hi, &t).map_err(|e| format!("token spanning bytes {}..{} ({:?}): {}", lo, hi, &src[*lo..*hi], e))?;
    }
    // order of positions
    for _ in 0..8 {
        let (a, alo, ahi) = &want[r.below(want.len())];
        let (b, blo, bhi) = &want[r.below(want.len())];
        for (x, bx, y, by) in [(a.start(), alo, b.start(), blo), (a.end(), ahi, b.start(), blo), (a.start(), alo, b.end(), bhi)] {
            if x.cmp(&y) != bx.cmp(by) || (x == y) != (bx == by) || (x < y) != (bx < by) || x.partial_cmp(&y) != Some(bx.cmp(by)) {
                return Err(format!("{:?} and {:?} are ordered otherwise than bytes {} and {}", x, y, bx, by));
            }
        }
    }
    ctx.count("locations compared", want.len() as u64);
    ctx.count("location queries", n as u64);
    ctx.count(["queried forwards", "queried backwards", "queried by kind", "queried at random", "queried at random"][order], 1);
    if !src.is_ascii() {
        ctx.count("sources with multi-byte characters", 1);
    }
    ctx.nontrivial(hash_bytes(src.as_bytes()));
    ctx.sample(|| format!("{:?}: {} locations", src, want.len()));
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    let mix = Mix {
        themes: 1,
        soup: ctx.n(250_000, 4_000_000),
        source: ctx.n(200_000, 4_000_000),
        glued: ctx.n(150_000, 3_000_000),
        mutated: ctx.n(60_000, 1_000_000),
        corpus: if ctx.thorough { 4000 } else { 200 },
        windows: ctx.n(3_000, 50_000),
        big: ctx.n(16, 200),
    };
    drive(ctx, mix, &mut |ctx, s, r| {
        let x = exact(ctx, s, r, 40_000);
        forget_sources();
        x
    });
    // sources with many long and short lines of mixed width, all line endings
    let n = ctx.n(6_000, 150_000);
    ctx.phase("lines", n, |ctx, _, r| {
        let mut s = String::new();
        if r.chance(1, 6) {
            s.push('\u{feff}');
        }
        let lines = r.range(1, 60);
        for _ in 0..lines {
            let n = if r.chance(1, 12) { r.below(200) } else { r.below(8) };
            for _ in 0..n {
                match r.below(12) {
                    0 => s.push_str(r.pick(&["é", "名前", "𝐱", "\"é\n€\"", "'😀'", "r#\"\r\n\"#"])),
                    1 => s.push_str(r.pick(&["(a)", "[é]", "{\n}", "(\n[]\r\n)"])),
                    2 => s.push_str(r.pick(&["\u{2028}", "\u{85}", "\u{200e}", "\t", "\u{b}", "\r", "/*é\n*/", "/*😀*/"])),
                    3 => s.push_str(r.pick(&["//é€😀\n", "// \r\n", "///é😀\r\n", "//! x\n", "/** é\n €*/", "/*!😀*/"])),
                    4 => s.push_str(r.pick(&["+", "=>", "'a ", "::", "1.5", "b\"\\\n x\""])),
                    5 => gen::token(r, &mut s),
                    _ => s.push_str(r.pick(&["x", "yy", "foo_bar", "1"])),
                }
                s.push_str(r.pick(&[" ", " ", "  ", "\t"]));
            }
            s.push_str(r.pick(&["\n", "\n", "\r\n", "\r\n", "\n\n", "\r"]));
        }
        ctx.set_input(&s);
        let x = exact(ctx, &s, r, 40_000);
        forget_sources();
        x
    });
    ctx.phase("line-column", ctx.n(2_000, 20_000), |ctx, _, r| {
        // the order of pairs alone, at extremes too
        let v = |r: &mut Rng| match r.below(4) {
            0 => r.below(4),
            1 => usize::MAX - r.below(3),
            2 => 1 << r.below(63),
            _ => r.next() as usize,
        };
        let a = LineColumn { line: v(r), column: v(r) };
        let b = LineColumn { line: if r.chance(1, 2) { a.line } else { v(r) }, column: if r.chance(1, 3) { a.column } else { v(r) } };
        let want = (a.line, a.column).cmp(&(b.line, b.column));
        if a.cmp(&b) != want || b.cmp(&a) != want.reverse() || a.partial_cmp(&b) != Some(want) || (a == b) != want.is_eq() {
            return Err(format!("{:?} vs {:?} ordered {:?}", a, b, a.cmp(&b)));
        }
        ctx.count("pairs ordered", 1);
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

struct Parsed {
    src: String,
    spans: Vec<(Span, usize, usize)>,
    file: String,
}

fn small_source(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 => {}
        1 => s.push_str(r.pick(&[" ", "\n\n", "// c", "/**/ ", "\u{feff}", "\r\n", "é"])),
        2 => {
            let n = r.below(6);
            gen::source(r, &mut s, n, 2, true)
        }
        3 => {
            let n = r.below(4);
            gen::soup(r, &mut s, n + 1)
        }
        4 => gen::literal(r, &mut s),
        5 => s.push_str(r.pick(&["a", "(", ")", "x y", "é", "(a b)", "1 + 2", "'a", "\"é\" z", "[[]]"])),
        _ => {
            let n = r.below(12);
            gen::source(r, &mut s, n, 5, false)
        }
    }
    s
}

fn default_location(s: &Span) -> Result<(), String> {
    let r = s.byte_range();
    if r != (0..0) {
        return Err(format!("the default location covers bytes {:?}", r));
    }
    if s.source_text().is_some_and(|t| !t.is_empty()) {
        return Err(format!("the default location has text {:?}", s.source_text()));
    }
    let lc = LineColumn { line: 1, column: 0 };
    if s.start() != lc || s.end() != lc {
        return Err(format!("the default location is at {:?}..{:?}", s.start(), s.end()));
    }
    let _ = s.local_file();
    let _ = s.file();
    Ok(())
}

/// Everything recorded about these spans still holds.
fn check_some(p: &Parsed, r: &mut Rng, n: usize) -> Result<u64, String> {
    if p.spans.is_empty() {
        return Ok(0);
    }
    let t = Table::new(&p.src);
    for _ in 0..n {
        let (s, lo, hi) = &p.spans[r.below(p.spans.len())];
        query(r.below(4), s, *lo, *hi, &t)
            .map_err(|e| format!("token at bytes {}..{} of {:?}: {}", lo, hi, p.src, e))?;
        if r.chance(1, 4) && s.file() != p.file {
            return Err(format!("token of {:?} was in {:?}, now in {:?}", p.src, p.file, s.file()));
        }
    }
    Ok(n as u64)
}

fn history(ctx: &mut Ctx, r: &mut Rng, steps: usize, kind: u64) -> Result<(), String> {
    forget_sources();
    let mut files: Vec<Parsed> = Vec::new();
    let mut names: HashMap<String, usize> = HashMap::new();
    let call = Span::call_site();
    let mut log = String::new();
    for step in 0..steps {
        let op = r.below(20);
        match op {
            0..=11 => {
                let s = if kind > 0 { r.pick(&["", "a", "é", "(x)", "1", "x y", "\n"]).to_string() } else { small_source(r) };
                if log.len() < 3000 {
                    log.push_str(&format!("parse {:?}; ", s));
                    ctx.set_input(&log);
                }
                let mut refs = Vec::new();
                match lex_and_parse(&s, &mut refs) {
                    Some(got) => {
                        let mut spans = Vec::new();
                        expectations(&s, &refs, &got, &mut spans)?;
                        let file = match spans.first() {
                            Some((sp, _, _)) => {
                                let f = sp.file();
                                if let Some(other) = names.insert(f.clone(), files.len()) {
                                    return Err(format!("tokens of two parses are both in {:?} ({:?} and {:?})", f, files[other].src, s));
                                }
                                if f == call.file() {
                                    return Err(format!("a parsed token and the default location are both in {:?}", f));
                                }
                                f
                            }
                            None => String::new(),
                        };
                        let t = Table::new(&s);
                        if kind == 0 {
                            for (sp, lo, hi) in &spans {
                                all_queries(sp, *lo, *hi, &t).map_err(|e| format!("step {}: fresh token at {}..{} of {:?}: {}", step, lo, hi, s, e))?;
                            }
                        }
                        drop(t);
                        drop(refs);
                        files.push(Parsed { src: s, spans, file });
                        ctx.count("sources parsed in histories", 1);
                    }
                    None => ctx.count("sources refused in histories", 1),
                }
            }
            12..=14 => {
                let mut s = String::new();
                match r.below(4) {
                    0 => s.push_str(r.pick(&["", "-", "- 1", "x", "\"", "1 ", "'a", "é", "0b2"])),
                    1 => {
                        s.push('-');
                        gen::number(r, &mut s);
                    }
                    _ => gen::literal(r, &mut s),
                }
                if log.len() < 3000 {
                    log.push_str(&format!("literal {:?}; ", s));
                    ctx.set_input(&log);
                }
                match s.parse::<Literal>() {
                    Ok(l) => {
                        let sp = l.span();
                        let t = Table::new(&s);
                        all_queries(&sp, 0, s.len(), &t).map_err(|e| format!("step {}: literal {:?}: {}", step, s, e))?;
                        let file = sp.file();
                        if let Some(other) = names.insert(file.clone(), files.len()) {
                            return Err(format!("tokens of two parses are both in {:?} ({:?} and {:?})", file, files[other].src, s));
                        }
                        let n = s.len();
                        drop(t);
                        files.push(Parsed { src: s, spans: vec![(sp, 0, n)], file });
                        ctx.count("literals parsed in histories", 1);
                    }
                    Err(e) => {
                        let _ = (e.span().byte_range(), e.span().start(), e.span().end(), e.to_string());
                        ctx.count("literals refused in histories", 1);
                    }
                }
            }
            15 if kind < 2 && r.chance(1, if kind == 1 { 500 } else { 12 }) => {
                forget_sources();
                files.clear();
                names.clear();
                log.push_str("invalidate; ");
                default_location(&call)?;
                default_location(&Span::mixed_site())?;
                ctx.count("invalidations", 1);
            }
            16 => {
                default_location(&call)?;
                default_location(&Span::call_site())?;
                default_location(&Ident::new("x", call).span())?;
                default_location(&Literal::u8_suffixed(1).span())?;
                default_location(&Punct::new('+', Spacing::Alone).span())?;
                default_location(&Group::new(Delimiter::Brace, TokenStream::new()).span())?;
            }
            17 if files.len() > 1 => {
                let (i, j) = (r.below(files.len()), r.below(files.len()));
                if let (Some((a, _, _)), Some((b, _, _))) = (files[i].spans.first(), files[j].spans.last()) {
                    let x = a.join(*b);
                    if (x.is_some()) != (i == j) {
                        return Err(format!("join of a token of {:?} and one of {:?}: {}", files[i].src, files[j].src, if x.is_some() { "some" } else { "none" }));
                    }
                }
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    if files.is_empty() {
                        break;
                    }
                    let i = match r.below(4) {
                        0 => 0,
                        1 => files.len() - 1,
                        _ => r.below(files.len()),
                    };
                    let n = check_some(&files[i], r, 4).map_err(|e| format!("step {}, {} sources later: {}", step, files.len() - 1 - i, e))?;
                    ctx.count("old locations queried", n);
                }
            }
        }
    }
    for (i, p) in files.iter().enumerate() {
        if files.len() > 400 && i % 7 != 0 && i + 50 < files.len() {
            continue;
        }
        let n = check_some(p, r, 6).map_err(|e| format!("at the end, {} sources later: {}", files.len() - 1 - i, e))?;
        ctx.count("old locations queried", n);
    }
    let h: u64 = files.iter().fold(steps as u64, |h, f| mix(h ^ hash_bytes(f.src.as_bytes())));
    ctx.nontrivial(h);
    ctx.sample(|| log.clone());
    forget_sources();
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    let n = ctx.n(8_000, 200_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let steps = r.range(5, 120);
        history(ctx, r, steps, 0)
    });
    let n = ctx.n(24, 400);
    ctx.phase("many-files", n, |ctx, _, r| {
        let steps = r.range(2000, 9000);
        history(ctx, r, steps, 1)
    });
    let n = ctx.n(1, 6);
    ctx.phase("very-many-files", n, |ctx, _, r| {
        let steps = r.range(95_000, 130_000);
        ctx.count("histories of more than 65536 sources", 1);
        history(ctx, r, steps, 2)
    });
    // far into the recorded sources
    let n = ctx.n(1, 10);
    ctx.phase("far", n, |ctx, _, r| {
        forget_sources();
        let fill = format!("x{}", r.pick(&[" ", "\n", "é ", "\r\n"]).repeat(1 << 20));
        let mut files: Vec<Parsed> = Vec::new();
        for k in 0..40 {
            let s = small_source(r);
            ctx.set_input(&format!("{:?} behind {} long sources", s, k));
            let mut refs = Vec::new();
            if let Some(got) = lex_and_parse(&s, &mut refs) {
                let mut spans = Vec::new();
                expectations(&s, &refs, &got, &mut spans)?;
                let file = spans.first().map(|x| x.0.file()).unwrap_or_default();
                drop(refs);
                files.push(Parsed { src: s, spans, file });
            }
            for p in &files {
                let n = check_some(p, r, 20)?;
                ctx.count("old locations queried", n);
            }
            let _ = if k % 3 == 0 { fill[..fill.len() / 2].parse::<TokenStream>().map(|_| ()) } else { format!("{})", fill).parse::<TokenStream>().map(|_| ()) };
            ctx.count("long sources recorded", 1);
        }
        forget_sources();
        ctx.nontrivial(r.next());
        Ok(())
    });
    // discarding is what makes room for more than four gigabytes in all, and up to
    // there positions stay exact
    // (in one configuration)
    let n = if ctx.scale < 200 { 0 } else if ctx.thorough { 4 } else { 2 };
    ctx.phase("gigabytes", n, |ctx, i, r| {
        forget_sources();
        let mut fill = String::with_capacity((96 << 20) + 100);
        fill.push_str("/*");
        let unit = "long comment 0123456789 0123456789 0123456789 0123456789 01234\n".repeat(1 << 10);
        while fill.len() < 96 << 20 {
            fill.push_str(&unit);
        }
        fill.push_str("*/ é (tail)\n");
        let want = fill.len() - "(tail)\n".len()..fill.len() - 1;
        let line = fill.bytes().filter(|b| *b == b'\n').count();
        let mut files: Vec<Parsed> = Vec::new();
        let mut total = 0u64;
        // 4.8 GB in all with discarding, 3.4 GB without
        let rounds = if i % 2 == 0 { 50 } else { 35 };
        ctx.set_input(&format!("{} sources of {} bytes, {}", rounds, fill.len(), if i % 2 == 0 { "discarded after each six" } else { "all kept" }));
        for k in 0..rounds {
            if i % 2 == 0 && k % 6 == 5 {
                forget_sources();
                files.clear();
                ctx.count("invalidations", 1);
            }
            let s = small_source(r);
            let mut refs = Vec::new();
            if let Some(got) = lex_and_parse(&s, &mut refs) {
                let mut spans = Vec::new();
                expectations(&s, &refs, &got, &mut spans)?;
                let file = spans.first().map(|x| x.0.file()).unwrap_or_default();
                drop(refs);
                files.push(Parsed { src: s, spans, file });
            }
            let ts: TokenStream = fill.parse().map_err(|e| format!("{} bytes in, long comment: {}", total, e))?;
            let sp = ts.into_iter().nth(1).ok_or("token lost")?.span();
            if k % 3 == 0 && (sp.byte_range() != want || sp.source_text().as_deref() != Some("(tail)")) {
                return Err(format!("{} bytes in: group at {:?}, not {:?}", total, sp.byte_range(), want));
            }
            if sp.start().line != line || sp.start().column != 5 {
                return Err(format!("{} bytes in: group at {:?}, not in line {} column 5", total, sp.start(), line));
            }
            total += (fill.len() + files.last().map_or(0, |f| f.src.len())) as u64;
            for p in &files {
                let n = check_some(p, r, 4).map_err(|e| format!("{} bytes in: {}", total, e))?;
                ctx.count("old locations queried", n);
            }
        }
        forget_sources();
        ctx.count("gigabytes of source", total >> 30);
        ctx.nontrivial(r.next());
        Ok(())
    });
    // discarding releases what was recorded
    let n = ctx.n(200, 4000);
    ctx.phase("release", n, |ctx, _, r| {
        forget_sources();
        // the list of sources may keep its capacity: reach it first
        for _ in 0..2 {
            for _ in 0..64 {
                let _ = "a".parse::<TokenStream>();
            }
            forget_sources();
        }
        let before = crate::alloc::live();
        let mut texts = 0;
        for _ in 0..r.range(1, 60) {
            let mut s = small_source(r);
            if r.chance(1, 10) {
                s.push_str(&" x é".repeat(r.below(5000)));
            }
            texts += s.len();
            if let Ok(ts) = s.parse::<TokenStream>() {
                for t in ts {
                    let _ = (t.span().byte_range(), t.span().source_text(), t.span().end());
                }
            }
            let _ = s.parse::<Literal>();
        }
        let mid = crate::alloc::live();
        forget_sources();
        let after = crate::alloc::live();
        if after.0 != before.0 || after.1 != before.1 {
            return Err(format!(
                "{} bytes in {} blocks still held after discarding {} bytes of sources ({} held before that)",
                after.0 - before.0, after.1 - before.1, texts, mid.0 - before.0
            ));
        }
        ctx.count("bytes released by discarding", (mid.0 - before.0).max(0) as u64);
        ctx.nontrivial(mix(texts as u64 ^ (mid.0 as u64) << 20));
        Ok(())
    });
    // the same on a thread's first sources
    let n = ctx.n(60, 1000);
    ctx.phase("release-first", n, |ctx, _, r| {
        let files = r.range(1, 4);
        let texts: Vec<String> = (0..files).map(|_| format!("{} x é {}", small_source(r), "/* filler */ y ".repeat(r.range(20_000, 60_000)))).collect();
        ctx.set_input(&format!("a new thread's first {} sources, of {:?} bytes", files, texts.iter().map(String::len).collect::<Vec<_>>()));
        let held = std::thread::spawn(move || {
            let before = crate::alloc::live().0;
            for s in &texts {
                if let Ok(ts) = s.parse::<TokenStream>() {
                    for t in ts.into_iter().take(50) {
                        let _ = (t.span().byte_range(), t.span().source_text(), t.span().end());
                    }
                }
            }
            let mid = crate::alloc::live().0;
            forget_sources();
            (before, mid, crate::alloc::live().0)
        })
        .join()
        .map_err(|_| "parsing panicked")?;
        let (before, mid, after) = held;
        if mid - before < 200_000 {
            ctx.count("sources not held at all", 1);
            return Ok(());
        }
        if after - before > 100_000 {
            return Err(format!("{} bytes still held after discarding, of {}", after - before, mid - before));
        }
        ctx.count("bytes released by discarding", (mid - after) as u64);
        ctx.nontrivial(r.next());
        Ok(())
    });
    let n = ctx.n(60, 1000);
    ctx.phase("epochs", n, |ctx, _, r| {
        // tokens of an earlier epoch stay usable apart from their location
        forget_sources();
        let src = "alpha (beta 'c' \"é\") [1 + 2] -> r#fn";
        let old: TokenStream = src.parse().unwrap();
        let text = old.to_string();
        forget_sources();
        default_location(&Span::call_site())?;
        let mut s = String::new();
        let k = r.below(30);
        gen::source(r, &mut s, k, 4, true);
        ctx.set_input(&s);
        let mut refs = Vec::new();
        if let Some(got) = lex_and_parse(&s, &mut refs) {
            let mut spans = Vec::new();
            expectations(&s, &refs, &got, &mut spans)?;
            let t = Table::new(&s);
            for (sp, lo, hi) in &spans {
                all_queries(sp, *lo, *hi, &t)?;
            }
            ctx.count("fresh locations after discarding", spans.len() as u64);
        }
        if old.to_string() != text || old.clone().into_iter().count() != 6 {
            return Err(format!("tokens from before discarding changed: {}", old));
        }
        let e: TokenStream = TokenStream::from_iter(old.clone().into_iter().chain(old));
        drop(e);
        forget_sources();
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C13

fn same_place(what: &str, s: &Span, lo: usize, hi: usize, t: &Table) -> Result<(), String> {
    all_queries(s, lo, hi, t).map_err(|e| format!("{}: {}", what, e))
}

fn algebra(ctx: &mut Ctx, src: &str, r: &mut Rng) -> Result<(), String> {
    let mut refs = Vec::new();
    let got = match lex_and_parse(src, &mut refs) {
        Some(g) if !g.is_empty() => g,
        _ => return Ok(()),
    };
    let other_src = *r.pick(&[&"é (b)", &"x", &"'q' + \"€\""]);
    let other: Vec<Span> = flat(other_src.parse().unwrap()).iter().map(|e| e.span).collect();
    let t = Table::new(src);
    let mut v = Vec::new();
    expectations(src, &refs, &got, &mut v)?;
    // joins, of joins too
    for _ in 0..r.range(4, 16) {
        let (a, alo, ahi) = v[r.below(v.len())];
        let (b, blo, bhi) = v[r.below(v.len())];
        let (lo, hi) = (alo.min(blo), ahi.max(bhi));
        let ab = a.join(b).ok_or_else(|| format!("join of {}..{} and {}..{} is none", alo, ahi, blo, bhi))?;
        same_place(&format!("join of {}..{} and {}..{}", alo, ahi, blo, bhi), &ab, lo, hi, &t)?;
        let ba = b.join(a).ok_or("join is none in one order only")?;
        same_place(&format!("join of {}..{} and {}..{}", blo, bhi, alo, ahi), &ba, lo, hi, &t)?;
        if ab.file() != a.file() {
            return Err("join is in another file".into());
        }
        v.push((ab, lo, hi));
        ctx.count("joins compared", 2);
        // position and resolution
        same_place("a.located_at(b)", &a.located_at(b), blo, bhi, &t)?;
        same_place("a.resolved_at(b)", &a.resolved_at(b), alo, ahi, &t)?;
        same_place("call_site.located_at(b)", &Span::call_site().located_at(b), blo, bhi, &t)?;
        default_location(&Span::call_site().resolved_at(b))?;
        default_location(&a.located_at(Span::call_site()))?;
        // across sources
        let o = other[r.below(other.len())];
        if a.join(o).is_some() || o.join(a).is_some() {
            return Err("join across two sources is not none".into());
        }
        if a.join(Span::call_site()).is_some() || Span::call_site().join(a).is_some() {
            return Err("join with the default location is not none".into());
        }
        ctx.count("joins across sources", 4);
    }
    // tokens themselves (parses again for every group: not for the largest sources)
    if refs.len() > 3000 {
        ctx.count("large sources", 1);
        return Ok(());
    }
    let ts: TokenStream = src.parse().map_err(|_| "refused the second time")?;
    walk(ctx, src, &ts, &refs, &mut 0, r, &t, 0)?;
    ctx.nontrivial(hash_bytes(src.as_bytes()));
    ctx.sample(|| format!("{:?}: {} locations joined", src, v.len()));
    Ok(())
}

fn bounds_case(ctx: &mut Ctx, l: &Literal, lo: usize, text: &str, t: &Table, r: &mut Rng) -> Result<(), String> {
    use std::ops::Bound::*;
    let n = text.len();
    let pick = |r: &mut Rng| match r.below(8) {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => n,
        3 => n + 1,
        4 => 0,
        5 => u32::MAX as usize - r.below(2),
        _ => r.below(n + 3),
    };
    for i in 0..r.range(6, 16) {
        let (a, b) = (pick(r), pick(r));
        let (a, b) = if r.chance(3, 4) && a > b { (b, a) } else { (a, b) };
        let (sb, eb) = (
            [Included(a), Excluded(a), Unbounded][r.below(3)],
            [Included(b), Excluded(b), Unbounded][r.below(3)],
        );
        let start = match sb {
            Included(a) => Some(a),
            Excluded(a) => a.checked_add(1),
            Unbounded => Some(0),
        };
        let end = match eb {
            Included(b) => b.checked_add(1),
            Excluded(b) => Some(b),
            Unbounded => Some(n),
        };
        let reenter = r.chance(1, 16);
        let x = catch(|| match i % 3 {
            _ if reenter => l.subspan(crate::busy::BusyRange(sb, eb, std::cell::Cell::new(i))),
            0 if matches!((sb, eb), (Included(_), Excluded(_))) => l.subspan(a..b),
            1 if matches!((sb, eb), (Included(_), Included(_))) && b < usize::MAX => l.subspan(a..=b),
            _ => l.subspan((sb, eb)),
        })
        .map_err(|e| format!("subspan({:?}, {:?}) of {:?} panicked: {}", sb, eb, text, e))?;
        if reenter {
            ctx.count("subspans asked with bounds that use the library", 1);
        }
        let inside = match (start, end) {
            (Some(s), Some(e)) if s <= e && e <= n => Some((s, e)),
            _ => None,
        };
        match (inside, x) {
            (Some((s, e)), x) if !text.is_char_boundary(s) || !text.is_char_boundary(e) => {
                // half a character is not a location: nothing, or no panic
                let _ = x;
                ctx.count("subspans through characters", 1);
            }
            (Some((s, e)), Some(sp)) => {
                same_place(&format!("subspan({:?}, {:?}) of {:?}", sb, eb, text), &sp, lo + s, lo + e, t)?;
                ctx.count("subspans compared", 1);
            }
            (Some(_), None) => return Err(format!("subspan({:?}, {:?}) of {:?} is none", sb, eb, text)),
            (None, Some(sp)) => return Err(format!("subspan({:?}, {:?}) of {:?} is {:?}", sb, eb, text, sp.byte_range())),
            (None, None) => ctx.count("subspans out of bounds", 1),
        }
    }
    Ok(())
}

fn walk(ctx: &mut Ctx, src: &str, ts: &TokenStream, refs: &[E], at: &mut usize, r: &mut Rng, t: &Table, depth: usize) -> Result<(), String> {
    // a place to move tokens to
    let far: Span = {
        let e = refs.iter().filter(|e| !e.doc).nth(0);
        match e {
            Some(_) => src.parse::<TokenStream>().unwrap().into_iter().last().unwrap().span(),
            None => Span::call_site(),
        }
    };
    let far_range = far.byte_range();
    let whole: Vec<TokenTree> = ts.clone().into_iter().collect();
    for tt in ts.clone() {
        let e = &refs[*at];
        let (lo, hi, doc) = (e.lo, e.hi, e.doc);
        let keep = tt.clone();
        let mut moved = tt.clone();
        moved.set_span(far);
        if moved.span().byte_range() != far_range || moved.span().start() != far.start() || moved.span().file() != far.file() {
            return Err(format!("set_span({:?}) left the token at {:?}", far_range, moved.span().byte_range()));
        }
        if !doc {
            same_place("a clone of a moved token", &keep.span(), lo, hi, t)?;
            same_place("the original of a moved token", &tt.span(), lo, hi, t)?;
        }
        if moved.to_string() != tt.to_string() {
            return Err(format!("set_span changed the text to {:?}", moved.to_string()));
        }
        ctx.count("tokens moved", 1);
        match tt {
            TokenTree::Group(g) => {
                let d = g.delim_span();
                if !doc {
                    for (what, s, lo, hi) in [
                        ("group.span", g.span(), lo, hi),
                        ("group.span_open", g.span_open(), lo, lo + 1),
                        ("group.span_close", g.span_close(), hi - 1, hi),
                        ("delim_span.join", d.join(), lo, hi),
                        ("delim_span.open", d.open(), lo, lo + 1),
                        ("delim_span.close", d.close(), hi - 1, hi),
                    ] {
                        same_place(what, &s, lo, hi, t)?;
                    }
                    ctx.count("group delimiters compared", 1);
                }
                if let TokenTree::Group(m) = &moved {
                    // contents stay where they are
                    let a = flat(m.stream());
                    let b = flat(g.stream());
                    if a.len() != b.len() {
                        return Err("set_span on a group changed its contents".into());
                    }
                    for (x, y) in a.iter().zip(&b) {
                        if x.ev != y.ev || x.span.byte_range() != y.span.byte_range() || x.span2.byte_range() != y.span2.byte_range() {
                            return Err("set_span on a group moved its contents".into());
                        }
                    }
                    for s in [m.span_open(), m.span_close()] {
                        let q = s.byte_range();
                        if q.start < far_range.start || q.end > far_range.end {
                            return Err(format!("a moved group's delimiter is at {:?}, outside {:?}", q, far_range));
                        }
                    }
                }
                *at += 1;
                if depth < 40 {
                    walk(ctx, src, &g.stream(), refs, at, r, t, depth + 1)?;
                } else {
                    *at += flat(g.stream()).len();
                }
                *at += 1;
                // building again keeps the contents and takes the new place
                let mut again = Group::new(g.delimiter(), g.stream());
                default_location(&again.span())?;
                again.set_span(g.span());
                if again.span().byte_range() != g.span().byte_range() || again.span_open().byte_range() != g.span_open().byte_range() {
                    return Err("a rebuilt group is elsewhere".into());
                }
            }
            TokenTree::Literal(l) => {
                *at += 1;
                let place = if doc { l.span().byte_range() } else { lo..hi };
                bounds_case(ctx, &l, place.start, &src[place.clone()], t, r)?;
                if let TokenTree::Literal(m) = &moved {
                    if !far_range.is_empty() && r.chance(1, 4) {
                        bounds_case(ctx, m, far_range.start, &src[far_range.clone()], t, r)?;
                    }
                }
                // constructed: no place, never a panic
                let c: Literal = Literal::string("é\"");
                for s in [c.subspan(..), c.subspan(0..1), c.subspan(3..), c.subspan(..=usize::MAX - 1), c.subspan(5..2)].iter().flatten() {
                    default_location(s)?;
                }
            }
            TokenTree::Ident(i) => {
                *at += 1;
                let c = Ident::new("zz", i.span());
                if c.span().byte_range() != i.span().byte_range() || c.span().end() != i.span().end() {
                    return Err("Ident::new put the identifier elsewhere".into());
                }
            }
            TokenTree::Punct(_) => *at += 1,
        }
    }
    // the stream itself never changed
    let now: Vec<TokenTree> = ts.clone().into_iter().collect();
    if now.len() != whole.len() {
        return Err("the stream changed".into());
    }
    for (a, b) in now.iter().zip(&whole) {
        if a.span().byte_range() != b.span().byte_range() {
            return Err("a sibling moved".into());
        }
    }
    Ok(())
}

/// Where something is: byte range and file.
type Place = (usize, usize, String);

fn place(s: &Span) -> Place {
    let b = s.byte_range();
    (b.start, b.end, s.file())
}

/// Tokens are made, nested, copied, taken apart and moved; each of them has the
/// location it was given last, and nothing else moves with it.
fn assembled(ctx: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    forget_sources();
    let mut palette: Vec<Span> = vec![Span::call_site(), Span::mixed_site()];
    for s in ["alpha (beta) gamma 'd' 12345", "e", "+ [x y z] \"text\"\n(later)"] {
        for e in flat(s.parse().unwrap()) {
            palette.push(e.span);
            palette.push(e.span2);
        }
    }
    palette.push(palette[2].join(palette[6]).unwrap_or(palette[2]));
    let places: Vec<Place> = palette.iter().map(place).collect();
    let mut held: Vec<(TokenTree, Vec<(IEv, usize)>)> = Vec::new();
    let mut log = String::new();
    let mut words = 0;
    for step in 0..r.range(4, 40) {
        match r.below(12) {
            0..=3 => {
                let at = if r.chance(1, 2) { 0 } else { r.below(palette.len()) };
                words += 1;
                let (mut t, ev) = match r.below(3) {
                    0 => {
                        let w = format!("w{}", words);
                        (TokenTree::Ident(Ident::new(&w, palette[at])), IEv::Ident(w))
                    }
                    1 => {
                        let (c, j) = (*r.pick(&[&'+', &'=', &'#']), r.chance(1, 2));
                        (TokenTree::Punct(Punct::new(c, if j { Spacing::Joint } else { Spacing::Alone })), IEv::Punct(c, j))
                    }
                    _ => (TokenTree::Literal(Literal::u32_unsuffixed(words)), IEv::Lit(words.to_string())),
                };
                if at != 0 {
                    t.set_span(palette[at]);
                }
                log.push_str(&format!("make {} at {}; ", t, at));
                held.push((t, vec![(ev, at)]));
            }
            4..=6 => {
                // a group of some of them, copied or moved in
                let n = r.below(4);
                let d = *r.pick(&[&Delimiter::Parenthesis, &Delimiter::Bracket, &Delimiter::Brace, &Delimiter::None]);
                let mut model = vec![(IEv::Open(d), 0)];
                let mut inner: Vec<TokenTree> = Vec::new();
                for _ in 0..n {
                    if held.is_empty() {
                        break;
                    }
                    let i = r.below(held.len());
                    let (t, m) = if r.chance(2, 3) { held.swap_remove(i) } else { held[i].clone() };
                    model.extend(m);
                    inner.push(t);
                }
                model.push((IEv::Close(d), 0));
                if model.len() > 300 {
                    continue;
                }
                log.push_str(&format!("group of {}; ", inner.len()));
                let ts: TokenStream = match r.below(3) {
                    0 => inner.into_iter().collect(),
                    1 => {
                        let mut ts = TokenStream::new();
                        ts.extend(inner);
                        ts
                    }
                    _ => inner.into_iter().map(TokenStream::from).collect(),
                };
                held.push((TokenTree::Group(Group::new(d, ts)), model));
            }
            7..=9 if !held.is_empty() => {
                let i = r.below(held.len());
                let at = r.below(palette.len());
                let keep = if r.chance(1, 3) { Some(held[i].clone()) } else { None };
                log.push_str(&format!("move {} to {}{}; ", i, at, if keep.is_some() { " with a copy left" } else { "" }));
                let (t, m) = &mut held[i];
                match t {
                    TokenTree::Group(g) if r.chance(1, 2) => g.set_span(palette[at]),
                    _ => t.set_span(palette[at]),
                }
                let last = m.len() - 1;
                m[0].1 = at;
                m[last].1 = at;
                held.extend(keep);
                ctx.count("tokens moved", 1);
            }
            10 if !held.is_empty() => {
                // taken apart
                let i = r.below(held.len());
                if let (TokenTree::Group(g), m) = held[i].clone() {
                    if r.chance(1, 2) {
                        held.swap_remove(i);
                    }
                    log.push_str(&format!("open {}; ", i));
                    let mut rest = &m[1..m.len() - 1];
                    for t in g.stream() {
                        let mut depth = 0;
                        let n = rest.iter().position(|(e, _)| {
                            depth += match e {
                                IEv::Open(_) => 1,
                                IEv::Close(_) => -1,
                                _ => 0,
                            };
                            depth == 0
                        });
                        let n = n.ok_or("a group holds more than was put in")? + 1;
                        held.push((t, rest[..n].to_vec()));
                        rest = &rest[n..];
                    }
                    if !rest.is_empty() {
                        return Err("a group holds less than was put in".into());
                    }
                }
            }
            _ => {
                if held.len() > 8 {
                    let i = r.below(held.len());
                    held.swap_remove(i);
                }
            }
        }
        ctx.set_input(&log);
        for (k, (t, m)) in held.iter().enumerate() {
            let got = flat(t.clone().into());
            if got.len() != m.len() || got.iter().zip(m).any(|(g, m)| g.ev != m.0) {
                return Err(format!("step {}: token {} is now {}", step, k, t));
            }
            for (g, (ev, at)) in got.iter().zip(m) {
                if place(&g.span) != places[*at] {
                    return Err(format!("step {}: token {}: {:?} is at {:?}, not {:?}", step, k, ev, place(&g.span), places[*at]));
                }
                let (lo, hi, file) = places[*at].clone();
                let part = match ev {
                    IEv::Open(_) => (lo, (lo + 1).min(hi), file),
                    IEv::Close(_) => (hi.saturating_sub(1).max(lo), hi, file),
                    _ => (lo, hi, file),
                };
                if place(&g.span2) != part {
                    return Err(format!("step {}: token {}: delimiter {:?} is at {:?}, not {:?}", step, k, ev, place(&g.span2), part));
                }
            }
            if place(&t.span()) != places[m[0].1] {
                return Err(format!("step {}: token {} is at {:?}, not {:?}", step, k, place(&t.span()), places[m[0].1]));
            }
            ctx.count("assembled tokens located", m.len() as u64);
        }
    }
    ctx.nontrivial(hash_bytes(log.as_bytes()));
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    let n = ctx.n(20_000, 600_000);
    ctx.phase("assembled", n, |ctx, _, r| assembled(ctx, r));
    let mix = Mix {
        themes: 0,
        soup: ctx.n(20_000, 600_000),
        source: ctx.n(20_000, 600_000),
        glued: ctx.n(15_000, 400_000),
        mutated: ctx.n(5_000, 100_000),
        corpus: 0,
        windows: ctx.n(100, 5_000),
        big: 1,
    };
    drive(ctx, mix, &mut |ctx, s, r| {
        let x = algebra(ctx, s, r);
        forget_sources();
        x
    });
    // every range of literals with characters of every width
    let lits = ["\"\"", "\"aé€😀z\"", "r#\"é\"#", "b'x'", "'€'", "c\"😀\\t\"", "1.5e-3f64", "0x_ff", "\"a\nb\r\n€\"", "\"é\"é", "'😀'"];
    let n = lits.len() as u64 * 40;
    ctx.phase("subspan", n, |ctx, i, r| {
        let l = lits[(i / 40) as usize];
        let pre = ["", "é ", "a\n", "\u{feff}", "( 名 ", "'x' /*€*/", "名\r\n\r\n "][r.below(7)];
        let src = format!("{}{}{}", pre, l, if pre.starts_with('(') { ")" } else { "" });
        ctx.set_input(&src);
        let mut at = None;
        let mut stack: Vec<TokenTree> = src.parse::<TokenStream>().map_err(|_| "refused")?.into_iter().collect();
        while let Some(t) = stack.pop() {
            match t {
                TokenTree::Group(g) => stack.extend(g.stream()),
                TokenTree::Literal(x) if x.to_string() == l => at = Some(x),
                _ => {}
            }
        }
        let lit = at.ok_or("literal not found")?;
        let t = Table::new(&src);
        let lo = pre.len();
        for s in 0..=l.len() + 2 {
            for e in 0..=l.len() + 2 {
                let x = catch(|| lit.subspan(s..e)).map_err(|m| format!("subspan({}..{}) panicked: {}", s, e, m))?;
                if s > e || e > l.len() {
                    if let Some(y) = x {
                        return Err(format!("subspan({}..{}) of {:?} is {:?}", s, e, l, y.byte_range()));
                    }
                } else if l.is_char_boundary(s) && l.is_char_boundary(e) {
                    let y = x.ok_or_else(|| format!("subspan({}..{}) of {:?} is none", s, e, l))?;
                    same_place(&format!("subspan({}..{}) of {:?}", s, e, l), &y, lo + s, lo + e, &t)?;
                    ctx.count("subspans compared", 1);
                }
            }
        }
        ctx.nontrivial(hash_bytes(src.as_bytes()));
        forget_sources();
        Ok(())
    });
    // ranges of long literals, and of literals far into a source
    let sizes = gen::sizes(40, 70_001);
    ctx.phase("long-subspan", sizes.len() as u64 * 4, |ctx, i, r| {
        let n = sizes[(i / 4) as usize];
        let unit: &str = r.pick(&["a", "é", "€", "😀", "a\né", "x\r\n", "\\u{e9}"]);
        let body = if i % 2 == 0 { unit.repeat(n) } else { (0..n).map(|_| r.pick(&["b", "é", "😀", "\n", " "])).collect() };
        let l = match r.below(3) {
            0 => format!("r##\"{}\"##", body),
            _ => format!("\"{}\"", body),
        };
        let pre = match r.below(3) {
            0 => String::new(),
            1 => "é ".repeat(r.below(20)),
            _ => "/*€*/\n".repeat(r.below(n + 2)),
        };
        let src = format!("{}{}", pre, l);
        ctx.set_input(&src);
        let lit = match src.parse::<TokenStream>().map_err(|_| "refused")?.into_iter().last() {
            Some(TokenTree::Literal(x)) => x,
            _ => return Err("the literal is not last".into()),
        };
        let t = Table::new(&src);
        let (lo, len) = (pre.len(), l.len());
        for k in 0..24 {
            let at = |r: &mut Rng| match r.below(4) {
                0 => r.below(len + 3),
                1 => r.below(300).min(len + 2),
                2 => len - r.below(300).min(len),
                _ => gen::LARGE_SIZES[r.below(gen::LARGE_SIZES.len())].min(len + 2),
            };
            let (s, e) = match k {
                0 => (0, len),
                1 => (0, 0),
                2 => (len, len),
                3 => (1, len - 1),
                4 => (0, len + 1),
                _ => {
                    let (s, e) = (at(r), at(r));
                    (s.min(e), s.max(e))
                }
            };
            let x = catch(|| lit.subspan(s..e)).map_err(|m| format!("subspan({}..{}) panicked: {}", s, e, m))?;
            if e > len {
                if let Some(y) = x {
                    return Err(format!("subspan({}..{}) of {} bytes is {:?}", s, e, len, y.byte_range()));
                }
            } else if l.is_char_boundary(s) && l.is_char_boundary(e) {
                let y = x.ok_or_else(|| format!("subspan({}..{}) of {} bytes is none", s, e, len))?;
                same_place(&format!("subspan({}..{}) of {} bytes", s, e, len), &y, lo + s, lo + e, &t)?;
                ctx.count("long subspans compared", 1);
            }
        }
        ctx.nontrivial(hash_bytes(src.as_bytes()));
        forget_sources();
        Ok(())
    });
}

// ---------------------------------------------------------------- C14

fn error_place(ctx: &mut Ctx, src: &str, r: &mut Rng) -> Result<(), String> {
    let mut refs = Vec::new();
    let verdict = reflex::lex(src, &mut refs);
    let err = match src.parse::<TokenStream>() {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let t = Table::new(src);
    let sp = err.span();
    let range = sp.byte_range();
    if range.start > range.end || range.end > src.len() || !src.is_char_boundary(range.start) {
        return Err(format!("error at bytes {:?} of {}", range, src.len()));
    }
    if sp.start() != t.at(range.start) || sp.end() != t.at(range.end) {
        return Err(format!("error at bytes {:?} says {:?}..{:?}", range, sp.start(), sp.end()));
    }
    if sp.source_text().is_some_and(|x| x != src[range.clone()]) {
        return Err(format!("error's text is {:?}", sp.source_text()));
    }
    if err.to_string().is_empty() || format!("{:?}", err).is_empty() {
        return Err("error prints nothing".into());
    }
    if let Verdict::Reject { pos, certain: true, why } = verdict {
        if range.start != pos {
            return Err(format!("error at byte {}, expected {} ({:?}: {:?})", range.start, pos, why, src[pos..].chars().take(12).collect::<String>()));
        }
        ctx.count(&format!("error positions ({:?})", why), 1);
        ctx.nontrivial(hash_bytes(src.as_bytes()));
        ctx.sample(|| format!("{:?}: error at byte {} ({:?})", src, pos, why));
    } else {
        ctx.count("error positions only bounded", 1);
    }
    if r.chance(1, 8) {
        let (f, s, e) = (sp.file(), sp.start(), sp.end());
        for x in ["é", "", ")", "x (", "1"] {
            let _ = x.parse::<TokenStream>();
            let _ = x.parse::<Literal>();
        }
        let again = err.span();
        if again.byte_range() != range || again.start() != s || again.end() != e || again.file() != f || sp.byte_range() != range {
            return Err("the error's position changed after further parses".into());
        }
        // it names this source
        if let Ok(ts) = "q".parse::<TokenStream>() {
            if ts.into_iter().next().is_some_and(|t| t.span().file() == f) {
                return Err("the error is in the file of another source".into());
            }
        }
        ctx.count("error positions queried again", 1);
    }
    if r.chance(1, 8) {
        // the error outlives the sources: it still says what is wrong
        let lit = src.parse::<Literal>().err();
        forget_sources();
        if r.chance(1, 2) {
            let _ = "q r".parse::<TokenStream>();
        }
        let said = crate::ctx::catch(|| {
            let a = err.to_string();
            let b = format!("{:?}", err);
            let c = std::error::Error::source(&err).is_none();
            let d = lit.map_or("x".to_owned(), |l| l.to_string());
            (a, b, c, d)
        });
        match said {
            Ok((a, b, _, d)) if !a.is_empty() && !b.is_empty() && !d.is_empty() => {}
            Ok(x) => return Err(format!("after its source was discarded the error prints {:?}", x)),
            Err(e) => return Err(format!("printing the error after its source was discarded panicked: {}", e)),
        }
        ctx.count("errors printed after their source was discarded", 1);
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    let mix = Mix {
        themes: 2,
        soup: ctx.n(400_000, 8_000_000),
        source: 0,
        glued: ctx.n(100_000, 2_000_000),
        mutated: ctx.n(400_000, 8_000_000),
        corpus: 0,
        windows: ctx.n(2_000, 50_000),
        big: 1,
    };
    drive(ctx, mix, &mut |ctx, s, r| {
        let x = error_place(ctx, s, r);
        if r.chance(1, 16) || s.len() > 200 {
            forget_sources();
        }
        x
    });
    // a good source broken at a known place
    let n = ctx.n(150_000, 3_000_000);
    ctx.phase("broken", n, |ctx, _, r| {
        let mut s = String::new();
        for _ in 0..r.below(5) {
            let n = r.below(8);
            gen::source(r, &mut s, n, 4, true);
            s.push_str(r.pick(&[" ", "\n", "\r\n", " /*é*/ "]));
            if r.chance(1, 2) {
                s.push_str(r.pick(&["(", "[", "{", "( é [", "{ { "]));
            }
        }
        s.push_str(r.pick(&["\u{0}", "\\", "`", "\"é", "'\\q'", "b'é'", "0b2", "/* é", "r#\"x", "€", ")", "]", "}", "", "", "\u{200b}", "///a\rb", "'", "0x", "b\"é\"", "c\"\\0\"", "1é\u{301} \u{7f}"]));
        if r.chance(1, 2) {
            s.push_str(r.pick(&[" ", "x", "\n)", " é", "\""]));
        }
        ctx.set_input(&s);
        let x = error_place(ctx, &s, r);
        forget_sources();
        x
    });    // broken far in or far down
    let sizes = gen::sizes(130, 70_001);
    ctx.phase("deep", sizes.len() as u64 * 12, |ctx, i, r| {
        let n = sizes[(i / 12) as usize];
        let mut s = String::new();
        let filled = r.chance(1, 2);
        let mut last = '(';
        for _ in 0..n {
            last = if i % 2 == 0 { '(' } else { r.ch("([{") };
            s.push(last);
            if filled && r.chance(1, 4) {
                s.push_str(r.pick(&["é", " ", "\n", "()", "a[{}]", "\"é\"", "/*(*/", "'a"]));
            }
        }
        let close = match last {
            '(' => ')',
            '[' => ']',
            _ => '}',
        };
        match i / 2 % 6 {
            0 | 1 => {}
            2 => s.push(if close == ')' { ']' } else { ')' }),
            3 => {
                s.push(close);
                s.push_str(r.pick(&["", "\\", " `", "é }", "\""]));
            }
            4 => s.push_str(r.pick(&["\\", " `", "\"é", "0b2", "/* é", "'", "\u{0}"])),
            _ => {
                s = format!("{}{}", "é \n".repeat(n), r.pick(&["(", ")", "]", "\\", "\"é", "( [ é", "{ }}", "0b2", "//!\r."]));
            }
        }
        if r.chance(1, 3) {
            s.push_str(r.pick(&[" ", "\n", " é", "/**/"]));
        }
        ctx.set_input(&s);
        let x = error_place(ctx, &s, r);
        ctx.count("errors far in or far down", 1);
        forget_sources();
        x
    });
}
