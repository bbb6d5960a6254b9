//! Histories of operations on streams, tokens and iterators, compared after
//! every step with a model that is a plain list of tokens: C15, C16, C17 (and
//! C20 inside a procedural macro).
use crate::ctx::Ctx;
use crate::gen;
use crate::reflex;
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::{any_literal, forget_sources};
use proc_macro2::{token_stream::IntoIter, Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;

/// A token of the model; the last field identifies its location.
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    I(String, u64),
    P(char, bool, u64),
    L(String, u64),
    G(Delimiter, Rc<Vec<M>>, u64),
}

pub type Key = fn(&Span) -> u64;

/// Location by byte range, where locations are tracked.
pub fn key_range(_s: &Span) -> u64 {
    #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
    {
        let r = _s.byte_range();
        return ((r.start as u64) << 32) | r.end as u64;
    }
    #[allow(unreachable_code)]
    0
}

/// Location by its debug text (the only access on stable inside a macro).
pub fn key_debug(s: &Span) -> u64 {
    hash_bytes(format!("{:?}", s).as_bytes())
}

/// Locations do not matter.
pub fn key_none(_: &Span) -> u64 {
    0
}

/// What putting this token into a stream yields.
pub fn expand(m: &M, out: &mut Vec<M>) {
    match m {
        M::L(t, k) if t.starts_with('-') => {
            out.push(M::P('-', false, *k));
            out.push(M::L(t[1..].to_string(), *k));
        }
        m => out.push(m.clone()),
    }
}

pub fn expand_all(ms: &[M]) -> Vec<M> {
    let mut v = Vec::new();
    for m in ms {
        expand(m, &mut v);
    }
    v
}

pub fn observe_token(t: TokenTree, m: &M, key: Key) -> Result<(), String> {
    let k = key(&t.span());
    let bad = |what: String| Err(format!("observed {}, expected {:?}", what, m));
    match (&t, m) {
        (TokenTree::Ident(i), M::I(s, mk)) => {
            if i.to_string() != *s || k != *mk {
                return bad(format!("identifier {} at {:x}", i, k));
            }
        }
        (TokenTree::Punct(p), M::P(c, j, mk)) => {
            if p.as_char() != *c || (p.spacing() == Spacing::Joint) != *j || k != *mk {
                return bad(format!("punct {} {:?} at {:x}", p.as_char(), p.spacing(), k));
            }
        }
        (TokenTree::Literal(l), M::L(s, mk)) => {
            if l.to_string() != *s || k != *mk {
                return bad(format!("literal {} at {:x}", l, k));
            }
        }
        (TokenTree::Group(g), M::G(d, inner, mk)) => {
            if g.delimiter() != *d || k != *mk {
                return bad(format!("group {:?} at {:x}", g.delimiter(), k));
            }
            return observe(g.stream(), inner, key);
        }
        _ => return bad(format!("{:?} token {}", std::mem::discriminant(&t), t)),
    }
    Ok(())
}

/// The stream holds exactly these tokens.
pub fn observe(ts: TokenStream, model: &[M], key: Key) -> Result<(), String> {
    if ts.is_empty() != model.is_empty() {
        return Err(format!("is_empty is {} for {} tokens", ts.is_empty(), model.len()));
    }
    observe_iter(ts.into_iter(), model, key)
}

pub fn observe_iter(mut it: IntoIter, model: &[M], key: Key) -> Result<(), String> {
    for (i, m) in model.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = model.len() - i;
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint {:?} with {} tokens left", (lo, hi), left));
        }
        match it.next() {
            Some(t) => observe_token(t, m, key).map_err(|e| format!("token {} of {}: {}", i, model.len(), e))?,
            None => return Err(format!("ended after {} of {} tokens", i, model.len())),
        }
    }
    if it.size_hint().0 != 0 {
        return Err(format!("size_hint {:?} at the end", it.size_hint()));
    }
    match it.next() {
        None => {}
        Some(t) => return Err(format!("an extra token {} after {}", t, model.len())),
    }
    // and stays ended
    if it.next().is_some() {
        return Err("a token after the end".into());
    }
    Ok(())
}

pub struct World {
    pub key: Key,
    /// may quote characters and other things the compiler restricts be used?
    pub fallback: bool,
    pub spans: Vec<Span>,
    /// if any, the location of every punct
    pub punct_span: Option<Span>,
    /// no joint puncts
    pub alone: bool,
    pub streams: Vec<(TokenStream, Vec<M>)>,
    pub tokens: Vec<(TokenTree, M)>,
    pub iters: Vec<(IntoIter, Vec<M>, usize)>,
    pub log: String,
    pub ops: u64,
    pub panics: u64,
}

/// Iterator over given items: may panic, lie about its size, and keep clones
/// of other values alive until some point.
struct Odd<T> {
    items: std::vec::IntoIter<T>,
    panic_after: Option<usize>,
    hint: usize,
    held: Option<TokenStream>,
    drop_held_at: usize,
    reenter: bool,
    n: usize,
}

impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.n == self.drop_held_at {
            self.held = None;
        }
        if self.panic_after == Some(self.n) {
            panic::panic_any("injected");
        }
        if self.reenter && self.n % 2 == 1 {
            // uses the library itself meanwhile
            let mut t: TokenStream = "p (q)".parse().unwrap();
            t.extend(self.held.clone());
            let last = t.clone().into_iter().last().map(|t| t.span());
            let _ = (t.to_string(), last.map(|s| (s.source_text(), s.join(Span::call_site()).is_some())));
        }
        self.n += 1;
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n * 2)),
            3 => (n + 7, Some(n + 7)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

/// is there a punct in what the token becomes in a stream?
fn becomes_punct(t: &TokenTree) -> bool {
    match t {
        TokenTree::Punct(_) => true,
        TokenTree::Literal(l) => l.to_string().starts_with('-'),
        _ => false,
    }
}

const DELIMS: [Delimiter; 4] = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None];

impl World {
    pub fn new(key: Key, fallback: bool, spans: Vec<Span>) -> World {
        World { key, fallback, spans, punct_span: None, alone: false, streams: vec![], tokens: vec![], iters: vec![], log: String::new(), ops: 0, panics: 0 }
    }

    pub fn note(&mut self, s: &str) {
        self.ops += 1;
        if self.log.len() < 4000 {
            self.log.push_str(s);
            self.log.push_str("; ");
        }
    }

    fn span(&self, r: &mut Rng) -> Option<Span> {
        if self.spans.is_empty() || r.chance(1, 3) {
            None
        } else {
            Some(self.spans[r.below(self.spans.len())])
        }
    }

    pub fn fresh(&mut self, r: &mut Rng) -> (TokenTree, M) {
        let sp = self.span(r);
        let key = self.key;
        let mut set = true;
        let mut t = match r.below(8) {
            0..=2 => {
                let mut s = String::new();
                if self.fallback {
                    gen::ident(r, &mut s);
                } else {
                    s.push_str(r.pick(&["a", "b", "foo", "x1", "_y", "fn", "self", "zz_9"]));
                }
                // with its location from the start, or set afterwards
                let at = match sp {
                    Some(sp) if r.chance(1, 2) => {
                        set = false;
                        sp
                    }
                    _ => Span::call_site(),
                };
                if r.chance(1, 6) && !reflex::raw_forbidden(&s) {
                    TokenTree::Ident(Ident::new_raw(&s, at))
                } else {
                    TokenTree::Ident(Ident::new(&s, at))
                }
            }
            3 | 4 => {
                let c = r.ch(if self.fallback { "+-*/=<>!&|^%~@.,;:#$?'" } else { "+-*/=<>!&|^%~@.,;:#$?" });
                TokenTree::Punct(Punct::new(c, if r.chance(1, 2) && !self.alone { Spacing::Joint } else { Spacing::Alone }))
            }
            5 => TokenTree::Literal(match r.below(6) {
                0 => Literal::i32_unsuffixed(-(r.below(100) as i32)),
                1 => Literal::i8_suffixed(-(r.below(100) as i8)),
                2 => Literal::f64_suffixed(-1.5),
                3 => Literal::f32_unsuffixed(-0.0),
                4 => "-7i64".parse().unwrap(),
                _ => Literal::u8_suffixed(3),
            }),
            6 if self.fallback => TokenTree::Literal(any_literal(r)),
            _ => TokenTree::Literal(match r.below(4) {
                0 => Literal::string("s\"\n"),
                1 => Literal::character('c'),
                2 => Literal::byte_string(b"\0x"),
                _ => Literal::u64_unsuffixed(r.next() >> r.below(64)),
            }),
        };
        // (a parsed literal has a location of its own)
        let mut at = match (sp, &t) {
            (Some(s), _) => s,
            (None, TokenTree::Literal(l)) => l.span(),
            _ => Span::call_site(),
        };
        if let (true, Some(s)) = (set, sp) {
            t.set_span(s);
        }
        if let (true, Some(s)) = (becomes_punct(&t), self.punct_span) {
            t.set_span(s);
            at = s;
        }
        let k = key(&at);
        let m = match &t {
            TokenTree::Ident(i) => M::I(i.to_string(), k),
            TokenTree::Punct(p) => M::P(p.as_char(), p.spacing() == Spacing::Joint, k),
            TokenTree::Literal(l) => M::L(l.to_string(), k),
            TokenTree::Group(_) => unreachable!(),
        };
        (t, m)
    }

    fn some_token(&mut self, r: &mut Rng) -> (TokenTree, M) {
        if !self.tokens.is_empty() && r.chance(1, 2) {
            let i = r.below(self.tokens.len());
            if r.chance(1, 2) {
                self.tokens.swap_remove(i)
            } else {
                self.tokens[i].clone()
            }
        } else {
            self.fresh(r)
        }
    }

    fn some_stream(&mut self, r: &mut Rng) -> (TokenStream, Vec<M>) {
        if self.streams.is_empty() || r.chance(1, 8) {
            return (TokenStream::new(), vec![]);
        }
        let i = r.below(self.streams.len());
        if r.chance(1, 2) {
            self.streams.swap_remove(i)
        } else {
            self.streams[i].clone()
        }
    }

    fn check_stream(&self, i: usize) -> Result<(), String> {
        let (s, m) = &self.streams[i];
        observe(s.clone(), m, self.key).map_err(|e| format!("stream {}: {}", i, e))
    }

    fn check_token(&self, i: usize) -> Result<(), String> {
        let (t, m) = &self.tokens[i];
        observe_token(t.clone(), m, self.key).map_err(|e| format!("held token {}: {}", i, e))
    }

    fn check_iter(&self, i: usize) -> Result<(), String> {
        let (it, m, pos) = &self.iters[i];
        observe_iter(it.clone(), &m[*pos..], self.key).map_err(|e| format!("held iterator {} at {}: {}", i, pos, e))
    }

    pub fn check_all(&self) -> Result<(), String> {
        for i in 0..self.streams.len() {
            self.check_stream(i)?;
        }
        for i in 0..self.tokens.len() {
            self.check_token(i)?;
        }
        for i in 0..self.iters.len() {
            self.check_iter(i)?;
        }
        Ok(())
    }

    /// One random operation followed by an observation.
    pub fn step(&mut self, r: &mut Rng, panicking: bool) -> Result<(), String> {
        let op = r.below(32);
        match op {
            0 => {
                self.note("new");
                let s = if r.chance(1, 2) { TokenStream::new() } else { TokenStream::default() };
                self.streams.push((s, vec![]));
            }
            1 => {
                let (t, m) = self.some_token(r);
                self.note("from token");
                self.streams.push((TokenStream::from(t), expand_all(&[m])));
            }
            2 => {
                let (ts, ms): (Vec<_>, Vec<_>) = (0..r.below(7)).map(|_| self.some_token(r)).unzip();
                self.note("collect tokens");
                let it = self.odd(r, ts);
                self.streams.push((it.collect(), expand_all(&ms)));
            }
            3 => {
                let (ts, ms): (Vec<_>, Vec<_>) = (0..r.below(5)).map(|_| self.some_stream(r)).unzip();
                self.note("collect streams");
                let it = self.odd(r, ts);
                self.streams.push((it.collect(), ms.concat()));
            }
            4..=6 if !self.streams.is_empty() => {
                let (ts, ms): (Vec<_>, Vec<_>) = (0..r.below(5)).map(|_| self.some_token(r)).unzip();
                if self.streams.is_empty() {
                    return Ok(());
                }
                let i = r.below(self.streams.len());
                self.note("extend with tokens");
                let it = self.odd(r, ts);
                self.streams[i].0.extend(it);
                self.streams[i].1.extend(expand_all(&ms));
                self.check_stream(i)?;
            }
            7..=8 => {
                let (ts, ms): (Vec<_>, Vec<_>) = (0..r.below(4)).map(|_| self.some_stream(r)).unzip();
                if self.streams.is_empty() {
                    return Ok(());
                }
                let i = r.below(self.streams.len());
                self.note("extend with streams");
                let it = self.odd(r, ts);
                self.streams[i].0.extend(it);
                self.streams[i].1.extend(ms.concat());
                self.check_stream(i)?;
            }
            9 if !self.streams.is_empty() => {
                // by kind
                let i = r.below(self.streams.len());
                let (t, m) = self.some_token(r);
                if self.streams.len() <= i {
                    return Ok(());
                }
                self.note("extend by kind");
                let n = r.below(3);
                let s = &mut self.streams[i].0;
                match t {
                    TokenTree::Ident(x) => s.extend(std::iter::repeat(x).take(n)),
                    TokenTree::Punct(x) => s.extend(std::iter::repeat(x).take(n)),
                    TokenTree::Literal(x) => s.extend(std::iter::repeat(x).take(n)),
                    TokenTree::Group(x) => s.extend(std::iter::repeat(x).take(n)),
                }
                self.streams[i].1.extend(expand_all(&vec![m; n]));
                self.check_stream(i)?;
            }
            10 if !self.streams.is_empty() => {
                // with itself
                let i = r.below(self.streams.len());
                if self.streams[i].1.len() > 200 {
                    return Ok(());
                }
                self.note("extend with its own clone");
                let c = self.streams[i].0.clone();
                if r.chance(1, 2) {
                    self.streams[i].0.extend(c);
                } else {
                    self.streams[i].0.extend(Some(c));
                }
                let m = self.streams[i].1.clone();
                self.streams[i].1.extend(m);
                self.check_stream(i)?;
            }
            11..=13 if !self.streams.is_empty() => {
                self.note("clone stream");
                let i = r.below(self.streams.len());
                let c = self.streams[i].clone();
                self.streams.push(c);
            }
            14 if !self.tokens.is_empty() => {
                self.note("clone token");
                let i = r.below(self.tokens.len());
                let c = self.tokens[i].clone();
                self.tokens.push(c);
            }
            15 if !self.iters.is_empty() => {
                self.note("clone iterator");
                let i = r.below(self.iters.len());
                let c = self.iters[i].clone();
                self.iters.push(c);
            }
            16 if !self.streams.is_empty() => {
                self.note("iterate");
                let (s, m) = self.some_stream(r);
                self.iters.push((s.into_iter(), m, 0));
            }
            17 | 18 if !self.iters.is_empty() => {
                let i = r.below(self.iters.len());
                self.note("next");
                for _ in 0..r.range(1, 4) {
                    let (it, m, pos) = &mut self.iters[i];
                    let t = it.next();
                    match (t, m.get(*pos)) {
                        (Some(t), Some(x)) => {
                            *pos += 1;
                            let x = x.clone();
                            observe_token(t.clone(), &x, self.key).map_err(|e| format!("next: {}", e))?;
                            if r.chance(1, 2) {
                                self.tokens.push((t, x));
                            }
                        }
                        (None, None) => break,
                        (Some(t), None) => return Err(format!("next gave {} after the end", t)),
                        (None, Some(x)) => return Err(format!("next gave none, expected {:?}", x)),
                    }
                }
                self.check_iter(i)?;
            }
            19 if !self.iters.is_empty() => {
                let i = r.below(self.iters.len());
                let (it, m, pos) = self.iters.swap_remove(i);
                if r.chance(1, 2) || self.streams.is_empty() {
                    self.note("collect the rest of an iterator");
                    self.streams.push((it.collect(), m[pos..].to_vec()));
                } else {
                    self.note("extend with the rest of an iterator");
                    let j = r.below(self.streams.len());
                    self.streams[j].0.extend(it);
                    self.streams[j].1.extend(m[pos..].to_vec());
                    self.check_stream(j)?;
                }
            }
            20 | 21 => {
                let (s, m) = self.some_stream(r);
                if size(&m) > 400 {
                    return Ok(());
                }
                self.note("make group");
                let d = DELIMS[r.below(4)];
                let mut g = Group::new(d, s);
                let mut at = Span::call_site();
                if let Some(sp) = self.span(r) {
                    g.set_span(sp);
                    at = sp;
                }
                let k = (self.key)(&at);
                self.tokens.push((TokenTree::Group(g), M::G(d, Rc::new(m), k)));
            }
            22 => {
                let gs: Vec<usize> = (0..self.tokens.len()).filter(|i| matches!(self.tokens[*i].1, M::G(..))).collect();
                if gs.is_empty() {
                    return Ok(());
                }
                self.note("take stream out of group");
                let i = gs[r.below(gs.len())];
                if let (TokenTree::Group(g), M::G(_, m, _)) = &self.tokens[i] {
                    let s = g.stream();
                    let m = m.to_vec();
                    self.streams.push((s, m));
                }
            }
            23 | 24 if !self.tokens.is_empty() => {
                let i = r.below(self.tokens.len());
                let sp = match self.span(r) {
                    Some(s) => s,
                    None => Span::call_site(),
                };
                self.note("set_span");
                let sp = match (becomes_punct(&self.tokens[i].0), self.punct_span) {
                    (true, Some(p)) => p,
                    _ => sp,
                };
                if r.chance(1, 2) {
                    self.tokens[i].0.set_span(sp);
                } else {
                    match &mut self.tokens[i].0 {
                        TokenTree::Ident(x) => x.set_span(sp),
                        TokenTree::Punct(x) => x.set_span(sp),
                        TokenTree::Literal(x) => x.set_span(sp),
                        TokenTree::Group(x) => x.set_span(sp),
                    }
                }
                let k = (self.key)(&sp);
                match &mut self.tokens[i].1 {
                    M::I(_, x) | M::P(_, _, x) | M::L(_, x) | M::G(_, _, x) => *x = k,
                }
                self.check_token(i)?;
            }
            25 => {
                self.note("drop");
                match r.below(3) {
                    0 if !self.streams.is_empty() => drop(self.streams.swap_remove(r.below(self.streams.len()))),
                    1 if !self.tokens.is_empty() => drop(self.tokens.swap_remove(r.below(self.tokens.len()))),
                    _ if !self.iters.is_empty() => drop(self.iters.swap_remove(r.below(self.iters.len()))),
                    _ => {}
                }
            }
            26 if !self.streams.is_empty() => {
                // consume one for good
                self.note("consume");
                let i = r.below(self.streams.len());
                let (s, m) = self.streams.swap_remove(i);
                observe(s, &m, self.key).map_err(|e| format!("consumed stream: {}", e))?;
            }
            27 if !self.streams.is_empty() => {
                self.note("print");
                let i = r.below(self.streams.len());
                let a = self.streams[i].0.to_string();
                let b = self.streams[i].0.clone().to_string();
                if a != b {
                    return Err(format!("printed {:?}, its clone {:?}", a, b));
                }
                if self.fallback {
                    let _ = format!("{:?}", self.streams[i].0);
                    // the same tokens put together anew print the same
                    let again: TokenStream = self.streams[i].0.clone().into_iter().collect();
                    let c = again.to_string();
                    if a != c {
                        return Err(format!("printed {:?}, collected again {:?}", a, c));
                    }
                }
                self.check_stream(i)?;
            }
            30 | 31 if !self.iters.is_empty() => {
                let i = r.below(self.iters.len());
                self.iterator_method(i, r)?;
                self.check_iter(i)?;
            }
            28 | 29 if panicking && !self.streams.is_empty() => self.panicking(r)?,
            28 if self.fallback => {
                self.note("parse");
                let mut s = String::new();
                let n = r.below(6);
                gen::source(r, &mut s, n, 3, false);
                let mut refs = Vec::new();
                if reflex::lex(&s, &mut refs) != reflex::Verdict::Accept {
                    return Ok(());
                }
                if let Ok(ts) = s.parse::<TokenStream>() {
                    // trust parsing (C02, C11): the model records what it gave
                    let m = record(ts.clone(), self.key);
                    self.streams.push((ts, m));
                }
            }
            _ => {}
        }
        // keep the pools small
        while self.streams.len() > 8 {
            self.streams.swap_remove(r.below(self.streams.len()));
        }
        while self.tokens.len() > 10 {
            self.tokens.swap_remove(r.below(self.tokens.len()));
        }
        while self.iters.len() > 5 {
            self.iters.swap_remove(r.below(self.iters.len()));
        }
        self.streams.retain(|(_, m)| size(m) < 1500);
        // look at somebody else
        match r.below(3) {
            0 if !self.streams.is_empty() => self.check_stream(r.below(self.streams.len()))?,
            1 if !self.tokens.is_empty() => self.check_token(r.below(self.tokens.len()))?,
            2 if !self.iters.is_empty() => self.check_iter(r.below(self.iters.len()))?,
            _ => {}
        }
        Ok(())
    }

    /// Every other way of iterating agrees with calling next.
    fn iterator_method(&mut self, i: usize, r: &mut Rng) -> Result<(), String> {
        let key = self.key;
        let (it, m, pos) = &mut self.iters[i];
        let rest = m[*pos..].to_vec();
        let n = r.below(rest.len() + 3);
        let same = |what: &str, got: Vec<TokenTree>, want: Vec<&M>| -> Result<(), String> {
            if got.len() != want.len() {
                return Err(format!("{} gave {} tokens instead of {}", what, got.len(), want.len()));
            }
            got.into_iter().zip(want).try_for_each(|(t, m)| observe_token(t, m, key)).map_err(|e| format!("{}: {}", what, e))
        };
        let kind = r.below(12);
        match kind {
            0 | 1 => {
                same("nth", it.nth(n).into_iter().collect(), rest.get(n).into_iter().collect())?;
                *pos = (*pos + n + 1).min(m.len());
            }
            2 => {
                if it.clone().count() != rest.len() {
                    return Err(format!("count is {} of {}", it.clone().count(), rest.len()));
                }
            }
            3 => same("last", it.clone().last().into_iter().collect(), rest.last().into_iter().collect())?,
            4 => {
                let mut v = Vec::new();
                it.clone().for_each(|t| v.push(t));
                same("for_each", v, rest.iter().collect())?;
            }
            5 => {
                let v = it.clone().fold(Vec::new(), |mut v, t| {
                    v.push(t);
                    v
                });
                same("fold", v, rest.iter().collect())?;
            }
            6 => same("skip", it.clone().skip(n).collect(), rest.iter().skip(n).collect())?,
            7 => same("step_by", it.clone().step_by(n + 1).collect(), rest.iter().step_by(n + 1).collect())?,
            8 => {
                same("take", it.by_ref().take(n).collect(), rest.iter().take(n).collect())?;
                *pos = (*pos + n).min(m.len());
            }
            9 => {
                let mut k = 0;
                let t = it.find(|_| {
                    k += 1;
                    k > n
                });
                same("find", t.into_iter().collect(), rest.get(n).into_iter().collect())?;
                *pos = (*pos + n + 1).min(m.len());
            }
            10 => {
                let mut k = 0;
                let all = it.try_for_each(|t| {
                    k += 1;
                    if k > n {
                        Err(t)
                    } else {
                        Ok(())
                    }
                });
                same("try_for_each", all.err().into_iter().collect(), rest.get(n).into_iter().collect())?;
                *pos = (*pos + n + 1).min(m.len());
            }
            _ => {
                let both = it.clone().zip(rest.iter()).chain(it.clone().zip(rest.iter()));
                let (got, want): (Vec<_>, Vec<_>) = both.unzip();
                same("zip", got, want)?;
            }
        }
        self.note(["nth", "nth", "count", "last", "for_each", "fold", "skip", "step_by", "take", "find", "try_for_each", "zip"][kind]);
        Ok(())
    }

    fn odd<T>(&self, r: &mut Rng, items: Vec<T>) -> Odd<T> {
        let held = if !self.streams.is_empty() && r.chance(1, 3) {
            Some(self.streams[r.below(self.streams.len())].0.clone())
        } else {
            None
        };
        Odd { items: items.into_iter(), panic_after: None, hint: r.below(5), held, drop_held_at: r.below(3), reenter: self.fallback && r.chance(1, 6), n: 0 }
    }

    /// An extension cut short by a panic: what was there is still there,
    /// followed by a prefix of what was to come.
    fn panicking(&mut self, r: &mut Rng) -> Result<(), String> {
        let streams = r.chance(1, 3);
        let mut all: Vec<M> = Vec::new();
        let n = r.range(1, 5);
        let cut = r.below(n + 1);
        let collect = r.chance(1, 5);
        let mut toks = Vec::new();
        let mut strs = Vec::new();
        for i in 0..n {
            if streams {
                let (s, m) = self.some_stream(r);
                if i < cut {
                    all.extend(m);
                }
                strs.push(s);
            } else {
                let (t, m) = self.some_token(r);
                if i < cut {
                    expand(&m, &mut all);
                }
                toks.push(t);
            }
        }
        if self.streams.is_empty() {
            return Ok(());
        }
        let i = r.below(self.streams.len());
        self.note("extend cut short by a panic");
        self.panics += 1;
        let mut it1 = self.odd(r, toks);
        let mut it2 = self.odd(r, strs);
        it1.panic_after = Some(cut);
        it2.panic_after = Some(cut);
        let target = &mut self.streams[i].0;
        let done = panic::catch_unwind(AssertUnwindSafe(|| {
            if collect {
                if streams {
                    drop(it2.collect::<TokenStream>());
                } else {
                    drop(it1.collect::<TokenStream>());
                }
            } else if streams {
                target.extend(it2);
            } else {
                target.extend(it1);
            }
        }));
        if done.is_ok() {
            // the iterator was not asked far enough to panic: nothing may be lost
            return Err("an iterator's panic vanished, or it was not read to its end".into());
        }
        if collect {
            return self.check_all().map_err(|e| format!("after a panic while collecting: {}", e));
        }
        let got = record(self.streams[i].0.clone(), self.key);
        let old = &self.streams[i].1;
        let len = got.len();
        if len < old.len() || len > old.len() + all.len() || got[..old.len()] != old[..] || got[old.len()..] != all[..len - old.len()] {
            return Err(format!("after a panicking extend: {:?}, expected {:?} and a prefix of {:?}", got, old, all));
        }
        self.streams[i].1 = got;
        self.check_all().map_err(|e| format!("after a panicking extend: {}", e))
    }
}

pub fn size(m: &[M]) -> usize {
    m.iter().map(|x| if let M::G(_, i, _) = x { 1 + size(i) } else { 1 }).sum()
}

/// Model of what a stream holds now.
pub fn record(ts: TokenStream, key: Key) -> Vec<M> {
    ts.into_iter()
        .map(|t| {
            let k = key(&t.span());
            match t {
                TokenTree::Ident(i) => M::I(i.to_string(), k),
                TokenTree::Punct(p) => M::P(p.as_char(), p.spacing() == Spacing::Joint, k),
                TokenTree::Literal(l) => M::L(l.to_string(), k),
                TokenTree::Group(g) => M::G(g.delimiter(), Rc::new(record(g.stream(), key)), k),
            }
        })
        .collect()
}

pub fn palette() -> Vec<Span> {
    let ts: TokenStream = "a bb ccc (d é) \"x\" 12345 += ' z".replace("' ", "'").parse().unwrap();
    crate::flat::flat(ts).into_iter().map(|e| e.span).collect()
}

pub fn run_history(r: &mut Rng, w: &mut World, steps: usize, panicking: bool) -> Result<(), String> {
    for _ in 0..steps {
        w.step(r, panicking)?;
    }
    w.check_all()?;
    // consume what is left in some order
    while !w.streams.is_empty() || !w.tokens.is_empty() || !w.iters.is_empty() {
        match r.below(3) {
            0 if !w.streams.is_empty() => {
                let (s, m) = w.streams.swap_remove(r.below(w.streams.len()));
                observe(s, &m, w.key).map_err(|e| format!("at the end: {}", e))?;
            }
            1 if !w.tokens.is_empty() => {
                let (t, m) = w.tokens.swap_remove(r.below(w.tokens.len()));
                observe_token(t, &m, w.key).map_err(|e| format!("at the end: {}", e))?;
            }
            2 if !w.iters.is_empty() => {
                let (t, m, p) = w.iters.swap_remove(r.below(w.iters.len()));
                observe_iter(t, &m[p..], w.key).map_err(|e| format!("at the end: {}", e))?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn history_case(ctx: &mut Ctx, r: &mut Rng, steps: usize, panicking: bool) -> Result<(), String> {
    let before = crate::alloc::live();
    let (x, log, ops, panics) = {
        let mut w = World::new(key_range, true, palette());
        let x = run_history(r, &mut w, steps, panicking);
        (x, std::mem::take(&mut w.log), w.ops, w.panics)
    };
    forget_sources();
    let _ = before;
    ctx.set_input(&log);
    ctx.count("operations", ops);
    ctx.count("iterator panics injected", panics);
    ctx.nontrivial(hash_bytes(log.as_bytes()) ^ mix(ops));
    ctx.sample(|| log.clone());
    x
}

/// Every sequence of a few construction steps on one stream.
fn exhaustive(ctx: &mut Ctx, len: u32) {
    const OPS: u64 = 11;
    let n: u64 = (0..=len).map(|k| OPS.pow(k)).sum();
    ctx.phase("all-constructions", n, |ctx, i, _| {
        let mut i = i;
        let mut k = 0;
        while i >= OPS.pow(k) {
            i -= OPS.pow(k);
            k += 1;
        }
        let sp = palette();
        let key: Key = key_range;
        let neg = || {
            let mut l = Literal::i16_suffixed(-3);
            l.set_span(sp[1]);
            l
        };
        let id = Ident::new("q", sp[2]);
        let mut s = TokenStream::new();
        let mut m: Vec<M> = vec![];
        let mut saved: Option<(TokenStream, Vec<M>)> = None;
        let ks = key(&sp[1]);
        let k0 = key(&Span::call_site());
        let mut log = String::new();
        for _ in 0..k {
            let op = i % OPS;
            i /= OPS;
            log.push_str(&op.to_string());
            log.push(' ');
            match op {
                0 => {
                    s.extend(Some(TokenTree::Ident(id.clone())));
                    m.push(M::I("q".into(), key(&sp[2])));
                }
                1 => {
                    s.extend(Some(TokenTree::Literal(neg())));
                    m.push(M::P('-', false, ks));
                    m.push(M::L("3i16".into(), ks));
                }
                2 => {
                    s.extend([neg(), neg()]);
                    for _ in 0..2 {
                        m.push(M::P('-', false, ks));
                        m.push(M::L("3i16".into(), ks));
                    }
                }
                3 => {
                    let c = s.clone();
                    s.extend(Some(c));
                    m.extend(m.clone());
                }
                4 => {
                    let g = Group::new(Delimiter::Brace, s.clone());
                    s.extend(Some(g));
                    m.push(M::G(Delimiter::Brace, Rc::new(m.clone()), k0));
                }
                5 => {
                    s = TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, s)));
                    m = vec![M::G(Delimiter::None, Rc::new(m), k0)];
                }
                6 => {
                    s = s.into_iter().collect();
                }
                7 => {
                    let mut it = s.into_iter();
                    it.next();
                    s = it.collect();
                    if !m.is_empty() {
                        m.remove(0);
                    }
                }
                8 => saved = Some((s.clone(), m.clone())),
                9 => {
                    if let Some((t, n)) = &saved {
                        s = [t.clone(), s, t.clone()].into_iter().collect();
                        m = [n.clone(), m, n.clone()].concat();
                    }
                }
                _ => {
                    s.extend([Punct::new('+', Spacing::Joint)]);
                    m.push(M::P('+', true, k0));
                    s.extend(TokenStream::new());
                }
            }
        }
        ctx.set_input(&log);
        ctx.nontrivial(hash_bytes(log.as_bytes()));
        ctx.count("construction sequences", 1);
        if let Some((t, n)) = saved {
            observe(t, &n, key).map_err(|e| format!("saved clone: {}", e))?;
        }
        observe(s.clone(), &m, key)?;
        let r = observe(s, &m, key);
        forget_sources();
        r
    });
}

/// Streams of every length: built in each way, copied and grown, taken apart.
pub fn lengths(ctx: &mut Ctx, every: usize, most: usize, inside: bool, mk: &mut dyn FnMut(&mut Rng) -> World, extra: &mut dyn FnMut(&mut Rng, &TokenStream, &[M]) -> Result<(), String>) {
    let sizes = gen::sizes(every, most);
    const WAYS: u64 = 6;
    ctx.phase("lengths", sizes.len() as u64 * WAYS, |ctx, i, r| {
        let k = sizes[(i / WAYS) as usize];
        ctx.set_input(&format!("{} tokens, way {}", k, i % WAYS));
        let mut w = mk(r);
        let key = w.key;
        let (ts, ms): (Vec<TokenTree>, Vec<M>) = (0..k).map(|_| w.fresh(r)).unzip();
        let (one, onem) = w.fresh(r);
        let m = expand_all(&ms);
        let mut more = m.clone();
        expand(&onem, &mut more);
        let mut a = TokenStream::new();
        match i % WAYS {
            0 => a = ts.iter().cloned().collect(),
            1 => a.extend(ts.iter().cloned()),
            2 => ts.iter().for_each(|t| a.extend(Some(t.clone()))),
            3 => a.extend(ts.iter().cloned().map(TokenStream::from)),
            4 => a = ts.iter().cloned().map(TokenStream::from).collect(),
            _ => {
                // in two parts
                let at = r.below(k + 1);
                let rest: TokenStream = ts[at..].iter().cloned().collect();
                a = ts[..at].iter().cloned().collect();
                a.extend(Some(rest));
            }
        }
        drop(ts);
        if a.is_empty() != m.is_empty() {
            return Err(format!("is_empty is {}", a.is_empty()));
        }
        // copies grow apart
        let mut b = a.clone();
        b.extend(Some(one.clone()));
        let mut c = a.clone();
        c.extend(Some(TokenStream::from(one)));
        let g = Group::new(Delimiter::Bracket, a.clone());
        let mut it = a.clone().into_iter();
        let at = r.below(m.len() + 1);
        for x in &m[..at] {
            observe_token(it.next().ok_or("ended early")?, x, key)?;
        }
        let again = it.clone();
        observe(a.clone(), &m, key)?;
        observe(b, &more, key).map_err(|e| format!("grown copy: {}", e))?;
        observe(c, &more, key).map_err(|e| format!("copy grown by a stream: {}", e))?;
        observe_iter(it, &m[at..], key).map_err(|e| format!("iterator after {}: {}", at, e))?;
        extra(r, &a, &m)?;
        observe(a, &m, key)?;
        observe_iter(again, &m[at..], key).map_err(|e| format!("copied iterator after {}: {}", at, e))?;
        observe(g.stream(), &m, key).map_err(|e| format!("in a group: {}", e))?;
        drop(w);
        if !inside {
            forget_sources();
        }
        ctx.count("stream lengths", 1);
        ctx.nontrivial(i);
        Ok(())
    });
}

pub fn c15(ctx: &mut Ctx) {
    lengths(ctx, 600, 70_001, false, &mut |_| World::new(key_range, true, palette()), &mut |_, a, m| {
        // printed, they are as many tokens again (locations differ)
        let n = m.iter().filter(|x| !matches!(x, M::P(..))).count();
        if n != a.clone().into_iter().filter(|t| !matches!(t, TokenTree::Punct(_))).count() {
            return Err("filtering the tokens gives another number".into());
        }
        Ok(())
    });
    exhaustive(ctx, if ctx.thorough { 6 } else { 5 });
    let n = ctx.n(25_000, 1_000_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let steps = r.range(3, 60);
        history_case(ctx, r, steps, false)
    });
    let n = ctx.n(300, 5_000);
    ctx.phase("long", n, |ctx, _, r| {
        // long streams built in many ways hold the same tokens
        let mut w = World::new(key_range, true, palette());
        let k = if r.chance(1, 80) { r.range(65_000, 70_000) } else { r.range(100, 3000) };
        let mut kept: Vec<(TokenStream, usize)> = Vec::new();
        let (ts, ms): (Vec<TokenTree>, Vec<M>) = (0..k).map(|_| w.fresh(r)).unzip();
        let m = expand_all(&ms);
        let mut a = TokenStream::new();
        let mut i = 0;
        while i < k {
            let most = *r.pick(&[&40, &40, &40, &300, &2000, &(k / 4 + 1)]);
            let n = r.range(1, most).min(k - i);
            if kept.len() < 12 && r.chance(1, 4) {
                kept.push((a.clone(), expand_all(&ms[..i]).len()));
            }
            match r.below(4) {
                0 => a.extend(ts[i..i + n].iter().cloned()),
                1 => a.extend(ts[i..i + n].iter().cloned().map(TokenStream::from)),
                2 => a = [a, ts[i..i + n].iter().cloned().collect()].into_iter().collect(),
                _ => {
                    for t in &ts[i..i + n] {
                        match t.clone() {
                            TokenTree::Ident(x) => a.extend(Some(x)),
                            TokenTree::Punct(x) => a.extend(Some(x)),
                            TokenTree::Literal(x) => a.extend(Some(x)),
                            TokenTree::Group(x) => a.extend(Some(x)),
                        }
                    }
                }
            }
            i += n;
        }
        observe(a.clone(), &m, key_range)?;
        let b: TokenStream = ts.iter().cloned().collect();
        observe(b, &m, key_range)?;
        let c: TokenStream = ts.into_iter().map(TokenStream::from).collect();
        observe(c, &m, key_range)?;
        observe(a, &m, key_range)?;
        for (t, n) in kept {
            observe(t, &m[..n], key_range).map_err(|e| format!("a clone taken after {} tokens: {}", n, e))?;
        }
        forget_sources();
        ctx.count("long streams", 1);
        ctx.nontrivial(mix(r.next()));
        Ok(())
    });
}

pub fn c16(ctx: &mut Ctx) {
    lengths(ctx, 200, 5_000, false, &mut |_| World::new(key_range, true, palette()), &mut |r, a, m| {
        // holders at every stage of taking one copy apart
        let (mut it, mut held) = (a.clone().into_iter(), Vec::new());
        let mut n = 0;
        loop {
            if held.len() < 20 && (n == 0 || r.chance(1, 4)) {
                held.push((n, it.clone()));
            }
            if it.next().is_none() {
                break;
            }
            n += 1;
        }
        drop(it);
        for (n, it) in held {
            observe_iter(it, &m[n..], key_range).map_err(|e| format!("iterator held after {}: {}", n, e))?;
        }
        Ok(())
    });
    let n = ctx.n(40_000, 1_500_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let steps = r.range(5, 80);
        history_case(ctx, r, steps, true)
    });
    // one nested value, many holders, changes at one level only
    let n = ctx.n(20_000, 500_000);
    ctx.phase("holders", n, |ctx, _, r| {
        let mut w = World::new(key_range, true, palette());
        let mut s = TokenStream::new();
        let mut m: Vec<M> = Vec::new();
        let mut held: Vec<(TokenStream, Vec<M>)> = Vec::new();
        let depth = r.range(2, 30);
        for _ in 0..depth {
            let (t, x) = w.fresh(r);
            if r.chance(1, 2) {
                held.push((s.clone(), m.clone()));
            }
            s.extend(Some(t));
            expand(&x, &mut m);
            if r.chance(2, 3) {
                let d = DELIMS[r.below(4)];
                let g = Group::new(d, if r.chance(1, 2) { s.clone() } else { std::mem::take(&mut s) });
                if r.chance(1, 3) {
                    held.push((g.stream(), m.clone()));
                }
                let k = key_range(&Span::call_site());
                m = vec![M::G(d, Rc::new(m), k)];
                s = TokenStream::from(TokenTree::Group(g));
            }
            if held.len() > 6 {
                held.swap_remove(r.below(held.len()));
            }
            if !held.is_empty() {
                let i = r.below(held.len());
                match r.below(4) {
                    0 => {
                        let (t, x) = w.fresh(r);
                        held[i].0.extend(Some(t));
                        expand(&x, &mut held[i].1);
                    }
                    1 => {
                        let mut it = held[i].0.clone().into_iter();
                        it.next();
                        it.next();
                    }
                    2 => {
                        // change what came out of a group
                        for t in held[i].0.clone() {
                            if let TokenTree::Group(mut g) = t {
                                g.set_span(w.spans[0]);
                                let mut inner = g.stream();
                                inner.extend(Some(Ident::new("intruder", w.spans[1])));
                                drop(inner.into_iter().last());
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        held.push((s, m));
        for (i, (h, x)) in held.iter().enumerate() {
            observe(h.clone(), x, key_range).map_err(|e| format!("holder {}: {}", i, e))?;
        }
        ctx.nontrivial(mix(r.next()));
        ctx.count("holders compared", held.len() as u64);
        while !held.is_empty() {
            let (h, x) = held.swap_remove(r.below(held.len()));
            observe(h, &x, key_range)?;
        }
        forget_sources();
        Ok(())
    });
}

// ---------------------------------------------------------------- C17

/// One case of a workload that must leave no memory behind.
fn balanced(ctx: &mut Ctx, what: &str, f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    forget_sources();
    let before = crate::alloc::live();
    let t0 = crate::alloc::total();
    let x = f();
    forget_sources();
    let after = crate::alloc::live();
    x?;
    ctx.count("allocations observed", crate::alloc::total() - t0);
    if after != before {
        return Err(format!("{}: {} bytes in {} blocks never released", what, after.0 - before.0, after.1 - before.1));
    }
    ctx.count("balanced cases", 1);
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    // warm up lazily initialised state
    for _ in 0..200 {
        let _ = "a (b) 'c' \"d\" (".parse::<TokenStream>();
        let _ = "1".parse::<Literal>();
    }
    forget_sources();
    let _ = format!("{:?}", Span::call_site());
    let _ = panic::catch_unwind(|| panic::panic_any("injected"));
    let n = ctx.n(25_000, 800_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let steps = r.range(3, 60);
        let mut log = String::with_capacity(8192);
        let mut stats = (0, 0);
        let x = balanced(ctx, "history", &mut || {
            let mut w = World::new(key_range, true, palette());
            let x = run_history(r, &mut w, steps, true);
            log.push_str(&w.log);
            stats = (w.ops, w.panics);
            x
        });
        ctx.set_input(&log);
        ctx.count("operations", stats.0);
        ctx.count("iterator panics injected", stats.1);
        ctx.nontrivial(hash_bytes(log.as_bytes()));
        ctx.sample(|| log.clone());
        x
    });
    let n = ctx.n(150_000, 4_000_000);
    ctx.phase("sources", n, |ctx, i, r| {
        let mut s = String::new();
        match i % 4 {
            _ if i % 100 == 99 && !cfg!(miri) => {
                let k = gen::LARGE_SIZES[r.below(if i % 3000 == 2999 { gen::LARGE_SIZES.len() } else { gen::LARGE_SIZES.len() / 2 })];
                s = gen::large(i / 100, k, r);
            }
            0 => gen::soup(r, &mut s, 10),
            1 => gen::source(r, &mut s, 8, 3, true),
            2 => {
                gen::source(r, &mut s, 8, 3, true);
                gen::mutate(r, &mut s);
            }
            _ => {
                for _ in 0..r.below(12) {
                    s.push(gen::any_char(r));
                }
            }
        }
        ctx.set_input(&s);
        let mut ok = 0;
        let x = balanced(ctx, "parse, walk, print, drop", &mut || {
            if let Ok(ts) = s.parse::<TokenStream>() {
                ok = 1;
                let c = ts.clone();
                let t = ts.to_string();
                drop(ts);
                let v = crate::flat::flat(c);
                for e in &v {
                    let _ = key_range(&e.span);
                    let _ = e.span.source_text();
                }
                drop(t);
            }
            if let Ok(l) = s.parse::<Literal>() {
                let _ = l.to_string();
                let _ = l.subspan(1..);
            }
            Ok(())
        });
        ctx.count("accepted", ok);
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        x
    });
    if !cfg!(miri) {
        let n = ctx.n(40, 400);
        ctx.phase("deep", n, |ctx, i, r| {
            let depth = r.range(1_000, 60_000);
            let s = crate::text::deep_source(i, depth);
            balanced(ctx, "deep nesting", &mut || {
                if let Ok(ts) = s.parse::<TokenStream>() {
                    let c = ts.clone();
                    match r.below(4) {
                        0 => {
                            drop(ts);
                            drop(c.into_iter());
                        }
                        1 => {
                            let mut it = c.into_iter();
                            let first = it.next();
                            drop(ts);
                            drop(first);
                            drop(it);
                        }
                        2 => {
                            let held: Vec<TokenStream> = {
                                let mut v = vec![];
                                let mut cur = c;
                                for _ in 0..50 {
                                    let g = cur.clone().into_iter().find_map(|t| match t {
                                        TokenTree::Group(g) => Some(g),
                                        _ => None,
                                    });
                                    match g {
                                        Some(g) => {
                                            v.push(cur);
                                            cur = g.stream();
                                        }
                                        None => break,
                                    }
                                }
                                v
                            };
                            drop(ts);
                            drop(held);
                        }
                        _ => {
                            let g = Group::new(Delimiter::Bracket, ts);
                            let t: TokenStream = std::iter::repeat(TokenTree::Group(g)).take(3).collect();
                            drop(c);
                            drop(t);
                        }
                    }
                }
                Ok(())
            })?;
            ctx.count("deeply nested inputs", 1);
            ctx.nontrivial(mix(r.next()));
            Ok(())
        });
    }
    let n = ctx.n(20_000, 500_000);
    ctx.phase("values", n, |ctx, _, r| {
        let mut h = 0;
        let x = balanced(ctx, "identifiers and literals", &mut || {
            let l = any_literal(r);
            let mut s = String::new();
            gen::ident(r, &mut s);
            let i = Ident::new(&s, l.span());
            let t = format!("{} {} {:?} {:?}", l, i, l, i);
            h = hash_bytes(t.as_bytes());
            let _ = (i.clone() == i, i.cmp(&i), i == s);
            let bad = panic::catch_unwind(AssertUnwindSafe(|| Ident::new("1x", Span::call_site())));
            if bad.is_ok() {
                return Err("invalid identifier created".into());
            }
            Ok(())
        });
        ctx.nontrivial(h);
        x
    });
}

/// Small cases for the undefined-behaviour interpreter.
pub fn m17(ctx: &mut Ctx) {
    let n = ctx.n(400, 20_000);
    ctx.phase("histories", n, |ctx, _, r| {
        let steps = r.range(2, 14);
        let mut w = World::new(key_range, false, vec![]);
        let x = run_history(r, &mut w, steps, true);
        let log = std::mem::take(&mut w.log);
        ctx.set_input(&log);
        ctx.count("operations interpreted", w.ops);
        ctx.count("iterator panics injected", w.panics);
        ctx.nontrivial(hash_bytes(log.as_bytes()));
        ctx.sample(|| log);
        x
    });
    let n = ctx.n(400, 20_000);
    ctx.phase("sources", n, |ctx, i, r| {
        let mut s = String::new();
        match i % 3 {
            0 => gen::soup(r, &mut s, 6),
            1 => gen::source(r, &mut s, 4, 3, true),
            _ => {
                gen::source(r, &mut s, 4, 3, true);
                gen::mutate(r, &mut s);
            }
        }
        ctx.set_input(&s);
        if let Ok(ts) = s.parse::<TokenStream>() {
            let c = ts.clone();
            let t = ts.to_string();
            let g = Group::new(Delimiter::Brace, ts);
            let mut inner = g.stream();
            inner.extend(c.clone());
            drop(g);
            let mut it = inner.into_iter();
            let _ = it.next();
            drop(it.clone());
            drop(c);
            for t in it {
                let _ = key_range(&t.span());
                let _ = t.span().source_text();
            }
            ctx.count("accepted", t.len().min(1) as u64);
        }
        if let Ok(l) = s.parse::<Literal>() {
            let _ = l.subspan(1..);
        }
        forget_sources();
        ctx.count("sources interpreted", 1);
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
}
