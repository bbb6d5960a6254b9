//! Inside the compiler, but built without compiler integration (the unstable
//! API on a stable compiler): streams travel to and from the compiler as text.
extern crate proc_macro;

use crate::agree::{compiler_says, lf};
use crate::ctx::Ctx;
use crate::flat::{evs, flat, IEv};
use crate::reflex::{self, Verdict};
use crate::rng::hash_bytes;
use crate::text::{drive, forget_sources, Assembly, Mix};
use proc_macro2::{Delimiter, TokenStream};
use std::cell::RefCell;

thread_local! {
    static INPUT: RefCell<Option<proc_macro::TokenStream>> = const { RefCell::new(None) };
}

pub fn run(args: &[String], input: proc_macro::TokenStream) {
    crate::ctx::install_hook();
    let mut cli = crate::cli::parse(args);
    crate::cli::watchdog(cli.out.clone(), cli.hang);
    INPUT.with(|i| *i.borrow_mut() = Some(input));
    crate::run(&mut cli.ctx);
    crate::cli::finish(&cli.ctx, &cli.out);
    INPUT.with(|i| *i.borrow_mut() = None);
}

/// The tokens by the compiler's own API.
fn theirs(ts: proc_macro::TokenStream, out: &mut Vec<IEv>) {
    for t in ts {
        match t {
            proc_macro::TokenTree::Ident(i) => out.push(IEv::Ident(i.to_string())),
            proc_macro::TokenTree::Punct(p) => out.push(IEv::Punct(p.as_char(), p.spacing() == proc_macro::Spacing::Joint)),
            proc_macro::TokenTree::Literal(l) => out.push(IEv::Lit(l.to_string())),
            proc_macro::TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    proc_macro::Delimiter::Parenthesis => Delimiter::Parenthesis,
                    proc_macro::Delimiter::Brace => Delimiter::Brace,
                    proc_macro::Delimiter::Bracket => Delimiter::Bracket,
                    proc_macro::Delimiter::None => Delimiter::None,
                };
                out.push(IEv::Open(d));
                theirs(g.stream(), out);
                out.push(IEv::Close(d));
            }
        }
    }
}

/// Same tokens; spacing before a lifetime is the compiler's to decide.
fn agree(what: &str, want: &[IEv], got: &[IEv]) -> Result<(), String> {
    let ok = want.len() == got.len()
        && (0..want.len()).all(|n| match (&want[n], &got[n]) {
            (IEv::Lit(a), IEv::Lit(b)) => lf(a) == lf(b),
            (IEv::Punct(a, j), IEv::Punct(b, k)) => a == b && (j == k || matches!(want.get(n + 1), Some(IEv::Punct('\'', _)))),
            (a, b) => a == b,
        });
    if ok {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, observed {:?}", what, want, got))
    }
}

/// Brought back, a stream is what the compiler's printed form says (the compiler
/// prints `1 .` as `1.`).
fn brought_back(p: proc_macro::TokenStream) -> Result<TokenStream, String> {
    let text = p.to_string();
    let back = TokenStream::from(p);
    let mut refs = Vec::new();
    if reflex::lex(&text, &mut refs) == Verdict::Accept {
        crate::flat::compare(&refs, &flat(back.clone()), true).map_err(|e| format!("{} brought back from the compiler: {}", text, e))?;
    }
    Ok(back)
}

fn there_and_back(ctx: &mut Ctx, ts: TokenStream) -> Result<(), String> {
    let want = evs(ts.clone());
    let p = proc_macro::TokenStream::from(ts.clone());
    let mut got = Vec::new();
    theirs(p.clone(), &mut got);
    agree("converted to the compiler's type", &want, &got)?;
    let back = brought_back(p)?;
    if back.is_empty() != ts.is_empty() {
        return Err("is_empty differs after conversion".into());
    }
    agree("after conversion of a clone", &want, &evs(ts))?;
    ctx.count("streams converted as text", 1);
    Ok(())
}

pub fn x20(ctx: &mut Ctx) {
    let mix = Mix { themes: 0, soup: 6_000, source: 6_000, glued: 8_000, mutated: 3_000, corpus: 20, windows: 3_000, big: 0 };
    drive(ctx, mix, &mut |ctx, src, _| {
        let mut refs = Vec::new();
        if reflex::lex(src, &mut refs) != Verdict::Accept || compiler_says(src, &refs) {
            return Ok(());
        }
        let ts = match src.parse::<TokenStream>() {
            Ok(ts) => ts,
            Err(_) => return Ok(()),
        };
        let printed = ts.to_string();
        let mut again = Vec::new();
        if reflex::lex(&printed, &mut again) != Verdict::Accept || compiler_says(&printed, &again) {
            return Ok(());
        }
        let r = there_and_back(ctx, ts.clone());
        // and the compiler's own reading of the source, brought over
        let theirs: proc_macro::TokenStream = src.parse().map_err(|e| format!("the compiler refuses: {:?}", e))?;
        let r = r.and_then(|()| brought_back(theirs)).map(drop);
        forget_sources();
        ctx.nontrivial(hash_bytes(src.as_bytes()));
        r
    });
    let n = ctx.n(10_000, 200_000);
    ctx.phase("assembled", n, |ctx, _, r| {
        let mut a = Assembly { want: Vec::new(), loose: Vec::new(), invisible: false };
        let ts = a.stream(r, 3, &mut None);
        let s = ts.to_string();
        ctx.set_input(&s);
        let mut refs = Vec::new();
        if reflex::lex(&s, &mut refs) != Verdict::Accept || compiler_says(&s, &refs) {
            return Ok(());
        }
        let p = proc_macro::TokenStream::from(ts);
        let mut got = Vec::new();
        theirs(p.clone(), &mut got);
        agree("an assembled stream converted", &a.want, &got)?;
        brought_back(p)?;
        forget_sources();
        ctx.count("streams converted as text", 1);
        ctx.nontrivial(hash_bytes(s.as_bytes()));
        Ok(())
    });
    ctx.phase("input", ctx.nshards, |_, _, _| {
        let input = INPUT.with(|i| i.borrow().clone().unwrap());
        let mut want = Vec::new();
        theirs(input.clone(), &mut want);
        // (an invisible group does not show in text)
        want.retain(|e| !matches!(e, IEv::Open(Delimiter::None) | IEv::Close(Delimiter::None)));
        agree("the macro's input", &want, &evs(TokenStream::from(input)))
    });
}
