//! Observation of real streams: flattening without recursion, and comparison
//! with the reference events.
use crate::reflex::{Ev, E};
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Debug, PartialEq)]
pub enum IEv {
    Open(Delimiter),
    Close(Delimiter),
    Ident(String),
    Punct(char, bool),
    Lit(String),
}

#[derive(Clone)]
pub struct IE {
    pub ev: IEv,
    /// span of the token; for Open and Close that of the whole group
    pub span: Span,
    /// for Open / Close: span_open / span_close; otherwise the span again
    pub span2: Span,
}

pub fn flatten(ts: TokenStream, out: &mut Vec<IE>) {
    let mut stack = Vec::new();
    let mut cur = ts.into_iter();
    loop {
        match cur.next() {
            Some(TokenTree::Group(g)) => {
                let (d, span, close) = (g.delimiter(), g.span(), g.span_close());
                out.push(IE { ev: IEv::Open(d), span, span2: g.span_open() });
                let inner = g.stream();
                drop(g);
                stack.push((cur, d, span, close));
                cur = inner.into_iter();
            }
            Some(TokenTree::Ident(i)) => {
                let span = i.span();
                out.push(IE { ev: IEv::Ident(i.to_string()), span, span2: span });
            }
            Some(TokenTree::Punct(p)) => {
                let span = p.span();
                out.push(IE {
                    ev: IEv::Punct(p.as_char(), p.spacing() == Spacing::Joint),
                    span,
                    span2: span,
                });
            }
            Some(TokenTree::Literal(l)) => {
                let span = l.span();
                out.push(IE { ev: IEv::Lit(l.to_string()), span, span2: span });
            }
            None => match stack.pop() {
                None => return,
                Some((it, d, span, close)) => {
                    out.push(IE { ev: IEv::Close(d), span, span2: close });
                    cur = it;
                }
            },
        }
    }
}

pub fn flat(ts: TokenStream) -> Vec<IE> {
    let mut v = Vec::new();
    flatten(ts, &mut v);
    v
}

pub fn evs(ts: TokenStream) -> Vec<IEv> {
    flat(ts).into_iter().map(|e| e.ev).collect()
}

pub fn delim_char(d: Delimiter, open: bool) -> char {
    match (d, open) {
        (Delimiter::Parenthesis, true) => '(',
        (Delimiter::Parenthesis, false) => ')',
        (Delimiter::Brace, true) => '{',
        (Delimiter::Brace, false) => '}',
        (Delimiter::Bracket, true) => '[',
        (Delimiter::Bracket, false) => ']',
        (Delimiter::None, true) => '\u{2039}',
        (Delimiter::None, false) => '\u{203a}',
    }
}

fn crlf_eq(a: &str, b: &str) -> bool {
    a == b || a.replace("\r\n", "\n") == b.replace("\r\n", "\n")
}

/// Do these agree (spacing aside)?
pub fn same(r: &Ev, i: &IEv) -> bool {
    match (r, i) {
        (Ev::Open(c), IEv::Open(d)) => *c == delim_char(*d, true),
        (Ev::Close(c), IEv::Close(d)) => *c == delim_char(*d, false),
        (Ev::Ident(a), IEv::Ident(b)) => a == b,
        (Ev::Punct(a, _), IEv::Punct(b, _)) => a == b,
        (Ev::Lit(a), IEv::Lit(b)) => a == b,
        (Ev::DocLit(a), IEv::Lit(b)) => match crate::lit::decode(b) {
            Some(crate::lit::Value::Str(v, s)) => s.is_empty() && crlf_eq(&v, a),
            _ => false,
        },
        _ => false,
    }
}

pub fn same_spacing(r: &Ev, i: &IEv) -> bool {
    match (r, i) {
        (Ev::Punct(_, a), IEv::Punct(_, b)) => a == b,
        _ => true,
    }
}

pub fn compare(r: &[E], i: &[IE], spacing: bool) -> Result<(), String> {
    for n in 0..r.len().max(i.len()) {
        match (r.get(n), i.get(n)) {
            (Some(a), Some(b)) => {
                if !same(&a.ev, &b.ev) {
                    return Err(format!("token {}: expected {:?}, observed {:?}", n, a.ev, b.ev));
                }
                if spacing && !same_spacing(&a.ev, &b.ev) {
                    return Err(format!(
                        "token {}: expected {:?}, observed {:?} (spacing; true = joint)",
                        n, a.ev, b.ev
                    ));
                }
            }
            (Some(a), None) => return Err(format!("token {} missing: expected {:?}", n, a.ev)),
            (None, Some(b)) => return Err(format!("token {} is extra: observed {:?}", n, b.ev)),
            (None, None) => {}
        }
    }
    Ok(())
}
