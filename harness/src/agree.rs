//! What the compiler's lexer and the reference agree about.
use crate::flat::{IEv, IE};
use crate::lit::{decode, Value};
use crate::reflex::{self, Ev, Lit, E};

pub fn common_char(c: char) -> bool {
    c.is_ascii() || matches!(c, 'à'..='ö' | 'ø'..='ÿ' | 'α'..='ω' | 'а'..='я' | '\u{4e00}'..='\u{9fa5}' | 'ぁ'..='ん')
}

/// Source on which the compiler's own lexer has the last word and may differ.
pub fn compiler_says(src: &str, refs: &[E]) -> bool {
    let s = src.strip_prefix('\u{feff}').unwrap_or(src);
    if s.starts_with("#!") || s.trim_start().starts_with("---") {
        // shebang and frontmatter
        return true;
    }
    refs.iter().any(|e| match &e.ev {
        Ev::Ident(t) => !t.chars().all(common_char),
        Ev::Lit(t) => {
            let body = match reflex::literal(t) {
                Lit::Ok { .. } => t,
                _ => return true,
            };
            // suffixes beyond ASCII, and those the compiler reads as more than a suffix
            let last = body.rfind(['"', '\'', '#']).map_or(0, |i| i + 1);
            let tail = &body[last..];
            !tail.chars().all(common_char)
        }
        _ => false,
    })
}

pub fn lf(s: &str) -> String {
    s.replace("\r\n", "\n")
}

pub fn same_inside(outer: &[IE], inner: &[IE], refs: &[E]) -> Result<(), String> {
    for n in 0..outer.len().max(inner.len()) {
        let (a, b) = match (outer.get(n), inner.get(n)) {
            (Some(a), Some(b)) => (&a.ev, &b.ev),
            (a, b) => return Err(format!("token {}: outside {:?}, inside {:?}", n, a.map(|e| &e.ev), b.map(|e| &e.ev))),
        };
        let ok = match (a, b) {
            (IEv::Lit(x), IEv::Lit(y)) => {
                lf(x) == lf(y) || {
                    // the text of a documentation comment may be written in another way
                    let doc = refs.get(n).is_some_and(|e| matches!(e.ev, Ev::DocLit(_)));
                    doc && match (decode(x), decode(y)) {
                        (Some(Value::Str(v, s)), Some(Value::Str(w, t))) => lf(&v) == lf(&w) && s == t,
                        _ => false,
                    }
                }
            }
            (IEv::Punct(x, j), IEv::Punct(y, k)) => {
                let lifetime_next = matches!(outer.get(n + 1).map(|e| &e.ev), Some(IEv::Punct('\'', _)));
                x == y && (j == k || lifetime_next)
            }
            (x, y) => x == y,
        };
        if !ok {
            return Err(format!("token {}: outside {:?}, inside {:?}", n, a, b));
        }
    }
    Ok(())
}
