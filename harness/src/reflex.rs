//! Reference lexer: an independent statement of Rust's lexical grammar, written
//! from the Rust reference and from the behaviour of the compiler's lexer. It
//! yields a flat list of events and a verdict that distinguishes what every
//! correct lexer must do from what is left open.
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev<'a> {
    Open(char),
    Close(char),
    Ident(Cow<'a, str>),
    /// character, joint
    Punct(char, bool),
    Lit(Cow<'a, str>),
    /// string literal of a doc attribute denoting this text (modulo CRLF)
    DocLit(Cow<'a, str>),
}

#[derive(Clone, Debug)]
pub struct E<'a> {
    pub ev: Ev<'a>,
    /// byte range of the token; for Open and Close that of the whole group
    pub lo: usize,
    pub hi: usize,
    /// belongs to a doc comment
    pub doc: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Unclosed,
    Mismatch,
    StrayClose,
    Token,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// must be accepted with these tokens
    Accept,
    /// may be refused (reserved or edition dependent); if accepted, these tokens
    MayReject,
    /// must be refused; the first offending text starts at `pos` (if `certain`)
    Reject { pos: usize, certain: bool, why: Why },
    /// nothing is claimed about acceptance or tokens
    Unspec,
}

pub fn id_start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}
pub fn id_cont(c: char) -> bool {
    unicode_ident::is_xid_continue(c)
}
pub fn first(s: &str) -> Option<char> {
    s.chars().next()
}

pub fn pattern_white_space(c: char) -> bool {
    matches!(
        c,
        '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' | ' ' | '\u{85}' | '\u{200e}' | '\u{200f}'
            | '\u{2028}' | '\u{2029}'
    )
}

pub const PUNCTS: &str = "~!@#$%^&*-=+|;:,<.>/?'";
pub fn is_punct_char(c: char) -> bool {
    matches!(
        c,
        '~' | '!' | '@' | '#' | '$' | '%' | '^' | '&' | '*' | '-' | '=' | '+' | '|' | ';' | ':'
            | ',' | '<' | '.' | '>' | '/' | '?' | '\''
    )
}

/// Length in bytes of the identifier at the start of `s` (0 if none).
pub fn ident_len(s: &str) -> usize {
    let mut it = s.char_indices();
    match it.next() {
        Some((_, c)) if id_start(c) => {}
        _ => return 0,
    }
    for (i, c) in it {
        if !id_cont(c) {
            return i;
        }
    }
    s.len()
}

/// Length of the nested block comment starting at s ("/*"), if terminated.
fn block_len(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut depth = 1;
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'*' && b.get(i + 1) == Some(&b'/') {
            depth -= 1;
            i += 2;
            if depth == 0 {
                return Some(i);
            }
        } else if b[i] == b'/' && b.get(i + 1) == Some(&b'*') {
            depth += 1;
            i += 2;
        } else {
            i += 1;
        }
    }
    None
}

fn bare_cr(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'))
}

/// Outcome of scanning one literal: end offset and whether it may be refused.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lit {
    Ok { end: usize, may: bool },
    Bad,
    Unspec,
    /// not the start of a literal of this sort
    NotLit,
}

fn suffix(s: &str, at: usize, may: bool) -> Lit {
    let n = ident_len(&s[at..]);
    Lit::Ok {
        end: at + n,
        may: may || &s[at..at + n] == "_",
    }
}

fn hexval(c: Option<&u8>) -> Option<u32> {
    match c {
        Some(c) => (*c as char).to_digit(16),
        None => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Str,
    Byte,
    C,
}

/// Checks the escape at b[i] == '\\'. Returns the offset behind it.
fn escape(b: &[u8], i: usize, mode: Mode) -> Option<usize> {
    match b.get(i + 1)? {
        b'n' | b'r' | b't' | b'\\' | b'\'' | b'"' => Some(i + 2),
        b'0' => {
            if mode == Mode::C {
                None
            } else {
                Some(i + 2)
            }
        }
        b'x' => {
            let v = hexval(b.get(i + 2))? * 16 + hexval(b.get(i + 3))?;
            let ok = match mode {
                Mode::Str => v < 0x80,
                Mode::Byte => true,
                Mode::C => v != 0,
            };
            if ok {
                Some(i + 4)
            } else {
                None
            }
        }
        b'u' => {
            if mode == Mode::Byte || b.get(i + 2) != Some(&b'{') {
                return None;
            }
            let mut j = i + 3;
            let mut v = 0u32;
            let mut n = 0;
            loop {
                match b.get(j)? {
                    b'_' if n > 0 => {}
                    b'}' => break,
                    c => {
                        v = v * 16 + hexval(Some(c))?;
                        n += 1;
                        if n > 6 {
                            return None;
                        }
                    }
                }
                j += 1;
            }
            if n == 0 || char::from_u32(v).is_none() || (mode == Mode::C && v == 0) {
                None
            } else {
                Some(j + 1)
            }
        }
        _ => None,
    }
}

/// Body of a cooked string starting behind the opening quote at `i`.
fn cooked(s: &str, mut i: usize, mode: Mode) -> Lit {
    let b = s.as_bytes();
    let mut may = false;
    loop {
        match b.get(i) {
            None => return Lit::Bad,
            Some(b'"') => return suffix(s, i + 1, may),
            Some(b'\r') => {
                if b.get(i + 1) != Some(&b'\n') {
                    return Lit::Bad;
                }
                i += 2;
            }
            Some(0) if mode == Mode::C => return Lit::Bad,
            Some(c) if !c.is_ascii() && mode == Mode::Byte => return Lit::Bad,
            Some(b'\\') => match b.get(i + 1) {
                Some(b'\n') | Some(b'\r') => {
                    if b[i + 1] == b'\r' && b.get(i + 2) != Some(&b'\n') {
                        return Lit::Bad;
                    }
                    i += 1;
                    while let Some(c @ (b' ' | b'\t' | b'\n' | b'\r')) = b.get(i) {
                        if *c == b'\r' && b.get(i + 1) != Some(&b'\n') {
                            may = true; // compilers differ over a bare CR here
                        }
                        i += 1;
                    }
                }
                _ => match escape(b, i, mode) {
                    Some(j) => i = j,
                    None => return Lit::Bad,
                },
            },
            Some(_) => i += 1,
        }
    }
}

/// Raw string whose hashes start at `i`.
fn raw(s: &str, i: usize, mode: Mode) -> Lit {
    let b = s.as_bytes();
    let mut n = 0;
    while b.get(i + n) == Some(&b'#') {
        n += 1;
    }
    if b.get(i + n) != Some(&b'"') || n > 255 {
        return Lit::Bad;
    }
    let mut j = i + n + 1;
    loop {
        match b.get(j) {
            None => return Lit::Bad,
            Some(b'\r') if b.get(j + 1) != Some(&b'\n') => return Lit::Bad,
            Some(0) if mode == Mode::C => return Lit::Bad,
            Some(c) if !c.is_ascii() && mode == Mode::Byte => return Lit::Bad,
            Some(b'"') => {
                let mut k = 0;
                while k < n && b.get(j + 1 + k) == Some(&b'#') {
                    k += 1;
                }
                if k == n {
                    return suffix(s, j + 1 + n, false);
                }
                j += 1;
            }
            Some(_) => j += 1,
        }
    }
}

/// Character literal whose opening quote is at offset 0.
fn character(s: &str) -> Lit {
    let c = match first(&s[1..]) {
        Some(c) => c,
        None => return Lit::Bad,
    };
    let mut may = false;
    let end = if c == '\\' {
        match escape(s.as_bytes(), 1, Mode::Str) {
            Some(e) => e,
            None => return Lit::Bad,
        }
    } else {
        may = matches!(c, '\n' | '\r' | '\t' | '\'');
        1 + c.len_utf8()
    };
    if s.as_bytes().get(end) == Some(&b'\'') {
        suffix(s, end + 1, may)
    } else {
        Lit::Bad
    }
}

/// Byte literal b'..'
fn byte(s: &str) -> Lit {
    let b = s.as_bytes();
    let mut may = false;
    let end = match b.get(2) {
        None => return Lit::Bad,
        Some(b'\\') => match escape(b, 2, Mode::Byte) {
            Some(e) => e,
            None => return Lit::Bad,
        },
        Some(c) if c.is_ascii() => {
            may = matches!(c, b'\n' | b'\r' | b'\t' | b'\'');
            3
        }
        _ => return Lit::Bad,
    };
    if b.get(end) == Some(&b'\'') {
        suffix(s, end + 1, may)
    } else {
        Lit::Bad
    }
}

/// Number starting at offset 0 with an ASCII digit.
fn number(s: &str) -> Lit {
    let b = s.as_bytes();
    let base = match (b[0], b.get(1)) {
        (b'0', Some(b'x')) => 16,
        (b'0', Some(b'o')) => 8,
        (b'0', Some(b'b')) => 2,
        _ => 10,
    };
    let mut i = 0;
    let mut exponent = false;
    let digits = |mut i: usize| {
        let mut n = 0;
        while let Some(c @ (b'0'..=b'9' | b'_')) = b.get(i) {
            if *c != b'_' {
                n += 1;
            }
            i += 1;
        }
        (i, n)
    };
    if base != 10 {
        i = 2;
        let mut n = 0;
        loop {
            match b.get(i) {
                Some(b'_') => {}
                Some(c @ b'0'..=b'9') => {
                    if (c - b'0') as u32 >= base {
                        return Lit::Bad;
                    }
                    n += 1;
                }
                Some(b'a'..=b'f' | b'A'..=b'F') if base == 16 => n += 1,
                _ => break,
            }
            i += 1;
        }
        if n == 0 {
            return Lit::Bad;
        }
        match b.get(i) {
            Some(b'.') => match first(&s[i + 1..]) {
                Some(c) if c == '.' || id_start(c) => {}
                _ => return Lit::Unspec,
            },
            Some(b'e' | b'E') => return Lit::Unspec,
            _ => {}
        }
    } else {
        i = digits(i).0;
        let mut float = false;
        if b.get(i) == Some(&b'.') {
            let second = first(&s[i + 1..]);
            if !second.is_some_and(|c| c == '.' || id_start(c)) {
                float = true;
                i += 1;
                if second.is_some_and(|c| c.is_ascii_digit()) {
                    i = digits(i).0;
                }
            }
        }
        // an exponent follows digits, not a lone dot: `1.e5` is `1 . e5`
        if matches!(b.get(i), Some(b'e' | b'E')) && !(float && b[i - 1] == b'.') {
            let mut j = i + 1;
            if matches!(b.get(j), Some(b'+' | b'-')) {
                j += 1;
            }
            let (end, n) = digits(j);
            if n == 0 {
                return Lit::Unspec;
            }
            i = end;
            exponent = true;
        }
    }
    let n = ident_len(&s[i..]);
    i += n;
    if n == 0 && first(&s[i..]).is_some_and(id_cont) {
        // `1e5` and a combining mark: like `1e`, whether `e...` is taken for a
        // suffix is left open
        return if exponent { Lit::Unspec } else { Lit::Bad };
    }
    Lit::Ok { end: i, may: false }
}

/// A literal at the start of `s` (never a lifetime).
pub fn literal(s: &str) -> Lit {
    let b = s.as_bytes();
    match b.first() {
        Some(b'"') => cooked(s, 1, Mode::Str),
        Some(b'\'') => character(s),
        Some(b'0'..=b'9') => number(s),
        Some(b'r') => match b.get(1) {
            Some(b'"') => raw(s, 1, Mode::Str),
            Some(b'#') if !first(&s[2..]).is_some_and(id_start) => raw(s, 1, Mode::Str),
            _ => Lit::NotLit,
        },
        Some(b'b') => match (b.get(1), b.get(2)) {
            (Some(b'"'), _) => cooked(s, 2, Mode::Byte),
            (Some(b'\''), _) => byte(s),
            (Some(b'r'), Some(b'"' | b'#')) => raw(s, 2, Mode::Byte),
            _ => Lit::NotLit,
        },
        Some(b'c') => match (b.get(1), b.get(2)) {
            (Some(b'"'), _) => cooked(s, 2, Mode::C),
            (Some(b'r'), Some(b'"' | b'#')) => raw(s, 2, Mode::C),
            _ => Lit::NotLit,
        },
        _ => Lit::NotLit,
    }
}

pub fn raw_forbidden(name: &str) -> bool {
    matches!(name, "_" | "self" | "Self" | "super" | "crate")
}

/// Lifetime at s[0] == '\'': length of the identifier behind the quote.
fn lifetime(s: &str) -> Option<usize> {
    let r = &s[1..];
    if r.starts_with("r#") {
        let n = ident_len(&r[2..]);
        if n == 0 || raw_forbidden(&r[2..2 + n]) || r[2 + n..].starts_with('\'') {
            return None;
        }
        return Some(2 + n);
    }
    let n = ident_len(r);
    if n == 0 || r[n..].starts_with('\'') || r[n..].starts_with('#') {
        None
    } else {
        Some(n)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trivia {
    None,
    /// (end, may be refused)
    Skip(usize, bool),
    /// doc comment: end of comment, start and end of content, inner
    Doc { end: usize, from: usize, to: usize, inner: bool },
    Bad,
}

pub fn trivia(s: &str) -> Trivia {
    let c = match first(s) {
        Some(c) => c,
        None => return Trivia::None,
    };
    if c == '/' {
        if s.starts_with("//") {
            let mut to = s.find('\n').unwrap_or(s.len());
            let end = to;
            let inner = s.starts_with("//!");
            let outer = s.starts_with("///") && !s.starts_with("////");
            if !inner && !outer {
                return Trivia::Skip(end, false);
            }
            if end < s.len() && s.as_bytes()[end - 1] == b'\r' {
                to -= 1;
            }
            if bare_cr(&s[3..to]) {
                return Trivia::Bad;
            }
            return Trivia::Doc { end: to, from: 3, to, inner };
        }
        if s.starts_with("/*") {
            let end = match block_len(s) {
                Some(e) => e,
                None => return Trivia::Bad,
            };
            let inner = s.starts_with("/*!");
            let outer = s.starts_with("/**") && !s.starts_with("/***") && end > 4;
            if !inner && !outer {
                return Trivia::Skip(end, false);
            }
            if bare_cr(&s[3..end - 2]) {
                return Trivia::Bad;
            }
            return Trivia::Doc { end, from: 3, to: end - 2, inner };
        }
        return Trivia::None;
    }
    if pattern_white_space(c) {
        Trivia::Skip(c.len_utf8(), false)
    } else if c.is_whitespace() {
        Trivia::Skip(c.len_utf8(), true)
    } else {
        Trivia::None
    }
}

fn joint_after(r: &str) -> bool {
    match first(r) {
        Some('\'') => !matches!(character(r), Lit::Ok { .. }),
        Some('/') => !r.starts_with("//") && !r.starts_with("/*"),
        Some(c) => is_punct_char(c),
        None => false,
    }
}

pub fn lex<'a>(src: &'a str, out: &mut Vec<E<'a>>) -> Verdict {
    out.clear();
    if src.contains("(/*ERROR*/)") {
        return Verdict::Unspec;
    }
    let mut may = false;
    let mut stack: Vec<(char, usize)> = Vec::new();
    let mut p = 0;
    if src.starts_with('\u{feff}') {
        p = 3;
    }
    macro_rules! bad {
        ($why:ident) => {
            return Verdict::Reject { pos: p, certain: !may, why: Why::$why }
        };
    }
    macro_rules! tok {
        ($ev:expr, $n:expr) => {{
            let n = $n;
            out.push(E { ev: $ev, lo: p, hi: p + n, doc: false });
            p += n;
        }};
    }
    loop {
        let s = &src[p..];
        match trivia(s) {
            Trivia::Skip(n, m) => {
                may |= m;
                p += n;
                continue;
            }
            Trivia::Bad => bad!(Token),
            Trivia::Doc { end, from, to, inner } => {
                let mut d = |ev| out.push(E { ev, lo: p, hi: p + end, doc: true });
                d(Ev::Punct('#', false));
                if inner {
                    d(Ev::Punct('!', false));
                }
                d(Ev::Open('['));
                d(Ev::Ident(Cow::Borrowed("doc")));
                d(Ev::Punct('=', false));
                d(Ev::DocLit(Cow::Borrowed(&s[from..to])));
                d(Ev::Close(']'));
                p += end;
                continue;
            }
            Trivia::None => {}
        }
        let c = match first(s) {
            Some(c) => c,
            None => break,
        };
        match c {
            '(' | '[' | '{' => {
                stack.push((c, out.len()));
                tok!(Ev::Open(c), 1);
                continue;
            }
            ')' | ']' | '}' => {
                let want = match c {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                match stack.pop() {
                    None => bad!(StrayClose),
                    Some((o, _)) if o != want => bad!(Mismatch),
                    Some((_, at)) => {
                        out[at].hi = p + 1;
                        let lo = out[at].lo;
                        out.push(E { ev: Ev::Close(c), lo, hi: p + 1, doc: false });
                        p += 1;
                    }
                }
                continue;
            }
            _ => {}
        }
        match literal(s) {
            Lit::Ok { end, may: m } => {
                may |= m;
                tok!(Ev::Lit(Cow::Borrowed(&s[..end])), end);
                continue;
            }
            Lit::Unspec => return Verdict::Unspec,
            Lit::Bad if c == '\'' => match lifetime(s) {
                Some(n) => {
                    tok!(Ev::Punct('\'', true), 1);
                    tok!(Ev::Ident(Cow::Borrowed(&s[1..1 + n])), n);
                    continue;
                }
                None => bad!(Token),
            },
            Lit::Bad => {
                // a number glued to a character that cannot continue it: lexers
                // may blame either
                if c.is_ascii_digit() {
                    may = true;
                }
                bad!(Token)
            }
            Lit::NotLit => {}
        }
        if is_punct_char(c) {
            if c == '#' && (s.starts_with("#\"") || s.starts_with("##")) {
                may = true; // reserved guarded strings
            }
            tok!(Ev::Punct(c, joint_after(&s[1..])), 1);
            continue;
        }
        if s.starts_with("r#") {
            let n = ident_len(&s[2..]);
            if n == 0 || raw_forbidden(&s[2..2 + n]) {
                bad!(Token);
            }
            tok!(Ev::Ident(Cow::Borrowed(&s[..2 + n])), 2 + n);
            continue;
        }
        let n = ident_len(s);
        if n == 0 {
            bad!(Token);
        }
        if matches!(first(&s[n..]), Some('"' | '\'' | '#')) {
            may = true; // reserved prefix
        }
        tok!(Ev::Ident(Cow::Borrowed(&s[..n])), n);
    }
    if let Some((_, at)) = stack.last() {
        return Verdict::Reject {
            pos: out[*at].lo,
            certain: !may,
            why: Why::Unclosed,
        };
    }
    if may {
        Verdict::MayReject
    } else {
        Verdict::Accept
    }
}
