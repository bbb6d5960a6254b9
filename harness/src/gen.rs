//! Workload generators: source texts from valid to hostile.
use crate::rng::Rng;

pub const KEYWORDS: &[&str] = &[
    "as", "fn", "self", "Self", "super", "crate", "async", "dyn", "_", "union", "static", "r", "b", "c", "br",
    "cr", "rb", "rc", "e", "x", "u8", "f32", "e5", "E", "true", "doc", "r2", "b1", "c_", "box", "_x", "__",
];
pub const UNI_IDENTS: &[&str] = &["é", "ß", "日本", "名前", "ǅ", "ℵ", "a\u{301}", "x\u{200d}"
    , "переменная", "𝐱", "𐐀𐐁", "ªº", "ﬁ", "नमस्ते", "ᢅ", "℘", "℮"];
pub const ODD_CHARS: &[char] = &[
    '\0', '\u{1}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1f}', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}',
    '\u{ad}', '\u{b7}', 'é', 'ÿ', '\u{300}', '\u{301}', '\u{378}', '\u{600}', '\u{7ff}', '\u{800}', '\u{1680}',
    '\u{180e}', '\u{2000}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{2028}', '\u{2029}',
    '\u{202e}', '\u{2060}', '\u{2115}', '\u{3000}', '\u{3042}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fe0f}',
    '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1d4d0}', '\u{1f600}', '\u{20000}', '\u{e0100}',
    '\u{10ffff}', '٣', '०', '²', '℘', '゛', '—', '‘', '“', '`', '\\', '#', '"', '\'', '/', '*',
];

pub fn any_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => ODD_CHARS[r.below(ODD_CHARS.len())],
        1 => char::from(r.below(128) as u8),
        2 => char::from(r.range(0x20, 0x7e) as u8),
        3 => char::from_u32(r.below(0x800) as u32).unwrap(),
        4 => char::from_u32(r.below(0x10000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('y'),
    }
}

/// Hostile fragments: pieces that interact badly with their neighbours.
pub const FRAGS: &[&str] = &[
    "'", "\"", "r\"", "r#\"", "\"#", "r##\"", "\"##", "b\"", "b'", "br\"", "br#\"", "c\"", "cr\"", "cr#\"", "c'",
    "r'", "r#", "#", "##", "\\", "\\\"", "\\'", "\\\\", "\\n", "\\x", "\\x4", "\\x41", "\\x7f", "\\x80", "\\xff",
    "\\x00", "\\u", "\\u{", "\\u{}", "\\u{41}", "\\u{1F600}", "\\u{D800}", "\\u{110000}", "\\u{10FFFF}",
    "\\u{_1}", "\\u{1_}", "\\u{0000000}", "\\0", "\\\n", "\\\r\n", "\\\r", "\n", "\r\n", "\r", " ", "\t", "/", "//",
    "///", "////", "//!", "//!!", "/*", "*/", "/**", "/***", "/**/", "/***/", "/*!", "/*!*/", "/** */", "*", "!",
    "(", ")", "[", "]", "{", "}", "0", "1", "9", "0x", "0o", "0b", "0b1", "0o7", "0x1f", "0b2", "0o8", "0xg", "1e",
    "1e5", "1E+5", "1e-", "1e_", "e5", ".", "..", "..=", "1.", "1.0", "1.e", "1._", "1..2", "1.0.0", "_", "__",
    "u8", "f32", "1u8", "1f64", "1_000", "1__", "-", "-1", "- 1", "--", "=", "==", "=>", "->", "<-", "&", "&&",
    "&'a", "|'a'|", "'a", "'a'", "'ab", "'ab'", "'\\''", "'''", "''", "'\\", "'r#a", "'r#self", "'_", "'static",
    "'1", "'a\"", "'b\"x\"", "'r\"x\"", "b'a'", "b'\\''", "b'\\xff'", "b'é'", "b'''", "'é'", "'\n'", "'\t'", "\"x\"",
    "\"x\"_", "\"x\"u8", "\"é\"", "b\"é\"", "br\"é\"", "c\"é\"", "c\"\\0\"", "c\"\\x00\"", "c\"\\u{0}\"",
    "c\"\0\"", "cr\"\0\"", "a", "b", "c", "r", "br", "cr", "rb", "r#a", "r#fn", "r#self", "r#_", "r#Self",
    "r#crate", "r#super", "r#1", "self", "é", "日本", "\u{300}", "\u{feff}", "\u{200e}", "\u{200f}", "\u{2028}",
    "\u{85}", "\u{a0}", "\u{3000}", "\0", "`", "~", "@", "$", "%", "^", "+", "|", ";", ":", "::", ",", "<", ">",
    ">>=", "?", "#!", "#![", "doc", "x#y", "x\"y\"", "x'y'", "0b1.0", "0x1.0", "0b1e5", "---", "#\"", "/*a*/",
    "/*/**/*/", "//x\n", "///d\n", "//!d\n", "/**d*/", "/*!d*/", "///\r\n", "///d\rd\n", "/**d\rd*/", "/**\r\n*/",
    "\"\r\n\"", "\"\r\"", "r\"\r\n\"", "r\"\r\"", "b\"\r\"", "br\"\r\"", "c\"\r\"", "cr\"\r\"", "😀", "'😀'",
];

pub fn soup(r: &mut Rng, out: &mut String, max: usize) {
    let n = r.range(1, max);
    for _ in 0..n {
        match r.below(12) {
            0 => out.push(any_char(r)),
            1 => token(r, out),
            2 if r.chance(1, 2) => out.push(' '),
            _ => out.push_str(FRAGS[r.below(FRAGS.len())]),
        }
    }
}

pub fn ident(r: &mut Rng, out: &mut String) {
    match r.below(8) {
        0 => out.push_str(KEYWORDS[r.below(KEYWORDS.len())]),
        1 => near_keyword(r, out),
        2 => out.push_str(UNI_IDENTS[r.below(UNI_IDENTS.len())]),
        3 => loop {
            // random identifier over all of Unicode
            let c = any_char(r);
            if crate::reflex::id_start(c) {
                out.push(c);
                for _ in 0..r.below(4) {
                    let c = any_char(r);
                    if crate::reflex::id_cont(c) {
                        out.push(c);
                    }
                }
                break;
            }
        },
        _ => {
            out.push(r.ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"));
            for _ in 0..r.below(6) {
                out.push(r.ch("abcxyzrBEX_0189"));
            }
        }
    }
}

/// A keyword or something that looks like one.
pub fn near_keyword(r: &mut Rng, out: &mut String) {
    let k = KEYWORDS[r.below(KEYWORDS.len())];
    match r.below(8) {
        0 => out.push_str(&k.to_uppercase()),
        1 => {
            out.push_str(&k[..1].to_uppercase());
            out.push_str(&k[1..]);
        }
        2 => {
            for c in k.chars() {
                out.push(if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
            }
        }
        3 => {
            out.push_str(k);
            out.push(r.ch("_s19éR"));
        }
        4 => {
            out.push(r.ch("_srRéb"));
            out.push_str(k);
        }
        5 if k.len() > 1 => out.push_str(&k[..k.len() - 1]),
        _ => out.push_str(k),
    }
}

pub fn raw_ident(r: &mut Rng, out: &mut String) {
    let mut s = String::new();
    loop {
        s.clear();
        ident(r, &mut s);
        if !crate::reflex::raw_forbidden(&s) {
            break;
        }
    }
    out.push_str("r#");
    out.push_str(&s);
}

fn digits(r: &mut Rng, out: &mut String, set: &str, n: usize) {
    for i in 0..n {
        if i > 0 && r.chance(1, 6) {
            out.push('_');
        }
        out.push(r.ch(set));
    }
}

pub fn suffix(r: &mut Rng, out: &mut String) {
    match r.below(6) {
        0 => out.push_str(r.pick(&["u8", "i128", "usize", "f32", "f64", "suffix", "_x", "é", "r", "b"])),
        _ => {}
    }
}

pub fn number(r: &mut Rng, out: &mut String) {
    match r.below(10) {
        0 => {
            out.push_str("0x");
            if r.chance(1, 5) {
                out.push('_');
            }
            let n = r.range(1, 9);
            digits(r, out, "0123456789abcdefABCDEF", n);
            if r.chance(1, 6) {
                out.push_str("_u64");
            }
        }
        1 => {
            out.push_str("0o");
            let n = r.range(1, 9);
            digits(r, out, "01234567", n);
            if r.chance(1, 6) {
                out.push_str("u64");
            }
        }
        2 => {
            out.push_str("0b");
            let n = r.range(1, 9);
            digits(r, out, "01", n);
            if r.chance(1, 6) {
                out.push_str("i8");
            }
        }
        3..=5 => {
            let n = r.range(1, 8);
            digits(r, out, "0123456789", n);
            if r.chance(1, 5) {
                out.push('_');
            }
            if r.chance(1, 4) {
                out.push_str(r.pick(&["u8", "i32", "f32", "usize", "px", "é", "u8_", "_"]));
            }
        }
        k => {
            let n = r.range(1, 5);
            digits(r, out, "0123456789", n);
            if k != 9 {
                out.push('.');
                let n = r.range(1, 5);
                digits(r, out, "0123456789", n);
            }
            if k >= 8 {
                out.push(r.ch("eE"));
                out.push_str(r.pick(&["", "+", "-", "_", "+_"]));
                let n = r.range(1, 3);
                digits(r, out, "0123456789", n);
            }
            if r.chance(1, 4) {
                out.push_str(r.pick(&["f32", "f64", "_f64", "x", "e5"]));
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Str,
    Byte,
    C,
}

fn hex(r: &mut Rng, v: u32, width: usize) -> String {
    if r.chance(1, 2) {
        format!("{:0w$x}", v, w = width)
    } else {
        format!("{:0w$X}", v, w = width)
    }
}

/// One unit of cooked content of the given kind (valid).
pub fn cooked_unit(r: &mut Rng, out: &mut String, kind: Kind, quote: char, single: bool) {
    match r.below(14) {
        0 => {
            let e = if kind == Kind::C { "nrt\\'\"" } else { "nrt\\'\"0" };
            out.push('\\');
            out.push(r.ch(e));
        }
        1 => {
            let v = match kind {
                Kind::Str => r.below(0x80),
                Kind::Byte => r.below(0x100),
                Kind::C => r.range(1, 0xff),
            };
            out.push_str("\\x");
            let h = hex(r, v as u32, 2);
            out.push_str(&h);
        }
        2 | 3 if kind != Kind::Byte => {
            let mut c = any_char(r);
            if kind == Kind::C && c == '\0' {
                c = 'n';
            }
            let w = r.range(1, 6);
            let h = hex(r, c as u32, w);
            out.push_str("\\u{");
            for (i, d) in h.chars().enumerate() {
                if i > 0 && r.chance(1, 8) {
                    out.push_str("_");
                }
                out.push(d);
            }
            if r.chance(1, 10) {
                out.push_str("__");
            }
            out.push('}');
        }
        4 if !single => {
            out.push('\\');
            for _ in 0..r.range(1, 3) {
                out.push_str(r.pick(&["\n", "\r\n", "\n"]));
                for _ in 0..r.below(4) {
                    out.push_str(r.pick(&[" ", "\t", "  "]));
                }
            }
        }
        5 if !single => out.push_str(r.pick(&["\n", "\r\n", "//", "/*", "'", "{", ")", "#", " ", "\t"])),
        _ => loop {
            let c = if kind == Kind::Byte {
                char::from(r.below(128) as u8)
            } else {
                any_char(r)
            };
            if c == quote || c == '\\' || c == '\r' || (kind == Kind::C && c == '\0') {
                continue;
            }
            if single && matches!(c, '\n' | '\t' | '\'') {
                continue;
            }
            out.push(c);
            break;
        },
    }
}

pub fn raw_string(r: &mut Rng, out: &mut String, kind: Kind) {
    out.push_str(match kind {
        Kind::Str => "r",
        Kind::Byte => "br",
        Kind::C => "cr",
    });
    let n = match r.below(12) {
        0 => r.range(2, 6),
        1 => r.pick(&[&255usize, &254, &17, &0]).to_owned(),
        _ => r.below(3),
    };
    for _ in 0..n {
        out.push('#');
    }
    out.push('"');
    for _ in 0..r.below(8) {
        match r.below(6) {
            0 if n > 0 => {
                out.push('"');
                for _ in 0..r.below(n) {
                    out.push('#');
                }
                out.push('x');
            }
            1 => out.push_str(r.pick(&["\\", "\\x", "\n", "\r\n", "//", "#", "'", "##"])),
            _ => loop {
                let c = if kind == Kind::Byte { char::from(r.below(128) as u8) } else { any_char(r) };
                if c == '"' || c == '\r' || (kind == Kind::C && c == '\0') {
                    continue;
                }
                out.push(c);
                break;
            },
        }
    }
    out.push('"');
    for _ in 0..n {
        out.push('#');
    }
    suffix(r, out);
}

pub fn string_lit(r: &mut Rng, out: &mut String) {
    let kind = [Kind::Str, Kind::Byte, Kind::C][r.below(3)];
    if r.chance(1, 3) {
        return raw_string(r, out, kind);
    }
    out.push_str(match kind {
        Kind::Str => "\"",
        Kind::Byte => "b\"",
        Kind::C => "c\"",
    });
    for _ in 0..r.below(10) {
        cooked_unit(r, out, kind, '"', false);
    }
    out.push('"');
    suffix(r, out);
}

pub fn char_lit(r: &mut Rng, out: &mut String) {
    let byte = r.chance(1, 3);
    out.push_str(if byte { "b'" } else { "'" });
    cooked_unit(r, out, if byte { Kind::Byte } else { Kind::Str }, '\'', true);
    out.push('\'');
    suffix(r, out);
}

pub fn literal(r: &mut Rng, out: &mut String) {
    match r.below(5) {
        0 | 1 => number(r, out),
        2 => char_lit(r, out),
        _ => string_lit(r, out),
    }
}

pub fn lifetime(r: &mut Rng, out: &mut String) {
    out.push('\'');
    if r.chance(1, 6) {
        raw_ident(r, out);
    } else {
        ident(r, out);
    }
}

pub const OPS: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "!", "&", "|", "&&", "||", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "^=", "&=",
    "|=", "<<=", ">>=", "=", "==", "!=", ">", "<", ">=", "<=", "@", ".", "..", "...", "..=", ",", ";", ":", "::",
    "->", "<-", "=>", "#", "$", "?", "~", "#!", "|_|", "&*", "!!", "-->", "<=>",
];

/// One leaf token (or a lifetime, or an operator run).
pub fn token(r: &mut Rng, out: &mut String) {
    match r.below(12) {
        0..=3 => ident(r, out),
        4 => raw_ident(r, out),
        5 => lifetime(r, out),
        6..=8 => literal(r, out),
        _ => out.push_str(OPS[r.below(OPS.len())]),
    }
}

fn comment_text(r: &mut Rng, out: &mut String, line: bool, doc: bool) {
    for _ in 0..r.below(5) {
        let at = out.len();
        match r.below(8) {
            0 => out.push_str(r.pick(&["*", "**", "!", "/", "\"", "'", "\\", "#", "{", ")", "r#\"", "\\n", "'a"])),
            1 if !line => out.push_str(r.pick(&["/*x*/", "/**/", "/* /* */ */", "//", "\n", "\r\n", "///", "/*!*/"])),
            2 if !doc => out.push('\r'),
            _ => {
                let c = any_char(r);
                if c == '\n' || c == '\r' {
                    out.push(' ');
                } else {
                    out.push(c);
                }
            }
        }
        // no `/*` or `*/` across the pieces of a block comment
        let b = out.as_bytes();
        if !line && at > 0 && at < b.len() && matches!((b[at - 1], b[at]), (b'/', b'*') | (b'*', b'/')) {
            out.insert(at, ' ');
        }
    }
    // nor with its closing `*/`
    if !line && out.ends_with('/') {
        out.push(' ');
    }
}

/// Non-doc comment.
pub fn comment(r: &mut Rng, out: &mut String) {
    if out.ends_with('/') {
        out.push(' ');
    }
    if r.chance(1, 2) {
        out.push_str(r.pick(&["// ", "////", "/////", "//x", "// /", "//"]));
        let at = out.len();
        comment_text(r, out, true, false);
        // keep it from becoming a doc comment
        if out[..at].ends_with("//") && at >= 2 {
            let pre = &out[..at];
            let bare = pre.ends_with("//") && !pre.ends_with("///");
            if bare && (out[at..].starts_with('/') || out[at..].starts_with('!')) {
                out.insert(at, ' ');
            }
        }
        out.push_str(r.pick(&["\n", "\r\n"]));
    } else {
        match r.below(4) {
            0 => out.push_str(r.pick(&["/**/", "/***/", "/****/", "/*/**/*/", "/***x*/", "/*** /* */ */"])),
            _ => {
                out.push_str("/* ");
                comment_text(r, out, false, false);
                out.push_str(r.pick(&["*/", "**/", " */"]));
            }
        }
    }
}

pub fn doc_comment(r: &mut Rng, out: &mut String) {
    match r.below(4) {
        0 | 1 => {
            out.push_str(if r.chance(1, 3) { "//!" } else { "///" });
            let at = out.len();
            comment_text(r, out, true, true);
            if out[at..].starts_with('/') {
                out.insert(at, ' ');
            }
            out.push_str(r.pick(&["\n", "\r\n"]));
        }
        _ => {
            let inner = r.chance(1, 3);
            out.push_str(if inner { "/*!" } else { "/**" });
            let at = out.len();
            comment_text(r, out, false, true);
            if !inner && (out.len() == at || out[at..].starts_with('*') || out[at..].starts_with('/')) {
                out.insert(at, ' ');
            }
            out.push_str(r.pick(&["*/", "**/", " */"]));
        }
    }
}

pub fn white(r: &mut Rng, out: &mut String) {
    out.push_str(r.pick(&[
        " ", " ", " ", "\n", "\r\n", "\t", "  ", "\n\n", "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}", "\u{85}",
        "\u{b}", "\u{c}", "\r",
    ]));
}

/// Non-empty separator made of whitespace and comments.
pub fn sep(r: &mut Rng, out: &mut String) {
    for _ in 0..r.range(1, 3) {
        if r.chance(1, 5) {
            comment(r, out);
        } else {
            white(r, out);
        }
    }
}

/// Source text of roughly n leaf tokens: valid pieces, nested groups,
/// separators that may be missing.
pub fn source(r: &mut Rng, out: &mut String, n: usize, glue: usize, docs: bool) {
    let mut stack: Vec<char> = Vec::new();
    if r.chance(1, 30) {
        out.push('\u{feff}');
    }
    for _ in 0..n {
        match r.below(14) {
            0 | 1 => {
                let (o, c) = [('(', ')'), ('[', ']'), ('{', '}')][r.below(3)];
                out.push(o);
                stack.push(c);
            }
            2 => {
                if let Some(c) = stack.pop() {
                    out.push(c);
                }
            }
            3 if docs => {
                // a line comment before it must have ended
                out.push(' ');
                doc_comment(r, out);
            }
            _ => token(r, out),
        }
        if !r.chance(glue, 10) {
            sep(r, out);
        }
    }
    while let Some(c) = stack.pop() {
        out.push(c);
        if r.chance(1, 4) {
            sep(r, out);
        }
    }
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Random local damage.
pub fn mutate(r: &mut Rng, s: &mut String) {
    for _ in 0..r.range(1, 3) {
        let at = boundary(s, r.below(s.len() + 1));
        match r.below(8) {
            0 => s.truncate(at),
            1 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            2 => s.insert(at, any_char(r)),
            3 | 4 => s.insert_str(at, FRAGS[r.below(FRAGS.len())]),
            5 => {
                let to = boundary(s, (at + r.below(6)).min(s.len()));
                if at < to {
                    s.replace_range(at..to, "");
                }
            }
            6 => {
                let to = boundary(s, (at + r.below(8)).min(s.len()));
                if at < to {
                    let piece = s[at..to].to_string();
                    let dst = boundary(s, r.below(s.len() + 1));
                    s.insert_str(dst, &piece);
                }
            }
            _ => {
                if at < s.len() {
                    let c = s[at..].chars().next().unwrap();
                    let n = FRAGS[r.below(FRAGS.len())];
                    s.replace_range(at..at + c.len_utf8(), n);
                }
            }
        }
    }
}

/// The i-th string of the given alphabet in length order; lengths 0..=max.
pub fn nth_string(alpha: &[&str], mut i: u64, out: &mut String) {
    let k = alpha.len() as u64;
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    for _ in 0..len {
        out.push_str(alpha[(i % k) as usize]);
        i /= k;
    }
}
pub fn nth_count(alpha: &[&str], max: u32) -> u64 {
    (0..=max).map(|l| (alpha.len() as u64).pow(l)).sum()
}

/// Alphabets for exhaustive enumeration, with maximal lengths (quick, thorough).
pub struct Theme {
    pub name: &'static str,
    pub pre: &'static str,
    pub post: &'static str,
    pub alpha: &'static [&'static str],
    pub quick: u32,
    pub thorough: u32,
}

pub const THEMES: &[Theme] = &[
    Theme {
        name: "mixed",
        pre: "",
        post: "",
        alpha: &[
            "'", "\"", "r", "b", "c", "#", "\\", "/", "*", "!", "x", "u", "{", "}", "0", "1", ".", "e", "_", "-",
            "a", "\n", "\r", "é", " ", "(", ")",
        ],
        quick: 4,
        thorough: 5,
    },
    Theme { name: "quotes", pre: "", post: "", alpha: &["'", "\"", "r", "b", "c", "#", "a", "\\"], quick: 6, thorough: 8 },
    Theme {
        name: "numbers",
        pre: "",
        post: "",
        alpha: &["0", "1", "9", ".", "e", "+", "_", "x", "b", "f", "-", "é"],
        quick: 5,
        thorough: 7,
    },
    Theme { name: "comments", pre: "", post: "", alpha: &["/", "*", "!", "\n", "\r", "a", " "], quick: 7, thorough: 9 },
    Theme {
        name: "comment-tail",
        pre: "/*",
        post: " z",
        alpha: &["/", "*", "!", "\r", "\n", "a"],
        quick: 6,
        thorough: 8,
    },
    Theme {
        name: "str-escape",
        pre: "\"",
        post: "\"",
        alpha: &["\\", "x", "u", "{", "}", "0", "7", "8", "d", "_", "\n", "\r", "n", "\"", "é"],
        quick: 5,
        thorough: 6,
    },
    Theme {
        name: "bstr-escape",
        pre: "b\"",
        post: "\"",
        alpha: &["\\", "x", "u", "{", "0", "8", "f", "\n", "\r", "n", "\"", "é"],
        quick: 5,
        thorough: 6,
    },
    Theme {
        name: "cstr-escape",
        pre: "c\"",
        post: "\"",
        alpha: &["\\", "x", "u", "{", "}", "0", "1", "f", "\n", "\r", "n", "\0", "\""],
        quick: 5,
        thorough: 6,
    },
    Theme { name: "char-escape", pre: "'", post: "'", alpha: &["\\", "x", "u", "{", "}", "0", "7", "8", "d", "_", "'", "n", "é"], quick: 5, thorough: 6 },
    Theme { name: "byte-escape", pre: "b'", post: "'", alpha: &["\\", "x", "0", "8", "f", "'", "n", "é", "u", "\n"], quick: 5, thorough: 6 },
    Theme { name: "u-escape", pre: "\"\\u{", post: "}\"", alpha: &["0", "1", "d", "8", "F", "_", "f", "g"], quick: 6, thorough: 8 },
    Theme { name: "raw", pre: "r", post: "\"#", alpha: &["#", "\"", "a", "\r", "\n", "\\"], quick: 7, thorough: 8 },
    Theme { name: "raw-b", pre: "br", post: "\"##", alpha: &["#", "\"", "a", "\r", "\n", "é"], quick: 6, thorough: 8 },
    Theme { name: "raw-c", pre: "cr", post: "\"##", alpha: &["#", "\"", "a", "\r", "\n", "\0"], quick: 6, thorough: 8 },
    Theme {
        name: "operators",
        pre: "",
        post: "",
        alpha: &["=", "|", "'", "/", "*", "\"", "a", " ", "1", ".", "-", "("],
        quick: 5,
        thorough: 6,
    },
    Theme { name: "groups", pre: "", post: "", alpha: &["(", ")", "[", "]", "{", "}", "a"], quick: 7, thorough: 8 },
    Theme {
        name: "idents",
        pre: "",
        post: "",
        alpha: &["r", "#", "_", "a", "é", "1", "\u{300}", "'", "self", "\u{b7}", " "],
        quick: 5,
        thorough: 7,
    },
    Theme { name: "doc-line", pre: "///", post: "\nz", alpha: &["/", "!", "\r", "\n", "é", "\"", "\\", "'", "a"], quick: 5, thorough: 6 },
    Theme { name: "doc-block", pre: "/**", post: "*/z", alpha: &["/", "*", "\r", "\n", "é", "\"", "!", "'"], quick: 5, thorough: 6 },
    Theme { name: "continuation", pre: "\"\\\n", post: "\"", alpha: &[" ", "\n", "\r", "\t", "\\", "\"", "a", "é"], quick: 5, thorough: 6 },
];

/// Real Rust source files, where available (sorted, deterministic).
pub fn corpus(limit: usize) -> Vec<(String, String)> {
    let root = std::env::var("MON_CORPUS").unwrap_or_default();
    if root.is_empty() {
        return Vec::new();
    }
    let mut files = Vec::new();
    let mut dirs = vec![std::path::PathBuf::from(root)];
    while let Some(d) = dirs.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
    }
    files.sort();
    let step = (files.len() / limit.max(1)).max(1);
    files
        .into_iter()
        .step_by(step)
        .filter_map(|p| Some((p.display().to_string(), std::fs::read_to_string(&p).ok()?)))
        .collect()
}

pub const LARGE_FORMS: u64 = 34;
pub const LARGE_SIZES: &[usize] = &[
    15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023,
    1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001,
];

/// Sizes worth trying: every one up to a limit, then those around powers of two and ten.
pub fn sizes(every: usize, most: usize) -> Vec<usize> {
    (0..=every).chain(LARGE_SIZES.iter().copied().filter(|n| *n > every && *n <= most)).collect()
}

/// At most how deep the delimiters of a source are nested.
pub fn depth(s: &str) -> usize {
    let (mut now, mut most) = (0usize, 0);
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => now += 1,
            ')' | ']' | '}' => now = now.saturating_sub(1),
            _ => {}
        }
        most = most.max(now);
    }
    most
}

/// One form of valid source, at a size where something narrow would overflow.
pub fn large(form: u64, n: usize, r: &mut Rng) -> String {
    let mut s = String::from(r.pick(&["", "a ", "/*é*/\n", "1 "]));
    let unit = r.pick(&["x", "é", "y1", "名", "_"]);
    match form % LARGE_FORMS {
        0 => s.push_str(&"x".repeat(n)),
        1 => s.push_str(&"é".repeat(n)),
        2 => s.push_str(&format!("r#a{}", unit.repeat(n))),
        3 => s.push_str(&format!("'a{} z", unit.repeat(n))),
        4 => s.push_str(&"7".repeat(n)),
        5 => s.push_str(&format!("0x{}", "fA_".repeat(n / 3 + 1))),
        6 => s.push_str(&format!("1.{}e{}", "5".repeat(n), "1")),
        7 => s.push_str(&format!("1e{}3", "_".repeat(n))),
        8 => s.push_str(&format!("1u{}", unit.repeat(n))),
        9 => s.push_str(&format!("\"\"s{}", unit.repeat(n))),
        10 => s.push_str(&format!("\"{}\"", r.pick(&["a", "é", "\n", "\r\n", "\\n", "😀"]).repeat(n))),
        11 => s.push_str(&format!("\"{}\"", r.pick(&["\\u{41}", "\\x41", "\\\n \t", "\\\"", "\\\\"]).repeat(n))),
        12 => s.push_str(&format!("b\"{}\"", r.pick(&["a", "\\xff", "\n", "\r\n", "\\0"]).repeat(n))),
        13 => s.push_str(&format!("c\"{}\"", r.pick(&["a", "\\xff", "é", "\r\n", "\\u{1}"]).repeat(n))),
        14 => s.push_str(&format!("r\"{}\"", r.pick(&["a", "\\", "é", "\r\n", "#"]).repeat(n))),
        15 => {
            let h = "#".repeat(*r.pick(&[&1, &2, &254, &255]));
            let near = format!("\"{} ", &h[1..]);
            s.push_str(&format!("{}{}\"{}\"{}", r.pick(&["r", "br", "cr"]), h, near.repeat(n / near.len() + 1), h));
        }
        16 => s.push_str(&format!("x{}y", r.pick(&[" ", "\n", "\r\n", "\t", "\u{2028}", "\u{b}"]).repeat(n))),
        17 => s.push_str(&format!("x /*{}*/ y", r.pick(&["c", "é", "\n", "* ", "/ ", "\r\n"]).repeat(n))),
        18 => s.push_str(&format!("x /*{}{}*/ y", "/*".repeat(n), "*/".repeat(n))),
        19 => s.push_str(&format!("x //{}\ny", r.pick(&["c", "é", "/", " "]).repeat(n))),
        20 => s.push_str(&format!("x ///{}\ny", r.pick(&[" c", "é", "\"", "\\"]).repeat(n))),
        21 => s.push_str(&format!("/*!{}*/y", r.pick(&["c", "é", "\n", "\r\n", "\""]).repeat(n))),
        22 => s.push_str(&format!("x /** {}{} */ y", "/*".repeat(n), "*/".repeat(n))),
        23 => s.push_str(&"//c\n".repeat(n)),
        24 => s.push_str(&"/**/".repeat(n)),
        25 => s.push_str(&"///d\n".repeat(n)),
        26 => s.push_str(&format!("{} ", unit).repeat(n)),
        27 => s.push_str(&format!("({})", "x,".repeat(n))),
        28 => s.push_str(&r.pick(&["()", "[a]", "{;}"]).repeat(n)),
        29 => s.push_str(&r.pick(&["+", "=", ":", "&"]).repeat(n)),
        30 => {
            // (much deeper nesting belongs to C01; printing it is recursive)
            let n = n.min(1025);
            let (o, c) = *r.pick(&[&("(", ")"), &("[", "]"), &("{", "}"), &("{(", ")}")]);
            s.push_str(&o.repeat(n));
            s.push_str(&c.repeat(n));
        }
        31 => {
            // one line far to the right, then more lines
            s.push_str(&"é+ ".repeat(n / 2));
            s.push_str(&"x\n'y'\r\n".repeat(20));
        }
        32 => {
            for i in 0..n {
                s.push_str(if i % 5 == 0 { "é\"\n\" \r\n" } else if i % 3 == 0 { "\n" } else { "z;\n" });
            }
        }
        _ => {
            for _ in 0..n / 8 {
                token(r, &mut s);
                s.push_str(r.pick(&[" ", "\n", " /**/ "]));
            }
        }
    }
    if r.chance(1, 2) {
        s.push_str(r.pick(&[" z", "\n(b)", " ='é'", "\n"]));
    }
    s
}
