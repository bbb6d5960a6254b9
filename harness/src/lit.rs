//! Reference meaning of literals: decodes the text of a literal token into the
//! value it denotes under Rust's rules. Independent of the library.

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    /// value, suffix
    Str(String, String),
    Bytes(Vec<u8>, String),
    /// without the terminating NUL
    CStr(Vec<u8>, String),
    Char(char, String),
    Byte(u8, String),
    /// magnitude, negative, suffix
    Int(u128, bool, String),
    /// text without underscores, sign included, and suffix
    Float(String, String),
}

enum Unit {
    C(char),
    B(u8),
}

fn unescape(s: &str, c: bool, out: &mut Vec<Unit>) -> Option<()> {
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch != '\\' {
            if ch == '\r' && it.peek() != Some(&'\n') {
                return None;
            }
            out.push(Unit::C(ch));
            continue;
        }
        match it.next()? {
            'n' => out.push(Unit::C('\n')),
            'r' => out.push(Unit::C('\r')),
            't' => out.push(Unit::C('\t')),
            '0' => out.push(Unit::C('\0')),
            '\\' => out.push(Unit::C('\\')),
            '\'' => out.push(Unit::C('\'')),
            '"' => out.push(Unit::C('"')),
            'x' => {
                let v = it.next()?.to_digit(16)? * 16 + it.next()?.to_digit(16)?;
                out.push(if c { Unit::B(v as u8) } else { Unit::C(char::from(v as u8)) });
            }
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut v = 0u32;
                loop {
                    match it.next()? {
                        '}' => break,
                        '_' => {}
                        d => v = v.checked_mul(16)? + d.to_digit(16)?,
                    }
                }
                out.push(Unit::C(char::from_u32(v)?));
            }
            '\n' => {
                while it.peek().is_some_and(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
                    it.next();
                }
            }
            '\r' => {
                if it.next()? != '\n' {
                    return None;
                }
                while it.peek().is_some_and(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
                    it.next();
                }
            }
            _ => return None,
        }
    }
    Some(())
}

fn to_string(units: Vec<Unit>) -> Option<String> {
    units
        .into_iter()
        .map(|u| match u {
            Unit::C(c) => Some(c),
            Unit::B(_) => None,
        })
        .collect()
}

fn to_latin(units: Vec<Unit>) -> Option<Vec<u8>> {
    units
        .into_iter()
        .map(|u| match u {
            Unit::C(c) => u8::try_from(c as u32).ok(),
            Unit::B(b) => Some(b),
        })
        .collect()
}

fn to_mixed(units: Vec<Unit>) -> Vec<u8> {
    let mut v = Vec::new();
    for u in units {
        match u {
            Unit::C(c) => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
            Unit::B(b) => v.push(b),
        }
    }
    v
}

/// Splits `...` `quote` `suffix` at the closing quote (the last one).
fn split_close(s: &str, q: char) -> Option<(&str, String)> {
    let at = s.rfind(q)?;
    let suf = &s[at + 1..];
    if suf.is_empty() || crate::reflex::ident_len(suf) == suf.len() {
        Some((&s[..at], suf.to_string()))
    } else {
        None
    }
}

fn raw(s: &str) -> Option<(&str, String)> {
    let n = s.len() - s.trim_start_matches('#').len();
    let body = s[n..].strip_prefix('"')?;
    let close = format!("\"{}", "#".repeat(n));
    let at = body.find(&close)?;
    let suf = &body[at + close.len()..];
    if suf.is_empty() || crate::reflex::ident_len(suf) == suf.len() {
        Some((&body[..at], suf.to_string()))
    } else {
        None
    }
}

/// Value denoted by the text of a literal, a leading minus allowed on numbers.
/// None if the text is not a literal that denotes a value.
pub fn decode(t: &str) -> Option<Value> {
    let mut u = Vec::new();
    if let Some(r) = t.strip_prefix('"') {
        let (body, suf) = split_close(r, '"')?;
        unescape(body, false, &mut u)?;
        return Some(Value::Str(to_string(u)?, suf));
    }
    if let Some(r) = t.strip_prefix('\'') {
        let (body, suf) = split_close(r, '\'')?;
        unescape(body, false, &mut u)?;
        let s = to_string(u)?;
        let mut it = s.chars();
        let c = it.next()?;
        return if it.next().is_none() { Some(Value::Char(c, suf)) } else { None };
    }
    if let Some(r) = t.strip_prefix("b'") {
        let (body, suf) = split_close(r, '\'')?;
        unescape(body, false, &mut u)?;
        let v = to_latin(u)?;
        return if v.len() == 1 { Some(Value::Byte(v[0], suf)) } else { None };
    }
    if let Some(r) = t.strip_prefix("b\"") {
        let (body, suf) = split_close(r, '"')?;
        if !body.is_ascii() {
            return None;
        }
        unescape(body, false, &mut u)?;
        return Some(Value::Bytes(to_latin(u)?, suf));
    }
    if let Some(r) = t.strip_prefix("c\"") {
        let (body, suf) = split_close(r, '"')?;
        unescape(body, true, &mut u)?;
        return Some(Value::CStr(to_mixed(u), suf));
    }
    if let Some(r) = t.strip_prefix("br") {
        let (body, suf) = raw(r)?;
        return Some(Value::Bytes(body.as_bytes().to_vec(), suf));
    }
    if let Some(r) = t.strip_prefix("cr") {
        let (body, suf) = raw(r)?;
        return Some(Value::CStr(body.as_bytes().to_vec(), suf));
    }
    if let Some(r) = t.strip_prefix('r') {
        let (body, suf) = raw(r)?;
        return Some(Value::Str(body.to_string(), suf));
    }
    let (neg, n) = match t.strip_prefix('-') {
        Some(n) => (true, n),
        None => (false, t),
    };
    if !n.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let (radix, d) = if let Some(d) = n.strip_prefix("0x") {
        (16, d)
    } else if let Some(d) = n.strip_prefix("0o") {
        (8, d)
    } else if let Some(d) = n.strip_prefix("0b") {
        (2, d)
    } else {
        (10, n)
    };
    let mut end = d.len();
    let mut v: Option<u128> = Some(0);
    for (i, c) in d.char_indices() {
        if c == '_' {
            continue;
        }
        match c.to_digit(radix) {
            Some(x) => v = v.and_then(|v| v.checked_mul(radix as u128)?.checked_add(x as u128)),
            None => {
                end = i;
                break;
            }
        }
    }
    let rest = &d[end..];
    if radix == 10 && (rest == "f32" || rest == "f64") {
        return Some(Value::Float(n[..n.len() - 3].replace('_', "") .replacen("", if neg { "-" } else { "" }, 1), rest.to_string()));
    }
    if radix != 10 || !(rest.starts_with('.') || rest.starts_with(['e', 'E'])) {
        return Some(Value::Int(v?, neg, rest.to_string()));
    }
    // float: mantissa . fraction exponent suffix
    let mut text = String::new();
    if neg {
        text.push('-');
    }
    let mut it = d.char_indices().peekable();
    let mut at = d.len();
    let mut seen_e = false;
    while let Some((i, c)) = it.next() {
        match c {
            '_' => {}
            '0'..='9' | '.' => text.push(c),
            'e' | 'E' if !seen_e => {
                seen_e = true;
                text.push('e');
                if let Some((_, s @ ('+' | '-'))) = it.peek().copied() {
                    it.next();
                    text.push(s);
                }
            }
            _ => {
                at = i;
                break;
            }
        }
    }
    Some(Value::Float(text, d[at..].to_string()))
}
