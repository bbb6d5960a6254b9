//! Monitors over constructed values: literals (C07), decoding (C09),
//! identifiers (C10).
use crate::ctx::{catch, Ctx};
use crate::flat::{evs, IEv};
use crate::gen;
use crate::lit::{decode, Value};
use crate::reflex::{self, Lit};
use crate::rng::{hash_bytes, Rng};
use crate::text::forget_sources;
use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
use std::ffi::CString;

/// The literal prints as one literal token of that value and parses back.
fn judge(ctx: &mut Ctx, what: &str, lit: &Literal, want: &Value) -> Result<(), String> {
    let text = lit.to_string();
    ctx.set_input(&text);
    match decode(&text) {
        Some(v) if &v == want => {}
        v => return Err(format!("{}: printed {:?}, which denotes {:?}, expected {:?}", what, text, v, want)),
    }
    reparse(ctx, what, &text)
}

fn reparse(ctx: &mut Ctx, what: &str, text: &str) -> Result<(), String> {
    let body = text.strip_prefix('-').unwrap_or(text);
    match reflex::literal(body) {
        Lit::Ok { end, may: false } if end == body.len() => {}
        _ => return Err(format!("{}: {:?} is not one literal token", what, text)),
    }
    match text.parse::<Literal>() {
        Ok(l) if l.to_string() == text => {}
        Ok(l) => return Err(format!("{}: {:?} parsed as a literal printing {:?}", what, text, l.to_string())),
        Err(_) => return Err(format!("{}: {:?} refused by Literal::from_str", what, text)),
    }
    let got = match text.parse::<TokenStream>() {
        Ok(ts) => evs(ts),
        Err(_) => return Err(format!("{}: {:?} refused by TokenStream::from_str", what, text)),
    };
    let mut exp = Vec::new();
    if text.starts_with('-') {
        exp.push(IEv::Punct('-', false));
    }
    exp.push(IEv::Lit(body.to_string()));
    if got != exp {
        return Err(format!("{}: {:?} parsed as {:?}", what, text, got));
    }
    ctx.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

macro_rules! int_case {
    ($ctx:expr, $v:expr, $suf:ident, $unsuf:ident, $t:ident) => {{
        let v: $t = $v;
        #[allow(unused_comparisons)]
        let neg = v < 0;
        let mag = if neg { (v as i128).unsigned_abs() } else { v as u128 };
        judge($ctx, stringify!($suf), &Literal::$suf(v), &Value::Int(mag, neg, stringify!($t).into()))?;
        judge($ctx, stringify!($unsuf), &Literal::$unsuf(v), &Value::Int(mag, neg, String::new()))?;
        $ctx.count(concat!("integers of type ", stringify!($t)), 1);
    }};
}

fn judge_float(ctx: &mut Ctx, what: &str, lit: &Literal, suf: &str, same: &dyn Fn(&str) -> bool) -> Result<(), String> {
    let text = lit.to_string();
    ctx.set_input(&text);
    let (t, s) = match decode(&text) {
        Some(Value::Float(t, s)) => (t, s),
        v => return Err(format!("{}: printed {:?}, which denotes {:?}", what, text, v)),
    };
    if s != suf {
        return Err(format!("{}: printed {:?}, expected suffix {:?}", what, text, suf));
    }
    if !same(&t) {
        return Err(format!("{}: printed {:?}, a different value", what, text));
    }
    ctx.count("floats", 1);
    reparse(ctx, what, &text)
}

fn f64_case(ctx: &mut Ctx, f: f64) -> Result<(), String> {
    if !f.is_finite() {
        ctx.set_input(&format!("{:?}", f));
        for (n, g) in [("f64_suffixed", Literal::f64_suffixed as fn(f64) -> Literal), ("f64_unsuffixed", Literal::f64_unsuffixed)] {
            if let Ok(l) = catch(|| g(f)) {
                return Err(format!("{}({:?}) gave {:?}", n, f, l.to_string()));
            }
        }
        ctx.count("non-finite floats refused", 1);
        return Ok(());
    }
    let same = |t: &str| t.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits());
    judge_float(ctx, "f64_suffixed", &Literal::f64_suffixed(f), "f64", &same)?;
    judge_float(ctx, "f64_unsuffixed", &Literal::f64_unsuffixed(f), "", &same)
}

fn f32_case(ctx: &mut Ctx, f: f32) -> Result<(), String> {
    if !f.is_finite() {
        ctx.set_input(&format!("{:?}", f));
        for (n, g) in [("f32_suffixed", Literal::f32_suffixed as fn(f32) -> Literal), ("f32_unsuffixed", Literal::f32_unsuffixed)] {
            if let Ok(l) = catch(|| g(f)) {
                return Err(format!("{}({:?}) gave {:?}", n, f, l.to_string()));
            }
        }
        ctx.count("non-finite floats refused", 1);
        return Ok(());
    }
    let same = |t: &str| t.parse::<f32>().is_ok_and(|g| g.to_bits() == f.to_bits());
    judge_float(ctx, "f32_suffixed", &Literal::f32_suffixed(f), "f32", &same)?;
    judge_float(ctx, "f32_unsuffixed", &Literal::f32_unsuffixed(f), "", &same)
}

fn rand_bytes(r: &mut Rng, max: usize, nul: bool) -> Vec<u8> {
    let n = if r.chance(1, 40) { r.below(max * 20 + 1) } else { r.below(max + 1) };
    let mut v = Vec::new();
    while v.len() < n {
        match r.below(6) {
            0 => v.push(r.next() as u8),
            1 => v.extend_from_slice(r.pick(&[
                &b"\\"[..], b"\"", b"'", b"\0", b"\n", b"\r", b"\t", b"\r\n", b"0", b"7", b"8", b"\x7f", b"\x1f", b" ", b"~", b"{", b"\0\0", b"\0001",
            ])),
            2 => v.extend_from_slice(gen::any_char(r).encode_utf8(&mut [0; 4]).as_bytes()),
            3 => v.extend_from_slice(r.pick(&[
                &b"\xc3"[..], b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xff", b"\x80", b"\xe0\x80\xaf",
                b"\xf0\x80\x80\x80", b"\xef\xbf\xbf", b"\xcc\x80", b"\xe2\x80\x8d",
            ])),
            _ => v.push(b'a' + r.below(26) as u8),
        }
    }
    if !nul {
        v.retain(|b| *b != 0);
    }
    v
}

fn rand_string(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 60) { 400 } else { 9 };
    for _ in 0..r.below(n) {
        match r.below(4) {
            0 => s.push_str(r.pick(&["\\", "\"", "'", "\0", "\n", "\r", "\r\n", "\t", "0", "7", "{", "\u{301}", "\u{200d}", "\u{85}", "\u{2028}", "\u{7f}", "\u{10ffff}", "\0\0", "\0a", "\u{ad}"])),
            1 => s.push(gen::any_char(r)),
            _ => s.push((b' ' + r.below(95) as u8) as char),
        }
    }
    s
}

pub fn c07(ctx: &mut Ctx) {
    ctx.phase("int8", 256, |ctx, i, _| {
        int_case!(ctx, i as u8, u8_suffixed, u8_unsuffixed, u8);
        int_case!(ctx, i as u8 as i8, i8_suffixed, i8_unsuffixed, i8);
        let b = i as u8;
        judge(ctx, "byte_character", &Literal::byte_character(b), &Value::Byte(b, String::new()))?;
        ctx.count("bytes", 1);
        Ok(())
    });
    ctx.phase("int16", 65536, |ctx, i, _| {
        int_case!(ctx, i as u16, u16_suffixed, u16_unsuffixed, u16);
        int_case!(ctx, i as u16 as i16, i16_suffixed, i16_unsuffixed, i16);
        if i % 64 == 0 {
            forget_sources();
        }
        Ok(())
    });
    let n = ctx.n(150_000, 3_000_000);
    ctx.phase("wide", n, |ctx, i, r| {
        // boundaries first: 2^k + d
        let v: u128 = if i < 128 * 9 {
            (1u128 << (i / 9)).wrapping_add((i % 9) as u128).wrapping_sub(4)
        } else {
            let x = ((r.next() as u128) << 64) | r.next() as u128;
            let mut x = x >> r.below(128);
            if r.chance(1, 3) {
                x = 10u128.pow(r.below(39) as u32).wrapping_add(r.below(3) as u128).wrapping_sub(1);
            }
            x
        };
        let w = if r.chance(1, 2) { v } else { v.wrapping_neg() };
        int_case!(ctx, w as u32, u32_suffixed, u32_unsuffixed, u32);
        int_case!(ctx, w as i32, i32_suffixed, i32_unsuffixed, i32);
        int_case!(ctx, w as u64, u64_suffixed, u64_unsuffixed, u64);
        int_case!(ctx, w as i64, i64_suffixed, i64_unsuffixed, i64);
        int_case!(ctx, w, u128_suffixed, u128_unsuffixed, u128);
        int_case!(ctx, w as i128, i128_suffixed, i128_unsuffixed, i128);
        int_case!(ctx, w as usize, usize_suffixed, usize_unsuffixed, usize);
        int_case!(ctx, w as isize, isize_suffixed, isize_unsuffixed, isize);
        forget_sources();
        Ok(())
    });
    let n = ctx.n(60_000, 2_000_000);
    ctx.phase("float", n, |ctx, i, r| {
        let f = match i % 6 {
            0 => f64::from_bits(r.next()),
            1 => f64::from_bits((r.next() & 0x800f_ffff_ffff_ffff) | (1023 + r.below(70) as u64) << 52),
            2 => (r.next() as i64 >> r.below(64)) as f64,
            3 => [0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e15, 1e16, 1e17, 1e21, 1e22, 1e-5, 1e-7, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 0.1, 123456789012345680.0][r.below(21)],
            4 => (r.below(1000) as f64) * 10f64.powi(r.below(40) as i32 - 20),
            _ => f64::from_bits(r.next() & 0x800f_ffff_ffff_ffff),
        };
        f64_case(ctx, f)?;
        f32_case(ctx, f as f32)?;
        f32_case(ctx, f32::from_bits(r.next() as u32))?;
        forget_sources();
        Ok(())
    });
    // every char, alone and inside a string with what follows it
    ctx.phase("char", 0x110000 / 16, |ctx, i, r| {
        for k in 0..16 {
            let c = match char::from_u32(i as u32 * 16 + k) {
                Some(c) => c,
                None => continue,
            };
            judge(ctx, "character", &Literal::character(c), &Value::Char(c, String::new()))?;
            let s = match r.below(4) {
                0 => c.to_string(),
                1 => format!("{}0", c),
                2 => format!("a{}", c),
                _ => format!("{}{}", gen::any_char(r), c),
            };
            judge(ctx, "string", &Literal::string(&s), &Value::Str(s.clone(), String::new()))?;
            if c != '\0' && !s.contains('\0') {
                let cs = CString::new(s.clone()).unwrap();
                judge(ctx, "c_string", &Literal::c_string(&cs), &Value::CStr(s.into_bytes(), String::new()))?;
            }
            ctx.count("characters", 1);
        }
        forget_sources();
        Ok(())
    });
    // every pair of bytes
    ctx.phase("byte-pairs", 65536, |ctx, i, r| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        let mut v = vec![a, b];
        judge(ctx, "byte_string", &Literal::byte_string(&v), &Value::Bytes(v.clone(), String::new()))?;
        v.push(r.next() as u8);
        judge(ctx, "byte_string", &Literal::byte_string(&v), &Value::Bytes(v.clone(), String::new()))?;
        if a != 0 && b != 0 {
            let mut v = vec![a, b];
            let cs = CString::new(v.clone()).unwrap();
            judge(ctx, "c_string", &Literal::c_string(&cs), &Value::CStr(v.clone(), String::new()))?;
            v.push((r.next() as u8).max(1));
            let cs = CString::new(v.clone()).unwrap();
            judge(ctx, "c_string", &Literal::c_string(&cs), &Value::CStr(v, String::new()))?;
        }
        if a < 0x80 && b < 0x80 {
            let s = format!("{}{}", a as char, b as char);
            judge(ctx, "string", &Literal::string(&s), &Value::Str(s.clone(), String::new()))?;
        }
        forget_sources();
        ctx.count("byte pairs", 1);
        Ok(())
    });
    let n = ctx.n(150_000, 5_000_000);
    ctx.phase("strings", n, |ctx, _, r| {
        let s = rand_string(r);
        judge(ctx, "string", &Literal::string(&s), &Value::Str(s.clone(), String::new()))?;
        ctx.sample(|| format!("string({:?}) -> {}", s, Literal::string(&s)));
        let b = rand_bytes(r, 12, true);
        judge(ctx, "byte_string", &Literal::byte_string(&b), &Value::Bytes(b.clone(), String::new()))?;
        let b = rand_bytes(r, 12, false);
        let cs = CString::new(b.clone()).unwrap();
        judge(ctx, "c_string", &Literal::c_string(&cs), &Value::CStr(b, String::new()))?;
        ctx.count("strings of each kind", 1);
        forget_sources();
        Ok(())
    });
    let sizes = gen::sizes(300, 70_001);
    ctx.phase("lengths", sizes.len() as u64 * 6, |ctx, i, r| {
        let n = sizes[(i / 6) as usize];
        let s = long_string(i, n, r);
        judge(ctx, "string", &Literal::string(&s), &Value::Str(s.clone(), String::new()))?;
        let mut b = s.into_bytes();
        if i % 3 == 0 {
            b.iter_mut().for_each(|x| *x = r.next() as u8);
        }
        judge(ctx, "byte_string", &Literal::byte_string(&b), &Value::Bytes(b.clone(), String::new()))?;
        b.iter_mut().filter(|x| **x == 0).for_each(|x| *x = 0xff);
        let cs = CString::new(b.clone()).unwrap();
        judge(ctx, "c_string", &Literal::c_string(&cs), &Value::CStr(b, String::new()))?;
        ctx.count("string lengths", 1);
        forget_sources();
        Ok(())
    });
}

/// A text of `n` characters of one of several sorts.
fn long_string(sort: u64, n: usize, r: &mut Rng) -> String {
    match sort % 6 {
        0 => "a".repeat(n),
        1 => "\\".repeat(n),
        2 => "é".repeat(n),
        3 => "\0".repeat(n),
        4 => (0..n).map(|_| gen::any_char(r)).collect(),
        _ => (0..n).map(|i| if i + 1 == n { '"' } else { (b' ' + r.below(95) as u8) as char }).collect(),
    }
}

// ---------------------------------------------------------------- C09

#[cfg(procmacro2_semver_exempt)]
fn lf(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, b) in s.iter().enumerate() {
        if *b == b'\r' && s.get(i + 1) == Some(&b'\n') {
            continue;
        }
        v.push(*b);
    }
    v
}

#[cfg(procmacro2_semver_exempt)]
pub fn values(ctx: &mut Ctx, lit: &Literal) -> Result<(), String> {
    use proc_macro2::ConversionErrorKind as K;
    let text = lit.to_string();
    ctx.set_input(&text);
    let want = decode(&text);
    let s = catch(|| lit.str_value()).map_err(|e| format!("str_value panicked: {}", e))?;
    let b = catch(|| lit.byte_str_value()).map_err(|e| format!("byte_str_value panicked: {}", e))?;
    let c = catch(|| lit.cstr_value()).map_err(|e| format!("cstr_value panicked: {}", e))?;
    let crlf = text.contains("\r\n");
    let mut other = |name: &str, got: Result<Vec<u8>, K>| -> Result<(), String> {
        match got {
            Err(K::InvalidLiteralKind) => {
                ctx.count("other kinds refused", 1);
                Ok(())
            }
            Err(e) => Err(format!("{} of {:?}: {:?}, expected InvalidLiteralKind", name, text, e)),
            Ok(v) => Err(format!("{} of {:?}: {:?}, although it is of another kind", name, text, v)),
        }
    };
    let (name, got, value, suf) = match &want {
        Some(Value::Str(v, suf)) => {
            other("byte_str_value", b)?;
            other("cstr_value", c)?;
            ("str_value", s.map(String::into_bytes), v.clone().into_bytes(), suf)
        }
        Some(Value::Bytes(v, suf)) => {
            other("str_value", s.map(String::into_bytes))?;
            other("cstr_value", c)?;
            ("byte_str_value", b, v.clone(), suf)
        }
        Some(Value::CStr(v, suf)) => {
            other("str_value", s.map(String::into_bytes))?;
            other("byte_str_value", b)?;
            let mut v = v.clone();
            v.push(0);
            ("cstr_value", c, v, suf)
        }
        _ => {
            other("str_value", s.map(String::into_bytes))?;
            other("byte_str_value", b)?;
            return other("cstr_value", c);
        }
    };
    match got {
        Ok(v) if v == value || (crlf && lf(&v) == lf(&value)) => {
            ctx.count(name, 1);
            ctx.nontrivial(hash_bytes(text.as_bytes()));
            ctx.sample(|| format!("{}({}) = {:?}", name, text, v));
            Ok(())
        }
        Ok(v) => Err(format!("{} of {:?}: {:?}, expected {:?}", name, text, v, value)),
        // not promised: suffixed literals, and carriage returns the compiler
        // never sees
        Err(_) if !suf.is_empty() || crlf => {
            ctx.count("without a promise", 1);
            Ok(())
        }
        Err(e) => Err(format!("{} of {:?}: {:?}, expected {:?}", name, text, e, value)),
    }
}

#[cfg(not(procmacro2_semver_exempt))]
pub fn c09(_: &mut Ctx) {
    panic!("C09 needs procmacro2_semver_exempt");
}

#[cfg(procmacro2_semver_exempt)]
pub fn c09(ctx: &mut Ctx) {
    for t in gen::THEMES {
        let len = if ctx.thorough { t.thorough } else { t.quick };
        let n = gen::nth_count(t.alpha, len);
        ctx.phase(&format!("all:{}", t.name), n, |ctx, i, _| {
            let mut s = String::from(t.pre);
            gen::nth_string(t.alpha, i, &mut s);
            s.push_str(t.post);
            ctx.set_input(&s);
            let r = s.parse::<TokenStream>();
            if i % 64 == 0 {
                forget_sources();
            }
            if let Ok(ts) = r {
                for t in ts {
                    if let TokenTree::Literal(l) = t {
                        values(ctx, &l)?;
                    }
                }
            }
            Ok(())
        });
    }
    decoding(ctx, false);
}

/// A literal of that text, if it is one. Inside a macro, only text about
/// which the compiler has no ideas of its own is asked.
#[cfg(procmacro2_semver_exempt)]
fn literal_of(s: &str, inside: bool) -> Option<Literal> {
    if inside {
        let must = matches!(reflex::literal(s), Lit::Ok { end, may: false } if end == s.len());
        if !must || s.contains('\r') {
            return None;
        }
        let last = s.rfind(['"', '\'', '#']).map_or(0, |i| i + 1);
        if !s[last..].is_ascii() {
            return None;
        }
    }
    s.parse().ok()
}

#[cfg(procmacro2_semver_exempt)]
pub fn decoding(ctx: &mut Ctx, inside: bool) {
    // every escape of two hex digits and every char of the BMP as \u
    ctx.phase("escapes", if inside { 0x400 } else { 0x11000 }, |ctx, i, r| {
        for k in 0..16 {
            let v = i as u32 * 16 + k;
            let mut forms = Vec::new();
            if v < 256 {
                for (p, h) in [("", format!("{:02x}", v)), ("b", format!("{:02x}", v)), ("b", format!("{:02X}", v)), ("c", format!("{:02X}", v))] {
                    forms.push(format!("{}\"{}\\x{}{}\"", p, r.pick(&["", "a", "\\n", "0"]), h, r.pick(&["", "0", "\\\\", "f"])));
                }
            }
            forms.push(format!("{}\"\\u{{{:x}}}\"", r.pick(&["", "c"]), v));
            if let Some(c) = char::from_u32(v) {
                forms.push(format!("{}\"{}\"", r.pick(&["", "c", "r", "cr", "br", "b"]), c));
                forms.push(format!("{}#\"\"{}\\\"#", r.pick(&["r", "cr", "br"]), c));
                forms.push(format!("{}\"\\\n {}\"", r.pick(&["", "c", "b"]), c));
            }
            for f in forms {
                if let Some(l) = literal_of(&f, inside) {
                    values(ctx, &l)?;
                }
            }
        }
        forget_sources();
        Ok(())
    });
    let n = ctx.n(400_000, 8_000_000);
    ctx.phase("literals", n, |ctx, i, r| {
        let mut s = String::new();
        match i % 4 {
            0 => gen::literal(r, &mut s),
            _ => gen::string_lit(r, &mut s),
        }
        if i % 8 == 7 {
            gen::mutate(r, &mut s);
        }
        ctx.set_input(&s);
        if let Some(l) = literal_of(&s, inside) {
            values(ctx, &l)?;
        }
        if i % 64 == 0 {
            forget_sources();
        }
        Ok(())
    });
    let n = ctx.n(300_000, 6_000_000);
    ctx.phase("constructed", n, |ctx, i, r| {
        let l = match i % 4 {
            0 => Literal::string(&rand_string(r)),
            1 => Literal::byte_string(&rand_bytes(r, 12, true)),
            2 => Literal::c_string(&CString::new(rand_bytes(r, 12, false)).unwrap()),
            _ => crate::text::any_literal(r),
        };
        values(ctx, &l)
    });
    let sizes = gen::sizes(300, 70_001);
    const UNITS: &[&str] = &["a", "é", "\\n", "\\x41", "\\u{e9}", "\\\n  ", "\r\n", "\\\\", "\\0a", "\\xff", "x\\\r\n\t"];
    ctx.phase("lengths", sizes.len() as u64 * 8, |ctx, i, r| {
        let n = sizes[(i / 8) as usize];
        let body: String = match i % 8 {
            0..=4 => r.pick(UNITS).repeat(n),
            5 => (0..n).map(|_| r.pick(UNITS)).collect(),
            6 => format!("{}{}", "a".repeat(n), r.pick(UNITS)),
            _ => format!("{}{}", r.pick(UNITS), "b".repeat(n)),
        };
        let text = match r.below(6) {
            0 | 1 => format!("\"{}\"", body),
            2 => format!("b\"{}\"", body),
            3 => format!("c\"{}\"", body),
            4 => format!("{}\"{}\"", r.pick(&["r", "br", "cr"]), body),
            _ => format!("{}##\"{}\"##", r.pick(&["r", "br", "cr"]), body),
        };
        if let Some(l) = literal_of(&text, inside) {
            values(ctx, &l)?;
            ctx.count("long literals decoded", 1);
        }
        forget_sources();
        Ok(())
    });
    let files = gen::corpus(300);
    ctx.phase("corpus", files.len() as u64, |ctx, i, _| {
        if let Ok(ts) = files[i as usize].1.parse::<TokenStream>() {
            let mut out = Vec::new();
            crate::flat::flatten(ts, &mut out);
            forget_sources();
            for e in out {
                if let IEv::Lit(t) = e.ev {
                    if let Some(l) = literal_of(&t, inside) {
                        values(ctx, &l)?;
                    }
                }
            }
            forget_sources();
            ctx.count("real source files", 1);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn common(c: char) -> bool {
    c.is_ascii() || matches!(c, 'à'..='ö' | 'ø'..='ÿ' | '\u{4e00}'..='\u{9fa5}')
}

pub fn valid_ident(s: &str) -> bool {
    !s.is_empty() && reflex::ident_len(s) == s.len()
}

/// Creation of `s`, plain and raw, succeeds exactly when it may.
fn creation(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    ctx.set_input(s);
    let ok = valid_ident(s);
    let plain = catch(|| Ident::new(s, Span::call_site()));
    match (&plain, ok) {
        (Ok(i), true) => {
            if i.to_string() != s || *i != *s {
                return Err(format!("Ident::new({:?}) prints {:?}", s, i.to_string()));
            }
            ctx.count("identifiers created", 1);
        }
        (Err(_), false) => ctx.count("invalid identifiers refused", 1),
        (Ok(_), false) => return Err(format!("Ident::new({:?}) succeeded", s)),
        (Err(e), true) => return Err(format!("Ident::new({:?}) panicked: {}", s, e)),
    }
    let raw = catch(|| Ident::new_raw(s, Span::call_site()));
    let rok = ok && !reflex::raw_forbidden(s);
    match (&raw, rok) {
        (Ok(i), true) => {
            let t = format!("r#{}", s);
            if i.to_string() != t || *i != t || *i == *s {
                return Err(format!("Ident::new_raw({:?}) prints {:?}", s, i.to_string()));
            }
            ctx.count("raw identifiers created", 1);
        }
        (Err(_), false) => ctx.count("invalid raw identifiers refused", 1),
        (Ok(_), false) => return Err(format!("Ident::new_raw({:?}) succeeded", s)),
        (Err(e), true) => return Err(format!("Ident::new_raw({:?}) panicked: {}", s, e)),
    }
    ctx.nontrivial(hash_bytes(s.as_bytes()));
    Ok(())
}

fn parse_ident(t: &str) -> Option<Ident> {
    let ts: TokenStream = t.parse().ok()?;
    let mut it = ts.into_iter();
    match (it.next(), it.next()) {
        (Some(TokenTree::Ident(i)), None) => Some(i),
        _ => None,
    }
}

/// All comparison operations between two identifiers agree with the text.
fn compare(ctx: &mut Ctx, a: &Ident, ta: &str, b: &Ident, tb: &str) -> Result<(), String> {
    ctx.set_input(&format!("{} / {}", ta, tb));
    if a.to_string() != ta || b.to_string() != tb {
        return Err(format!("printed as {:?} and {:?}", a.to_string(), b.to_string()));
    }
    let eq = ta == tb;
    if (a == b) != eq || (b == a) != eq || (a != b) == eq {
        return Err(format!("equality is {}", a == b));
    }
    let o = ta.cmp(tb);
    if a.cmp(b) != o || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) || (a < b) != ta.lt(tb) || (a >= b) != ta.ge(tb) {
        return Err(format!("order is {:?}, that of the text {:?}", a.cmp(b), o));
    }
    if eq && hash_of(a) != hash_of(b) {
        return Err("equal but hashed differently".into());
    }
    // comparison with strings
    for (i, t) in [(a, ta), (b, tb)] {
        for s in [ta, tb, t.strip_prefix("r#").unwrap_or(t), "r#", "", "r", &format!("r#{}", t)[..], &t[..t.len() - t.chars().last().map_or(0, char::len_utf8)]] {
            let want = t == s;
            if (*i == *s) != want || (*i == s.to_string()) != want || (*i == s) != want {
                return Err(format!("{} == {:?} is {}", t, s, *i == *s));
            }
        }
    }
    // strings of the same length that differ in the first bytes only
    for (i, t) in [(a, ta), (b, tb)] {
        let sym = t.strip_prefix("r#").unwrap_or(t);
        let less = &sym[sym.chars().next().map_or(0, char::len_utf8)..];
        for s in [
            format!("é{}", sym),
            format!("aé{}", less),
            format!("R#{}", sym),
            format!("r_{}", sym),
            format!("r# {}", sym),
            format!("#r{}", sym),
            format!("名{}", less),
            format!("r{}", sym),
            format!("r#r#{}", sym),
            format!("{} ", t),
            format!("{}\0", t),
        ] {
            let want = t == s;
            if (*i == s) != want || (*i == s[..]) != want {
                return Err(format!("{} == {:?} is {}", t, s, *i == s));
            }
        }
        let s = crate::busy::BusyStr(tb, std::cell::Cell::new(ta.len()));
        if (*i == s) != (t == tb) {
            return Err(format!("{} == a string {:?} that uses the library is {}", t, tb, *i == s));
        }
        ctx.count("strings of another beginning compared", 1);
    }
    ctx.count(if eq { "equal pairs compared" } else { "unequal pairs compared" }, 1);
    ctx.nontrivial(hash_bytes(format!("{} {}", ta, tb).as_bytes()));
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.phase("char", 0x110000 / 64, |ctx, i, r| {
        for k in 0..64 {
            let c = match char::from_u32(i as u32 * 64 + k) {
                Some(c) => c,
                None => continue,
            };
            // panics are slow: those that must be refused are thinned out
            let start = reflex::id_start(c);
            let cont = reflex::id_cont(c);
            let thin = (c as u32) >= 0x3000 && !ctx.thorough;
            if start || !thin || r.chance(1, 16) {
                creation(ctx, &c.to_string())?;
            }
            if cont || !thin || r.chance(1, 16) {
                creation(ctx, &format!("a{}", c))?;
                if cont {
                    creation(ctx, &format!("_{}z", c))?;
                }
            }
            if start {
                creation(ctx, &format!("{}9", c))?;
            }
            if start || cont || r.chance(1, 8) {
                // as parsed: the same validity
                for t in [c.to_string(), format!("x{}", c), format!("r#{}", c), format!("r#x{}", c)] {
                    let body = t.strip_prefix("r#").unwrap_or(&t);
                    let ok = valid_ident(body) && (body.len() == t.len() || !reflex::raw_forbidden(body));
                    ctx.set_input(&t);
                    match (parse_ident(&t), ok) {
                        (Some(i), true) => {
                            if i.to_string() != t {
                                return Err(format!("parsed identifier prints {:?}", i.to_string()));
                            }
                            ctx.count("identifiers parsed", 1);
                        }
                        (None, false) => {}
                        // whitespace and punctuation make several tokens or none
                        (Some(_), false) if body.trim_matches(|c: char| reflex::pattern_white_space(c) || c.is_whitespace()).len() != body.len() => {}
                        (Some(i), false) => return Err(format!("parsed as identifier {:?}", i.to_string())),
                        (None, true) => return Err("not parsed as one identifier".into()),
                    }
                }
                forget_sources();
            }
        }
        Ok(())
    });
    let words: Vec<String> = {
        let mut w: Vec<String> = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union auto raw gen safe macro_rules default _ __ _0 a b c r br cr rb é 名前 r1 0 9a 0x0 00 12 1_ r# r#a r#_ 'a 'static -a a-b a.b a::b $crate #a \"a\" a! a\0 \0"
            .split(' ')
            .map(String::from)
            .collect();
        w.push(String::new());
        w.push(" ".into());
        w.push("a ".into());
        w.push(" a".into());
        w.push("\u{feff}a".into());
        w.push("a\n".into());
        w.push("é\u{301}".into());
        // every way to write a short word in upper and lower case
        for k in w.clone() {
            if k.len() <= 6 && k.len() > 1 && k.bytes().all(|b| b.is_ascii_alphabetic()) {
                for m in 0..1u32 << k.len() {
                    let v: String =
                        k.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                    if v != k {
                        w.push(v);
                    }
                }
            }
            for v in [format!("{}_", k), format!("_{}", k), format!("{}s", k), format!("{}{}", k, k), format!("r{}", k), k.to_uppercase(), k.chars().rev().collect()] {
                w.push(v);
            }
        }
        w
    };
    let n = words.len() as u64;
    ctx.phase("words", n, |ctx, i, _| creation(ctx, &words[i as usize]));
    let alpha = ["a", "_", "r", "#", "9", "é", "\u{301}", "'", " ", "b", "-", "self"];
    let len = if ctx.thorough { 5 } else { 4 };
    let n = gen::nth_count(&alpha, len);
    ctx.phase("all-short", n, |ctx, i, _| {
        let mut s = String::new();
        gen::nth_string(&alpha, i, &mut s);
        creation(ctx, &s)
    });
    let n = ctx.n(40_000, 500_000);
    ctx.phase("random", n, |ctx, i, r| {
        let mut s = String::new();
        gen::ident(r, &mut s);
        match i % 3 {
            0 => {}
            1 => gen::mutate(r, &mut s),
            _ => {
                for _ in 0..r.below(300) {
                    s.push(r.ch("abcXYZ_019éß名"));
                }
                if r.chance(1, 3) {
                    let at = r.below(s.chars().count());
                    let b = s.char_indices().nth(at).unwrap().0;
                    s.insert(b, gen::any_char(r));
                }
            }
        }
        creation(ctx, &s)
    });
    comparisons(ctx, false);
}

/// Identifiers compared; inside a macro only of characters on which the
/// compiler has no ideas of its own.
pub fn comparisons(ctx: &mut Ctx, inside: bool) {
    let fine = |s: &str| !inside || s.chars().all(common);
    let sizes = gen::sizes(600, 70_001);
    ctx.phase("lengths", sizes.len() as u64 * 4, |ctx, i, r| {
        let n = sizes[(i / 4) as usize];
        let s: String = match i % 4 {
            0 => "a".repeat(n),
            1 => "名".repeat(n),
            2 => (0..n).map(|_| r.ch("abcXYZ_éß名")).collect(),
            // one bad character at the end or in the middle
            _ => {
                let mut s = "b".repeat(n);
                s.insert(if r.chance(1, 2) { n } else { r.below(n + 1) }, if inside { r.ch("-# .9\0") } else { r.ch("-# \u{301}.9\0") });
                s
            }
        };
        creation(ctx, &s)?;
        if valid_ident(&s) {
            let (id, mut t) = (Ident::new(&s, Span::call_site()), s.clone());
            let p = parse_ident(&s).ok_or("identifier not parsed")?;
            compare(ctx, &id, &s, &p, &s)?;
            // differing in one place
            t.insert(if r.chance(1, 2) { t.len() } else { 0 }, 'z');
            compare(ctx, &id, &s, &Ident::new(&t, Span::call_site()), &t)?;
            forget_sources();
        }
        ctx.count("identifier lengths", 1);
        Ok(())
    });
    let n = ctx.n(300_000, 6_000_000);
    ctx.phase("compare", n, |ctx, _, r| {
        let mk = |r: &mut Rng, near: Option<&str>| -> (Ident, String) {
            let mut s = String::new();
            match near {
                Some(t) if r.chance(2, 3) => {
                    s.push_str(t.strip_prefix("r#").unwrap_or(t));
                    match r.below(5) {
                        0 => s.push_str(r.pick(&["_", "a", "0", "é", "r"])),
                        1 if s.chars().count() > 1 => {
                            s.pop();
                        }
                        2 => s.insert_str(0, r.pick(&["r", "_", "a", "q", "s", "é"])),
                        _ => {}
                    }
                }
                _ => loop {
                    s.clear();
                    gen::ident(r, &mut s);
                    if fine(&s) {
                        break;
                    }
                },
            }
            let raw = r.chance(1, 2) && !reflex::raw_forbidden(&s);
            let text = if raw { format!("r#{}", s) } else { s.clone() };
            let id = match r.below(3) {
                0 => match parse_ident(&text) {
                    Some(i) => i,
                    None => panic!("{:?} not parsed as an identifier", text),
                },
                k => {
                    let span = if k == 1 {
                        Span::call_site()
                    } else {
                        "x yy".parse::<TokenStream>().unwrap().into_iter().last().unwrap().span()
                    };
                    if raw {
                        Ident::new_raw(&s, span)
                    } else {
                        Ident::new(&s, span)
                    }
                }
            };
            (id, text)
        };
        let (a, ta) = mk(r, None);
        let (b, tb) = mk(r, Some(&ta));
        let (c, tc) = mk(r, Some(&tb));
        compare(ctx, &a, &ta, &b, &tb)?;
        compare(ctx, &b, &tb, &c, &tc)?;
        compare(ctx, &a, &ta, &c, &tc)?;
        compare(ctx, &a, &ta, &a.clone(), &ta)?;
        ctx.sample(|| format!("{} {} {}", ta, tb, tc));
        let mut m = a.clone();
        m.set_span(b.span());
        compare(ctx, &a, &ta, &m, &ta)?;
        forget_sources();
        Ok(())
    });
    // hashing follows the text, so identifiers of different text spread
    let n = ctx.n(40, 400);
    ctx.phase("spread", n, |ctx, i, r| {
        let mut texts = std::collections::HashSet::new();
        let mut hashes = std::collections::HashSet::new();
        let mut map = std::collections::HashMap::new();
        let stem: String = (0..r.below(20)).map(|_| r.ch("abc_é")).collect();
        while texts.len() < 2000 {
            let k = texts.len();
            // differing at the end, at the front, in length, or anywhere
            let s = match i % 4 {
                0 => format!("x{}{}", stem, k),
                1 => format!("x{}{}", k, stem),
                2 => "y".repeat(k + 1),
                _ => {
                    let mut s = String::new();
                    gen::ident(r, &mut s);
                    if r.chance(1, 2) {
                        s.push_str(&r.below(10_000).to_string());
                    }
                    s
                }
            };
            if fine(&s) && texts.insert(s.clone()) {
                let id = if r.chance(1, 2) { Ident::new(&s, Span::call_site()) } else { parse_ident(&s).ok_or("identifier not parsed")? };
                hashes.insert(hash_of(&id));
                map.insert(id, s);
            }
        }
        ctx.set_input(&format!("{} identifiers such as {:?}", texts.len(), texts.iter().next()));
        if hashes.len() * 100 < texts.len() * 99 || map.len() != texts.len() {
            return Err(format!("{} different identifiers have {} different hashes and are {} keys of a map", texts.len(), hashes.len(), map.len()));
        }
        for (id, s) in &map {
            if *id != *s.as_str() || map.get(&Ident::new(s, Span::call_site())) != Some(s) {
                return Err(format!("{} is not found in the map", s));
            }
        }
        ctx.count("identifiers looked up by hash", map.len() as u64);
        ctx.nontrivial(hash_bytes(stem.as_bytes()) ^ i);
        forget_sources();
        Ok(())
    });
}
