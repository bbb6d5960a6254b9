//! User code the library calls back into, which uses the library meanwhile.
use proc_macro2::{Literal, Span, TokenStream};
use std::cell::Cell;
use std::fmt::{self, Write};
use std::ops::{Bound, RangeBounds};

/// Parses (well and badly), copies, prints and asks for locations.
pub fn busy(n: usize) {
    let mut t: TokenStream = "p (é) 'q".parse().unwrap();
    match n % 3 {
        0 => {
            let _ = "(".parse::<TokenStream>();
            let _ = "1é".parse::<Literal>();
        }
        1 => {
            let u = t.clone();
            t.extend(u);
            let _ = t.to_string();
        }
        _ => {
            let spans: Vec<Span> = t.into_iter().map(|t| t.span()).collect();
            for s in &spans {
                let _ = (s.source_text(), s.join(spans[0]));
                #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
                let _ = (s.start(), s.end(), s.byte_range(), s.file());
            }
        }
    }
}

/// A writer that uses the library.
#[derive(Default)]
pub struct BusyWriter {
    pub got: String,
    calls: usize,
}

impl Write for BusyWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls < 40 {
            busy(self.calls);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// The same text comes out of a writer that uses the library.
pub fn busy_writer(args: &dyn Fn(&mut dyn Write) -> fmt::Result) -> Result<(), String> {
    let mut plain = String::new();
    args(&mut plain).map_err(|_| "formatting failed")?;
    let mut w = BusyWriter::default();
    args(&mut w).map_err(|_| "formatting failed into a writer that uses the library")?;
    if w.got != plain {
        return Err(format!("into a writer that uses the library {:?} is written, otherwise {:?}", w.got, plain));
    }
    Ok(())
}

/// Bounds that use the library when asked; the answers are always the same.
pub struct BusyRange(pub Bound<usize>, pub Bound<usize>, pub Cell<usize>);

fn by_ref(b: &Bound<usize>) -> Bound<&usize> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}

impl RangeBounds<usize> for BusyRange {
    fn start_bound(&self) -> Bound<&usize> {
        busy(self.2.get());
        self.2.set(self.2.get() + 1);
        by_ref(&self.0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        busy(self.2.get());
        self.2.set(self.2.get() + 1);
        by_ref(&self.1)
    }
}

/// A string that uses the library when asked for.
pub struct BusyStr<'a>(pub &'a str, pub Cell<usize>);

impl AsRef<str> for BusyStr<'_> {
    fn as_ref(&self) -> &str {
        busy(self.1.get());
        self.1.set(self.1.get() + 1);
        self.0
    }
}
