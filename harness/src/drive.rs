//! Runs the real code.
use crate::refmodel::Cfg;
use crate::rng::Rng;
use crate::view::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yule_log::builder::ULogParserBuilder;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;

thread_local! {
    pub static GUARD: Cell<bool> = const { Cell::new(false) };
    pub static BIGGEST: Cell<usize> = const { Cell::new(0) };
    pub static TRACE: Cell<bool> = const { Cell::new(false) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// No message is larger than 64 KiB and no element of a decoded array larger than this in memory.
pub const MAX_ALLOC: usize = 65536 * 512;

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    if n > 1 << 20 {
        let _ = GUARD.try_with(|g| {
            if g.get() {
                let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
            }
        });
    }
}

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
pub struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        TRACE.with(|t| t.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let _ = std::fmt::write(&mut Null, *r.args());
        }
    }
    fn flush(&self) {}
}

pub fn install() {
    let _ = log::set_boxed_logger(Box::new(Logger));
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("panic: {m} at {at}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

/// Ok, or what went wrong: a panic, or an allocation that is too large.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BIGGEST.with(|b| b.set(0));
    GUARD.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(false));
    TRACE.with(|t| t.set(false));
    let big = BIGGEST.with(|b| b.get());
    match r {
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        Ok(_) if big > MAX_ALLOC => Err(format!("allocates {big} bytes at once")),
        Ok(x) => Ok(x),
    }
}

/// How the bytes arrive.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Whole,
    Chunks(u64),
}
pub struct Src<'a> {
    b: &'a [u8],
    chunks: Option<Rng>,
    /// bytes that arrive only after the first end of input
    pub late: Vec<u8>,
    ended: bool,
    late_pos: usize,
    /// What the reader reports after its bytes, if not their end.
    pub fails: Option<std::io::ErrorKind>,
}
impl<'a> Src<'a> {
    pub fn new(b: &'a [u8], m: Mode) -> Self {
        Src {
            b,
            chunks: match m {
                Mode::Whole => None,
                Mode::Chunks(s) => Some(Rng::new(s, 77)),
            },
            late: vec![],
            ended: false,
            late_pos: 0,
            fails: None,
        }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if let (true, Some(k)) = (self.b.is_empty(), self.fails) {
            return Err(std::io::Error::from(k));
        }
        if self.b.is_empty() {
            if !self.ended || self.late_pos >= self.late.len() {
                self.ended = true;
                return Ok(0);
            }
            let n = out.len().min(self.late.len() - self.late_pos);
            out[..n].copy_from_slice(&self.late[self.late_pos..self.late_pos + n]);
            self.late_pos += n;
            return Ok(n);
        }
        let mut n = out.len().min(self.b.len());
        if let Some(r) = &mut self.chunks {
            if r.chance(1, 5) {
                return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
            }
            n = n.min(r.range(1, 4));
        }
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

pub fn parser<R: Read>(r: R, c: &Cfg, coin: bool) -> Result<yule_log::parser::ULogParser<R>, ULogError> {
    let mut b = ULogParserBuilder::new(r);
    // Setters may be called in any order and repeatedly: the last call counts.
    if c.ts {
        b = b.include_header(!c.header);
    }
    // What is not asked for is off.
    if c.ts || coin {
        b = b.include_timestamp(c.ts);
    }
    if let Some(a) = &c.allow {
        if a.len() % 2 == 0 {
            b = b.set_subscription_allow_list(vec![String::from("G"), String::from("nothing")]);
        }
        b = b.set_subscription_allow_list(a.iter().map(|s| s.as_str()));
    }
    if c.pad || coin {
        b = b.include_padding(c.pad);
    }
    if c.header || c.ts || coin {
        b = b.include_header(c.header);
    }
    b.build()
}

#[derive(Debug, Clone)]
pub struct Act {
    pub items: Vec<Result<Item, String>>,
    /// The iterator returned None.
    pub ended: bool,
    /// A panic or huge allocation, after `items`.
    pub crash: Option<String>,
    /// Something was yielded after None.
    pub after_end: bool,
}

pub fn actual_with(b: &[u8], c: &Cfg, m: Mode, late: &[u8], trace: bool, each: impl FnMut(&UlogMessage)) -> Act {
    actual_from(b, c, m, late, None, trace, each)
}
fn actual_from(b: &[u8], c: &Cfg, m: Mode, late: &[u8], fails: Option<(std::io::ErrorKind, usize)>, trace: bool, mut each: impl FnMut(&UlogMessage)) -> Act {
    let items = RefCell::new(vec![]);
    let mut ended = false;
    let mut after_end = false;
    let cap = fails.map_or(b.len() / 3 + 20, |f| f.1);
    let crash = {
        let (items, ended, after_end) = (&items, &mut ended, &mut after_end);
        guarded(|| {
            TRACE.with(|t| t.set(trace));
            let mut src = Src::new(b, m);
            src.late = late.to_vec();
            src.fails = fails.map(|f| f.0);
            let mut p = match parser(src, c, b.len() % 2 == 0) {
                Ok(p) => p,
                Err(e) => {
                    items.borrow_mut().push(Err(format!("{e:?}")));
                    *ended = true;
                    return;
                }
            };
            for _ in 0..cap {
                match p.next() {
                    None => {
                        *ended = true;
                        break;
                    }
                    Some(Ok(m)) => {
                        each(&m);
                        items.borrow_mut().push(Ok(item_v(&m)));
                    }
                    Some(Err(e)) => items.borrow_mut().push(Err(format!("{e:?}"))),
                }
            }
            if *ended {
                for _ in 0..4 {
                    if p.next().is_some() {
                        *after_end = true;
                    }
                }
            }
        })
        .err()
    };
    Act { items: items.into_inner(), ended, crash, after_end }
}
pub fn actual(b: &[u8], c: &Cfg, m: Mode) -> Act {
    actual_with(b, c, m, &[], false, |_| {})
}
/// The reader fails after these bytes; at most so many steps.
pub fn faulty(b: &[u8], c: &Cfg, m: Mode, k: std::io::ErrorKind, steps: usize) -> Act {
    actual_from(b, c, m, &[], Some((k, steps)), false, |_| {})
}

/// The nesting depth that the library accepts: formats nested this deep decode, one more does not.
pub fn probe_depth() -> Result<usize, String> {
    let ok = |n: usize| -> Result<bool, String> {
        // level 0 is the subscribed format; `n` nested levels below it
        let mut msgs: Vec<(u8, Vec<u8>)> = vec![];
        for i in 0..=n {
            let inner = if i == n { "uint8_t v;".to_string() } else { format!("n{} c;", i + 1) };
            let ts = if i == 0 { "uint64_t timestamp;" } else { "" };
            msgs.push((b'F', format!("n{i}:{ts}{inner}").into_bytes()));
        }
        msgs.push((b'A', [&[0u8, 0, 0][..], b"n0"].concat()));
        msgs.push((b'D', vec![0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]));
        let mut b = vec![0x55, 0x4c, 0x6f, 0x67, 1, 0x12, 0x35, 1, 0, 0, 0, 0, 0, 0, 0, 0];
        for (t, c) in &msgs {
            b.extend((c.len() as u16).to_le_bytes());
            b.push(*t);
            b.extend(c);
        }
        let a = actual(&b, &Cfg::default(), Mode::Whole);
        match (&a.crash, a.items.last()) {
            (Some(c), _) => Err(c.clone()),
            (_, Some(Ok(Item::Data { .. }))) => Ok(true),
            _ => Ok(false),
        }
    };
    if !ok(16)? {
        return Err("16 nested levels are not decoded".into());
    }
    let (mut lo, mut hi) = (16, 257);
    if ok(hi)? {
        return Err("more than 256 nested levels are decoded".into());
    }
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if ok(mid)? {
            lo = mid
        } else {
            hi = mid
        }
    }
    Ok(lo)
}
