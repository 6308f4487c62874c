//! Shared machinery: seeded RNG, JSON values, panic capture, watchdog, trace output.
use std::cell::RefCell;
use std::fmt::{self, Write as _};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- RNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r.next();
        r
    }
    /// A seed for something seeded; often one somebody might treat specially.
    pub fn seed(&mut self) -> u64 { if self.chance(1, 4) { *self.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, u32::MAX as u64, 0xFFFF, 0x10000, 1 << 31]) } else { self.next() } }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn u16(&mut self) -> u16 {
        self.next() as u16
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// A 16-bit word biased towards boundary values.
    pub fn word(&mut self) -> u16 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x3000, 0x2FFF, 0xFDFF, 0xFE00, 0x00FF, 0x0100, 0x8001]),
            1 => 1 << self.below(16),
            2 => (self.next() as u16) & 0xFF,
            _ => self.u16(),
        }
    }
}

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    B(bool),
    S(String),
    A(Vec<V>),
    O(Vec<(&'static str, V)>),
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for V { fn from(x: $t) -> V { V::I(x as i64) } })* } }
from_int!(i16, u16, i32, u32, i64, u64, usize, u8, i8);
impl From<bool> for V { fn from(x: bool) -> V { V::B(x) } }
impl From<&str> for V { fn from(x: &str) -> V { V::S(x.to_string()) } }
impl From<&String> for V { fn from(x: &String) -> V { V::S(x.clone()) } }
impl From<String> for V { fn from(x: String) -> V { V::S(x) } }
impl<T: Into<V>> From<Vec<T>> for V { fn from(x: Vec<T>) -> V { V::A(x.into_iter().map(Into::into).collect()) } }
impl<T: Into<V> + Clone, const N: usize> From<&[T; N]> for V { fn from(x: &[T; N]) -> V { V::A(x.iter().cloned().map(Into::into).collect()) } }
impl<T: Into<V> + Clone> From<&[T]> for V { fn from(x: &[T]) -> V { V::A(x.iter().cloned().map(Into::into).collect()) } }
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::I(i) => write!(f, "{i}"),
            V::B(b) => write!(f, "{b}"),
            V::S(s) => {
                f.write_char('"')?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        c if (' '..='~').contains(&c) => f.write_char(c)?,
                        c => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) { write!(f, "\\u{u:04x}")?; }
                        }
                    }
                }
                f.write_char('"')
            }
            V::A(xs) => {
                f.write_char('[')?;
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 { f.write_char(',')?; }
                    write!(f, "{x}")?;
                }
                f.write_char(']')
            }
            V::O(xs) => {
                f.write_char('{')?;
                for (i, (k, x)) in xs.iter().enumerate() {
                    if i > 0 { f.write_char(',')?; }
                    write!(f, "\"{k}\":{x}")?;
                }
                f.write_char('}')
            }
        }
    }
}
#[macro_export]
macro_rules! arr { ($($e:expr),* $(,)?) => { $crate::util::V::A(vec![$($crate::util::V::from($e)),*]) } }
#[macro_export]
macro_rules! obj { ($($k:literal : $e:expr),* $(,)?) => { $crate::util::V::O(vec![$(($k, $crate::util::V::from($e))),*]) } }

/// Text as a sequence of Unicode code points (how the specification sees text).
pub fn cps(s: &str) -> V { V::A(s.chars().map(|c| V::I(c as i64)).collect()) }
/// Text as a sequence of bytes.
pub fn bytes(s: &str) -> V { V::A(s.bytes().map(|c| V::I(c as i64)).collect()) }

// ---------------------------------------------------------------- panics, hangs
thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{loc}: {msg}"));
    }));
}
static CASE: Mutex<Vec<(u64, u64, String)>> = Mutex::new(vec![]); // (case id, start ms, description)
static CASE_NO: AtomicU64 = AtomicU64::new(0);
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
/// Runs code under test; a panic is returned as data.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
/// Runs code under test, with a watchdog: a case that never returns is reported as a hang.
pub fn guarded<T>(desc: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    let id = CASE_NO.fetch_add(1, Ordering::Relaxed);
    CASE.lock().unwrap().push((id, now_ms(), desc()));
    let r = catch(f);
    CASE.lock().unwrap().retain(|c| c.0 != id);
    r
}
pub fn start_watchdog(out: std::path::PathBuf, limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        let c = CASE.lock().unwrap();
        if let Some((_, _, d)) = c.iter().find(|(_, s, _)| now.saturating_sub(*s) > limit_ms) {
            let mut f = std::fs::File::create(out.join("hang.txt")).unwrap();
            let _ = writeln!(f, "{d}");
            let _ = f.flush();
            std::process::exit(3);
        }
    });
}

// ---------------------------------------------------------------- output
pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub out: std::path::PathBuf,
    pub args: Vec<String>,
}
impl Cx {
    pub fn rng(&self, stream: u64) -> Rng { Rng::new(self.seed, stream) }
    /// quick value or thorough value
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn file(&self, name: &str) -> Out {
        Out { w: std::io::BufWriter::new(std::fs::File::create(self.out.join(name)).unwrap()), lines: 0 }
    }
}
pub struct Out { w: std::io::BufWriter<std::fs::File>, pub lines: usize }
impl Out {
    pub fn put(&mut self, v: &V) {
        writeln!(self.w, "{v}").unwrap();
        self.lines += 1;
    }
    pub fn put_all(&mut self, vs: Vec<V>) { for v in vs { self.put(&v); } }
}
/// Parallel ordered map over 0..n.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicU64::new(0);
    let res: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..8.min(n.max(1)) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= n { break; }
                let r = f(i);
                res.lock().unwrap()[i] = Some(r);
            });
        }
    });
    res.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
