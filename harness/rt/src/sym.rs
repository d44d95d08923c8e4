//! The interface between a harness and its engine. In the symbolic build the `sym_*` functions
//! are unresolved externals that symx implements; in the native build they replay a recorded
//! assignment to the symbolic bytes.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod ext {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_param(i: usize) -> u64;
        pub fn sym_conc(i: usize) -> usize;
    }
}
#[cfg(feature = "native")]
pub mod ext {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct State {
        pub bytes: Vec<u8>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub reach: Vec<String>,
        pub failed: Vec<String>,
        pub assumed_away: bool,
    }
    thread_local! { pub static ST: RefCell<State> = RefCell::new(State::default()); }
    fn lab(p: *const u8, n: usize) -> String {
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
    }
    /// unwinds to the replay driver when an assumption does not hold
    pub struct AssumedAway;
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for i in 0..n {
                let b = s.bytes.get(s.pos).copied().unwrap_or(0);
                s.pos += 1;
                *p.add(i) = b;
            }
        })
    }
    pub unsafe fn sym_assume(b: bool) {
        if !b {
            ST.with(|s| s.borrow_mut().assumed_away = true);
            std::panic::resume_unwind(Box::new(AssumedAway));
        }
    }
    pub unsafe fn sym_check(b: bool, p: *const u8, n: usize) {
        if !b {
            let l = lab(p, n);
            ST.with(|s| s.borrow_mut().failed.push(l));
        }
    }
    pub unsafe fn sym_reach(p: *const u8, n: usize) {
        let l = lab(p, n);
        ST.with(|s| s.borrow_mut().reach.push(l));
    }
    pub unsafe fn sym_param(i: usize) -> u64 {
        ST.with(|s| s.borrow().params.get(i).copied().unwrap_or(0))
    }
    pub unsafe fn sym_conc(i: usize) -> usize {
        i
    }
}

/// The property: `b` has to hold for every value of the symbolic bytes.
#[inline(always)]
pub fn check(b: bool, label: &'static str) {
    unsafe { ext::sym_check(b, label.as_ptr(), label.len()) }
}
/// Vacuity witness: the driver requires that some path gets here.
#[inline(always)]
pub fn reach(label: &'static str) {
    unsafe { ext::sym_reach(label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { ext::sym_assume(b) }
}
/// A parameter of the task: a constant for the engine.
#[inline(always)]
pub fn param(i: usize) -> usize {
    unsafe { ext::sym_param(i) as usize }
}
/// Splits the path into one for each feasible value.
#[inline(always)]
pub fn conc(i: usize) -> usize {
    unsafe { ext::sym_conc(i) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { ext::sym_bytes(b.as_mut_ptr(), N) };
    b
}
/// One symbolic byte less than n
pub fn choice(n: usize) -> usize {
    let b = bytes::<1>()[0] as usize;
    assume(b < n);
    b
}
/// As `choice`, with one path for each value
pub fn fork(n: usize) -> usize {
    conc(choice(n))
}

/// As `fork`, for up to 65536 values
pub fn fork2(n: usize) -> usize {
    let b = bytes::<2>();
    let i = b[0] as usize * 256 + b[1] as usize;
    assume(i < n);
    conc(i)
}

pub const MAX: usize = 64;

fn leak(buf: [u8; MAX], n: usize) -> &'static [u8] {
    let v: &'static mut [u8; MAX] = Box::leak(Box::new(buf));
    &v[..n]
}

fn raw(n: usize) -> [u8; MAX] {
    assert!(n <= MAX);
    let mut b = [0u8; MAX];
    if n > 0 {
        unsafe { ext::sym_bytes(b.as_mut_ptr(), n) };
    }
    b
}

/// Any string of `n` bytes (every valid UTF-8 encoding)
pub fn any_str(n: usize) -> &'static str {
    let b = leak(raw(n), n);
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// Any string of `n` ASCII characters
pub fn ascii_str(n: usize) -> &'static str {
    let b = raw(n);
    for c in &b[..n] {
        assume(*c < 128);
    }
    let b = leak(b, n);
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Any string of `n` ASCII characters that are all marked in `table`
pub fn table_str(n: usize, table: &'static [bool; 256]) -> &'static str {
    let b = raw(n);
    for c in &b[..n] {
        assume(*c < 128);
        assume(table[*c as usize]);
    }
    let b = leak(b, n);
    unsafe { std::str::from_utf8_unchecked(b) }
}

pub const fn table(chars: &[u8]) -> [bool; 256] {
    let mut t = [false; 256];
    let mut i = 0;
    while i < chars.len() {
        t[chars[i] as usize] = true;
        i += 1;
    }
    t
}
