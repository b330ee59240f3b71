//! Harness intrinsics: symbolic inputs, assumptions, assertions. Under the
//! symbolic executor the engine provides them; in the native replay binary
//! they read a concrete input vector.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_cover(k: u64);
    fn sym_out(v: u64);
    fn sym_param(i: u64) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_utf8_valid(p: *const u8, n: usize) -> bool;
    fn sym_alloc_peak() -> u64;
    fn sym_alloc_reset();
}

#[inline(never)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    // shards about crashes and termination only (parameter 15) compare nothing
    if param(15) == 1 {
        return;
    }
    unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(k: u64) {
    unsafe { sym_cover(k) }
}
pub fn out(v: u64) {
    unsafe { sym_out(v) }
}
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn utf8_valid(b: &[u8]) -> bool {
    unsafe { sym_utf8_valid(b.as_ptr(), b.len()) }
}
pub fn alloc_reset() {
    unsafe { sym_alloc_reset() }
}
pub fn alloc_peak() -> u64 {
    unsafe { sym_alloc_peak() }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
/// contents are fixed instead of symbolic: parts of a longer history
static FIXED: AtomicU64 = AtomicU64::new(0);
pub fn fix(f: bool) {
    FIXED.store(f as u64, Relaxed)
}
pub fn fill(b: &mut [u8]) {
    match FIXED.load(Relaxed) {
        0 => unsafe { sym_bytes(b.as_mut_ptr(), b.len()) },
        n => {
            // single bytes are zero: codes and flags
            if b.len() > 1 {
                for (i, x) in b.iter_mut().enumerate() {
                    *x = b'a' + ((n as usize + (5 + n as usize / 26) * i) % 26) as u8
                }
                // four byte integers stay below the largest variable byte integer
                if b.len() == 4 {
                    b[0] = 0;
                }
                FIXED.store(n + 1, Relaxed)
            }
        }
    }
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b);
    u16::from_be_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_be_bytes(b)
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// forks: one path per value below n
pub fn choose(n: u64) -> u64 {
    let b = u8() as u64;
    assume(b < n);
    conc(b)
}
/// a parameter, or with n << 40 added one of n values from there (forks)
pub fn span(i: u64) -> u64 {
    let v = param(i);
    let n = v >> 40;
    let mut x = v & 0xFF_FFFF_FFFF;
    if n > 0 {
        let d = u16() as u64;
        assume(d < n);
        x += conc(d)
    }
    x
}
/// How optional parts are chosen: 0 fork over both, 1 all present, 2 all
/// absent, else bit i of mode >> 2 decides the i-th (cyclic over 32 bits).
static MODE: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
pub fn set_mode(m: u64) {
    MODE.store(m, Relaxed);
    COUNT.store(0, Relaxed);
}
pub fn mode() -> u64 {
    MODE.load(Relaxed)
}
/// one optional part
pub fn flip() -> bool {
    match MODE.load(Relaxed) {
        0 => choose(2) == 1,
        1 => true,
        2 => false,
        m => {
            let i = COUNT.fetch_add(1, Relaxed) % 32;
            (m >> (2 + i)) & 1 == 1
        }
    }
}
/// alternatives do not depend on the presence pattern
static SAME: AtomicBool = AtomicBool::new(false);
pub fn same_picks() {
    SAME.store(true, Relaxed)
}
/// one of n alternatives, forked unless the presence mode is fixed
pub fn pick(n: u64) -> u64 {
    match MODE.load(Relaxed) {
        0 => choose(n),
        m => {
            let m = if SAME.load(Relaxed) { 1 } else { m };
            (m + COUNT.fetch_add(1, Relaxed)) % n
        }
    }
}
/// any UTF-8 string of exactly n bytes
pub fn string(n: usize) -> String {
    let v = bytes(n);
    assume(utf8_valid(&v));
    unsafe { String::from_utf8_unchecked(v) }
}
static ASCII: AtomicU64 = AtomicU64::new(0);
pub fn ascii(a: usize) {
    ASCII.store(a as u64, Relaxed)
}
fn ascii_bytes(n: usize) -> Vec<u8> {
    if ASCII.load(Relaxed) == 1 {
        let two = [u8() & 0x7f, u8() & 0x7f];
        let mut v = vec![];
        v.extend_from_slice(&two);
        while v.len() < n {
            let m = v.len().min(n - v.len());
            v.extend_from_within(..m);
        }
        return v;
    }
    let mut v = bytes(n);
    for b in v.iter_mut() {
        *b &= 0x7f
    }
    v
}
fn pad(v: &mut Vec<u8>, n: usize) {
    let from = v.len();
    if n - from > 0 {
        let first = (n - from).min(97);
        for i in 0..first {
            v.push(b'a' + (i % 23) as u8);
        }
    }
    while v.len() < n {
        let m = (v.len() - from).min(n - v.len());
        v.extend_from_within(from..from + m);
    }
}
/// where long values are symbolic besides their start: around the one byte
/// length, the reader's buffer, the chunks read at once, and the end
fn windows(n: usize) -> Vec<(usize, usize)> {
    let mut w: Vec<(usize, usize)> = [127, 256, 8192, 16384, 65536, 131072].iter().map(|b| (b - 2, 4)).filter(|x| x.0 >= 32 && x.0 + 12 <= n).collect();
    w.push((n - 4, 4));
    w
}
/// a string of n bytes, the first k and a few places any UTF-8, the rest a fixed
/// pattern (all of it for k = 0)
pub fn big_string(n: usize, k: usize) -> String {
    if k > 0 && n > 32 && ASCII.load(Relaxed) != 0 {
        return unsafe { String::from_utf8_unchecked(ascii_bytes(n)) };
    }
    let mut v = string(k.min(n)).into_bytes();
    pad(&mut v, n);
    if k > 0 && n > 32 {
        for (at, m) in windows(n) {
            v[at..at + m].copy_from_slice(string(m).as_bytes());
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// n bytes, the first k and a few places symbolic, the rest a fixed pattern
pub fn big_bytes(n: usize, k: usize) -> Vec<u8> {
    if k > 0 && n > 32 && ASCII.load(Relaxed) != 0 {
        return ascii_bytes(n);
    }
    let mut v = bytes(k.min(n));
    pad(&mut v, n);
    if k > 0 && n > 32 {
        for (at, m) in windows(n) {
            v[at..at + m].copy_from_slice(&bytes(m));
        }
    }
    v
}

/// replacement for alloc::fmt::format in error paths
#[no_mangle]
pub extern "C" fn stub_format_inner(out: *mut String) {
    unsafe { out.write(String::new()) }
}
/// contract model of core::str::from_utf8 on symbolic bytes: Ok(same slice) iff
/// the bytes are well-formed UTF-8 (the error value is some Utf8Error)
#[no_mangle]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn stub_from_utf8<'a>(out: *mut Result<&'a str, std::str::Utf8Error>, p: *const u8, n: usize) {
    unsafe {
        let s = std::slice::from_raw_parts::<'a>(p, n);
        #[allow(invalid_from_utf8)]
        let r = if sym_utf8_valid(p, n) { Ok(std::str::from_utf8_unchecked(s)) } else { std::str::from_utf8(&[0xffu8]) };
        out.write(r);
    }
}
