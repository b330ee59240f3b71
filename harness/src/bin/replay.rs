//! Native replay: runs a harness on concrete input bytes against the real crate.
//! replay NAME PARAMS(comma) HEX  -> prints OUT/COVER/ASSERT lines.
//! exit 0: every assertion held, 1: assertion failed or panic, 3: assumption not met
use std::cell::RefCell;
struct S {
    inp: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    failed: bool,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S { inp: vec![], pos: 0, params: vec![], failed: false }));

#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for i in 0..n {
            let b = s.inp.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            unsafe { *p.add(i) = b }
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUME-FAILED");
        let f = ST.with(|s| s.borrow().failed);
        std::process::exit(if f { 1 } else { 3 });
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("ASSERT {}", m);
        ST.with(|s| s.borrow_mut().failed = true);
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(k: u64) {
    println!("COVER {}", k);
}
#[no_mangle]
pub extern "C" fn sym_out(v: u64) {
    println!("OUT {}", v);
}
#[no_mangle]
pub extern "C" fn sym_param(i: u64) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_utf8_valid(p: *const u8, n: usize) -> bool {
    std::str::from_utf8(unsafe { std::slice::from_raw_parts(p, n) }).is_ok()
}
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static PEAK: AtomicU64 = AtomicU64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(l.size() as u64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        PEAK.fetch_max(n as u64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: A = A;
#[no_mangle]
pub extern "C" fn sym_alloc_peak() -> u64 {
    PEAK.load(Relaxed)
}
#[no_mangle]
pub extern "C" fn sym_alloc_reset() {
    PEAK.store(0, Relaxed)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        for (n, _) in mqh::TABLE.iter().chain(mqh::SER) {
            println!("{}", n);
        }
        return;
    }
    let hex: Vec<u8> = a[3].bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    let inp = hex.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    let params = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    ST.with(|s| *s.borrow_mut() = S { inp, pos: 0, params, failed: false });
    let f = match mqh::TABLE.iter().chain(mqh::SER).find(|t| t.0 == a[1]) {
        Some(t) => t.1,
        None => {
            println!("no harness {}", a[1]);
            std::process::exit(4);
        }
    };
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i)));
    let r = std::panic::catch_unwind(|| f());
    let f = ST.with(|s| s.borrow().failed) || r.is_err();
    println!("END");
    std::process::exit(if f { 1 } else { 0 });
}
