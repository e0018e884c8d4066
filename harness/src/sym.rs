//! The interface between harnesses and the symbolic executor. Under symx
//! these calls are intercepted; with the `replay` feature they read a
//! recorded counterexample instead.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        pub fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize);
        pub fn __sym_choice(n: u64, name: *const u8, nn: usize) -> u64;
        pub fn __sym_assume(b: bool);
        pub fn __sym_check(b: bool, m: *const u8, n: usize);
        pub fn __sym_cover(m: *const u8, n: usize);
        pub fn __sym_order(o: u64, map: u64);
        pub fn __sym_panic_ok(b: bool);
        pub fn __sym_param(m: *const u8, n: usize, d: u64) -> u64;
        pub fn __sym_known(m: *const u8, n: usize);
        pub fn __sym_note(m: *const u8, n: usize);
    }
}

#[cfg(not(feature = "replay"))]
mod api {
    use super::imp::*;
    pub fn bytes(b: &mut [u8], name: &str) {
        unsafe { __sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn choice(n: u64, name: &str) -> u64 {
        unsafe { __sym_choice(n, name.as_ptr(), name.len()) }
    }
    pub fn assume(b: bool) {
        unsafe { __sym_assume(b) }
    }
    pub fn check(b: bool, m: &str) {
        unsafe { __sym_check(b, m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &str) {
        unsafe { __sym_cover(m.as_ptr(), m.len()) }
    }
    pub fn order(o: u64, map: u64) {
        unsafe { __sym_order(o, map) }
    }
    pub fn panic_ok(b: bool) {
        unsafe { __sym_panic_ok(b) }
    }
    pub fn param(m: &str, d: u64) -> u64 {
        unsafe { __sym_param(m.as_ptr(), m.len(), d) }
    }
    /// the input is one a recorded finding is about: what happens from here
    /// on is reported under that finding
    pub fn known(m: &str) {
        unsafe { __sym_known(m.as_ptr(), m.len()) }
    }
    pub fn note(m: &str) {
        unsafe { __sym_note(m.as_ptr(), m.len()) }
    }
}

#[cfg(feature = "replay")]
pub mod api {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct R {
        pub vals: std::collections::VecDeque<(String, u64)>,
        pub params: HashMap<String, u64>,
        pub panic_ok: bool,
    }
    thread_local! { pub static R: RefCell<R> = RefCell::new(R::default()); }
    fn next(name: &str) -> u64 {
        R.with(|r| {
            let mut r = r.borrow_mut();
            match r.vals.pop_front() {
                Some((n, v)) => {
                    if n != name {
                        println!("REPLAY diverged: expected {} got {}", n, name);
                        std::process::exit(5);
                    }
                    v
                }
                None => {
                    println!("REPLAY diverged: no value for {}", name);
                    std::process::exit(5);
                }
            }
        })
    }
    pub fn bytes(b: &mut [u8], name: &str) {
        for i in 0..b.len() {
            b[i] = next(&format!("{}[{}]", name, i)) as u8;
        }
    }
    pub fn choice(n: u64, name: &str) -> u64 {
        next(name) % n
    }
    pub fn assume(b: bool) {
        if !b {
            println!("REPLAY assumption not met");
            std::process::exit(4);
        }
    }
    pub fn check(b: bool, m: &str) {
        if !b {
            println!("REPLAY check failed: {}", m);
            std::process::exit(1);
        }
    }
    pub fn cover(_m: &str) {}
    pub fn order(_o: u64, _map: u64) {}
    pub fn panic_ok(b: bool) {
        R.with(|r| r.borrow_mut().panic_ok = b)
    }
    pub fn param(m: &str, d: u64) -> u64 {
        R.with(|r| r.borrow().params.get(m).copied().unwrap_or(d))
    }
    pub fn known(m: &str) {
        println!("known finding: {}", m);
    }
    pub fn note(m: &str) {
        println!("note: {}", m);
    }
}
pub use api::*;

/// a string of exactly n symbolic bytes drawn from `alphabet`
pub fn string_of(n: usize, alphabet: &[u8], name: &str) -> String {
    let mut v = vec![0u8; n];
    bytes(&mut v, name);
    for b in &v {
        let mut ok = false;
        for a in alphabet {
            ok |= *b == *a;
        }
        assume(ok);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// n symbolic printable ASCII bytes
pub fn ascii(n: usize, name: &str) -> String {
    let mut v = vec![0u8; n];
    bytes(&mut v, name);
    for b in &v {
        assume((*b >= 0x20) & (*b < 0x7f));
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// printed when replaying, nothing otherwise
#[allow(unused_variables)]
pub fn show(label: &str, s: &str) {
    #[cfg(feature = "replay")]
    println!("{}: {}", label, s);
}
