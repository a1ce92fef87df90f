//! Runtime shared by the symbolic executor (`irsym`, which intercepts the `sym_*`
//! calls) and the native replay binary (which feeds them from a recorded input).
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, l: *const u8, n: usize);
        pub fn sym_cover(l: *const u8, n: usize);
        pub fn sym_obs(v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_expect_panic(c: bool);
    }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u64>,
        pub covers: Vec<String>,
        pub failed: Vec<String>,
        pub expect_panic: bool,
        pub short: bool,
    }
    pub struct AssumeFailed;
    thread_local!(pub static R: RefCell<Rec> = Default::default());
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        R.with(|r| {
            let mut r = r.borrow_mut();
            for i in 0..n {
                let k = r.pos;
                let b = match r.input.get(k) {
                    Some(b) => *b,
                    None => {
                        r.short = true;
                        0
                    }
                };
                *p.add(i) = b;
                r.pos += 1;
            }
        })
    }
    pub unsafe fn sym_choice(_n: u32) -> u32 {
        let mut b = [0u8; 4];
        sym_bytes(b.as_mut_ptr(), 4);
        u32::from_le_bytes(b)
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    unsafe fn s(l: *const u8, n: usize) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(l, n)).to_string()
    }
    pub unsafe fn sym_assert(c: bool, l: *const u8, n: usize) {
        if !c {
            R.with(|r| r.borrow_mut().failed.push(s(l, n)))
        }
    }
    pub unsafe fn sym_cover(l: *const u8, n: usize) {
        R.with(|r| {
            let mut r = r.borrow_mut();
            let l = s(l, n);
            if !r.covers.contains(&l) {
                r.covers.push(l)
            }
        })
    }
    pub unsafe fn sym_obs(v: u64) {
        R.with(|r| r.borrow_mut().obs.push(v))
    }
    pub unsafe fn sym_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_expect_panic(c: bool) {
        R.with(|r| r.borrow_mut().expect_panic = c)
    }
}
use imp::*;

pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn u8s() -> u8 {
    bytes::<1>()[0]
}
pub fn u16s() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32s() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64s() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn f64s() -> f64 {
    f64::from_bits(u64s())
}
pub fn f32s() -> f32 {
    f32::from_bits(u32s())
}
/// concrete choice in 0..n (every alternative is explored)
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, l: &str) {
    unsafe { sym_assert(c, l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn cover(l: &str) {
    unsafe { sym_cover(l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { sym_obs(v) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// from here on the path must end in a panic
pub fn expect_panic(c: bool) {
    unsafe { sym_expect_panic(c) }
}
/// byte-wise equality without short-circuit (one assertion, no fork per byte)
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
