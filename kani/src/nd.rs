//! Source of values: symbolic under Kani, the bytes of a counterexample otherwise.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn f64() -> f64 {
        kani::any()
    }
    pub fn f32() -> f32 {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    fn next<const N: usize>() -> [u8; N] {
        let v = Q.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        let mut r = [0; N];
        for (a, b) in r.iter_mut().zip(v) {
            *a = b;
        }
        r
    }
    pub fn u8() -> u8 {
        u8::from_le_bytes(next())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(next())
    }
    pub fn f64() -> f64 {
        f64::from_le_bytes(next())
    }
    pub fn f32() -> f32 {
        f32::from_le_bytes(next())
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION");
            std::process::exit(3);
        }
    }
    pub fn failed(c: bool, what: &'static str) {
        if !c {
            println!("FAILED {what}");
            std::process::exit(1);
        }
    }
}
pub use imp::*;
pub fn flag() -> bool {
    u8() & 1 == 1
}
pub fn below(n: usize) -> usize {
    let i = usize();
    assume(i < n);
    i
}
/// finite
pub fn fin() -> f64 {
    let x = f64();
    assume(x.is_finite());
    x
}
/// finite 32 bit
pub fn fin32() -> f32 {
    let x = f32();
    assume(x.is_finite());
    x
}
/// a finite number that compares equal only to itself
pub fn num() -> f64 {
    fin()
}
