//! replay HARNESS HEX,HEX,...   (the bytes of the values in the order they were read)
//! exits 1 if the harness fails, 0 if it passes, 3 if the values do not meet its assumptions
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for (n, _) in kani_checks::table() {
            println!("{n}");
        }
        return;
    }
    let Some((_, f)) = kani_checks::table().into_iter().find(|x| x.0 == a[1]) else {
        println!("no harness {}", a[1]);
        std::process::exit(4);
    };
    #[cfg(not(kani))]
    kani_checks::nd::Q.with(|q| {
        let mut q = q.borrow_mut();
        for h in a[2].split(',') {
            q.push_back((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
        }
        // later removals leave the buffers alone
    });
    println!("running");
    #[cfg(not(kani))]
    let queued: isize = kani_checks::nd::Q.with(|q| q.borrow().len() as isize);
    let before = LIVE.load(SeqCst);
    f();
    #[cfg(not(kani))]
    let used = queued - kani_checks::nd::Q.with(|q| q.borrow().iter().filter(|v| v.capacity() > 0).count() as isize);
    #[cfg(kani)]
    let used = 0;
    let after = LIVE.load(SeqCst);
    if after + used > before {
        println!("FAILED memory leak: {} objects", after + used - before);
        std::process::exit(1);
    }
    println!("passed");
}
