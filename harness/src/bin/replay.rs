//! Runs harnesses natively on concrete input bytes.
//!   replay <harness> <hex>   one input
//!   replay -b <file>         one "harness hex" per line
//! exit 0: ran to the end; 10: assertion failed; 11: an assumption does not
//! hold on this input; 12: panic; 13: a huge allocation; else: crashed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

/// what the engine starts from
const SEED: u64 = 0x9e37_79b9_7f4a_7c15;

#[derive(Default)]
struct Run {
    input: Vec<u8>,
    pos: usize,
    covers: u64,
    asserts: u32,
    trace: Vec<u64>,
}
thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
}

/// no harness needs a single block this large; those of vast documents need more
static HUGE: AtomicUsize = AtomicUsize::new(1 << 20);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE.load(Ordering::Relaxed) {
            huge(l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HUGE.load(Ordering::Relaxed) {
            huge(n);
        }
        System.realloc(p, l, n)
    }
}
/// run at the small scale, like the engine
static SMALL: AtomicBool = AtomicBool::new(false);
static UNLIMITED: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn vp_scale(small: u64, big: u64) -> u64 {
    if SMALL.load(Ordering::SeqCst) {
        return small;
    }
    UNLIMITED.store(true, Ordering::SeqCst);
    big
}

fn huge(n: usize) {
    if UNLIMITED.load(Ordering::SeqCst) {
        return;
    }
    println!("allocation of {} bytes", n);
    finish(13);
}
#[global_allocator]
static A: Counting = Counting;

fn finish(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
pub extern "C" fn vp_sym(p: *mut u8, n: usize) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        for k in 0..n {
            let b = r.input.get(r.pos).copied().unwrap_or(0);
            r.pos += 1;
            unsafe { *p.add(k) = b };
        }
    })
}
#[no_mangle]
pub extern "C" fn vp_assert(c: bool, id: u32) {
    RUN.with(|r| r.borrow_mut().asserts += 1);
    if !c {
        println!("assertion at harness line {} failed", id);
        finish(10);
    }
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("assumption not met");
        finish(11);
    }
}
#[no_mangle]
pub extern "C" fn vp_cover(id: u32) {
    RUN.with(|r| r.borrow_mut().covers |= 1 << id);
}
#[no_mangle]
pub extern "C" fn vp_covers(_n: u32) {}
#[no_mangle]
pub extern "C" fn vp_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vp_trace(x: u64) {
    RUN.with(|r| r.borrow_mut().trace.push(x));
}

/// std takes the keys of its hash maps from here: the same ones the engine uses
static RND: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for k in 0..n {
        let x = RND.load(Ordering::SeqCst).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        RND.store(x, Ordering::SeqCst);
        unsafe { *p.add(k) = (x >> 56) as u8 };
    }
    n as isize
}

fn one(t: &[(&'static str, extern "C" fn())], name: &str, hex: &str) {
    let input: Vec<u8> = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    let f = t.iter().find(|(n, _)| *n == name).expect("no such harness").1;
    RND.store(SEED, Ordering::SeqCst);
    HUGE.store(if name.ends_with("_vast") { 1 << 24 } else { 1 << 20 }, Ordering::SeqCst);
    // a thread of its own: fresh hash map keys
    let run = move || {
        RUN.with(|r| *r.borrow_mut() = Run { input, ..Run::default() });
        f();
        RUN.with(|r| {
            let r = r.borrow();
            println!("done {} {} {:?}", r.covers, r.asserts, r.trace);
        });
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        println!("{}", info);
        finish(12);
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let t = harness::table();
    if a[0] == "-b" {
        SMALL.store(true, Ordering::SeqCst);
        for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
            let mut w = l.split(' ');
            one(&t, w.next().unwrap(), w.next().unwrap_or(""));
        }
    } else {
        one(&t, &a[0], a.get(1).map(|s| s.as_str()).unwrap_or(""));
        println!("ran to the end");
    }
    finish(0);
}
