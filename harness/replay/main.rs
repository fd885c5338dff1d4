//! Runs harness functions natively, on concrete inputs: to confirm a violation
//! the solver found, and to compare what the symbolic executor computes with
//! what the machine does.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::process::exit;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[macro_use]
#[path = "../src/rt.rs"]
pub mod rt;
#[path = "../src/behave.rs"]
pub mod behave;
#[path = "../src/convert.rs"]
pub mod convert;
#[path = "../src/equal.rs"]
pub mod equal;
#[path = "../src/receive.rs"]
pub mod receive;
#[path = "../src/refs.rs"]
pub mod refs;
#[path = "../src/sets.rs"]
pub mod sets;
#[path = "../src/ways.rs"]
pub mod ways;
#[path = "../src/wire.rs"]
pub mod wire;

include!(concat!(env!("OUT_DIR"), "/table.rs"));

struct Counting;

static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LARGEST: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

fn count(size: usize) {
    TOTAL.fetch_add(size as u64, Relaxed);
    LARGEST.fetch_max(size as u64, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        count(size);
        System.realloc(p, layout, size)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

thread_local! {
    static INPUTS: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
    static OBSERVED: RefCell<Vec<u64>> = RefCell::new(vec![]);
}

static THOROUGH: AtomicU64 = AtomicU64::new(0);

fn next() -> u64 {
    INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        let n = i.1;
        i.1 += 1;
        match i.0.get(n) {
            Some(&v) => v,
            None => {
                println!("INPUTS-EXHAUSTED");
                exit(4)
            }
        }
    })
}

#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_choice(lo: u32, hi: u32) -> u32 {
    let v = next() as u32;
    sym_assume(lo <= v && v <= hi);
    v
}
#[no_mangle]
extern "C" fn sym_assume(condition: bool) {
    if !condition {
        println!("ASSUMPTION-FAILED");
        exit(3)
    }
}
#[no_mangle]
extern "C" fn sym_check(condition: bool, id: u32) {
    if !condition {
        println!("FAILED {}", id);
        exit(1)
    }
}
#[no_mangle]
extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
extern "C" fn sym_observe(value: u64) {
    OBSERVED.with(|o| o.borrow_mut().push(value))
}
#[no_mangle]
extern "C" fn sym_alloc_limit(limit: u64) {
    LIMIT.store(limit, Relaxed);
    LARGEST.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
}
#[no_mangle]
extern "C" fn sym_alloc_total() -> u64 {
    TOTAL.load(Relaxed)
}
#[no_mangle]
extern "C" fn sym_thorough() -> u32 {
    THOROUGH.load(Relaxed) as u32
}

fn run(name: &str, inputs: Vec<u64>) {
    let harness = match HARNESSES.iter().find(|h| h.0 == name) {
        Some(h) => h.1,
        None => {
            println!("no harness {}", name);
            exit(2)
        }
    };
    INPUTS.with(|i| *i.borrow_mut() = (inputs, 0));
    OBSERVED.with(|o| o.borrow_mut().clear());
    LIMIT.store(u64::MAX, Relaxed);
    harness();
    let (limit, largest) = (LIMIT.load(Relaxed), LARGEST.load(Relaxed));
    if limit != u64::MAX && largest > limit {
        println!("CHECK-FAILED an allocation of {} bytes, of at most {} allowed", largest, limit);
        exit(1)
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

/// `replay [--thorough] HARNESS INPUT...` runs one case; with the name `-`,
/// cases are read from standard input, one per line, and what each observes is
/// written to standard output.
fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a == "--thorough").unwrap_or(false) {
        args.remove(0);
        THOROUGH.store(1, Relaxed);
    }
    std::panic::set_hook(Box::new(|info| {
        println!("PANIC {}", info.to_string().replace('\n', " "));
        let _ = std::io::stdout().flush();
        exit(101)
    }));
    let number = |s: &str| s.parse::<u64>().expect("a number");
    if args.is_empty() {
        for (name, _) in HARNESSES {
            println!("{}", name);
        }
    } else if args[0] == "-" {
        let stdin = std::io::stdin();
        for line in stdin.lock().lines() {
            let line = line.expect("input");
            let mut words = line.split_whitespace();
            let name = words.next().expect("a harness");
            // each in a process of its own, so that none sees what another left behind
            let _ = std::io::stdout().flush();
            let child = unsafe { fork() };
            if child == 0 {
                run(name, words.map(number).collect());
                let observed: Vec<String> = OBSERVED.with(|o| o.borrow().iter().map(u64::to_string).collect());
                println!("OBSERVED {}", observed.join(" "));
                exit(0)
            }
            let mut status = 0;
            let ended = unsafe { waitpid(child, &mut status, 0) };
            if child < 0 || ended != child || status != 0 {
                println!("ENDED {}", status);
            }
        }
    } else {
        let name = args.remove(0);
        run(&name, args.iter().map(|a| number(a)).collect());
        println!("HELD");
    }
}
