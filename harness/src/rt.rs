//! What a harness may ask of the thing that runs it: the symbolic executor
//! (inputs are solver variables) or the replay binary (inputs are numbers).

use std::mem::MaybeUninit;

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choice(lo: u32, hi: u32) -> u32;
    fn sym_assume(condition: bool);
    fn sym_check(condition: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(value: u64);
    fn sym_alloc_limit(limit: u64);
    fn sym_alloc_total() -> u64;
    fn sym_thorough() -> u32;
}

pub fn any_u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn any_i32() -> i32 {
    any_u32() as i32
}
pub fn any_u64() -> u64 {
    unsafe { sym_u64() }
}
pub fn any_i64() -> i64 {
    any_u64() as i64
}

/// A number in `lo..=hi`, concrete on each explored path; all are explored.
pub fn choice(lo: usize, hi: usize) -> usize {
    unsafe { sym_choice(lo as u32, hi as u32) as usize }
}

pub fn any_bool() -> bool {
    choice(0, 1) == 1
}

pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}

pub fn any_array<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for x in a.iter_mut() {
        *x = any_u8();
    }
    a
}

pub fn assume(condition: bool) {
    unsafe { sym_assume(condition) }
}

/// Witness that the harness reaches this point with feasible inputs.
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}

pub fn observe(value: u64) {
    unsafe { sym_observe(value) }
}

/// From here on every single allocation must be at most `limit` bytes.
pub fn alloc_limit(limit: u64) {
    unsafe { sym_alloc_limit(limit) }
}

/// Bytes allocated so far (counted from the call of `alloc_limit`).
pub fn alloc_total() -> u64 {
    unsafe { sym_alloc_total() }
}

/// Is this the thorough tier?
pub fn thorough() -> bool {
    unsafe { sym_thorough() != 0 }
}

#[inline(always)]
pub fn check_at(condition: bool, id: u32, file: &str, line: u32, what: &str) {
    #[cfg(feature = "replay")]
    {
        if !condition {
            println!("CHECK-FAILED {}:{} {}", file, line, what);
        }
    }
    #[cfg(not(feature = "replay"))]
    {
        let _ = (file, line, what);
    }
    unsafe { sym_check(condition, id) }
}

#[macro_export]
macro_rules! check {
    ($condition:expr, $what:expr) => {
        $crate::rt::check_at($condition, FILE + line!(), file!(), line!(), $what)
    };
}

/// The two values are equal; the first is also compared with what the native
/// code computes for a model of each explored path.
#[macro_export]
macro_rules! check_eq {
    ($left:expr, $right:expr, $what:expr) => {{
        let (left, right) = ($left as u64, $right as u64);
        $crate::rt::observe(left);
        $crate::check!(left == right, $what);
    }};
}

#[macro_export]
macro_rules! check_bytes {
    ($left:expr, $right:expr, $what:expr) => {{
        let (left, right): (&[u8], &[u8]) = (&$left[..], &$right[..]);
        $crate::check_eq!(left.len(), right.len(), concat!($what, " (length)"));
        $crate::rt::observe_bytes(left);
        $crate::check!($crate::rt::same(left, right), $what);
    }};
}

pub fn observe_bytes(bytes: &[u8]) {
    for chunk in bytes.chunks(8) {
        let mut value = 0u64;
        for &b in chunk {
            value = value << 8 | u64::from(b);
        }
        observe(value);
    }
}

/// Equality without a branch per byte.
pub fn same(left: &[u8], right: &[u8]) -> bool {
    let mut difference = (left.len() != right.len()) as u8;
    for (l, r) in left.iter().zip(right.iter()) {
        difference |= l ^ r;
    }
    difference == 0
}

/// What formatting yields during symbolic execution.
#[no_mangle]
pub extern "C" fn stub_empty_string(out: &mut MaybeUninit<String>) {
    out.write(String::new());
}
