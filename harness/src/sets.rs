//! Number sets, the submessages that carry them, and parameters (C15 - C17, C19).

use crate::refs::*;
use crate::rt::*;
use rtps_rs::verif::*;

const FILE: u32 = 3000;

/// Reference model of a set of numbers `base .. base + 255`: one bit each,
/// least significant bit of the first word first.
#[derive(Clone, Copy)]
pub struct Bits {
    pub words: [u32; 8],
}

impl Bits {
    pub fn empty() -> Bits {
        Bits { words: [0; 8] }
    }

    /// Is `d` a member? `d` below 256.
    pub fn has(&self, d: u32) -> bool {
        let mut r = 0;
        for i in 0..8 {
            r |= ((d >> 5 == i as u32) as u32) & (self.words[i] >> (d & 31));
        }
        r & 1 == 1
    }

    pub fn add(&mut self, d: u32, really: bool) {
        for i in 0..8 {
            self.words[i] |= ((really & (d >> 5 == i as u32)) as u32) << (d & 31);
        }
    }

    /// Only the members below `n`, for `n` up to 256.
    pub fn below(&self, n: u32) -> Bits {
        let mut r = Bits::empty();
        for i in 0..8 {
            let all = ((n >> 5 > i as u32) as u32).wrapping_neg();
            let some = ((n >> 5 == i as u32) as u32).wrapping_neg() & (1u32 << (n & 31)).wrapping_sub(1);
            r.words[i] = self.words[i] & (all | some);
        }
        r
    }

    pub fn is_empty(&self) -> bool {
        let mut r = 0;
        for i in 0..8 {
            r |= self.words[i];
        }
        r == 0
    }
}

/// What a bitmap on the wire means; the number of bytes it takes.
pub fn read_bits(be: bool, bytes: &[u8]) -> (Bits, usize) {
    let bits = ru32(be, bytes);
    check!(bits <= 256, "a bitmap has at most 256 bits");
    let n = (bits as usize + 31) / 32;
    let mut r = Bits::empty();
    for i in 0..8 {
        if i < n {
            r.words[i] = ru32(be, &bytes[4 + 4 * i..]);
        }
    }
    (r.below(bits), 4 + 4 * n)
}

macro_rules! check_bits {
    ($left:expr, $right:expr, $what:expr) => {
        for i in 0..8 {
            check_eq!($left.words[i], $right.words[i], $what);
        }
    };
}

/// A bitmap with any announced number of bits that takes `n` words, any contents.
pub fn any_bitmap(n: usize) -> (u32, Bits) {
    let mut b = Bits::empty();
    for i in 0..n {
        b.words[i] = any_u32();
    }
    if n == 0 {
        return (0, b);
    }
    let bits = any_u32();
    assume(bits <= 32 * n as u32);
    assume(bits > 32 * (n as u32 - 1));
    (bits, b)
}

/// A bitmap of a number of bits chosen per path, any contents.
fn sized_bitmap(quick: &[usize]) -> (u32, usize, Bits) {
    let bits = if thorough() { choice(0, 256) } else { quick[choice(0, quick.len() - 1)] };
    let n = (bits + 31) / 32;
    let mut b = Bits::empty();
    for i in 0..n {
        b.words[i] = any_u32();
    }
    (bits as u32, n, b)
}

fn some_words() -> usize {
    if thorough() {
        choice(0, 8)
    } else {
        [0, 1, 2, 3, 7, 8][choice(0, 5)]
    }
}

// ---------------------------------------------------------------- C16 insertion and iteration

/// How far from the base: any distance that fits (its word chosen per path), or
/// nothing, for any number that does not fit.
fn any_distance() -> Option<u32> {
    match choice(0, 8) {
        8 => None,
        word => Some((word as u32) << 5 | u32::from(any_u8() & 31)),
    }
}

/// any base; quick: 2, thorough: 3 insertions of any numbers
#[no_mangle]
pub extern "C" fn c16_insert_sequence_numbers() {
    let base = any_i64();
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let mut model = Bits::empty();
    for _ in 0..if thorough() { 3 } else { 2 } {
        let (value, fits, d) = match any_distance() {
            Some(d) => {
                assume(base <= i64::max_value() - i64::from(d));
                (base + i64::from(d), true, d)
            }
            None => {
                let value = any_i64();
                let distance = i128::from(value) - i128::from(base);
                assume((distance < 0) | (distance > 255));
                (value, false, 0)
            }
        };
        let new = fits & !model.has(d);
        let inserted = set.insert(SequenceNumber_t::from(value));
        check!(inserted == new, "insert tells whether the number fits and is new");
        model.add(d, fits);
        if inserted {
            cover(1);
        } else {
            cover(2);
        }
    }
    let bytes = enc(true, &set);
    check_eq!(rsn(true, &bytes), base, "the base stays");
    let (bits, used) = read_bits(true, &bytes[8..]);
    check_eq!(bytes.len(), 8 + used, "nothing follows the set");
    check_bits!(bits, model, "the set holds what was inserted and nothing else");
}

/// any base; quick: 2, thorough: 3 insertions of any numbers
#[no_mangle]
pub extern "C" fn c16_insert_fragment_numbers() {
    let base = any_u32();
    let mut set = FragmentNumberSet_t::new(FragmentNumber_t::from(base));
    let mut model = Bits::empty();
    for _ in 0..if thorough() { 3 } else { 2 } {
        let (value, fits, d) = match any_distance() {
            Some(d) => {
                assume(base <= u32::max_value() - d);
                (base + d, true, d)
            }
            None => {
                let value = any_u32();
                let distance = i64::from(value) - i64::from(base);
                assume((distance < 0) | (distance > 255));
                (value, false, 0)
            }
        };
        let new = fits & !model.has(d);
        let inserted = set.insert(FragmentNumber_t::from(value));
        check!(inserted == new, "insert tells whether the number fits and is new");
        model.add(d, fits);
        if inserted {
            cover(1);
        } else {
            cover(2);
        }
    }
    let bytes = enc(true, &set);
    check_eq!(ru32(true, &bytes), base, "the base stays");
    let (bits, used) = read_bits(true, &bytes[4..]);
    check_eq!(bytes.len(), 4 + used, "nothing follows the set");
    check_bits!(bits, model, "the set holds what was inserted and nothing else");
}

/// any base; two numbers that fit, the first of them once more, in any order of size
#[no_mangle]
pub extern "C" fn c16_insert_again() {
    let base = any_i64();
    assume(base <= i64::max_value() - 255);
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let word = || (choice(0, 7) as u32) << 5 | u32::from(any_u8() & 31);
    let (a, b) = (word(), word());
    let mut put = |d: u32| set.insert(SequenceNumber_t::from(base + i64::from(d)));
    check!(put(a), "the first number is new");
    check!(put(b) == (a != b), "a number is new if it is another one");
    check!(!put(a), "a number inserted before is not new");
    check!(!put(b), "a number inserted before is not new");
    let bytes = enc(true, &set);
    let (bits, _) = read_bits(true, &bytes[8..]);
    let mut model = Bits::empty();
    model.add(a, true);
    model.add(b, true);
    check_bits!(bits, model, "the set holds what was inserted and nothing else");
    cover(1);
}

/// one number inserted, anywhere within the 256 that fit: it comes out, and nothing else
#[no_mangle]
pub extern "C" fn c16_iterate_one() {
    let base = any_i64();
    let d = choice(0, 255) as u8;
    assume(base <= i64::max_value() - 255);
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    check!(set.insert(SequenceNumber_t::from(base + i64::from(d))), "a number that fits is inserted");
    let mut iter = set.into_iter();
    match iter.next() {
        Some(n) => check_eq!(i64::from(n), base + i64::from(d), "the number inserted comes out"),
        None => check!(false, "the number inserted comes out"),
    }
    check!(iter.next().is_none(), "nothing that was not inserted comes out");
    cover(1);
}

/// two numbers inserted in any order (quick: 17 positions, thorough: all 256)
#[no_mangle]
pub extern "C" fn c16_iterate_two() {
    let base = any_u32();
    let some = [0, 1, 2, 3, 7, 30, 31, 32, 33, 34, 63, 64, 100, 128, 223, 224, 255];
    let pick = || if thorough() { choice(0, 255) as u8 } else { some[choice(0, 16)] };
    let (a, b) = (pick(), pick());
    assume(base <= u32::max_value() - 255);
    assume(a != b);
    let mut set = FragmentNumberSet_t::new(FragmentNumber_t::from(base));
    check!(set.insert(FragmentNumber_t::from(base + u32::from(a))), "a number that fits is inserted");
    check!(set.insert(FragmentNumber_t::from(base + u32::from(b))), "a number that fits is inserted");
    let (low, high) = if a < b { (a, b) } else { (b, a) };
    let mut iter = set.into_iter();
    let x = iter.next();
    check!(x.is_some(), "both numbers come out");
    let y = iter.next();
    check!(y.is_some(), "both numbers come out");
    check!(iter.next().is_none(), "nothing that was not inserted comes out");
    if let (Some(x), Some(y)) = (x, y) {
        check_eq!(u32::from(x), base + u32::from(low), "the smaller number comes first");
        check_eq!(u32::from(y), base + u32::from(high), "the larger number comes second");
        cover(1);
    }
}

/// a new set is empty
#[no_mangle]
pub extern "C" fn c16_new() {
    let base = any_i64();
    let set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    check_bytes!(enc(true, &set), W::new(true).sn(base).u32(0).v, "a new set is empty");
    check!(set.into_iter().next().is_none(), "nothing comes out of a new set");
    cover(1);
}

/// The i-th of the numbers 0 .. 255, in a mixed order.
fn mixed(i: u32) -> u32 {
    (i * 37 + 11) & 255
}

macro_rules! full_set {
    ($set:ident, $number:ident, $int:ident, $any:ident, $write:ident) => {{
        let base = $any();
        assume(base <= $int::max_value() - 255);
        let n = if thorough() { choice(0, 28) as u32 * 9 + 4 } else { [3, 4, 16, 33, 100, 255, 256][choice(0, 6)] };
        let mut set = $set::new($number::from(base));
        let mut model = Bits::empty();
        for i in 0..n {
            let x = base + mixed(i) as $int;
            check!(set.insert($number::from(x)), "a number inserted for the first time is new");
            check!(!set.insert($number::from(x)), "a number inserted before is not new");
            model.add(mixed(i), true);
        }
        for i in 0..n {
            let x = base + mixed(i) as $int;
            check!(!set.insert($number::from(x)), "a number inserted before is not new");
        }
        let bytes = enc(true, &set);
        let at = W::new(true).$write(base).v.len();
        check_bytes!(bytes[..at], W::new(true).$write(base).v, "the base stays");
        let (bits, used) = read_bits(true, &bytes[at..]);
        check_eq!(bytes.len(), at + used, "nothing follows the set");
        check_bits!(bits, model, "the set holds what was inserted and nothing else");
        let mut iter = set.into_iter();
        for d in 0..256 {
            if model.has(d) {
                match iter.next() {
                    Some(x) => check!($int::from(x) == base + d as $int, "the numbers inserted come out in order"),
                    None => check!(false, "the numbers inserted come out in order"),
                }
            }
        }
        check!(iter.next().is_none(), "nothing that was not inserted comes out");
        cover(1);
    }};
}

/// any base; 1 to 256 numbers (quick: 7 amounts, thorough: 29) inserted in a mixed order, each of them twice: the set holds them, and they come out in order
#[no_mangle]
pub extern "C" fn c16_full_sequence_numbers() {
    full_set!(SequenceNumberSet_t, SequenceNumber_t, i64, any_i64, sn)
}

/// any base; 1 to 256 numbers (quick: 7 amounts, thorough: 29) inserted in a mixed order, each of them twice: the set holds them, and they come out in order
#[no_mangle]
pub extern "C" fn c16_full_fragment_numbers() {
    full_set!(FragmentNumberSet_t, FragmentNumber_t, u32, any_u32, u32)
}

/// any base; a set of 3, 40 or 128 numbers in a mixed order, then any number that fits: it is news exactly if it is not one of them
#[no_mangle]
pub extern "C" fn c16_one_more() {
    let base = any_i64();
    assume(base <= i64::max_value() - 255);
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let mut model = Bits::empty();
    for i in 0..[3, 40, 128][choice(0, 2)] {
        set.insert(SequenceNumber_t::from(base + i64::from(mixed(i))));
        model.add(mixed(i), true);
    }
    let d = (choice(0, 7) as u32) << 5 | u32::from(any_u8() & 31);
    let news = set.insert(SequenceNumber_t::from(base + i64::from(d)));
    check!(news != model.has(d), "insert tells whether the number is new");
    model.add(d, true);
    let bytes = enc(true, &set);
    let (bits, _) = read_bits(true, &bytes[8..]);
    check_bits!(bits, model, "the set holds what was inserted and nothing else");
    cover(1);
}

/// any base; two to four of six numbers spread over the words (thorough: to five of nine), in any order, then any number within the first two words or 33 before the last: it is news exactly if it is not one of them
#[no_mangle]
pub extern "C" fn c16_few_and_one() {
    let base = any_u32();
    assume(base <= u32::max_value() - 255);
    let some: [u32; 9] = [31, 0, 33, 63, 32, 255, 30, 223, 64];
    let mut set = FragmentNumberSet_t::new(FragmentNumber_t::from(base));
    let mut model = Bits::empty();
    let (many, of) = if thorough() { (5, 8) } else { (4, 5) };
    for _ in 0..choice(2, many) {
        let d = some[choice(0, of)];
        assume(!model.has(d));
        check!(set.insert(FragmentNumber_t::from(base + d)), "a number inserted for the first time is new");
        model.add(d, true);
    }
    let d = [0, 32, 222][choice(0, 2)] + u32::from(any_u8() & 31);
    let news = set.insert(FragmentNumber_t::from(base + d));
    check!(news != model.has(d), "insert tells whether the number is new");
    model.add(d, true);
    let news = set.insert(FragmentNumber_t::from(base + d));
    check!(!news, "a number inserted before is not new");
    let bytes = enc(true, &set);
    let (bits, _) = read_bits(true, &bytes[4..]);
    check_bits!(bits, model, "the set holds what was inserted and nothing else");
    cover(1);
}

// ---------------------------------------------------------------- C17 sets from the wire

/// any base, any number of bits up to 256 and any bitmap: what is in the set, what is not, and what goes out again
#[no_mangle]
pub extern "C" fn c17_members() {
    let be = any_bool();
    let n = some_words();
    let (bits, bitmap) = any_bitmap(n);
    let base = any_i64();
    let bytes = W::new(be).sn(base).bitmap(bits, &bitmap.words[..n]).v;
    let mut set: SequenceNumberSet_t = decode_exactly(be, &bytes);
    let members = bitmap.below(bits);
    let out_be = any_bool();
    let out = enc(out_be, &set);
    check_eq!(rsn(out_be, &out), base, "the base is passed on");
    let (again, used) = read_bits(out_be, &out[8..]);
    check_eq!(out.len(), 8 + used, "nothing follows the set");
    check_bits!(again, members, "the members are passed on");
    cover(1);
    // a member is already there, any other number that fits can be added
    let words = if thorough() { 7 } else { 3 };
    let d = (choice(0, words) as u8 * (7 / words) as u8) << 5 | any_u8() & 31;
    assume(base <= i64::max_value() - i64::from(d));
    let inserted = set.insert(SequenceNumber_t::from(base + i64::from(d)));
    check!(inserted != members.has(u32::from(d)), "a member of a received set is found in it");
    let mut with = members;
    with.add(u32::from(d), true);
    let (again, _) = read_bits(true, &enc(true, &set)[8..]);
    check_bits!(again, with, "insertion keeps the other members of a received set");
    cover(2);
}

/// any base and bitmap of some (thorough: all) numbers of bits up to 256: the first number that comes out is the smallest member
#[no_mangle]
pub extern "C" fn c17_smallest() {
    let (bits, n, bitmap) = sized_bitmap(&[0, 1, 5, 31, 32, 33, 64, 100, 256]);
    let base = any_i64();
    let bytes = W::new(true).sn(base).bitmap(bits, &bitmap.words[..n]).v;
    let set: SequenceNumberSet_t = decode_exactly(true, &bytes);
    let members = bitmap.below(bits);
    // members past the largest sequence number do not exist
    let room = i64::max_value().wrapping_sub(base) as u64;
    let room = if room < 255 { room as u32 } else { 255 };
    match set.into_iter().next() {
        Some(x) => {
            let d = i128::from(i64::from(x)) - i128::from(base);
            check!((d >= 0) & (d < i128::from(bits)), "a number that comes out is within the bitmap");
            let d = d as u32;
            check!(members.has(d), "a number that comes out is a member");
            check!(members.below(d).is_empty(), "the smallest member comes out first");
            cover(1);
        }
        None => {
            check!(members.below(room + 1).is_empty(), "a set with members is not exhausted");
            cover(2);
        }
    }
}

/// the same for fragment numbers
#[no_mangle]
pub extern "C" fn c17_smallest_fragment() {
    let (bits, n, bitmap) = sized_bitmap(&[0, 7, 32, 63, 256]);
    let base = any_u32();
    let bytes = W::new(false).u32(base).bitmap(bits, &bitmap.words[..n]).v;
    let set: FragmentNumberSet_t = decode_exactly(false, &bytes);
    let members = bitmap.below(bits);
    let room = u32::max_value() - base;
    let room = if room < 255 { room } else { 255 };
    match set.into_iter().next() {
        Some(x) => {
            let d = i64::from(u32::from(x)) - i64::from(base);
            check!((d >= 0) & (d < i64::from(bits)), "a number that comes out is within the bitmap");
            let d = d as u32;
            check!(members.has(d), "a number that comes out is a member");
            check!(members.below(d).is_empty(), "the smallest member comes out first");
            cover(1);
        }
        None => {
            check!(members.below(room + 1).is_empty(), "a set with members is not exhausted");
            cover(2);
        }
    }
}

/// bitmaps of 256 (thorough: up to 256) bits: after the first member (quick: at some positions) comes the next larger one
#[no_mangle]
pub extern "C" fn c17_next() {
    let (bits, n, bitmap) = sized_bitmap(&[256]);
    let first = if thorough() { choice(0, 255) } else { [0, 1, 31, 32, 200, 254][choice(0, 5)] } as u32;
    let members = bitmap.below(bits);
    assume(members.below(first).is_empty());
    assume(members.has(first));
    let base = any_u32();
    assume(base <= u32::max_value() - 255);
    let bytes = W::new(true).u32(base).bitmap(bits, &bitmap.words[..n]).v;
    let set: FragmentNumberSet_t = decode_exactly(true, &bytes);
    let mut iter = set.into_iter();
    match iter.next() {
        Some(x) => check_eq!(u32::from(x), base + first, "the smallest member comes out first"),
        None => check!(false, "the smallest member comes out first"),
    }
    let mut rest = members;
    for i in 0..8 {
        rest.words[i] &= !Bits { words: [0xffff_ffff; 8] }.below(first + 1).words[i];
    }
    match iter.next() {
        Some(x) => {
            let d = u32::from(x).wrapping_sub(base);
            check!(d < bits, "a number that comes out is within the bitmap");
            check!(rest.has(d), "a number that comes out is a member that has not come out before");
            check!(rest.below(d).is_empty(), "no member is left out");
            cover(1);
        }
        None => {
            check!(rest.is_empty(), "no member is left out at the end");
            cover(2);
        }
    }
}

/// small bitmaps, exhaustively: exactly the members come out, in order (quick: 6, thorough: 10 bits, anywhere in a word)
#[no_mangle]
pub extern "C" fn c17_all_members() {
    let width = if thorough() { 10 } else { 6 };
    let at = [0, 13, 29, 60, 246][choice(0, 4)];
    let pattern = any_u32();
    assume(pattern < 1 << width);
    let wide = u64::from(pattern) << (at % 32);
    let mut words = [0u32; 9];
    words[at / 32] = wide as u32;
    words[at / 32 + 1] = (wide >> 32) as u32;
    let bits = (at + width) as u32;
    let bits = if bits > 256 { 256 } else { bits };
    let pattern = if at + width > 256 { pattern & ((1 << (256 - at)) - 1) } else { pattern };
    let base = any_i64();
    assume(base <= i64::max_value() - 255);
    let n = (bits as usize + 31) / 32;
    let bytes = W::new(true).sn(base).bitmap(bits, &words[..n]).v;
    let set: SequenceNumberSet_t = decode_exactly(true, &bytes);
    let mut seen = 0u32;
    let mut previous = -1;
    for x in set {
        let d = i64::from(x).wrapping_sub(base).wrapping_sub(at as i64);
        check!((d > previous) & (d < width as i64), "the members come out in ascending order");
        check!(pattern >> (d as u32 & 31) & 1 == 1, "only members come out");
        seen |= 1 << (d as u32 & 31);
        previous = d;
    }
    check_eq!(seen, pattern, "all members come out");
    cover(1);
}

/// the members of small sets (quick: 4, thorough: 8 bits, anywhere in a word) by each way an iterator is used: counted, the last, the n-th, the rest behind one, folded, collected, the least and the largest
#[no_mangle]
pub extern "C" fn c17_every_way() {
    let width = if thorough() { 8 } else { 4 };
    let at = [0, 30, 252][choice(0, 2)];
    let pattern = any_u32();
    assume(pattern < 1 << width);
    let wide = u64::from(pattern) << (at % 32);
    let mut words = [0u32; 9];
    words[at / 32] = wide as u32;
    words[at / 32 + 1] = (wide >> 32) as u32;
    let bits = if at + width > 256 { 256 } else { at + width };
    let pattern = if at + width > 256 { pattern & ((1 << (256 - at)) - 1) } else { pattern };
    let base = any_u32();
    assume(base <= u32::max_value() - 255);
    let bytes = W::new(true).u32(base).bitmap(bits as u32, &words[..(bits + 31) / 32]).v;
    let set: FragmentNumberSet_t = decode_exactly(true, &bytes);
    let mut members = vec![];
    for i in 0..width {
        if pattern >> i & 1 == 1 {
            members.push(base + (at + i) as u32);
        }
    }
    let n = members.len();
    let number = |x: Option<FragmentNumber_t>| x.map(u32::from);
    let mut iter = set.into_iter();
    let (least, most) = iter.size_hint();
    check!(least <= n && most.map_or(true, |most| most >= n), "as many members come out as announced");
    match choice(0, 7) {
        0 => check_eq!(iter.count(), n, "all members are counted"),
        1 => check!(number(iter.last()) == members.last().copied(), "the last member is the largest"),
        2 => {
            let k = choice(0, width);
            check!(number(iter.nth(k)) == members.get(k).copied(), "the n-th member is the n-th smallest");
            check!(number(iter.next()) == members.get(k + 1).copied(), "behind the n-th member comes the next");
        }
        3 => {
            let k = choice(0, width);
            check!(number(iter.skip(k).next()) == members.get(k).copied(), "behind some members comes the next");
        }
        4 => {
            let (many, sum) = iter.fold((0, 0u64), |(n, sum), x| (n + 1, sum + u64::from(u32::from(x))));
            check_eq!(many, n, "all members are counted");
            check!(sum == members.iter().map(|x| u64::from(*x)).sum::<u64>(), "only members come out");
        }
        5 => {
            let all: Vec<u32> = iter.map(u32::from).collect();
            check_eq!(all.len(), n, "all members come out");
            check!(all.iter().zip(members.iter()).all(|(x, y)| x == y), "only members come out");
        }
        6 => check!(number(iter.min_by_key(|x| u32::from(*x))) == members.first().copied(), "the least member"),
        _ => check!(iter.all(|x| members.contains(&u32::from(x))), "only members come out"),
    }
    cover(1);
}

/// any number of bits: more than 256 are refused, whatever follows
#[no_mangle]
pub extern "C" fn c17_limit() {
    let be = any_bool();
    let bits = any_u32();
    let words = [any_u32(); 10];
    let bytes = W::new(be).bitmap(bits, &words).v;
    let (v, _) = dec::<BitSetRef>(be, &bytes);
    check!(v.is_some() == (bits <= 256), "a bitmap has at most 256 bits");
    if v.is_some() {
        cover(1);
    } else {
        cover(2);
    }
}

// ---------------------------------------------------------------- C15 submessages with sets

/// any fields, any set of up to 256 numbers: read, and written again
#[no_mangle]
pub extern "C" fn c15_ack_nack() {
    let (be, out_be) = (any_bool(), any_bool());
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let n = some_words();
    let (bits, bitmap) = any_bitmap(n);
    let (base, count) = (any_i64(), any_i32());
    let bytes = W::new(be).raw(&reader).raw(&writer).sn(base).bitmap(bits, &bitmap.words[..n]).i32(count).v;
    let d: AckNack = decode_exactly(be, &bytes);
    check_bytes!(enc(true, &d.reader_id), reader, "reader id of a decoded AckNack");
    check_bytes!(enc(true, &d.writer_id), writer, "writer id of a decoded AckNack");
    check_eq!(i32::from(d.count), count, "count of a decoded AckNack");
    let out = enc(out_be, &d);
    check_bytes!(out[..4], reader, "reader id of an encoded AckNack");
    check_bytes!(out[4..8], writer, "writer id of an encoded AckNack");
    check_eq!(rsn(out_be, &out[8..]), base, "base of the set of an encoded AckNack");
    let (again, used) = read_bits(out_be, &out[16..]);
    check_bits!(again, bitmap.below(bits), "set of an encoded AckNack");
    check_eq!(out.len(), 16 + used + 4, "size of an encoded AckNack");
    check_eq!(ru32(out_be, &out[16 + used..]), count as u32, "count of an encoded AckNack");
    cover(1);
}

/// any fields, any set of up to 256 numbers: read, and written again
#[no_mangle]
pub extern "C" fn c15_gap() {
    let (be, out_be) = (any_bool(), any_bool());
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let n = some_words();
    let (bits, bitmap) = any_bitmap(n);
    let (start, base) = (any_i64(), any_i64());
    let bytes = W::new(be).raw(&reader).raw(&writer).sn(start).sn(base).bitmap(bits, &bitmap.words[..n]).v;
    let d: Gap = decode_exactly(be, &bytes);
    check_bytes!(enc(true, &d.reader_id), reader, "reader id of a decoded Gap");
    check_bytes!(enc(true, &d.writer_id), writer, "writer id of a decoded Gap");
    check_eq!(i64::from(d.gap_start), start, "start of a decoded Gap");
    let out = enc(out_be, &d);
    check_bytes!(out[..4], reader, "reader id of an encoded Gap");
    check_bytes!(out[4..8], writer, "writer id of an encoded Gap");
    check_eq!(rsn(out_be, &out[8..]), start, "start of an encoded Gap");
    check_eq!(rsn(out_be, &out[16..]), base, "base of the set of an encoded Gap");
    let (again, used) = read_bits(out_be, &out[24..]);
    check_bits!(again, bitmap.below(bits), "set of an encoded Gap");
    check_eq!(out.len(), 24 + used, "size of an encoded Gap");
    cover(1);
}

/// any fields, any set of up to 256 numbers: read, and written again
#[no_mangle]
pub extern "C" fn c15_nack_frag() {
    let (be, out_be) = (any_bool(), any_bool());
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let n = some_words();
    let (bits, bitmap) = any_bitmap(n);
    let (sn, base, count) = (any_i64(), any_u32(), any_i32());
    let bytes = W::new(be).raw(&reader).raw(&writer).sn(sn).u32(base).bitmap(bits, &bitmap.words[..n]).i32(count).v;
    let d: NackFrag = decode_exactly(be, &bytes);
    check_bytes!(enc(true, &d.reader_id), reader, "reader id of a decoded NackFrag");
    check_bytes!(enc(true, &d.writer_id), writer, "writer id of a decoded NackFrag");
    check_eq!(i64::from(d.writer_sn), sn, "sequence number of a decoded NackFrag");
    check_eq!(i32::from(d.count), count, "count of a decoded NackFrag");
    let out = enc(out_be, &d);
    check_bytes!(out[..4], reader, "reader id of an encoded NackFrag");
    check_bytes!(out[4..8], writer, "writer id of an encoded NackFrag");
    check_eq!(rsn(out_be, &out[8..]), sn, "sequence number of an encoded NackFrag");
    check_eq!(ru32(out_be, &out[16..]), base, "base of the set of an encoded NackFrag");
    let (again, used) = read_bits(out_be, &out[20..]);
    check_bits!(again, bitmap.below(bits), "set of an encoded NackFrag");
    check_eq!(out.len(), 20 + used + 4, "size of an encoded NackFrag");
    check_eq!(ru32(out_be, &out[20 + used..]), count as u32, "count of an encoded NackFrag");
    cover(1);
}

/// a submessage whose set was built by one insertion of any number that fits, into any base
#[no_mangle]
pub extern "C" fn c15_built() {
    let be = any_bool();
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let (base, count) = (any_i64(), any_i32());
    let d = (choice(0, 7) as u8) << 5 | any_u8() & 31;
    assume(base <= i64::max_value() - i64::from(d));
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    set.insert(SequenceNumber_t::from(base + i64::from(d)));
    let a = AckNack {
        reader_id: decode_exactly(be, &reader),
        writer_id: decode_exactly(be, &writer),
        reader_sn_state: set,
        count: Count_t::from(count),
    };
    let out = enc(be, &a);
    check_bytes!(out[..4], reader, "reader id of an encoded AckNack");
    check_bytes!(out[4..8], writer, "writer id of an encoded AckNack");
    check_eq!(rsn(be, &out[8..]), base, "base of the set of an encoded AckNack");
    let (bits, used) = read_bits(be, &out[16..]);
    let mut model = Bits::empty();
    model.add(u32::from(d), true);
    check_bits!(bits, model, "set of an encoded AckNack");
    check_eq!(out.len(), 16 + used + 4, "size of an encoded AckNack");
    check_eq!(ru32(be, &out[16 + used..]), count as u32, "count of an encoded AckNack");
    cover(1);
}

/// an AckNack whose set was built by inserting 3 to 256 numbers (quick: 7 amounts, thorough: 29) above any base in a mixed order: written, and read with the same members
#[no_mangle]
pub extern "C" fn c15_built_of_many() {
    let be = choice(0, 1) == 1;
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let (base, count) = (any_i64(), any_i32());
    assume(base <= i64::max_value() - 255);
    let n = if thorough() { choice(0, 28) as u32 * 9 + 4 } else { [3, 4, 16, 33, 100, 255, 256][choice(0, 6)] };
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let mut model = Bits::empty();
    for i in 0..n {
        set.insert(SequenceNumber_t::from(base + i64::from(mixed(i))));
        model.add(mixed(i), true);
    }
    let a = AckNack {
        reader_id: decode_exactly(be, &reader),
        writer_id: decode_exactly(be, &writer),
        reader_sn_state: set,
        count: Count_t::from(count),
    };
    let out = enc(be, &a);
    check_bytes!(out[..4], reader, "reader id of an encoded AckNack");
    check_bytes!(out[4..8], writer, "writer id of an encoded AckNack");
    check_eq!(rsn(be, &out[8..]), base, "base of the set of an encoded AckNack");
    let (bits, used) = read_bits(be, &out[16..]);
    check_bits!(bits, model, "set of an encoded AckNack");
    check_eq!(out.len(), 16 + used + 4, "size of an encoded AckNack");
    check_eq!(ru32(be, &out[16 + used..]), count as u32, "count of an encoded AckNack");
    let again: AckNack = decode_exactly(be, &out);
    check!((again.reader_id == a.reader_id) & (again.writer_id == a.writer_id), "ids of a decoded AckNack");
    check!(again.count == a.count, "count of a decoded AckNack");
    let mut members = again.reader_sn_state.into_iter();
    for d in 0..256 {
        if model.has(d) {
            match members.next() {
                Some(x) => check!(i64::from(x) == base + i64::from(d), "members of the set of a decoded AckNack"),
                None => check!(false, "members of the set of a decoded AckNack"),
            }
        }
    }
    check!(members.next().is_none(), "members of the set of a decoded AckNack");
    cover(1);
}

// ---------------------------------------------------------------- C19 parameters

/// any parameter id, any value of up to 9 (thorough: 40) bytes
#[no_mangle]
pub extern "C" fn c19_write() {
    let be = any_bool();
    let id = any_u16();
    let n = choice(0, if thorough() { 40 } else { 9 });
    let value = any_bytes(n);
    let padded = (n + 3) / 4 * 4;
    let pid: ParameterId = decode_exactly(be, &W::new(be).u16(id).v);
    let p = Parameter::verif_new(pid, value.clone());
    let expected = W::new(be).u16(id).u16(padded as u16).raw(&value).raw(&[0; 3][..padded - n]).v;
    let out = enc(be, &p);
    check_bytes!(out, expected, "layout of a parameter");
    let again: Parameter = decode_exactly(be, &out);
    let (pid, read) = again.verif_parts();
    check_bytes!(enc(be, pid), W::new(be).u16(id).v, "id of a decoded parameter");
    check_bytes!(read, expected[4..], "value of a decoded parameter");
    cover(1);
}

/// any parameter id and announced length up to 9 (thorough: 40), multiple of four or not
#[no_mangle]
pub extern "C" fn c19_read() {
    let be = any_bool();
    let id = any_u16();
    let n = choice(0, if thorough() { 40 } else { 9 });
    let padded = (n + 3) / 4 * 4;
    let value = any_bytes(padded);
    let bytes = W::new(be).u16(id).u16(n as u16).raw(&value).v;
    let p: Parameter = decode_exactly(be, &bytes);
    let (pid, read) = p.verif_parts();
    check_bytes!(enc(be, pid), W::new(be).u16(id).v, "id of a decoded parameter");
    check!(read.len() >= n, "no byte of the value is lost");
    check_bytes!(read[..n], value[..n], "value of a decoded parameter");
    // what was read can be written, and means the same
    let out = enc(be, &p);
    check_bytes!(out[..2], bytes[..2], "id of a parameter written again");
    check_eq!(ru16(be, &out[2..]), padded, "length of a parameter written again");
    check_bytes!(out[4..4 + n], value[..n], "value of a parameter written again");
    cover(1);
}

/// longer values (every length up to 299, and quick: 6 up to 32769, thorough: 7 more up to 65532), any ids, the contents any in five places: written and read
#[no_mangle]
pub extern "C" fn c19_long() {
    let be = any_bool();
    let id = any_u16();
    let lengths = [1020, 1023, 1024, 1025, 4096, 32769, 2048, 2049, 4095, 8192, 16384, 65531, 65532];
    let n = match choice(0, 299) {
        k @ 0..=9 => lengths[if thorough() && k < 7 { k + 6 } else { k % 6 }],
        k => k,
    };
    let mut value = vec![0x5a; n];
    for i in [0, 1, n / 2, n - 2, n - 1].iter() {
        value[*i] = any_u8();
    }
    let padded = (n + 3) / 4 * 4;
    let pid: ParameterId = decode_exactly(be, &W::new(be).u16(id).v);
    let p = Parameter::verif_new(pid, value.clone());
    let mut expected = W::new(be).u16(id).u16(padded as u16).v;
    expected.extend_from_slice(&value);
    expected.extend_from_slice(&[0; 3][..padded - n]);
    let out = enc(be, &p);
    check_eq!(out.len(), expected.len(), "size of a parameter");
    check!(same(&out, &expected), "layout of a parameter");
    let (again, used) = dec::<Parameter>(be, &out);
    check_eq!(used, out.len(), "decoding uses exactly the bytes of the encoding");
    match again {
        Some(again) => {
            let (pid, read) = again.verif_parts();
            check_bytes!(enc(be, pid), W::new(be).u16(id).v, "id of a decoded parameter");
            check!(same(read, &expected[4..]), "value of a decoded parameter");
            cover(1);
        }
        None => check!(false, "a well-formed encoding is accepted"),
    }
}

/// longer announced lengths (every length 10 to 299, and quick: 10, thorough: 20 more up to 65535), any ids, the contents any in five places: read
#[no_mangle]
pub extern "C" fn c19_read_long() {
    let be = any_bool();
    let id = any_u16();
    let lengths = [65535, 65534, 65533, 65531, 65521, 32767, 32766, 1023, 1022, 4097, 65532, 65530, 65529, 65525, 65280, 65279, 49153, 32769, 16383, 8191];
    let n = match choice(0, if thorough() { 309 } else { 299 }) {
        k @ 0..=9 => lengths[k],
        k @ 300..=309 => lengths[k - 290],
        k => k,
    };
    let padded = (n + 3) / 4 * 4;
    let mut bytes = W::new(be).u16(id).u16(n as u16).v;
    bytes.extend_from_slice(&vec![0x5a; padded]);
    bytes.push(any_u8());
    for i in [0, 1, n / 2, n - 2, n - 1].iter() {
        bytes[4 + *i] = any_u8();
    }
    let (p, used) = dec::<Parameter>(be, &bytes);
    check_eq!(used, 4 + padded, "a parameter is read with its padding");
    match p {
        Some(p) => {
            let (pid, read) = p.verif_parts();
            check_bytes!(enc(be, pid), W::new(be).u16(id).v, "id of a decoded parameter");
            check!(read.len() >= n, "no byte of the value is lost");
            check!(same(&read[..n], &bytes[4..4 + n]), "value of a decoded parameter");
            cover(1);
        }
        None => check!(false, "a well-formed encoding is accepted"),
    }
}

/// values at the limit of the length field: they are written whole or refused
#[no_mangle]
pub extern "C" fn c19_limit() {
    let n = if thorough() { choice(65531, 65538) } else { [65532, 65533, 65536][choice(0, 2)] };
    let value = vec![0u8; n];
    let p = Parameter::verif_new(ParameterId::PID_USER_DATA, value);
    use speedy::Writable;
    match p.write_to_vec_with_ctx(endianness(true)) {
        Ok(v) => {
            cover(1);
            check_eq!(v.len(), 4 + (n + 3) / 4 * 4, "a parameter is written whole");
            check_eq!(ru16(true, &v[2..]), (n + 3) / 4 * 4, "the length of a parameter fits its field");
        }
        Err(_) => {
            cover(2);
            check!(n > 65532, "a parameter that fits is written");
        }
    }
}
