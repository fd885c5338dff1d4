//! Conversions to and from the standard library's types, arithmetic, flags
//! (C20 - C22, C26, C27).

use crate::refs::*;
use crate::rt::*;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::verif::*;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const FILE: u32 = 5000;

const BILLION: u64 = 1_000_000_000;

fn any_nanos() -> u32 {
    let n = any_u32();
    assume(n < BILLION as u32);
    n
}

fn time_parts(t: SystemTime) -> Option<(u64, u32)> {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => Some((d.as_secs(), d.subsec_nanos())),
        Err(_) => None,
    }
}

// ---------------------------------------------------------------- C20 times

/// any system time of the 2^63 seconds from the epoch on
#[no_mangle]
pub extern "C" fn c20_from_system() {
    let (secs, nanos) = (any_u64(), any_nanos());
    assume(secs <= i64::max_value() as u64);
    let (s, f) = Time_t::from(UNIX_EPOCH + Duration::new(secs, nanos)).verif_parts();
    if secs <= i32::max_value() as u64 {
        check_eq!(s as u32, secs, "seconds of a time");
        let (n, f) = (u64::from(nanos) << 32, u64::from(f));
        check!((f * BILLION <= n) & (n < (f + 1) * BILLION), "fraction of a time");
        cover(1);
    } else {
        check!((s == -1) & (f == 0xffff_ffff), "a time that cannot be represented is invalid");
        cover(2);
    }
}

/// any system time of the 2^62 seconds before the epoch
#[no_mangle]
pub extern "C" fn c20_before_epoch() {
    let (secs, nanos) = (any_u64(), any_nanos());
    assume(secs <= 1 << 62);
    assume((secs != 0) | (nanos != 0));
    let (s, f) = Time_t::from(UNIX_EPOCH - Duration::new(secs, nanos)).verif_parts();
    check!((s == -1) & (f == 0xffff_ffff), "a time that cannot be represented is invalid");
    cover(1);
}

/// any Time_t
#[no_mangle]
pub extern "C" fn c20_to_system() {
    let (s, f) = (any_i32(), any_u32());
    match SystemTime::try_from(Time_t::verif_new(s, f)) {
        Ok(t) => {
            check!(s >= 0, "a time before the epoch is refused");
            match time_parts(t) {
                Some((secs, nanos)) => {
                    check_eq!(secs, s as u32, "seconds of a system time");
                    let (n, f) = (u64::from(nanos), u64::from(f) * BILLION);
                    check!((n << 32 <= f) & (f < (n + 1) << 32), "nanoseconds of a system time");
                }
                None => check!(false, "a system time is not before the epoch"),
            }
            cover(1);
        }
        Err(_) => {
            check!(s < 0, "a time that can be represented is converted");
            cover(2);
        }
    }
}

/// any system time that can be represented, there and back
#[no_mangle]
pub extern "C" fn c20_round_trip() {
    let secs = any_u64();
    assume(secs <= i32::max_value() as u64);
    let nanos = any_nanos();
    let t = Time_t::from(UNIX_EPOCH + Duration::new(secs, nanos));
    match SystemTime::try_from(t).ok().and_then(time_parts) {
        Some((s, n)) => {
            check_eq!(s, secs, "seconds survive the round trip");
            check!((n <= nanos) & (nanos - n <= 1), "at most a nanosecond is lost on the round trip");
            cover(1);
        }
        None => check!(false, "a time that was converted can be converted back"),
    }
}

/// any two Time_t and the times they are converted from
#[no_mangle]
pub extern "C" fn c20_order() {
    let (a, b) = ((any_i32(), any_u32()), (any_i32(), any_u32()));
    let (x, y) = (Time_t::verif_new(a.0, a.1), Time_t::verif_new(b.0, b.1));
    let less = (a.0 < b.0) | ((a.0 == b.0) & (a.1 < b.1));
    let equal = (a.0 == b.0) & (a.1 == b.1);
    check!((x < y) == less, "times are ordered by seconds and fraction");
    check!((x == y) == equal, "times are equal if seconds and fraction are");
    check!((x > y) == !(less | equal), "times are ordered by seconds and fraction");
    check!((x.cmp(&y) == Ordering::Less) == less, "times are ordered by seconds and fraction");
    check!((x.cmp(&y) == Ordering::Equal) == equal, "times are ordered by seconds and fraction");
    cover(1);
}

// ---------------------------------------------------------------- C21 durations

/// any std Duration
#[no_mangle]
pub extern "C" fn c21_from_std() {
    let (secs, nanos) = (any_u64(), any_nanos());
    let d = Duration_t::from(Duration::new(secs, nanos));
    let (s, f) = d.verif_parts();
    if secs <= i32::max_value() as u64 {
        check_eq!(s as u32, secs, "seconds of a duration");
        check_eq!(f, nanos, "fraction of a duration");
        cover(1);
        // and back, exactly
        let again = Duration::from(d);
        check_eq!(again.as_secs(), secs, "seconds survive the round trip");
        check_eq!(again.subsec_nanos(), nanos, "nanoseconds survive the round trip");
    } else {
        check!(d == Duration_t::DURATION_INFINITE, "a duration too long is infinite");
        cover(2);
    }
}

/// any Duration_t
#[no_mangle]
pub extern "C" fn c21_to_std() {
    let (s, f) = (any_i32(), any_u32());
    let d = Duration::from(Duration_t::verif_new(s, f));
    let (secs, nanos) = (d.as_secs(), d.subsec_nanos());
    if s < 0 {
        check!((secs == 0) & (nanos == 0), "a negative duration lasts no time");
        cover(1);
    } else {
        let carry = choice(0, 4) as u64;
        assume((u64::from(f) >= carry * BILLION) & (u64::from(f) < (carry + 1) * BILLION));
        check_eq!(secs, s as u64 + carry, "seconds of a duration");
        check_eq!(nanos, u64::from(f) - carry * BILLION, "nanoseconds of a duration");
        cover(2);
    }
}

/// any two Duration_t
#[no_mangle]
pub extern "C" fn c21_order() {
    let (a, b) = ((any_i32(), any_u32()), (any_i32(), any_u32()));
    let (x, y) = (Duration_t::verif_new(a.0, a.1), Duration_t::verif_new(b.0, b.1));
    let less = (a.0 < b.0) | ((a.0 == b.0) & (a.1 < b.1));
    let equal = (a.0 == b.0) & (a.1 == b.1);
    check!((x < y) == less, "durations are ordered by seconds and fraction");
    check!((x == y) == equal, "durations are equal if seconds and fraction are");
    check!((x.cmp(&y) == Ordering::Less) == less, "durations are ordered by seconds and fraction");
    check!((x.cmp(&y) == Ordering::Equal) == equal, "durations are ordered by seconds and fraction");
    cover(1);
}

// ---------------------------------------------------------------- C22 locators

fn all_zero(bytes: &[u8]) -> bool {
    let mut r = 0;
    for &b in bytes {
        r |= b;
    }
    r == 0
}

fn kind_code(kind: LocatorKind_t) -> u32 {
    ru32(true, &enc(true, &kind))
}

/// any IPv4 socket address
#[no_mangle]
pub extern "C" fn c22_from_v4() {
    let (ip, port) = (any_array::<4>(), any_u16());
    let a = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(ip[0], ip[1], ip[2], ip[3]), port));
    let l = Locator_t::from(a);
    check_eq!(l.port, port, "port of a locator");
    check_bytes!(l.address[..12], [0; 12], "padding of an IPv4 locator");
    check_bytes!(l.address[12..], ip, "address of an IPv4 locator");
    if all_zero(&ip) {
        check_eq!(kind_code(l.kind), 0xffff_ffffu32, "an unspecified address is no locator");
        cover(1);
    } else {
        check_eq!(kind_code(l.kind), 1, "kind of an IPv4 locator");
        check!(SocketAddr::from(l) == a, "an address survives the round trip");
        cover(2);
    }
}

/// any IPv6 socket address, any flow and scope
#[no_mangle]
pub extern "C" fn c22_from_v6() {
    let (ip, port) = (any_array::<16>(), any_u16());
    let a = SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(ip), port, any_u32(), any_u32()));
    let l = Locator_t::from(a);
    check_eq!(l.port, port, "port of a locator");
    check_bytes!(l.address, ip, "address of an IPv6 locator");
    if all_zero(&ip) {
        check_eq!(kind_code(l.kind), 0xffff_ffffu32, "an unspecified address is no locator");
        cover(1);
    } else {
        check_eq!(kind_code(l.kind), 2, "kind of an IPv6 locator");
        let again = SocketAddr::from(l);
        check!(again.is_ipv6(), "an address survives the round trip");
        check!(again.ip() == IpAddr::V6(Ipv6Addr::from(ip)), "an address survives the round trip");
        check_eq!(again.port(), port, "a port survives the round trip");
        cover(2);
    }
}

/// any locator of any kind, address and port
#[no_mangle]
pub extern "C" fn c22_to_socket() {
    let kinds = [
        LocatorKind_t::LOCATOR_KIND_INVALID,
        LocatorKind_t::LOCATOR_KIND_RESERVED,
        LocatorKind_t::LOCATOR_KIND_UDPv4,
        LocatorKind_t::LOCATOR_KIND_UDPv6,
    ];
    let k = choice(0, 3);
    let (address, port) = (any_array::<16>(), any_u32());
    let s = SocketAddr::from(Locator_t { kind: kinds[k], port, address });
    if (k < 2) | (port > 65535) {
        check!(s.ip().is_unspecified(), "a locator that is no UDP address is unspecified");
        check_eq!(s.port(), 0, "a locator that is no UDP address has no port");
        cover(1);
    } else {
        check_eq!(s.port(), port, "port of a socket address");
        match s.ip() {
            IpAddr::V4(ip) => {
                check_eq!(k, 2, "family of a socket address");
                check_bytes!(ip.octets(), address[12..], "an IPv4 socket address");
                cover(2);
            }
            IpAddr::V6(ip) => {
                check_eq!(k, 3, "family of a socket address");
                check_bytes!(ip.octets(), address, "an IPv6 socket address");
                cover(3);
            }
        }
    }
}

/// any compact IPv4 locator, to and from the other types
#[no_mangle]
pub extern "C" fn c22_udp_v4() {
    let (ip, port) = (any_array::<4>(), any_u32());
    let bytes = W::new(true).raw(&ip).u32(port).v;
    let s = SocketAddrV4::from(decode_exactly::<LocatorUDPv4_t>(true, &bytes));
    let l = Locator_t::from(decode_exactly::<LocatorUDPv4_t>(true, &bytes));
    check_bytes!(l.address[..12], [0; 12], "padding of an IPv4 locator");
    if port > 65535 {
        check!(s.ip().is_unspecified(), "a locator without a port is unspecified");
        check_eq!(s.port(), 0, "a locator without a port has none");
        check!(l == Locator_t::LOCATOR_INVALID, "a locator without a port is invalid");
        cover(1);
    } else {
        check_bytes!(s.ip().octets(), ip, "an IPv4 socket address");
        check_eq!(s.port(), port, "port of a socket address");
        check_bytes!(l.address[12..], ip, "address of an IPv4 locator");
        check_eq!(l.port, port, "port of a locator");
        let kind = if all_zero(&ip) { 0xffff_ffffu32 } else { 1 };
        check_eq!(kind_code(l.kind), kind, "kind of an IPv4 locator");
        let again = LocatorUDPv4_t::from(s);
        check_bytes!(enc(true, &again), bytes, "a compact locator survives the round trip");
        cover(2);
    }
}

// ---------------------------------------------------------------- C26 numbers

fn number(x: Option<SequenceNumber_t>) -> Option<i64> {
    x.map(i64::from)
}

fn fragment(x: Option<FragmentNumber_t>) -> Option<u32> {
    x.map(u32::from)
}

/// any two sequence numbers: checked arithmetic
#[no_mangle]
pub extern "C" fn c26_sequence_checked() {
    let (a, b) = (any_i64(), any_i64());
    let (x, y) = (SequenceNumber_t::from(a), SequenceNumber_t::from(b));
    match choice(0, 3) {
        0 => {
            let sum = i128::from(a) + i128::from(b);
            match number(x.checked_add(&y)) {
                Some(r) => check!(i128::from(r) == sum, "sum of sequence numbers"),
                None => check!(
                    (sum > i128::from(i64::max_value())) | (sum < i128::from(i64::min_value())),
                    "a sum that fits is found"
                ),
            }
            cover(1);
        }
        1 => {
            let difference = i128::from(a) - i128::from(b);
            match number(x.checked_sub(&y)) {
                Some(r) => check!(i128::from(r) == difference, "difference of sequence numbers"),
                None => check!(
                    (difference > i128::from(i64::max_value())) | (difference < i128::from(i64::min_value())),
                    "a difference that fits is found"
                ),
            }
            cover(2);
        }
        2 => {
            check!(number(x.checked_mul(&y)) == a.checked_mul(b), "product of sequence numbers");
            cover(3);
        }
        _ => {
            check!(number(x.checked_div(&y)) == a.checked_div(b), "quotient of sequence numbers");
            cover(4);
        }
    }
}

/// any two fragment numbers: checked arithmetic
#[no_mangle]
pub extern "C" fn c26_fragment_checked() {
    let (a, b) = (any_u32(), any_u32());
    let (x, y) = (FragmentNumber_t::from(a), FragmentNumber_t::from(b));
    match choice(0, 3) {
        0 => {
            let sum = u64::from(a) + u64::from(b);
            match fragment(x.checked_add(&y)) {
                Some(r) => check!(u64::from(r) == sum, "sum of fragment numbers"),
                None => check!(sum > 0xffff_ffff, "a sum that fits is found"),
            }
            cover(1);
        }
        1 => {
            match fragment(x.checked_sub(&y)) {
                Some(r) => check!((a >= b) & (r == a.wrapping_sub(b)), "difference of fragment numbers"),
                None => check!(a < b, "a difference that fits is found"),
            }
            cover(2);
        }
        2 => {
            check!(fragment(x.checked_mul(&y)) == a.checked_mul(b), "product of fragment numbers");
            cover(3);
        }
        _ => {
            check!(fragment(x.checked_div(&y)) == a.checked_div(b), "quotient of fragment numbers");
            cover(4);
        }
    }
}

/// any two numbers whose sum, difference and so on exist: the operators
#[no_mangle]
pub extern "C" fn c26_operators() {
    let (a, b) = (any_i64(), any_i64());
    let (x, y) = (SequenceNumber_t::from(a), SequenceNumber_t::from(b));
    let (c, d) = (any_u32(), any_u32());
    let (v, w) = (FragmentNumber_t::from(c), FragmentNumber_t::from(d));
    match choice(0, 6) {
        0 => {
            assume(a.checked_add(b).is_some());
            check_eq!(i64::from(x + y), a + b, "sum of sequence numbers");
        }
        1 => {
            assume(a.checked_sub(b).is_some());
            check_eq!(i64::from(x - y), a - b, "difference of sequence numbers");
        }
        2 => {
            check_eq!(i64::from(x / SequenceNumber_t::from(7)), a / 7, "quotient of sequence numbers");
        }
        3 => {
            check_eq!(i64::from(x % SequenceNumber_t::from(32)), a % 32, "remainder of sequence numbers");
        }
        4 => {
            assume(c.checked_add(d).is_some());
            check_eq!(u32::from(v + w), c + d, "sum of fragment numbers");
        }
        5 => {
            assume(c >= d);
            check_eq!(u32::from(v - w), c - d, "difference of fragment numbers");
        }
        _ => {
            let w = FragmentNumber_t::from(40);
            check_eq!(u32::from(v % w), c % 40, "remainder of fragment numbers");
            check_eq!(u32::from(v / w), c / 40, "quotient of fragment numbers");
        }
    }
    cover(1);
}

/// any two numbers: order, equality, conversions, defaults
#[no_mangle]
pub extern "C" fn c26_order() {
    let (a, b) = (any_i64(), any_i64());
    let (x, y) = (SequenceNumber_t::from(a), SequenceNumber_t::from(b));
    check!((x < y) == (a < b), "sequence numbers are ordered as numbers");
    check!((x == y) == (a == b), "sequence numbers are equal as numbers");
    check!((x >= y) == (a >= b), "sequence numbers are ordered as numbers");
    check!((x.cmp(&y) == std::cmp::Ordering::Less) == (a < b), "sequence numbers are ordered as numbers");
    check_eq!(i64::from(x), a, "a sequence number is the number it was made from");
    check!(x.to_i64() == Some(a), "a sequence number is the number it was made from");
    check!(x.to_u64() == if a < 0 { None } else { Some(a as u64) }, "a sequence number is the number it was made from");
    check!(SequenceNumber_t::from_i64(a) == Some(x), "a sequence number is made from any number");
    let u = any_u64();
    let made = SequenceNumber_t::from_u64(u).map(i64::from);
    check!(made == if u > i64::max_value() as u64 { None } else { Some(u as i64) }, "a sequence number fits 64 bits with sign");
    let (c, d) = (any_u32(), any_u32());
    let (v, w) = (FragmentNumber_t::from(c), FragmentNumber_t::from(d));
    check!((v < w) == (c < d), "fragment numbers are ordered as numbers");
    check!((v == w) == (c == d), "fragment numbers are equal as numbers");
    check!((v.cmp(&w) == std::cmp::Ordering::Greater) == (c > d), "fragment numbers are ordered as numbers");
    check_eq!(u32::from(v), c, "a fragment number is the number it was made from");
    check!(v.to_u64() == Some(u64::from(c)), "a fragment number is the number it was made from");
    let made = FragmentNumber_t::from_i64(a).map(u32::from);
    check!(made == if (a < 0) | (a > 0xffff_ffff) { None } else { Some(a as u32) }, "a fragment number fits 32 bits");
    check_eq!(i64::from(SequenceNumber_t::default()), 1, "sequence numbers begin with 1");
    check_eq!(u32::from(FragmentNumber_t::default()), 1, "fragment numbers begin with 1");
    check_eq!(i64::from(SequenceNumber_t::SEQUENCENUMBER_UNKNOWN), -1i64 << 32, "the unknown sequence number");
    cover(1);
}

// ---------------------------------------------------------------- C27 flags

/// any flags, any masks, up to three changes
#[no_mangle]
pub extern "C" fn c27_flags() {
    let mut model = any_u8();
    let mut f = SubmessageFlag { flags: model };
    for _ in 0..3 {
        let mask = any_u8();
        if any_bool() {
            f.set_flag(mask);
            model |= mask;
        } else {
            f.clear_flag(mask);
            model &= 255 - mask;
        }
        check_eq!(f.flags, model, "setting and clearing affect the flags of the mask and no others");
        let probe = any_u8();
        check!(f.is_flag_set(probe) == (model & probe != 0), "a flag is set if its bit is");
        check_eq!(f.flags, model, "asking changes nothing");
        let little = match f.endianness_flag() {
            speedy::Endianness::LittleEndian => true,
            speedy::Endianness::BigEndian => false,
        };
        check!(little == (model & 1 == 1), "the first flag tells the endianness");
    }
    cover(1);
}

/// any flags: the endianness they tell is the one a submessage header is read and written with
#[no_mangle]
pub extern "C" fn c27_endianness() {
    let flags = any_u8();
    let length = any_u16();
    let id = any_u8();
    let (high, low) = ((length >> 8) as u8, length as u8);
    let bytes = if flags & 1 == 1 { [id, flags, low, high] } else { [id, flags, high, low] };
    let h: SubmessageHeader = decode_exactly(any_bool(), &bytes);
    check_eq!(h.submessage_length, length, "the length is read as the flags tell");
    check_eq!(h.flags.flags, flags, "the flags are read as they are");
    check_bytes!(enc(any_bool(), &h), bytes, "the length is written as the flags tell");
    cover(1);
}
