//! Reference side of the harnesses: the RTPS wire layout, written down
//! independently of the crate under verification.

use crate::rt::*;
use speedy::{Endianness, Readable, Writable};

pub fn endianness(be: bool) -> Endianness {
    if be {
        Endianness::BigEndian
    } else {
        Endianness::LittleEndian
    }
}

/// Reference writer.
pub struct W {
    pub be: bool,
    pub v: Vec<u8>,
}

impl W {
    pub fn new(be: bool) -> W {
        W { be, v: Vec::with_capacity(128) }
    }
    pub fn u8(mut self, x: u8) -> W {
        self.v.push(x);
        self
    }
    pub fn u16(mut self, x: u16) -> W {
        let (h, l) = ((x >> 8) as u8, x as u8);
        if self.be {
            self.v.push(h);
            self.v.push(l);
        } else {
            self.v.push(l);
            self.v.push(h);
        }
        self
    }
    pub fn u32(self, x: u32) -> W {
        let (h, l) = ((x >> 16) as u16, x as u16);
        if self.be {
            self.u16(h).u16(l)
        } else {
            self.u16(l).u16(h)
        }
    }
    pub fn i32(self, x: i32) -> W {
        self.u32(x as u32)
    }
    /// SequenceNumber_t: { long high; unsigned long low; }
    pub fn sn(self, x: i64) -> W {
        let x = x as u64;
        self.u32((x >> 32) as u32).u32(x as u32)
    }
    pub fn raw(mut self, b: &[u8]) -> W {
        for &x in b {
            self.v.push(x);
        }
        self
    }
    /// A bitmap: number of bits and ceil(bits / 32) words.
    pub fn bitmap(mut self, bits: u32, words: &[u32]) -> W {
        self = self.u32(bits);
        for &w in words {
            self = self.u32(w);
        }
        self
    }
}

pub fn ru16(be: bool, b: &[u8]) -> u16 {
    if be {
        u16::from(b[0]) << 8 | u16::from(b[1])
    } else {
        u16::from(b[1]) << 8 | u16::from(b[0])
    }
}
pub fn ru32(be: bool, b: &[u8]) -> u32 {
    if be {
        u32::from(ru16(be, b)) << 16 | u32::from(ru16(be, &b[2..]))
    } else {
        u32::from(ru16(be, &b[2..])) << 16 | u32::from(ru16(be, b))
    }
}
pub fn rsn(be: bool, b: &[u8]) -> i64 {
    (u64::from(ru32(be, b)) << 32 | u64::from(ru32(be, &b[4..]))) as i64
}

/// The crate's encoding of a value.
pub fn enc<T: Writable<Endianness>>(be: bool, value: &T) -> Vec<u8> {
    match value.write_to_vec_with_ctx(endianness(be)) {
        Ok(v) => v,
        Err(_) => panic!("a value could not be encoded"),
    }
}

/// The crate's decoding of bytes, and how many it used.
pub fn dec<T: for<'a> Readable<'a, Endianness>>(be: bool, bytes: &[u8]) -> (Option<T>, usize) {
    let (r, n) = T::read_with_length_from_buffer_with_ctx(endianness(be), bytes);
    (r.ok(), n)
}

/// The decoded value of `bytes`, all of which must be used although more follow.
pub fn decode_exactly<T: for<'a> Readable<'a, Endianness>>(be: bool, bytes: &[u8]) -> T {
    const FILE: u32 = 1000;
    let more = bytes.len() + 1;
    let mut padded = Vec::with_capacity(more);
    for &b in bytes {
        padded.push(b);
    }
    padded.push(any_u8());
    let (v, n) = dec::<T>(be, &padded);
    check!(v.is_some(), "a well-formed encoding is accepted");
    check_eq!(n, bytes.len(), "decoding uses exactly the bytes of the encoding");
    match v {
        Some(v) => v,
        None => panic!("a well-formed encoding was refused"),
    }
}

/// reference bytes -> value -> bytes
pub fn round_trip<T>(be: bool, bytes: &[u8]) -> T
where
    T: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    const FILE: u32 = 1000;
    let v: T = decode_exactly(be, bytes);
    let again = enc(be, &v);
    check_bytes!(again, bytes, "a decoded value is encoded to the bytes it came from");
    v
}

/// No strict prefix of the encoding is accepted.
pub fn prefixes_rejected<T: for<'a> Readable<'a, Endianness>>(be: bool, bytes: &[u8]) {
    const FILE: u32 = 1000;
    let n = choice(0, bytes.len() - 1);
    let (v, _) = dec::<T>(be, &bytes[..n]);
    cover(1);
    check!(v.is_none(), "a truncated encoding is refused");
}
