//! Every way of encoding and decoding (C36).

use crate::refs::*;
use crate::rt::*;
use rtps_rs::verif::*;
use speedy::{Endianness, Readable, Writable};

const FILE: u32 = 9000;

/// A stream that gives its bytes in pieces.
struct Pieces<'a> {
    bytes: &'a [u8],
    at: usize,
    piece: usize,
}

impl<'a> std::io::Read for Pieces<'a> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.piece).min(self.bytes.len() - self.at);
        out[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A stream that takes down what is written, in pieces.
struct Sink {
    bytes: Vec<u8>,
    piece: usize,
}

impl std::io::Write for Sink {
    fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
        let n = bytes.len().min(self.piece);
        self.bytes.extend_from_slice(&bytes[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn ways<T>(be: bool, bytes: &[u8])
where
    T: PartialEq + for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let e = || endianness(be);
    let (first, n) = dec::<T>(be, bytes);
    let owned = T::read_from_buffer_owned_with_ctx(e(), bytes).ok();
    check!(owned == first, "reading owned values gives the same");
    let borrowed = T::read_from_buffer_with_ctx(e(), bytes).ok();
    check!(borrowed == first, "reading from a buffer gives the same");
    let piece = [1, 3, 64][choice(0, 2)];
    let stream = T::read_from_stream_unbuffered_with_ctx(e(), Pieces { bytes, at: 0, piece }).ok();
    check!(stream == first, "reading from a stream gives the same");
    let value = match first {
        Some(value) => value,
        None => {
            cover(2);
            return;
        }
    };
    check!(T::minimum_bytes_needed() <= n, "no value takes less than the least number of bytes");
    let vec = enc(be, &value);
    match Writable::<Endianness>::bytes_needed(&value) {
        Ok(m) => check_eq!(m, vec.len(), "as many bytes as are said to be needed"),
        Err(_) => check!(false, "the number of bytes needed is known"),
    }
    let mut exact = vec![0xee; vec.len()];
    check!(value.write_to_buffer_with_ctx(e(), &mut exact).is_ok(), "the buffer needs to be no larger");
    check!(same(&exact, &vec), "writing to a buffer gives the same");
    if vec.len() > 0 {
        let mut short = vec![0xee; vec.len() - 1];
        check!(value.write_to_buffer_with_ctx(e(), &mut short).is_err(), "a buffer too small is refused");
    }
    let mut sink = Sink { bytes: Vec::with_capacity(128), piece };
    check!(value.write_to_stream_with_ctx(e(), &mut sink).is_ok(), "a value can be written to a stream");
    check!(same(&sink.bytes, &vec), "writing to a stream gives the same");
    cover(1);
}

/// any bytes (of the length of the encoding, one less or one more) for every type of fixed size: from and to buffers and streams, in pieces of 1, 3 or 64
#[no_mangle]
pub extern "C" fn c36_fixed_size() {
    let more = choice(0, 2);
    macro_rules! of {
        ($t:ty, $n:expr) => {
            ways::<$t>(any_bool(), &any_bytes($n + 1 - more))
        };
    }
    match choice(0, 21) {
        0 => of!(Heartbeat, 28),
        1 => of!(HeartbeatFrag, 24),
        2 => of!(InfoSource, 16),
        3 => of!(InfoDestination, 12),
        4 => of!(SequenceNumber_t, 8),
        5 => of!(FragmentNumber_t, 4),
        6 => of!(Count_t, 4),
        7 => of!(Time_t, 8),
        8 => of!(Duration_t, 8),
        9 => of!(ReliabilityKind_t, 4),
        10 => of!(ParameterId, 2),
        11 => of!(SubmessageFlag, 1),
        12 => of!(SubmessageHeader, 4),
        13 => of!(Header, 20),
        14 => of!(GUID_t, 16),
        15 => of!(GuidPrefix_t, 12),
        16 => of!(EntityId_t, 4),
        17 => of!(InstanceHandle_t, 16),
        18 => of!(ProtocolVersion_t, 2),
        19 => of!(VendorId_t, 2),
        20 => of!(LocatorUDPv4_t, 8),
        _ => of!(SubmessageKind, 1),
    }
}

/// any bytes for locators, kinds with few values, and a locator list of up to two: from and to buffers and streams
#[no_mangle]
pub extern "C" fn c36_locators() {
    let more = choice(0, 2);
    let be = any_bool();
    match choice(0, 4) {
        0 => ways::<Locator_t>(be, &any_bytes(25 - more)),
        1 => ways::<LocatorKind_t>(be, &any_bytes(5 - more)),
        2 => ways::<TopicKind_t>(be, &any_bytes(5 - more)),
        3 => ways::<ProtocolId_t>(be, &any_bytes(5 - more)),
        _ => {
            let n = choice(0, 2);
            let mut bytes = W::new(be).u32(n as u32).raw(&any_bytes(24 * n + 1)).v;
            bytes.truncate(bytes.len() - more);
            ways::<LocatorList_t>(be, &bytes);
        }
    }
}

/// sets of up to two words (a few members), in AckNack, Gap and NackFrag, and parameters of up to 6 bytes: from and to buffers and streams
#[no_mangle]
pub extern "C" fn c36_sized() {
    let kind = choice(0, 5);
    let be = any_bool();
    let more = choice(0, 2);
    let n = choice(0, 2);
    let mut words = Vec::with_capacity(2);
    for i in 0..n {
        words.push(any_u32() & if i == 0 { 0x8000_0081 } else { 0x0100_0000 });
    }
    let bits = 32 * n as u32;
    let v = W::new(be);
    let mut v = match kind {
        0 => v.raw(&any_array::<16>()).bitmap(bits, &words).raw(&any_array::<4>()),
        1 => v.raw(&any_array::<24>()).bitmap(bits, &words),
        2 => v.raw(&any_array::<20>()).bitmap(bits, &words).raw(&any_array::<4>()),
        3 => v.raw(&any_array::<8>()).bitmap(bits, &words),
        4 => v.raw(&any_array::<4>()).bitmap(bits, &words),
        _ => {
            let length = [0, 4, 5, 8][choice(0, 3)];
            v.raw(&any_array::<2>()).u16(length as u16).raw(&any_bytes(8))
        }
    }
    .v;
    if more == 0 {
        v.push(any_u8());
    } else {
        v.truncate(v.len() + 1 - more);
    }
    match kind {
        0 => ways::<AckNack>(be, &v),
        1 => ways::<Gap>(be, &v),
        2 => ways::<NackFrag>(be, &v),
        3 => ways::<SequenceNumberSet_t>(be, &v),
        4 => ways::<FragmentNumberSet_t>(be, &v),
        _ => ways::<Parameter>(be, &v),
    }
}
