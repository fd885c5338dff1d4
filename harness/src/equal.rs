//! Equality, order and hash of values (C35).

use crate::refs::*;
use crate::rt::*;
use bytes::BytesMut;
use rtps_rs::verif::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use tokio_util::codec::Decoder;

const FILE: u32 = 8000;

const ACKNACK: u8 = 0x06;
const HEARTBEAT: u8 = 0x07;
const GAP: u8 = 0x08;
const NACK_FRAG: u8 = 0x12;
const HEARTBEAT_FRAG: u8 = 0x13;

fn fixed<T: PartialEq + for<'a> speedy::Readable<'a, speedy::Endianness>>(a: &[u8], b: &[u8]) {
    let be = any_bool();
    let x: T = decode_exactly(be, a);
    let y: T = decode_exactly(be, b);
    check!((x == y) == same(a, b), "equal iff the contents are");
    check!((x != y) != same(a, b), "unequal iff the contents are");
    check!((y == x) == same(a, b), "equality is symmetric");
    check!(x == x, "a value equals itself");
}

/// any two values of each type of fixed size without padding: submessage contents, headers, numbers, ids, times
#[no_mangle]
pub extern "C" fn c35_fixed_size() {
    let a = any_array::<28>();
    let b = any_array::<28>();
    match choice(0, 13) {
        0 => fixed::<Heartbeat>(&a[..28], &b[..28]),
        1 => fixed::<HeartbeatFrag>(&a[..24], &b[..24]),
        2 => fixed::<InfoSource>(&a[..16], &b[..16]),
        3 => fixed::<InfoDestination>(&a[..12], &b[..12]),
        4 => fixed::<SequenceNumber_t>(&a[..8], &b[..8]),
        5 => fixed::<FragmentNumber_t>(&a[..4], &b[..4]),
        6 => fixed::<Count_t>(&a[..4], &b[..4]),
        7 => fixed::<Time_t>(&a[..8], &b[..8]),
        8 => fixed::<Duration_t>(&a[..8], &b[..8]),
        9 => fixed::<ReliabilityKind_t>(&a[..4], &b[..4]),
        10 => fixed::<ParameterId>(&a[..2], &b[..2]),
        11 => fixed::<SubmessageFlag>(&a[..1], &b[..1]),
        12 => fixed::<SubmessageHeader>(&[a[0], a[1] & 0xfe, a[2], a[3]], &[b[0], b[1] & 0xfe, b[2], b[3]]),
        _ => {
            let mut bytes = [a, b];
            for x in bytes.iter_mut() {
                x[0] = b'R';
                x[1] = b'T';
                x[2] = b'P';
                x[3] = b'S';
            }
            fixed::<Header>(&bytes[0][..20], &bytes[1][..20]);
        }
    }
    cover(1);
}

/// A bitmap of up to two words with any members of a few positions.
fn any_members() -> (Vec<u32>, [u32; 2]) {
    let n = choice(0, 2);
    let mut words = Vec::with_capacity(2);
    let mut all = [0; 2];
    for i in 0..n {
        let w = any_u32() & if i == 0 { 0x8000_0101 } else { 0x0000_0001 };
        words.push(w);
        all[i] = w;
    }
    (words, all)
}

fn differ(a: &[u32; 2], b: &[u32; 2]) -> bool {
    ((a[0] ^ b[0]) | (a[1] ^ b[1])) != 0
}

/// any two AckNacks, Gaps, NackFrags: any fields, sets of up to two words with any of four members, announced with room to spare or not
#[no_mangle]
pub extern "C" fn c35_sets() {
    let kind = [ACKNACK, GAP, NACK_FRAG][choice(0, 2)];
    let (wa, ma) = any_members();
    let (wb, mb) = any_members();
    let (heads, tails) = match kind {
        ACKNACK => (16, 4),
        GAP => (24, 0),
        _ => (20, 4),
    };
    let a = any_array::<28>();
    let b = any_array::<28>();
    let body = |x: &[u8; 28], w: &Vec<u32>| {
        W::new(true).raw(&x[..heads]).bitmap(32 * w.len() as u32, w).raw(&x[heads..heads + tails]).v
    };
    let (va, vb) = (body(&a, &wa), body(&b, &wb));
    let equal = same(&a[..heads + tails], &b[..heads + tails]) & !differ(&ma, &mb);
    match kind {
        ACKNACK => {
            let (x, y): (AckNack, AckNack) = (decode_exactly(true, &va), decode_exactly(true, &vb));
            check!((x == y) == equal, "AckNacks are equal iff their contents are");
            check!((x.reader_sn_state == y.reader_sn_state) == (same(&a[8..16], &b[8..16]) & !differ(&ma, &mb)), "sets are equal iff base and members are");
            cover(1);
        }
        GAP => {
            let (x, y): (Gap, Gap) = (decode_exactly(true, &va), decode_exactly(true, &vb));
            check!((x == y) == equal, "Gaps are equal iff their contents are");
            cover(2);
        }
        _ => {
            let (x, y): (NackFrag, NackFrag) = (decode_exactly(true, &va), decode_exactly(true, &vb));
            check!((x == y) == equal, "NackFrags are equal iff their contents are");
            check!((x.fragment_number_state == y.fragment_number_state) == (same(&a[16..20], &b[16..20]) & !differ(&ma, &mb)), "sets are equal iff base and members are");
            cover(3);
        }
    }
    if equal {
        cover(4);
    }
    if equal & (wa.len() != wb.len()) {
        cover(5);
    }
}

/// two sets built by two insertions each, of numbers 0, 1, 31, 32 or 255 above any bases, in any order, or read from the wire
#[no_mangle]
pub extern "C" fn c35_built_sets() {
    let bases = [any_i64(), any_i64()];
    let mut offsets = [[0i64; 2]; 2];
    for i in 0..2 {
        assume(bases[i] <= i64::max_value() - 255);
        for j in 0..2 {
            offsets[i][j] = [0, 1, 31, 32, 255][choice(0, 4)];
        }
    }
    let build = |i: usize| {
        let mut s = SequenceNumberSet_t::new(SequenceNumber_t::from(bases[i]));
        for j in 0..2 {
            s.insert(SequenceNumber_t::from(bases[i] + offsets[i][j]));
        }
        s
    };
    let words = |i: usize| {
        let mut w = [0u32; 8];
        for j in 0..2 {
            w[offsets[i][j] as usize / 32] |= 1 << (offsets[i][j] % 32);
        }
        w
    };
    let (x, y) = (build(0), build(1));
    let equal = (bases[0] == bases[1]) & (words(0) == words(1));
    check!((x == y) == equal, "sets are equal iff base and members are");
    if equal {
        cover(1);
    }
    let bytes = W::new(true).sn(bases[1]).bitmap(256, &words(1)).v;
    let z: SequenceNumberSet_t = decode_exactly(true, &bytes);
    check!(z == y, "a set built equals the same set read from the wire");
    check!((x == z) == equal, "sets are equal iff base and members are");
}

/// The body of a submessage: big-endian contents without sets members.
fn body(kind: u8, x: &[u8; 28]) -> Vec<u8> {
    let v = W::new(true);
    match kind {
        ACKNACK => v.raw(&x[..16]).u32(0).raw(&x[16..20]),
        GAP => v.raw(&x[..24]).u32(0),
        NACK_FRAG => v.raw(&x[..20]).u32(0).raw(&x[20..24]),
        HEARTBEAT => v.raw(&x[..28]),
        _ => v.raw(&x[..24]),
    }
    .v
}

fn deliver(kind: u8, flags: u8, body: &[u8]) -> EntitySubmessage {
    let mut r = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4);
    let start = W::new(true).raw(b"RTPS").raw(&[2, 1, 1, 3]).raw(&[9; 12]).u8(kind).u8(flags).u16(body.len() as u16);
    let mut b = BytesMut::from(&start.raw(body).v[..]);
    check!(matches!(r.decode(&mut b), Ok(None)), "a header delivers nothing");
    match r.decode(&mut b) {
        Ok(Some(s)) => s,
        _ => panic!("a submessage was not delivered"),
    }
}

/// two submessages of any kinds as the receiver delivers them, any fields and flags, empty sets, big-endian
#[no_mangle]
pub extern "C" fn c35_delivered() {
    let kinds = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG];
    let (k, l) = (kinds[choice(0, 4)], kinds[choice(0, 4)]);
    let (a, b) = (any_array::<28>(), any_array::<28>());
    let (f, g) = (any_u8() & 0xfe, any_u8() & 0xfe);
    let x = deliver(k, f, &body(k, &a));
    let y = deliver(l, g, &body(l, &b));
    let n = match k {
        ACKNACK => 20,
        HEARTBEAT => 28,
        _ => 24,
    };
    let flagged = (k == ACKNACK) | (k == HEARTBEAT);
    let equal = (k == l) & same(&a[..n], &b[..n]) & (!flagged | (f == g));
    check!((x == y) == equal, "submessages are equal iff kind, contents and flags are");
    check!((y == x) == equal, "equality is symmetric");
    if equal {
        cover(1);
    } else {
        cover(2);
    }
}

fn made(kind: usize, guid: &[u8; 16], handle: &[u8; 16], number: i64) -> CacheChange {
    let kinds = [ChangeKind_t::ALIVE, ChangeKind_t::NOT_ALIVE_DISPOSED, ChangeKind_t::NOT_ALIVE_UNREGISTERED];
    CacheChange {
        kind: unsafe { std::ptr::read(&kinds[kind]) },
        writer_guid: decode_exactly(true, guid),
        instance_handle: InstanceHandle_t { entity_key: *handle },
        sequence_number: SequenceNumber_t::from(number),
        data_value: Data {},
    }
}

/// any two changes: any kinds, writers, handles, numbers
#[no_mangle]
pub extern "C" fn c35_changes() {
    let kinds = [choice(0, 2), choice(0, 2)];
    let guids = [any_array::<16>(), any_array::<16>()];
    let handles = [any_array::<16>(), any_array::<16>()];
    let numbers = [any_i64(), any_i64()];
    let x = made(kinds[0], &guids[0], &handles[0], numbers[0]);
    let y = made(kinds[1], &guids[1], &handles[1], numbers[1]);
    let equal = (kinds[0] == kinds[1])
        & same(&guids[0], &guids[1])
        & same(&handles[0], &handles[1])
        & (numbers[0] == numbers[1]);
    check!((x == y) == equal, "changes are equal iff all their fields are");
    check!((x.cmp(&y) == Ordering::Equal) == equal, "the order of changes agrees with equality");
    check!(x.cmp(&y) == y.cmp(&x).reverse(), "the order of changes is the same from both sides");
    check!(x.partial_cmp(&y) == Some(x.cmp(&y)), "both orders of changes agree");
    if equal {
        cover(1);
    } else {
        cover(2);
    }
}

/// any two parameters with values of up to 9 bytes
#[no_mangle]
pub extern "C" fn c35_parameters() {
    let (n, m) = (choice(0, 9), choice(0, 9));
    let (a, b) = (any_bytes(n), any_bytes(m));
    let (i, j) = (any_array::<2>(), any_array::<2>());
    let equal = same(&i, &j) & same(&a, &b);
    let x = Parameter::verif_new(decode_exactly(true, &i), a);
    let y = Parameter::verif_new(decode_exactly(true, &j), b);
    check!((x == y) == equal, "parameters are equal iff id and value are");
    if equal {
        cover(1);
    }
    if !equal {
        cover(2);
    }
}

/// For types that do not accept all bytes.
fn accepted<T: PartialEq + for<'a> speedy::Readable<'a, speedy::Endianness>>(a: &[u8], b: &[u8]) {
    if let (Some(x), Some(y)) = (dec::<T>(true, a).0, dec::<T>(true, b).0) {
        check!((x == y) == same(a, b), "equal iff the contents are");
        check!((x != y) != same(a, b), "unequal iff the contents are");
        if same(a, b) {
            cover(1);
        } else {
            cover(2);
        }
    }
}

/// any two locators, compact locators, lists of up to two locators, kinds, vendors, protocol ids, version and other ids
#[no_mangle]
pub extern "C" fn c35_locators_and_kinds() {
    let (n, m) = (choice(0, 2), choice(0, 2));
    let a = any_array::<48>();
    let b = any_array::<48>();
    match choice(0, 8) {
        0 => accepted::<Locator_t>(&a[..24], &b[..24]),
        1 => accepted::<LocatorUDPv4_t>(&a[..8], &b[..8]),
        2 => accepted::<LocatorKind_t>(&a[..4], &b[..4]),
        3 => accepted::<TopicKind_t>(&a[..4], &b[..4]),
        4 => accepted::<VendorId_t>(&a[..2], &b[..2]),
        5 => accepted::<SubmessageKind>(&a[..1], &b[..1]),
        6 => accepted::<ProtocolVersion_t>(&a[..2], &b[..2]),
        7 => accepted::<ProtocolId_t>(&a[..4], &b[..4]),
        _ => {
            let v = W::new(true).u32(n as u32).raw(&a[..24 * n]).v;
            let w = W::new(true).u32(m as u32).raw(&b[..24 * m]).v;
            accepted::<LocatorList_t>(&v, &w);
        }
    }
}

fn ordered<T: Ord>(x: &T, y: &T, z: &T, equal: bool) {
    check!((x.cmp(y) == Ordering::Equal) == equal, "the order agrees with equality");
    check!(x.cmp(y) == y.cmp(x).reverse(), "the order is the same from both sides");
    check!(x.partial_cmp(y) == Some(x.cmp(y)), "both orders agree");
    check!((x < y) == (x.cmp(y) == Ordering::Less), "less agrees with the order");
    check!((x >= y) == (x.cmp(y) != Ordering::Less), "greater or equal agrees with the order");
    check!(!((x < y) & (y < z)) | (x < z), "the order is transitive");
}

/// any three values of every ordered type: the order is total, transitive, and agrees with equality
#[no_mangle]
pub extern "C" fn c35_order() {
    let bytes = [any_array::<16>(), any_array::<16>(), any_array::<16>()];
    macro_rules! three {
        ($t:ty, $n:expr) => {{
            let x: $t = decode_exactly(true, &bytes[0][..$n]);
            let y: $t = decode_exactly(true, &bytes[1][..$n]);
            let z: $t = decode_exactly(true, &bytes[2][..$n]);
            ordered(&x, &y, &z, same(&bytes[0][..$n], &bytes[1][..$n]));
            check!((x == y) == same(&bytes[0][..$n], &bytes[1][..$n]), "equal iff the contents are");
        }};
    }
    match choice(0, 10) {
        0 => three!(SequenceNumber_t, 8),
        1 => three!(FragmentNumber_t, 4),
        2 => three!(Count_t, 4),
        3 => three!(Time_t, 8),
        4 => three!(Duration_t, 8),
        5 => three!(GUID_t, 16),
        6 => three!(GuidPrefix_t, 12),
        7 => three!(EntityId_t, 4),
        8 => three!(InstanceHandle_t, 16),
        9 => three!(ProtocolVersion_t, 2),
        _ => three!(SubmessageFlag, 1),
    }
    cover(1);
}

/// Takes down what is hashed.
struct Taken {
    bytes: [u8; 32],
    n: usize,
}

impl Hasher for Taken {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            if self.n < 32 {
                self.bytes[self.n] = *b;
            }
            self.n += 1;
        }
    }
}

fn taken<T: Hash>(x: &T) -> Taken {
    let mut t = Taken { bytes: [0; 32], n: 0 };
    x.hash(&mut t);
    t
}

fn hashed<T: Hash + PartialEq>(x: &T, y: &T) {
    let (s, t) = (taken(x), taken(y));
    let equal = (s.n == t.n) & same(&s.bytes, &t.bytes);
    check!(!(x == y) | equal, "equal values have equal hashes");
    check!(s.n > 0, "a hash takes the value into account");
}

/// any two sequence numbers, fragment numbers, times: equal ones hash alike; clones of these and of identities and counts equal the original
#[no_mangle]
pub extern "C" fn c35_hash() {
    let (a, b) = (any_array::<8>(), any_array::<8>());
    match choice(0, 3) {
        0 => {
            let (x, y): (SequenceNumber_t, SequenceNumber_t) = (decode_exactly(true, &a), decode_exactly(true, &b));
            hashed(&x, &y);
            check!(x.clone() == x, "a clone equals the original");
        }
        1 => {
            let (x, y): (FragmentNumber_t, FragmentNumber_t) =
                (decode_exactly(true, &a[..4]), decode_exactly(true, &b[..4]));
            hashed(&x, &y);
            check!(x.clone() == x, "a clone equals the original");
        }
        2 => {
            let (x, y): (Time_t, Time_t) = (decode_exactly(true, &a), decode_exactly(true, &b));
            hashed(&x, &y);
            check!(x.clone() == x, "a clone equals the original");
        }
        _ => {
            macro_rules! clone {
                ($t:ty, $n:expr) => {{
                    let bytes = any_array::<$n>();
                    let x: $t = decode_exactly(true, &bytes);
                    check_bytes!(enc(true, &x.clone()), bytes, "a clone equals the original");
                    check_bytes!(enc(true, &x), bytes, "the original stays as it is");
                }};
            }
            clone!(GUID_t, 16);
            clone!(GuidPrefix_t, 12);
            clone!(EntityId_t, 4);
            clone!(VendorId_t, 2);
            clone!(ProtocolVersion_t, 2);
            clone!(Count_t, 4);
        }
    }
    cover(1);
}
