//! The message receiver: framing, interpretation context, delivery (C01 - C09, C30).

use crate::refs::*;
use crate::rt::*;
use crate::sets::{any_bitmap, read_bits, Bits};
use bytes::BytesMut;
use rtps_rs::verif::*;
use tokio_util::codec::Decoder;

const FILE: u32 = 4000;

const PAD: u8 = 0x01;
const ACKNACK: u8 = 0x06;
const HEARTBEAT: u8 = 0x07;
const GAP: u8 = 0x08;
const INFO_TS: u8 = 0x09;
const INFO_SRC: u8 = 0x0c;
const INFO_REPLY_IP4: u8 = 0x0d;
const INFO_DST: u8 = 0x0e;
const INFO_REPLY: u8 = 0x0f;
const NACK_FRAG: u8 = 0x12;
const HEARTBEAT_FRAG: u8 = 0x13;
const DATA: u8 = 0x15;
const DATA_FRAG: u8 = 0x16;

/// Stands for every id that no other constant names.
const UNKNOWN: u8 = 0xff;

const ENTITIES: [u8; 5] = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG];
const INTERPRETERS: [u8; 5] = [INFO_TS, INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY];
const ALL: [u8; 12] = [
    ACKNACK,
    HEARTBEAT,
    GAP,
    NACK_FRAG,
    HEARTBEAT_FRAG,
    INFO_TS,
    INFO_SRC,
    INFO_REPLY_IP4,
    INFO_DST,
    INFO_REPLY,
    PAD,
    UNKNOWN,
];

fn is_named(id: u8) -> bool {
    let mut r = false;
    for k in &ALL[..11] {
        r |= id == *k;
    }
    r | (id == DATA) | (id == DATA_FRAG)
}

/// The id to put on the wire for `kind`: any unnamed one for UNKNOWN.
fn id_of(kind: u8) -> u8 {
    if kind != UNKNOWN {
        return kind;
    }
    let id = any_u8();
    assume(!is_named(id));
    id
}

// ---------------------------------------------------------------- reference

/// A locator: kind, port (both big-endian) and address.
type Place = [u8; 24];

fn place(kind: u32, port: u32, address: &[u8]) -> Place {
    let mut r = [0; 24];
    for i in 0..4 {
        r[i] = (kind >> (24 - 8 * i)) as u8;
        r[4 + i] = (port >> (24 - 8 * i)) as u8;
    }
    for i in 0..16 {
        r[8 + i] = address[i];
    }
    r
}

const KIND_INVALID: u32 = 0xffff_ffff;

/// What the receiver knows about the submessages that follow.
#[derive(Clone)]
pub struct Context {
    version: [u8; 2],
    vendor: [u8; 2],
    source: [u8; 12],
    destination: [u8; 12],
    unicast: Vec<Place>,
    multicast: Vec<Place>,
    timestamp: Option<(u32, u32)>,
}

impl Context {
    fn new(kind: u32, version: [u8; 2], vendor: [u8; 2], source: [u8; 12]) -> Context {
        let nowhere = place(kind, 0, &[0; 16]);
        Context {
            version,
            vendor,
            source,
            destination: [0; 12],
            unicast: vec![nowhere],
            multicast: vec![nowhere],
            timestamp: None,
        }
    }
}

/// What becomes of a submessage.
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    /// Nothing is delivered: it changes the context, or has no meaning.
    Silent,
    /// Delivered; that many bytes of its body carry its contents.
    Delivered(usize),
    Refused,
}

fn copy<const N: usize>(bytes: &[u8]) -> [u8; N] {
    let mut r = [0; N];
    for i in 0..N {
        r[i] = bytes[i];
    }
    r
}

fn read_places(be: bool, bytes: &[u8]) -> Option<(Vec<Place>, usize)> {
    if bytes.len() < 4 {
        return None;
    }
    let n = ru32(be, bytes);
    if n as usize > (bytes.len() - 4) / 24 {
        return None;
    }
    let mut r = Vec::with_capacity(4);
    let mut at = 4;
    let mut left = n;
    while left > 0 {
        let kind = ru32(be, &bytes[at..]);
        if !((kind == KIND_INVALID) | (kind <= 2)) {
            return None;
        }
        r.push(place(kind, ru32(be, &bytes[at + 4..]), &bytes[at + 8..at + 24]));
        at += 24;
        left -= 1;
    }
    Some((r, at))
}

fn read_place_ip4(be: bool, bytes: &[u8]) -> Option<Place> {
    if bytes.len() < 8 {
        return None;
    }
    let (address, port) = (ru32(be, bytes), ru32(be, &bytes[4..]));
    if port > 65535 {
        return Some(place(KIND_INVALID, 0, &[0; 16]));
    }
    let mut a = [0; 16];
    for i in 0..4 {
        a[12 + i] = (address >> (24 - 8 * i)) as u8;
    }
    let kind = if address == 0 { KIND_INVALID } else { 1 };
    Some(place(kind, port, &a))
}

/// Size of a body that ends with a bitmap (at `at`) and `more` bytes.
fn with_bitmap(be: bool, body: &[u8], at: usize, more: usize) -> Fate {
    if body.len() < at + 4 {
        return Fate::Refused;
    }
    let bits = ru32(be, &body[at..]);
    if bits > 256 {
        return Fate::Refused;
    }
    let size = at + 4 + (bits as usize + 31) / 32 * 4 + more;
    if body.len() < size {
        Fate::Refused
    } else {
        Fate::Delivered(size)
    }
}

fn fixed(body: &[u8], size: usize) -> Fate {
    if body.len() < size {
        Fate::Refused
    } else {
        Fate::Delivered(size)
    }
}

/// The reference interpreter of one submessage.
fn interpret(c: &mut Context, kind: u8, flags: u8, body: &[u8]) -> Fate {
    let be = flags & 1 == 0;
    match kind {
        ACKNACK => with_bitmap(be, body, 16, 4),
        GAP => with_bitmap(be, body, 24, 0),
        NACK_FRAG => with_bitmap(be, body, 20, 4),
        HEARTBEAT => fixed(body, 28),
        HEARTBEAT_FRAG => fixed(body, 24),
        INFO_TS => {
            if flags & 2 != 0 {
                c.timestamp = None;
            } else if body.len() < 8 {
                return Fate::Refused;
            } else {
                c.timestamp = Some((ru32(be, body), ru32(be, &body[4..])));
            }
            Fate::Silent
        }
        INFO_SRC => {
            if body.len() < 16 {
                return Fate::Refused;
            }
            let nowhere = place(KIND_INVALID, 0, &[0; 16]);
            c.version = copy(body);
            c.vendor = copy(&body[2..]);
            c.source = copy(&body[4..]);
            c.unicast = vec![nowhere];
            c.multicast = vec![nowhere];
            c.timestamp = None;
            Fate::Silent
        }
        INFO_DST => {
            if body.len() < 12 {
                return Fate::Refused;
            }
            if !same(&body[..12], &[0; 12]) {
                c.destination = copy(body);
            }
            Fate::Silent
        }
        INFO_REPLY => {
            let (unicast, at) = match read_places(be, body) {
                Some(x) => x,
                None => return Fate::Refused,
            };
            let mut multicast = vec![];
            if flags & 2 != 0 {
                match read_places(be, &body[at..]) {
                    Some(x) => multicast = x.0,
                    None => return Fate::Refused,
                }
            }
            c.unicast = unicast;
            c.multicast = multicast;
            Fate::Silent
        }
        INFO_REPLY_IP4 => {
            let unicast = match read_place_ip4(be, body) {
                Some(x) => x,
                None => return Fate::Refused,
            };
            let mut multicast = vec![];
            if flags & 2 != 0 {
                match read_place_ip4(be, &body[8..]) {
                    Some(x) => multicast.push(x),
                    None => return Fate::Refused,
                }
            }
            c.unicast = vec![unicast];
            c.multicast = multicast;
            Fate::Silent
        }
        _ => Fate::Silent,
    }
}

fn check_places(actual: &[Locator_t], expected: &[Place]) {
    check_eq!(actual.len(), expected.len(), "number of reply locators");
    for (a, e) in actual.iter().zip(expected.iter()) {
        check_bytes!(enc(true, a), e, "reply locator");
    }
}

fn check_context(r: &MessageReceiver, c: &Context) {
    let r = r.verif_receiver();
    check_bytes!(enc(true, &r.source_version), c.version, "source version");
    check_bytes!(enc(true, &r.source_vendor_id), c.vendor, "source vendor");
    check_bytes!(enc(true, &r.source_guid_prefix), c.source, "source prefix");
    check_bytes!(enc(true, &r.dest_guid_prefix), c.destination, "destination prefix");
    check_places(&r.unicast_reply_locator_list, &c.unicast);
    check_places(&r.multicast_reply_locator_list, &c.multicast);
    check!(r.have_timestamp == c.timestamp.is_some(), "is there a timestamp");
    if let Some((seconds, fraction)) = c.timestamp {
        let (s, f) = r.timestamp.verif_parts();
        check_eq!(s as u32, seconds, "seconds of the timestamp");
        check_eq!(f, fraction, "fraction of the timestamp");
    }
}

/// `actual` means the same as `expected`: ids, numbers, a set, a count.
fn check_with_bitmap(be: bool, actual: &[u8], expected: &[u8], at: usize, more: usize) {
    check_bytes!(actual[..at], expected[..at], "fields of a delivered submessage");
    let (bits, used) = read_bits(be, &actual[at..]);
    let (wanted, used_by_wanted) = read_bits(be, &expected[at..]);
    for i in 0..8 {
        check_eq!(bits.words[i], wanted.words[i], "set of a delivered submessage");
    }
    check_eq!(actual.len(), at + used + more, "size of a delivered submessage");
    check_bytes!(
        actual[at + used..],
        expected[at + used_by_wanted..at + used_by_wanted + more],
        "count of a delivered submessage"
    );
}

fn check_ids(be: bool, reader: &EntityId_t, writer: &EntityId_t, body: &[u8]) {
    check_bytes!(enc(be, reader), body[..4], "reader of a delivered submessage");
    check_bytes!(enc(be, writer), body[4..8], "writer of a delivered submessage");
}

fn check_number(be: bool, number: SequenceNumber_t, body: &[u8]) {
    check_eq!(i64::from(number), rsn(be, body), "sequence number of a delivered submessage");
}

fn check_count(be: bool, count: Count_t, body: &[u8]) {
    check_eq!(i32::from(count) as u32, ru32(be, body), "count of a delivered submessage");
}

fn check_delivered(item: Option<EntitySubmessage>, kind: u8, flags: u8, body: &[u8], size: usize) {
    let be = flags & 1 == 0;
    match item {
        Some(EntitySubmessage::AckNack(x, f)) => {
            check!(kind == ACKNACK, "kind of a delivered submessage");
            check_eq!(f.flags, flags, "flags of a delivered AckNack");
            check_ids(be, &x.reader_id, &x.writer_id, body);
            check_count(be, x.count, &body[size - 4..]);
            check_with_bitmap(be, &enc(be, &x), body, 16, 4);
        }
        Some(EntitySubmessage::Gap(x)) => {
            check!(kind == GAP, "kind of a delivered submessage");
            check_ids(be, &x.reader_id, &x.writer_id, body);
            check_number(be, x.gap_start, &body[8..]);
            check_with_bitmap(be, &enc(be, &x), body, 24, 0);
        }
        Some(EntitySubmessage::NackFrag(x)) => {
            check!(kind == NACK_FRAG, "kind of a delivered submessage");
            check_ids(be, &x.reader_id, &x.writer_id, body);
            check_number(be, x.writer_sn, &body[8..]);
            check_count(be, x.count, &body[size - 4..]);
            check_with_bitmap(be, &enc(be, &x), body, 20, 4);
        }
        Some(EntitySubmessage::Heartbeat(x, f)) => {
            check!(kind == HEARTBEAT, "kind of a delivered submessage");
            check_eq!(f.flags, flags, "flags of a delivered Heartbeat");
            check_ids(be, &x.reader_id, &x.writer_id, body);
            check_number(be, x.first_sn, &body[8..]);
            check_number(be, x.last_sn, &body[16..]);
            check_count(be, x.count, &body[24..]);
            check_bytes!(enc(be, &x), body[..size], "contents of a delivered Heartbeat");
        }
        Some(EntitySubmessage::HeartbeatFrag(x)) => {
            check!(kind == HEARTBEAT_FRAG, "kind of a delivered submessage");
            check_ids(be, &x.reader_id, &x.writer_id, body);
            check_number(be, x.writer_sn, &body[8..]);
            check_eq!(u32::from(x.last_fragment_num), ru32(be, &body[16..]), "fragment of a delivered HeartbeatFrag");
            check_count(be, x.count, &body[20..]);
            check_bytes!(enc(be, &x), body[..size], "contents of a delivered HeartbeatFrag");
        }
        Some(_) => check!(false, "kind of a delivered submessage"),
        None => check!(false, "an entity submessage is delivered"),
    }
}

// ---------------------------------------------------------------- setting up

fn header_bytes(version: &[u8; 2], vendor: &[u8; 2], source: &[u8; 12]) -> Vec<u8> {
    W::new(true).raw(b"RTPS").raw(version).raw(vendor).raw(source).v
}

fn kind_of(n: u32) -> LocatorKind_t {
    match n {
        1 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => LocatorKind_t::LOCATOR_KIND_INVALID,
    }
}

/// A receiver that has accepted the header of a message, and its context.
fn receiver() -> (MessageReceiver, Context) {
    let mut r = MessageReceiver::new(kind_of(1));
    let source = any_array::<12>();
    let bytes = header_bytes(&[2, 4], &[1, 15], &source);
    let mut b = BytesMut::from(&bytes[..]);
    let ok = match r.decode(&mut b) {
        Ok(None) => true,
        _ => false,
    };
    check!(ok, "a valid header is accepted");
    check!(b.is_empty(), "the header is consumed");
    (r, Context::new(1, [2, 4], [1, 15], source))
}

/// A receiver whose context an earlier part of the message has changed.
fn seasoned_receiver() -> (MessageReceiver, Context) {
    seasoned(0)
}

/// Whether what the crate logs is worked out (there is no logger that prints it).
fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

/// A receiver in any of the situations that differ in kind: a new message, or one
/// whose context has been changed, with a timestamp or without.
fn any_receiver() -> (MessageReceiver, Context) {
    match choice(0, 2) {
        0 => receiver(),
        1 => seasoned(0),
        _ => seasoned(2),
    }
}

fn seasoned(timestamp_flags: u8) -> (MessageReceiver, Context) {
    let (mut r, mut c) = receiver();
    for kind in &[INFO_SRC, INFO_TS, INFO_DST, INFO_REPLY_IP4] {
        let body = match *kind {
            INFO_SRC => any_bytes(16),
            INFO_TS => any_bytes(8),
            INFO_DST => vec![7, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, any_u8()],
            _ => {
                let mut b = vec![127, 0, 0, any_u8() | 1, 0, 0];
                b.push(any_u8());
                b.push(any_u8());
                b.extend_from_slice(&[239, 1, 1, any_u8() | 1, 0, 0]);
                b.push(any_u8());
                b.push(any_u8());
                b
            }
        };
        let flags = match *kind {
            INFO_REPLY_IP4 => 2,
            INFO_TS => timestamp_flags,
            _ => 0,
        };
        let bytes = submessage(*kind, flags, &body);
        let mut b = BytesMut::from(&bytes[..]);
        let _ = r.decode(&mut b);
        interpret(&mut c, *kind, flags, &body);
    }
    (r, c)
}

fn submessage(id: u8, flags: u8, body: &[u8]) -> Vec<u8> {
    W::new(flags & 1 == 0).u8(id).u8(flags).u16(body.len() as u16).raw(body).v
}

/// Any flags, of an endianness chosen per path.
fn any_flags() -> u8 {
    let le = any_bool();
    (any_u8() & 0xfe) | le as u8
}

fn least(kind: u8) -> usize {
    match kind {
        ACKNACK => 24,
        GAP => 28,
        NACK_FRAG => 28,
        HEARTBEAT => 28,
        HEARTBEAT_FRAG => 24,
        INFO_TS => 8,
        INFO_SRC => 16,
        INFO_DST => 12,
        INFO_REPLY => 4,
        INFO_REPLY_IP4 => 8,
        _ => 4,
    }
}

/// Sizes of bodies of interest: not zero where that would mean up to the end of the message.
fn any_size(kind: u8) -> usize {
    let empty = (kind == INFO_TS) | (kind == PAD);
    if thorough() {
        return choice(!empty as usize, 72);
    }
    let n = least(kind);
    let sizes = match kind {
        ACKNACK | GAP | NACK_FRAG => [1, n - 1, n, n + 4, n + 7],
        INFO_REPLY => [3, 4, 28, 32, 56],
        INFO_REPLY_IP4 => [7, 8, 12, 16, 17],
        _ => [!empty as usize, n - 1, n, n + 1, n + 9],
    };
    sizes[choice(0, 4)]
}

fn pick(kinds: &[u8]) -> u8 {
    kinds[choice(0, kinds.len() - 1)]
}

/// What became of one call of `decode`.
fn outcome(got: Result<Option<EntitySubmessage>, std::io::Error>) -> (Option<EntitySubmessage>, bool) {
    match got {
        Ok(item) => (item, true),
        Err(_) => (None, false),
    }
}

/// Decode one submessage and compare everything with the reference.
fn step(r: &mut MessageReceiver, b: &mut BytesMut, c: &mut Context, kind: u8, flags: u8, body: &[u8]) -> Fate {
    let fate = interpret(c, kind, flags, body);
    let (item, ok) = outcome(r.decode(b));
    check!(ok == (fate != Fate::Refused), "a submessage is refused if and only if it is malformed");
    match fate {
        Fate::Delivered(size) => check_delivered(item, kind, flags, body, size),
        _ => check!(item.is_none(), "only entity submessages are delivered"),
    }
    check_context(r, c);
    fate
}

// ---------------------------------------------------------------- C01 no panic

/// any 0 to 24 bytes where a message begins
#[no_mangle]
pub extern "C" fn c01_message_start() {
    logging(true);
    let bytes = any_bytes(choice(0, 24));
    let mut r = MessageReceiver::new(kind_of(choice(0, 2) as u32));
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(item.is_none(), "a header delivers nothing");
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// every kind but DATA and DATA_FRAG, any flags and any announced length, any bytes present (quick: 22 sizes up to 72, thorough: all sizes up to 80)
#[no_mangle]
pub extern "C" fn c01_submessage() {
    logging(true);
    let (mut r, _) = receiver();
    let kind = pick(&ALL);
    let sizes = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 20, 24, 28, 29, 32, 36, 40, 60, 64, 72];
    let n = if thorough() { choice(0, 80) } else { sizes[choice(0, 21)] };
    let mut bytes = any_bytes(n);
    if n > 0 {
        bytes[0] = id_of(kind);
    }
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    if item.is_some() {
        cover(1);
    }
    if !ok {
        cover(2);
    }
    // whatever it was, the receiver goes on
    b.clear();
    b.extend_from_slice(&[PAD, 1, 4, 0, 0, 0, 0, 0]);
    let (again, _) = outcome(r.decode(&mut b));
    if again.is_none() {
        cover(3);
    }
}

/// any bytes after the header (quick: up to 9, thorough: up to 14), decoded until nothing more is consumed; no submessage that starts there is DATA or DATA_FRAG
#[no_mangle]
pub extern "C" fn c01_stream() {
    let (mut r, _) = receiver();
    let bytes = any_bytes(choice(1, if thorough() { 14 } else { 9 }));
    let mut b = BytesMut::from(&bytes[..]);
    loop {
        let before = b.len();
        if before > 0 {
            assume((b[0] != DATA) & (b[0] != DATA_FRAG));
        }
        let (_, ok) = outcome(r.decode(&mut b));
        if ok {
            cover(1);
        } else {
            cover(2);
        }
        check!(b.len() <= before, "decoding does not add to the buffer");
        if b.len() == before {
            break;
        }
    }
}

/// 1100 (thorough: 2200) submessages of each kind but DATA and DATA_FRAG, well formed and malformed by turns, any flags and contents
#[no_mangle]
pub extern "C" fn c01_many() {
    let n = if thorough() { 2200 } else { 1100 };
    let kind = pick(&ALL);
    let mut r = receiver().0;
    let flags = any_flags();
    let pieces = [submessage(id_of(kind), flags, &plain_body(kind)), submessage(id_of(kind), flags, &any_bytes(3))];
    let mut b = BytesMut::new();
    for i in 0..n {
        b.extend_from_slice(&pieces[i % 2]);
    }
    for _ in 0..n {
        let before = b.len();
        let (_, _) = outcome(r.decode(&mut b));
        check!(b.len() < before, "a complete submessage is consumed");
    }
    cover(1);
}

/// the same for every length from 1 to 65535, the first 32 bytes of the contents any and the others zero (reply lists: of no locators)
#[no_mangle]
pub extern "C" fn c01_every_length() {
    logging(true);
    every_kind_and_length();
    cover(1);
}

/// reply locator lists announcing any number of locators, in 0 to 80 bytes
#[no_mangle]
pub extern "C" fn c01_reply_lists() {
    let (mut r, _) = receiver();
    let flags = any_flags();
    let sizes = [4, 8, 27, 28, 31, 32, 36, 52, 56, 60, 80];
    let n = if thorough() { choice(4, 104) } else { sizes[choice(0, 10)] };
    let bytes = submessage(INFO_REPLY, flags, &any_bytes(n));
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(item.is_none(), "a reply submessage delivers nothing");
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// DATA and DATA_FRAG, which are not implemented
#[no_mangle]
pub extern "C" fn c01_data_submessages() {
    // known finding
    let (mut r, _) = receiver();
    let id = if any_bool() { DATA } else { DATA_FRAG };
    let bytes = submessage(id, any_flags(), &any_bytes(24));
    let mut b = BytesMut::from(&bytes[..]);
    let _ = r.decode(&mut b);
}

// ---------------------------------------------------------------- C02 framing

/// every kind but DATA and DATA_FRAG, well formed or not, any contents; any 0, 1, 4 or 9 bytes behind it
#[no_mangle]
pub extern "C" fn c02_exact() {
    let (mut r, _) = receiver();
    let kind = pick(&ALL);
    let flags = any_flags();
    let body = any_bytes(any_size(kind));
    let behind = any_bytes([0, 1, 4, 9][choice(0, 3)]);
    let mut bytes = submessage(id_of(kind), flags, &body);
    bytes.extend_from_slice(&behind);
    let mut b = BytesMut::from(&bytes[..]);
    let (_, ok) = outcome(r.decode(&mut b));
    check_bytes!(b, behind, "exactly the submessage is consumed");
    goes_on(&mut r);
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// lengths around 256 and at the limit of the length field, both endiannesses
#[no_mangle]
pub extern "C" fn c02_large() {
    let (mut r, mut c) = receiver();
    let kind = pick(&[PAD, UNKNOWN, HEARTBEAT, INFO_DST]);
    let le = any_bool();
    let n = [255, 256, 257, 511, 512, 0x1234, 65535][choice(0, 6)];
    let mut body = vec![0u8; n];
    for i in 0..28 {
        body[i] = any_u8();
    }
    let mut bytes = vec![];
    bytes.extend_from_slice(&[id_of(kind), le as u8]);
    let (high, low) = ((n >> 8) as u8, n as u8);
    bytes.extend_from_slice(&if le { [low, high] } else { [high, low] });
    bytes.extend_from_slice(&body);
    let behind = any_array::<5>();
    bytes.extend_from_slice(&behind);
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, kind, le as u8, &body);
    check_bytes!(b, behind, "exactly the submessage is consumed");
    goes_on(&mut r);
    cover(1);
}

/// padding and unknown ids of every length from 1 to 65535, any flags: exactly the submessage is consumed
#[no_mangle]
pub extern "C" fn c02_every_length() {
    let (mut r, c) = receiver();
    let kind = pick(&[PAD, UNKNOWN]);
    let flags = any_flags();
    let length = any_u16();
    assume(length != 0);
    let mut bytes = vec![0u8; 65540];
    bytes[0] = id_of(kind);
    bytes[1] = flags;
    let (high, low) = ((length >> 8) as u8, length as u8);
    let (first, second) = if flags & 1 == 1 { (low, high) } else { (high, low) };
    bytes[2] = first;
    bytes[3] = second;
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok, "a submessage of an unknown kind is no error");
    check!(item.is_none(), "a submessage of an unknown kind is skipped");
    check_eq!(b.len() as u64, 65536 - u64::from(length), "exactly the submessage is consumed");
    check_context(&r, &c);
    goes_on(&mut r);
    cover(1);
}

/// The message has not ended: what comes next is a submessage.
fn goes_on(r: &mut MessageReceiver) {
    let mut next = BytesMut::from(&[0x80, 0, 0, 2, 0, 0, 0][..]);
    let (item, ok) = outcome(r.decode(&mut next));
    check!(ok & item.is_none(), "a submessage of an unknown kind is skipped");
    check_eq!(next.len(), 1, "the submessage that follows is consumed");
}

/// submessages of every kind but DATA and DATA_FRAG of every length from 1 to 65535, any flags, the first 32 bytes of their contents any (reply lists: of no locators): exactly the submessage is consumed, and none panics
#[no_mangle]
pub extern "C" fn c02_every_kind_and_length() {
    every_kind_and_length();
    cover(1);
}

fn every_kind_and_length() {
    let (mut r, mut c) = receiver();
    let kind = ALL[choice(0, 9)];
    let flags = any_u8() & 0xfe | choice(0, 1) as u8;
    let length = any_u16();
    assume(length != 0);
    let mut bytes = vec![0u8; 65540];
    bytes[0] = kind;
    bytes[1] = flags;
    let (high, low) = ((length >> 8) as u8, length as u8);
    let (first, second) = if flags & 1 == 1 { (low, high) } else { (high, low) };
    bytes[2] = first;
    bytes[3] = second;
    let body = plain_body(kind);
    bytes[4..4 + body.len()].copy_from_slice(&body);
    let all = bytes.clone();
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, kind, flags, &all[4..4 + usize::from(length)]);
    check_eq!(b.len() as u64, 65536 - u64::from(length), "exactly the submessage is consumed");
    goes_on(&mut r);
}

/// padding and unknown ids of any length up to 40 (thorough: 300), any contents, logging on or off: nothing happens
#[no_mangle]
pub extern "C" fn c02_skipped() {
    logging(any_bool());
    let (mut r, c) = any_receiver();
    let kind = pick(&[PAD, UNKNOWN]);
    let flags = any_flags();
    let body = any_bytes(choice(1, if thorough() { 300 } else { 40 }));
    let behind = any_array::<3>();
    let mut bytes = submessage(id_of(kind), flags, &body);
    bytes.extend_from_slice(&behind);
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok, "a submessage of an unknown kind is no error");
    check!(item.is_none(), "a submessage of an unknown kind is skipped");
    check_bytes!(b, behind, "exactly the submessage is consumed");
    goes_on(&mut r);
    check_context(&r, &c);
    cover(1);
}

/// padding of length zero and a timestamp invalidation of length zero are submessages like any other, any flags and what follows
#[no_mangle]
pub extern "C" fn c02_empty_bodies() {
    let (mut r, mut c) = seasoned_receiver();
    let kind = pick(&[PAD, INFO_TS]);
    let flags = any_flags();
    let mut bytes = submessage(kind, flags, &[]);
    let next = any_bytes(8);
    bytes.extend_from_slice(&submessage(INFO_TS, 1, &next));
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, kind, flags, &[]);
    check_eq!(b.len(), 12, "exactly the submessage is consumed");
    step(&mut r, &mut b, &mut c, INFO_TS, 1, &next);
    check!(b.is_empty(), "the next submessage is decoded as usual");
    cover(1);
}

/// 1100 (thorough: 2200) submessages in one message, kinds but DATA and DATA_FRAG in turn or all of one kind, any flags and contents: each is consumed exactly, none is an error
#[no_mangle]
pub extern "C" fn c02_many() {
    let n = if thorough() { 2200 } else { 1100 };
    let which = choice(0, ALL.len());
    let (mut r, _) = receiver();
    let mut pieces = vec![];
    for i in 0..if which < ALL.len() { 1 } else { ALL.len() } {
        let kind = if which < ALL.len() { ALL[which] } else { ALL[i] };
        pieces.push(submessage(id_of(kind), (any_u8() & 0xfe) | i as u8 & 1, &plain_body(kind)));
    }
    let mut b = BytesMut::new();
    for i in 0..n {
        b.extend_from_slice(&pieces[i % pieces.len()]);
    }
    for i in 0..n {
        let before = b.len();
        let (_, ok) = outcome(r.decode(&mut b));
        check!(ok, "a well-formed submessage is no error");
        check_eq!(before - b.len(), pieces[i % pieces.len()].len(), "exactly the submessage is consumed");
    }
    check!(b.is_empty(), "the whole message is consumed");
    cover(1);
}

/// A body with any contents that is well formed in both endiannesses.
fn plain_body(kind: u8) -> Vec<u8> {
    let mut body = any_bytes(usual_size(kind));
    match kind {
        ACKNACK => body[16..20].copy_from_slice(&[0; 4]),
        GAP => body[24..28].copy_from_slice(&[0; 4]),
        NACK_FRAG => body[20..24].copy_from_slice(&[0; 4]),
        INFO_REPLY => {
            body = vec![0; 8];
        }
        _ => (),
    }
    body
}

// ---------------------------------------------------------------- C03 incomplete input

/// any message header that arrives in two parts
#[no_mangle]
pub extern "C" fn c03_header() {
    let bytes = any_bytes(20);
    let cut = choice(0, 19);
    let mut parts = MessageReceiver::new(kind_of(2));
    let mut b = BytesMut::from(&bytes[..cut]);
    let nothing = match parts.decode(&mut b) {
        Ok(None) => true,
        _ => false,
    };
    check!(nothing, "an incomplete header is waited for");
    check_bytes!(b, bytes[..cut], "an incomplete header stays in the buffer");
    b.extend_from_slice(&bytes[cut..]);
    let (_, ok) = outcome(parts.decode(&mut b));
    check!(b.is_empty(), "the header is consumed");
    let mut whole = MessageReceiver::new(kind_of(2));
    let mut w = BytesMut::from(&bytes[..]);
    let (_, ok_whole) = outcome(whole.decode(&mut w));
    check!(ok == ok_whole, "a header in parts is judged as a header in one piece");
    check!(
        *parts.verif_receiver() == *whole.verif_receiver(),
        "a header in parts has the effect of a header in one piece"
    );
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// a submessage of any kind but DATA and DATA_FRAG that arrives in two parts (quick: cut at 9 places, thorough: anywhere)
#[no_mangle]
pub extern "C" fn c03_submessage() {
    let (mut r, mut c) = seasoned_receiver();
    let kind = pick(&ALL);
    let flags = any_flags();
    let n = match kind {
        INFO_REPLY => 32,
        INFO_REPLY_IP4 => 16,
        ACKNACK | GAP | NACK_FRAG => least(kind) + 4 * choice(0, 1),
        _ => least(kind),
    };
    let body = any_bytes(n);
    let bytes = submessage(id_of(kind), flags, &body);
    let end = bytes.len() - 1;
    let cut = if thorough() { choice(0, end) } else { [0, 1, 2, 3, 4, 5, 7, end - 1, end][choice(0, 8)] };
    let mut b = BytesMut::from(&bytes[..cut]);
    let nothing = match r.decode(&mut b) {
        Ok(None) => true,
        _ => false,
    };
    check!(nothing, "an incomplete submessage is waited for");
    check_bytes!(b, bytes[..cut], "an incomplete submessage stays in the buffer");
    check_context(&r, &c);
    b.extend_from_slice(&bytes[cut..]);
    step(&mut r, &mut b, &mut c, kind, flags, &body);
    check!(b.is_empty(), "the submessage is consumed");
    cover(1);
}

/// an announced length that the buffer does not reach: any of them, any kind but DATA and DATA_FRAG
#[no_mangle]
pub extern "C" fn c03_announced() {
    let (mut r, c) = receiver();
    let kind = pick(&ALL);
    let flags = any_flags();
    let present = any_bytes([0, 1, 8, 28][choice(0, 3)]);
    let length = any_u16();
    assume(length as usize > present.len());
    let bytes = W::new(flags & 1 == 0).u8(id_of(kind)).u8(flags).u16(length).raw(&present).v;
    let mut b = BytesMut::from(&bytes[..]);
    let nothing = match r.decode(&mut b) {
        Ok(None) => true,
        _ => false,
    };
    check!(nothing, "an incomplete submessage is waited for");
    check_bytes!(b, bytes, "an incomplete submessage stays in the buffer");
    check_context(&r, &c);
    cover(1);
}

/// a submessage of any kind but DATA and DATA_FRAG announcing any length up to 65535, of which any smaller number of bytes has arrived, the first 32 of them any
#[no_mangle]
pub extern "C" fn c03_every_length() {
    waiting();
    cover(1);
}

fn waiting() {
    let (mut r, c) = receiver();
    let kind = pick(&ALL);
    let flags = any_flags();
    let (length, present) = (any_u16(), any_u16());
    assume(present < length);
    let mut bytes = W::new(flags & 1 == 0).u8(id_of(kind)).u8(flags).u16(length).raw(&any_array::<32>()).v;
    bytes.extend_from_slice(&[0; 65535 - 32]);
    let mut b = BytesMut::from(&bytes[..]);
    b.truncate(4 + usize::from(present));
    alloc_limit(2048);
    let nothing = match r.decode(&mut b) {
        Ok(None) => true,
        _ => false,
    };
    check!(nothing, "an incomplete submessage is waited for");
    check_eq!(b.len(), 4 + usize::from(present), "an incomplete submessage stays in the buffer");
    check_context(&r, &c);
}

/// a header and two submessages arriving in three parts cut anywhere (quick: every third place): the same as in one piece
#[no_mangle]
pub extern "C" fn c03_parts() {
    let source = any_array::<12>();
    let mut bytes = header_bytes(&[2, 1], &[0, 9], &source);
    let (first, second) = [(INFO_TS, HEARTBEAT), (INFO_DST, INFO_REPLY_IP4), (HEARTBEAT_FRAG, INFO_SRC)][choice(0, 2)];
    let bodies = [any_bytes(least(first)), any_bytes(least(second))];
    bytes.extend_from_slice(&submessage(first, 1, &bodies[0]));
    bytes.extend_from_slice(&submessage(second, 0, &bodies[1]));
    let every = if thorough() { 1 } else { 3 };
    let a = choice(0, bytes.len() / every) * every;
    let z = choice(0, bytes.len() / every) * every;
    assume(a <= z);
    let mut r = MessageReceiver::new(kind_of(1));
    let mut b = BytesMut::new();
    let mut delivered = 0;
    for part in &[&bytes[..a], &bytes[a..z], &bytes[z..]] {
        b.extend_from_slice(part);
        loop {
            let before = b.len();
            let (item, ok) = outcome(r.decode(&mut b));
            check!(ok, "a well-formed message is accepted");
            if item.is_some() {
                let (kind, flags, body) = if first == HEARTBEAT_FRAG { (first, 1, &bodies[0]) } else { (second, 0, &bodies[1]) };
                check_delivered(item, kind, flags, body, body.len());
                delivered += 1;
            }
            if b.len() == before {
                break;
            }
        }
    }
    check!(b.is_empty(), "the whole message is consumed");
    let mut c = Context::new(1, [2, 1], [0, 9], source);
    interpret(&mut c, first, 1, &bodies[0]);
    interpret(&mut c, second, 0, &bodies[1]);
    check_context(&r, &c);
    check_eq!(delivered, if first == INFO_DST { 0 } else { 1 }, "each entity submessage is delivered once");
    cover(1);
}

/// a header and a submessage of any kind but DATA and DATA_FRAG arriving byte by byte: each attempt waits, and the last one does what it does in one piece
#[no_mangle]
pub extern "C" fn c03_bytes() {
    let source = any_array::<12>();
    let header = header_bytes(&[2, 1], &[0, 9], &source);
    let kind = pick(&ALL);
    let flags = any_flags();
    let body = plain_body(kind);
    let bytes = submessage(id_of(kind), flags, &body);
    let mut r = MessageReceiver::new(kind_of(1));
    let mut b = BytesMut::new();
    trickle(&mut r, &mut b, &header);
    let mut c = Context::new(1, [2, 1], [0, 9], source);
    check!(b.is_empty(), "the header is consumed");
    check_context(&r, &c);
    trickle(&mut r, &mut b, &bytes[..bytes.len() - 1]);
    check_bytes!(b, bytes[..bytes.len() - 1], "an incomplete submessage stays in the buffer");
    check_context(&r, &c);
    b.extend_from_slice(&bytes[bytes.len() - 1..]);
    step(&mut r, &mut b, &mut c, kind, flags, &body);
    check!(b.is_empty(), "the submessage is consumed");
    cover(1);
}

/// 1100 (thorough: 2200) attempts with nothing new arriving, at an incomplete header or submessage: still waited for
#[no_mangle]
pub extern "C" fn c03_patience() {
    let n = if thorough() { 2200 } else { 1100 };
    let source = any_array::<12>();
    let mut bytes = header_bytes(&[2, 1], &[0, 9], &source);
    let body = any_bytes(28);
    bytes.extend_from_slice(&submessage(HEARTBEAT, 0, &body));
    let cut = [0, 19, 20, 23, 24, 50][choice(0, 5)];
    let mut r = MessageReceiver::new(kind_of(1));
    let mut b = BytesMut::from(&bytes[..cut]);
    for _ in 0..n {
        let nothing = match r.decode(&mut b) {
            Ok(None) => true,
            _ => false,
        };
        check!(nothing, "an incomplete element is waited for");
    }
    check_eq!(b.len(), if cut < 20 { cut } else { cut - 20 }, "an incomplete element stays in the buffer");
    b.extend_from_slice(&bytes[cut..]);
    let mut c = Context::new(1, [2, 1], [0, 9], source);
    if cut < 20 {
        let (item, ok) = outcome(r.decode(&mut b));
        check!(ok & item.is_none(), "a valid header is accepted");
    }
    step(&mut r, &mut b, &mut c, HEARTBEAT, 0, &body);
    check!(b.is_empty(), "the submessage is consumed");
    cover(1);
}

/// Feed bytes one at a time; nothing comes of it.
fn trickle(r: &mut MessageReceiver, b: &mut BytesMut, bytes: &[u8]) {
    for x in bytes {
        b.extend_from_slice(&[*x]);
        let nothing = match r.decode(b) {
            Ok(None) => true,
            _ => false,
        };
        check!(nothing, "an incomplete element is waited for");
    }
}

/// What decoding what arrives leads to, until it waits for more.
fn feed(r: &mut MessageReceiver, b: &mut BytesMut, part: &[u8], events: &mut Vec<Option<EntitySubmessage>>) {
    b.extend_from_slice(part);
    loop {
        let before = b.len();
        let (item, ok) = outcome(r.decode(b));
        if item.is_some() | !ok {
            events.push(item);
        }
        if b.len() == before {
            break;
        }
    }
}

fn check_parts(bytes: &[u8], cut: usize) {
    let mut whole = MessageReceiver::new(kind_of(1));
    let mut parts = MessageReceiver::new(kind_of(1));
    let (mut b, mut p) = (BytesMut::new(), BytesMut::new());
    let (mut expected, mut events) = (vec![], vec![]);
    feed(&mut whole, &mut b, bytes, &mut expected);
    feed(&mut parts, &mut p, &bytes[..cut], &mut events);
    feed(&mut parts, &mut p, &bytes[cut..], &mut events);
    check_eq!(events.len(), expected.len(), "as many deliveries and errors in parts as in one piece");
    for (a, e) in events.iter().zip(expected.iter()) {
        check!(a.is_some() == e.is_some(), "the same deliveries and errors in parts as in one piece");
        if let (Some(a), Some(e)) = (a, e) {
            check!(a == e, "the same contents in parts as in one piece");
        }
    }
    check!(p.len() == b.len(), "as much is consumed in parts as in one piece");
    check_bytes!(p, b[..], "the same is left over in parts as in one piece");
    check!(
        *parts.verif_receiver() == *whole.verif_receiver(),
        "the same context in parts as in one piece"
    );
}

/// any message header, valid or not, and another message behind it, in two parts cut at any place (quick: at 9 places) gives what it gives in one piece
#[no_mangle]
pub extern "C" fn c03_messages() {
    let mut bytes = any_bytes(20);
    let source = any_array::<12>();
    bytes.extend_from_slice(&header_bytes(&[2, 3], &[1, 9], &source));
    bytes.extend_from_slice(&submessage(HEARTBEAT, 0, &any_bytes(28)));
    let end = bytes.len();
    let cut = if thorough() { choice(0, end) } else { [1, 4, 16, 19, 20, 21, 40, 45, end - 1][choice(0, 8)] };
    // not by chance a submessage that extends to the end of what is there
    check_parts(&bytes, cut);
    cover(1);
}

/// a message of a submessage, well formed or not, and another one, in two parts cut at any place (quick: at every third) gives what it gives in one piece
#[no_mangle]
pub extern "C" fn c03_submessages() {
    let source = any_array::<12>();
    let mut bytes = header_bytes(&[2, 1], &[0, 9], &source);
    let kind = pick(&ALL);
    let flags = any_flags();
    let n = [least(kind) - 1, least(kind)][choice(0, 1)];
    bytes.extend_from_slice(&submessage(id_of(kind), flags, &any_bytes(n)));
    let second = [HEARTBEAT_FRAG, INFO_SRC][choice(0, 1)];
    bytes.extend_from_slice(&submessage(second, 1, &any_bytes(least(second))));
    let every = if thorough() { 1 } else { 3 };
    let cut = choice(0, bytes.len() / every) * every;
    check_parts(&bytes, cut);
    cover(1);
}

// ---------------------------------------------------------------- C04 message header

/// any 20 bytes and what follows, from a new receiver of any locator kind
#[no_mangle]
pub extern "C" fn c04_fresh() {
    let kind = [KIND_INVALID, 1, 2][choice(0, 2)];
    let mut r = MessageReceiver::new(kind_of(kind));
    check_context(&r, &Context::new(kind, [2, 4], [0, 0], [0; 12]));
    let bytes = any_bytes(20);
    let behind = any_array::<6>();
    let mut b = BytesMut::from(&bytes[..]);
    b.extend_from_slice(&behind);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(item.is_none(), "a header delivers nothing");
    check_bytes!(b, behind, "exactly the header is consumed");
    let valid = same(&bytes[..4], b"RTPS") & (bytes[4] <= 2);
    check!(ok == valid, "a header is accepted exactly if it is RTPS of major version at most 2");
    if ok {
        check_context(&r, &Context::new(kind, copy(&bytes[4..]), copy(&bytes[6..]), copy(&bytes[8..])));
        cover(1);
    } else {
        check_context(&r, &Context::new(kind, [2, 4], [0, 0], [0; 12]));
        // the next message is judged by its own header
        let source = any_array::<12>();
        let next = header_bytes(&[1, 7], &[3, 4], &source);
        let mut b = BytesMut::from(&next[..]);
        let (_, ok) = outcome(r.decode(&mut b));
        check!(ok, "a valid header is accepted after an invalid one");
        check_context(&r, &Context::new(kind, [1, 7], [3, 4], source));
        cover(2);
    }
}

/// a message that ends with a submessage of length zero, then any header: nothing carries over
#[no_mangle]
pub extern "C" fn c04_next_message() {
    let (mut r, c) = seasoned_receiver();
    let mut b = BytesMut::from(&[0x80, 0, 0, 0][..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok, "a submessage of an unknown kind is no error");
    check!(item.is_none(), "a submessage of an unknown kind is skipped");
    check_context(&r, &c);
    let bytes = any_bytes(20);
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(item.is_none(), "a header delivers nothing");
    let valid = same(&bytes[..4], b"RTPS") & (bytes[4] <= 2);
    check!(ok == valid, "a header is accepted exactly if it is RTPS of major version at most 2");
    if ok {
        check_context(&r, &Context::new(1, copy(&bytes[4..]), copy(&bytes[6..]), copy(&bytes[8..])));
        cover(1);
    } else {
        check_context(&r, &c);
        cover(2);
    }
}

/// 270 (thorough: 540) messages one after the other from any sender, each with a timestamp, a destination, a sender and reply locators of its own in its middle: each begins anew
#[no_mangle]
pub extern "C" fn c04_many() {
    let n = if thorough() { 540 } else { 270 };
    let source = any_array::<12>();
    let (version, vendor) = ([choice(0, 2) as u8, any_u8()], any_array::<2>());
    let mut bytes = header_bytes(&version, &vendor, &source);
    for kind in &[INFO_SRC, INFO_TS, INFO_DST, INFO_REPLY_IP4] {
        bytes.extend_from_slice(&submessage(*kind, 0, &plain_body(*kind)));
    }
    bytes.extend_from_slice(&[0x80, 0, 0, 0]);
    let mut r = MessageReceiver::new(kind_of(2));
    for _ in 0..n {
        let mut b = BytesMut::from(&bytes[..]);
        for i in 0..6 {
            let (item, ok) = outcome(r.decode(&mut b));
            check!(ok & item.is_none(), "a valid message is accepted");
            if i == 0 {
                check_context(&r, &Context::new(2, version, vendor, source));
            }
        }
        check!(b.is_empty(), "the whole message is consumed");
    }
    cover(1);
}

// ---------------------------------------------------------------- C05 interpreter submessages

/// one INFO_* submessage, any flags and contents (quick: 5 sizes each, thorough: all up to 72), after others have set everything
#[no_mangle]
pub extern "C" fn c05_one() {
    let (mut r, mut c) = any_receiver();
    let kind = pick(&INTERPRETERS);
    let flags = any_flags();
    let body = any_bytes(any_size(kind));
    let bytes = submessage(kind, flags, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, kind, flags, &body);
    goes_on(&mut r);
    if fate == Fate::Silent {
        cover(1);
    } else {
        cover(2);
    }
}

fn usual_size(kind: u8) -> usize {
    match kind {
        INFO_REPLY => 32,
        INFO_REPLY_IP4 => 16,
        k => least(k),
    }
}

/// two (thorough: three) INFO_* submessages in any order, of alternating endianness, any contents
#[no_mangle]
pub extern "C" fn c05_sequence() {
    let (mut r, mut c) = receiver();
    let mut le = any_bool();
    for _ in 0..if thorough() { 3 } else { 2 } {
        let kind = pick(&INTERPRETERS);
        let flags = (any_u8() & 0xfe) | le as u8;
        le = !le;
        let body = any_bytes(usual_size(kind));
        let bytes = submessage(kind, flags, &body);
        let mut b = BytesMut::from(&bytes[..]);
        if step(&mut r, &mut b, &mut c, kind, flags, &body) == Fate::Silent {
            cover(1);
        }
    }
}

/// reply lists of up to 3 locators in all (thorough: up to 4 each), any contents
#[no_mangle]
pub extern "C" fn c05_reply_lists() {
    let (mut r, mut c) = any_receiver();
    let flags = any_flags();
    let first = choice(0, if thorough() { 4 } else { 3 });
    let second = choice(0, if thorough() { 4 } else { 3 - first });
    let mut body = vec![];
    for n in [first, second].iter().copied() {
        body = W { be: flags & 1 == 0, v: body }.u32(n as u32).v;
        for _ in 0..n {
            let kind = any_u32();
            assume((kind == KIND_INVALID) | (kind <= 2));
            body = W { be: flags & 1 == 0, v: body }.u32(kind).u32(any_u32()).raw(&any_array::<16>()).v;
        }
    }
    let bytes = submessage(INFO_REPLY, flags, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, INFO_REPLY, flags, &body);
    check!(fate == Fate::Silent, "well-formed locator lists are accepted");
    cover(1);
}

/// reply lists of 4 to 43, 100, 129 and 257 (thorough: 4 to 141, 257) locators in either list, both endiannesses, the first, last and one between any
#[no_mangle]
pub extern "C" fn c05_long_lists() {
    let (mut r, mut c) = receiver();
    let le = any_bool();
    let n = match choice(0, if thorough() { 140 } else { 42 }) as u32 {
        k @ 0..=2 => [100, 129, 257][k as usize],
        k => k + 1,
    };
    let second = any_bool();
    let one = W::new(!le).u32(1).u32(7400).raw(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127, 0, 0, 1]).v;
    let mut body = vec![];
    for n in if second { [1, n] } else { [n, 1] }.iter().copied() {
        body = W { be: !le, v: body }.u32(n).v;
        for i in 0..n {
            if i == 0 || i == n / 2 || i == n - 1 {
                body = W { be: !le, v: body }.u32(2).u32(any_u32()).raw(&any_array::<16>()).v;
            } else {
                body.extend_from_slice(&one);
            }
        }
    }
    let flags = le as u8 | 2;
    let bytes = submessage(INFO_REPLY, flags, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, INFO_REPLY, flags, &body);
    check!(fate == Fate::Silent, "well-formed locator lists are accepted");
    check!(b.is_empty(), "the submessage is consumed");
    cover(1);
}

/// 45 (thorough: 100) INFO_* submessages behind others, in turn, in another order or all of one kind, any contents (but no unknown prefix, unspecified address or port above 65535): each counts
#[no_mangle]
pub extern "C" fn c05_many() {
    let n = if thorough() { 100 } else { 45 };
    let which = choice(0, 6);
    let (mut r, mut c) = seasoned_receiver();
    for i in 0..n {
        let kind = INTERPRETERS[match which {
            5 => i % 5,
            6 => i % 7 % 5,
            _ => which,
        }];
        let mut body = plain_body(kind);
        if kind == INFO_DST || kind == INFO_REPLY_IP4 {
            body[(i / 5) % 3] |= 1;
        }
        if kind == INFO_REPLY_IP4 {
            let high = if i % 2 == 1 { 6 } else { 4 };
            body[high] = 0;
            body[high + 1] = 0;
        }
        let bytes = submessage(kind, i as u8 & 1, &body);
        let mut b = BytesMut::from(&bytes[..]);
        interpret(&mut c, kind, i as u8 & 1, &body);
        let (item, ok) = outcome(r.decode(&mut b));
        check!(ok & item.is_none(), "a well-formed submessage is accepted");
        check_context(&r, &c);
    }
    cover(1);
}

/// an INFO_REPLY of any flags with up to 3 locators in each list, and an INFO_REPLY or INFO_REPLY_IP4 of any flags behind it: the later one's lists replace the earlier one's, however long
#[no_mangle]
pub extern "C" fn c05_replaced_lists() {
    let (mut r, mut c) = receiver();
    let first = any_flags();
    let (unicast, multicast) = (choice(0, 3), choice(0, 3));
    let body = reply_lists(first, unicast, multicast);
    let bytes = submessage(INFO_REPLY, first, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, INFO_REPLY, first, &body);
    check!(fate == Fate::Silent, "well-formed locator lists are accepted");
    let second = any_flags();
    let kind = [INFO_REPLY, INFO_REPLY_IP4][choice(0, 1)];
    let body = if kind == INFO_REPLY { reply_lists(second, choice(0, 2), 1) } else { plain_body(kind) };
    let bytes = submessage(kind, second, &body);
    let mut b = BytesMut::from(&bytes[..]);
    if step(&mut r, &mut b, &mut c, kind, second, &body) == Fate::Silent {
        cover(1);
    }
}

fn reply_lists(flags: u8, unicast: usize, multicast: usize) -> Vec<u8> {
    let mut body = vec![];
    for n in [unicast, multicast].iter().copied() {
        body = W { be: flags & 1 == 0, v: body }.u32(n as u32).v;
        for _ in 0..n {
            body = W { be: flags & 1 == 0, v: body }.u32(1).u32(any_u32()).raw(&any_array::<16>()).v;
        }
    }
    body
}

/// two receivers, in turn: any INFO_* submessages for the first, the second, and the first again, each with any flags and contents; what one receives does not count for the other
#[no_mangle]
pub extern "C" fn c05_two_receivers() {
    let (mut r, mut c) = seasoned_receiver();
    let (mut other, mut d) = receiver();
    let one = INTERPRETERS[choice(0, 4)];
    let two = INTERPRETERS[choice(0, 4)];
    for i in 0..3 {
        let kind = if i == 1 { two } else { one };
        let body = plain_body(kind);
        let flags = if kind == INFO_TS { any_u8() & 2 } else { i as u8 & 1 };
        let bytes = submessage(kind, flags, &body);
        let mut b = BytesMut::from(&bytes[..]);
        let (r, c) = if i == 1 { (&mut other, &mut d) } else { (&mut r, &mut c) };
        step(r, &mut b, c, kind, flags, &body);
        check!(b.is_empty(), "the submessage is consumed");
    }
    check_context(&r, &c);
    check_context(&other, &d);
    cover(1);
}

// ---------------------------------------------------------------- C06 entity submessages

/// entity submessages with any fields and any flags, larger than needed or not; sets of any number of words (quick: 4 numbers of words)
#[no_mangle]
pub extern "C" fn c06_delivery() {
    let (mut r, mut c) = any_receiver();
    let kind = pick(&ENTITIES);
    let flags = any_flags();
    let be = flags & 1 == 0;
    let mut body = any_bytes(match kind {
        ACKNACK => 16,
        GAP => 24,
        NACK_FRAG => 20,
        HEARTBEAT => 28,
        _ => 24,
    });
    if kind == ACKNACK || kind == GAP || kind == NACK_FRAG {
        let n = if thorough() { choice(0, 8) } else { [0, 1, 2, 8][choice(0, 3)] };
        let (bits, bitmap) = any_bitmap(n);
        body = W { be, v: body }.bitmap(bits, &bitmap.words[..n]).v;
        if kind != GAP {
            body.extend_from_slice(&any_array::<4>());
        }
    }
    body.extend_from_slice(&any_bytes([0, 1, 4][choice(0, 2)]));
    let bytes = submessage(kind, flags, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, kind, flags, &body);
    check!(fate != Fate::Refused, "a well-formed submessage is accepted");
    check!(b.is_empty(), "the submessage is consumed");
    goes_on(&mut r);
    cover(1);
}

/// the set of a delivered submessage, of any base and bitmap: inserting a number (any within the word looked at) is news exactly if its bit is not set
#[no_mangle]
pub extern "C" fn c06_sets() {
    let (mut r, _) = receiver();
    let kind = [ACKNACK, GAP, NACK_FRAG][choice(0, 2)];
    let flags = any_flags();
    let n = [1, 8][choice(0, 1)];
    let (bits, bitmap) = any_bitmap(n);
    let members = bitmap.below(bits);
    let base = any_i64();
    let mut w = W::new(flags & 1 == 0).raw(&any_array::<8>());
    w = match kind {
        ACKNACK => w.sn(base).bitmap(bits, &bitmap.words[..n]).u32(any_u32()),
        GAP => w.sn(any_i64()).sn(base).bitmap(bits, &bitmap.words[..n]),
        _ => w.sn(any_i64()).u32(base as u32).bitmap(bits, &bitmap.words[..n]).u32(any_u32()),
    };
    let bytes = submessage(kind, flags, &w.v);
    let mut b = BytesMut::from(&bytes[..]);
    let words = if thorough() { 7 } else { 1 };
    let d = (choice(0, words) as u8 * (7 / words) as u8) << 5 | any_u8() & 31;
    let news = match outcome(r.decode(&mut b)).0 {
        Some(EntitySubmessage::AckNack(mut x, _)) => {
            assume(base <= i64::max_value() - 255);
            x.reader_sn_state.insert(SequenceNumber_t::from(base + i64::from(d)))
        }
        Some(EntitySubmessage::Gap(mut x)) => {
            assume(base <= i64::max_value() - 255);
            x.gap_list.insert(SequenceNumber_t::from(base + i64::from(d)))
        }
        Some(EntitySubmessage::NackFrag(mut x)) => {
            assume(base as u32 <= u32::max_value() - 255);
            x.fragment_number_state.insert(FragmentNumber_t::from(base as u32 + u32::from(d)))
        }
        _ => {
            check!(false, "a well-formed submessage is delivered");
            return;
        }
    };
    check!(news != members.has(u32::from(d)), "the set of a delivered submessage has exactly the members sent");
    cover(1);
}

/// two entity submessages with any contents of fixed size, one after the other in one buffer
#[no_mangle]
pub extern "C" fn c06_two() {
    let (mut r, mut c) = receiver();
    let kinds = [pick(&ENTITIES), pick(&ENTITIES)];
    let flags = [any_flags(), any_flags()];
    let mut bodies = vec![];
    let mut bytes = vec![];
    for i in 0..2 {
        let mut body = any_bytes(least(kinds[i]));
        match kinds[i] {
            ACKNACK => body[16..20].copy_from_slice(&[0; 4]),
            GAP => body[24..28].copy_from_slice(&[0; 4]),
            NACK_FRAG => body[20..24].copy_from_slice(&[0; 4]),
            _ => (),
        }
        bytes.extend_from_slice(&submessage(kinds[i], flags[i], &body));
        bodies.push(body);
    }
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, kinds[0], flags[0], &bodies[0]);
    check_eq!(b.len(), 4 + bodies[1].len(), "exactly the first submessage is consumed");
    step(&mut r, &mut b, &mut c, kinds[1], flags[1], &bodies[1]);
    check!(b.is_empty(), "the second submessage is consumed");
    cover(1);
}

/// 1100 (thorough: 2200) entity submessages in one message behind others, in turn or all of one kind, any contents: each is delivered
#[no_mangle]
pub extern "C" fn c06_many() {
    let n = if thorough() { 2200 } else { 1100 };
    let which = choice(0, 5);
    let (mut r, c) = seasoned_receiver();
    let mut pieces = vec![];
    for i in 0..if which < 5 { 1 } else { 5 } {
        let kind = ENTITIES[if which < 5 { which } else { i }];
        let flags = any_u8() & 0xfe | i as u8 & 1;
        let body = plain_body(kind);
        pieces.push((kind, flags, submessage(kind, flags, &body), body));
    }
    let mut b = BytesMut::new();
    for i in 0..n {
        b.extend_from_slice(&pieces[i % pieces.len()].2);
    }
    for i in 0..n {
        let (kind, flags, _, body) = &pieces[i % pieces.len()];
        let (item, ok) = outcome(r.decode(&mut b));
        check!(ok, "a well-formed submessage is accepted");
        if i % 50 < 6 {
            check_delivered(item, *kind, *flags, body, body.len());
        } else {
            check!(item.is_some(), "an entity submessage is delivered");
        }
        if i < 40 {
            check_context(&r, &c);
        }
    }
    check!(b.is_empty(), "the whole message is consumed");
    check_context(&r, &c);
    cover(1);
}

// ---------------------------------------------------------------- C07 refused submessages

/// every kind, every contents for which it is malformed (quick: 5 sizes each, thorough: all up to 72): an error, no effect, and the next submessage counts
#[no_mangle]
pub extern "C" fn c07_no_effect() {
    let (mut r, c) = any_receiver();
    let kind = ALL[choice(0, 9)];
    let flags = any_flags();
    let body = any_bytes(any_size(kind));
    let mut scratch = c.clone();
    assume(interpret(&mut scratch, kind, flags, &body) == Fate::Refused);
    let mut bytes = submessage(kind, flags, &body);
    let next = any_bytes(12);
    bytes.extend_from_slice(&submessage(INFO_DST, 0, &next));
    let mut b = BytesMut::from(&bytes[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(!ok, "a malformed submessage is an error");
    check!(item.is_none(), "a malformed submessage is not delivered");
    check_context(&r, &c);
    check_eq!(b.len(), 16, "exactly the malformed submessage is consumed");
    let mut c = c;
    step(&mut r, &mut b, &mut c, INFO_DST, 0, &next);
    cover(1);
}

/// reply lists whose second list is malformed in any way: neither list is applied
#[no_mangle]
pub extern "C" fn c07_reply_lists() {
    let (mut r, c) = any_receiver();
    let le = any_bool();
    let flags = 2 | le as u8;
    let first = choice(0, 1);
    let mut body = W::new(!le).u32(first as u32).v;
    for _ in 0..first {
        body = W { be: !le, v: body }.u32(1).u32(any_u32()).raw(&any_array::<16>()).v;
    }
    let rest = any_bytes([0, 1, 3, 4, 27, 28, 52][choice(0, 6)]);
    body.extend_from_slice(&rest);
    let mut scratch = c.clone();
    assume(interpret(&mut scratch, INFO_REPLY, flags, &body) == Fate::Refused);
    let bytes = submessage(INFO_REPLY, flags, &body);
    let mut b = BytesMut::from(&bytes[..]);
    let (_, ok) = outcome(r.decode(&mut b));
    check!(!ok, "a malformed submessage is an error");
    check_context(&r, &c);
    check!(b.is_empty(), "exactly the malformed submessage is consumed");
    cover(1);
}

/// 1100 (thorough: 2200) malformed submessages of a kind in a row, any contents: an error each, no effect, and the next submessage counts
#[no_mangle]
pub extern "C" fn c07_many() {
    let n = if thorough() { 2200 } else { 1100 };
    let kind = ALL[choice(0, 9)];
    let flags = any_u8() & 0xfc | choice(0, 1) as u8;
    let (mut r, mut c) = receiver();
    let one = submessage(kind, flags, &any_bytes(3));
    let mut b = BytesMut::new();
    for _ in 0..n {
        b.extend_from_slice(&one);
    }
    for _ in 0..n {
        let (item, ok) = outcome(r.decode(&mut b));
        check!(!ok, "a malformed submessage is an error");
        check!(item.is_none(), "a malformed submessage is not delivered");
    }
    check!(b.is_empty(), "exactly the malformed submessages are consumed");
    check_context(&r, &c);
    let next = any_bytes(12);
    let bytes = submessage(INFO_DST, 0, &next);
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, INFO_DST, 0, &next);
    cover(1);
}

// ---------------------------------------------------------------- C08 last submessage of length zero

/// every kind but DATA, DATA_FRAG, PAD and INFO_TS announcing length zero, any contents up to the end of the message, then another message
#[no_mangle]
pub extern "C" fn c08_extends() {
    let (mut r, mut c) = seasoned_receiver();
    let kinds = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG, INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY, UNKNOWN];
    let kind = pick(&kinds);
    let flags = any_flags();
    let n = if any_bool() { 0 } else { any_size(kind) };
    let body = any_bytes(n);
    let bytes = W::new(true).u8(id_of(kind)).u8(flags).u16(0).raw(&body).v;
    let mut b = BytesMut::from(&bytes[..]);
    let fate = step(&mut r, &mut b, &mut c, kind, flags, &body);
    check!(b.is_empty(), "the last submessage extends to the end of the message");
    match fate {
        Fate::Silent => cover(1),
        Fate::Delivered(_) => cover(2),
        Fate::Refused => cover(3),
    }
    let source = any_array::<12>();
    let next = header_bytes(&[2, 2], &[1, 2], &source);
    let mut b = BytesMut::from(&next[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok, "a new message begins after the last submessage");
    check!(item.is_none(), "a header delivers nothing");
    check_context(&r, &Context::new(1, [2, 2], [1, 2], source));
}

/// padding and InfoTimestamp of length zero, any flags, from any context: just empty; the submessage behind them counts
#[no_mangle]
pub extern "C" fn c08_empty() {
    let (mut r, mut c) = any_receiver();
    let kind = pick(&[PAD, INFO_TS]);
    let flags = any_flags();
    let mut bytes = submessage(kind, flags, &[]);
    let more = any_bool();
    let next = any_bytes(12);
    if more {
        bytes.extend_from_slice(&submessage(INFO_DST, 0, &next));
    }
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, kind, flags, &[]);
    check_eq!(b.len(), if more { 16 } else { 0 }, "an empty submessage is just empty");
    if !more {
        b.extend_from_slice(&submessage(INFO_DST, 0, &next));
    }
    step(&mut r, &mut b, &mut c, INFO_DST, 0, &next);
    check!(b.is_empty(), "the message goes on behind it");
    cover(1);
}

/// a Heartbeat of announced length zero in a message of more than 65535 bytes
#[no_mangle]
pub extern "C" fn c08_large() {
    let (mut r, mut c) = receiver();
    let flags = any_flags();
    let mut body = vec![0u8; [65534, 65535, 65536, 65600][choice(0, 3)]];
    for i in 0..28 {
        body[i] = any_u8();
    }
    let mut bytes = vec![HEARTBEAT, flags, 0, 0];
    bytes.extend_from_slice(&body);
    let mut b = BytesMut::from(&bytes[..]);
    step(&mut r, &mut b, &mut c, HEARTBEAT, flags, &body);
    check!(b.is_empty(), "the last submessage extends to the end of the message");
    cover(1);
}

/// 270 (thorough: 540) messages one after the other, each ending with a submessage that announces length zero, of each kind in turn or all of one, any contents: each extends to the end of its message
#[no_mangle]
pub extern "C" fn c08_many() {
    let n = if thorough() { 540 } else { 270 };
    let which = choice(0, 8);
    let kinds = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG, INFO_SRC, INFO_DST, INFO_REPLY];
    let source = any_array::<12>();
    let mut r = MessageReceiver::new(kind_of(1));
    let mut pieces = vec![];
    for i in 0..if which < 8 { 1 } else { 8 } {
        let kind = kinds[if which < 8 { which } else { i }];
        let flags = any_u8() & 0xfc | i as u8 & 1;
        let body = plain_body(kind);
        if kind == INFO_DST {
            assume(body[0] != 0);
        }
        let mut bytes = header_bytes(&[2, 4], &[1, 2], &source);
        bytes.extend_from_slice(&[id_of(kind), flags, 0, 0]);
        bytes.extend_from_slice(&body);
        pieces.push((kind, flags, bytes, body));
    }
    for i in 0..n {
        let (kind, flags, bytes, body) = &pieces[i % pieces.len()];
        let mut b = BytesMut::from(&bytes[..]);
        let mut c = Context::new(1, [2, 4], [1, 2], source);
        let (item, ok) = outcome(r.decode(&mut b));
        check!(ok & item.is_none(), "a new message begins after the last submessage");
        check_context(&r, &c);
        step(&mut r, &mut b, &mut c, *kind, *flags, body);
        check!(b.is_empty(), "the last submessage extends to the end of the message");
    }
    cover(1);
}

/// every kind but DATA, DATA_FRAG, PAD and INFO_TS announcing length zero, with any number of bytes up to 65535 behind it, the first 32 of them any (reply lists: of no locators), then another message
#[no_mangle]
pub extern "C" fn c08_every_length() {
    let (mut r, mut c) = seasoned_receiver();
    let kinds = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG, INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY];
    let kind = kinds[choice(0, 8)];
    let flags = any_u8() & 0xfe | choice(0, 1) as u8;
    let length = usize::from(any_u16());
    let mut bytes = vec![0u8; 65539];
    bytes[0] = kind;
    bytes[1] = flags;
    let body = plain_body(kind);
    bytes[4..4 + body.len()].copy_from_slice(&body);
    let mut b = BytesMut::from(&bytes[..]);
    b.truncate(4 + length);
    step(&mut r, &mut b, &mut c, kind, flags, &bytes[4..4 + length]);
    check!(b.is_empty(), "the last submessage extends to the end of the message");
    let source = any_array::<12>();
    let mut b = BytesMut::from(&header_bytes(&[2, 2], &[1, 2], &source)[..]);
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok & item.is_none(), "a new message begins after the last submessage");
    check_context(&r, &Context::new(1, [2, 2], [1, 2], source));
    cover(1);
}

// ---------------------------------------------------------------- C09 memory

/// every kind but DATA and DATA_FRAG with any flags, announced length and contents (quick: 8 sizes, thorough: all up to 72): no allocation of more than 2048 bytes, at most 16384 in all
#[no_mangle]
pub extern "C" fn c09_submessage() {
    let (mut r, _) = receiver();
    let kind = pick(&ALL);
    let sizes = [3, 4, 8, 12, 32, 36, 60, 64];
    let n = if thorough() { choice(0, 72) } else { sizes[choice(0, 7)] };
    let mut bytes = any_bytes(n);
    if n > 0 {
        bytes[0] = id_of(kind);
    }
    let mut b = BytesMut::from(&bytes[..]);
    alloc_limit(2048);
    let (item, ok) = outcome(r.decode(&mut b));
    if item.is_some() {
        cover(1);
    }
    if !ok {
        cover(2);
    }
    check!(alloc_total() <= 16384, "memory used is bounded by what arrived");
}

/// reply locator lists announcing any number of locators in up to 56 bytes
#[no_mangle]
pub extern "C" fn c09_reply_lists() {
    let (mut r, _) = receiver();
    let flags = any_flags();
    let bytes = submessage(INFO_REPLY, flags, &any_bytes([4, 8, 28, 32, 56][choice(0, 4)]));
    let mut b = BytesMut::from(&bytes[..]);
    alloc_limit(2048);
    let (_, ok) = outcome(r.decode(&mut b));
    if ok {
        cover(1);
    } else {
        cover(2);
    }
    check!(alloc_total() <= 16384, "memory used is bounded by what arrived");
}

/// headers announcing any length without sending it
#[no_mangle]
pub extern "C" fn c09_announced() {
    let (mut r, _) = receiver();
    let kind = pick(&ALL);
    let flags = any_flags();
    let length = any_u16();
    let present = any_bytes(choice(0, 2));
    assume(length as usize > present.len());
    let bytes = W::new(flags & 1 == 0).u8(id_of(kind)).u8(flags).u16(length).raw(&present).v;
    let mut b = BytesMut::from(&bytes[..]);
    alloc_limit(2048);
    let (item, _) = outcome(r.decode(&mut b));
    check!(item.is_none(), "an incomplete submessage is waited for");
    check!(alloc_total() <= 16384, "memory used is bounded by what arrived");
    cover(1);
}

/// the same with any number of the announced bytes present: waiting for the others takes no memory in proportion to what is announced
#[no_mangle]
pub extern "C" fn c09_waiting() {
    waiting();
    check!(alloc_total() <= 16384, "memory used is bounded by what arrived");
    cover(1);
}

// ---------------------------------------------------------------- C30 what is sent is what is received

fn submessage_kind(kind: u8) -> SubmessageKind {
    match kind {
        ACKNACK => SubmessageKind::ACKNACK,
        GAP => SubmessageKind::GAP,
        NACK_FRAG => SubmessageKind::NACK_FRAG,
        HEARTBEAT => SubmessageKind::HEARTBEAT,
        HEARTBEAT_FRAG => SubmessageKind::HEARTBEAT_FRAG,
        INFO_SRC => SubmessageKind::INFO_SRC,
        INFO_DST => SubmessageKind::INFO_DST,
        INFO_TS => SubmessageKind::INFO_TS,
        INFO_REPLY => SubmessageKind::INFO_REPLAY,
        INFO_REPLY_IP4 => SubmessageKind::INFO_REPLAY_IP4,
        _ => SubmessageKind::PAD,
    }
}

/// A submessage as the crate encodes it.
fn sent(kind: u8, flags: u8, body: &[u8]) -> Vec<u8> {
    let header = SubmessageHeader {
        submessage_id: submessage_kind(kind),
        flags: SubmessageFlag { flags },
        submessage_length: body.len() as u16,
    };
    let mut v = enc(true, &header);
    v.extend_from_slice(body);
    v
}

fn entity_id(b: [u8; 4]) -> EntityId_t {
    decode_exactly(true, &b)
}

fn prefix(b: [u8; 12]) -> GuidPrefix_t {
    GuidPrefix_t { entity_key: b }
}

fn received(own: &[u8], source: [u8; 12]) -> (MessageReceiver, BytesMut) {
    let mut bytes = enc(true, &Header::new(prefix(source)));
    bytes.extend_from_slice(own);
    let mut b = BytesMut::from(&bytes[..]);
    let mut r = MessageReceiver::new(kind_of(1));
    let (item, ok) = outcome(r.decode(&mut b));
    check!(ok, "the header of a sent message is accepted");
    check!(item.is_none(), "a header delivers nothing");
    check!(r.verif_receiver().source_guid_prefix == prefix(source), "the sender is known by its prefix");
    (r, b)
}

/// an AckNack with a set built by two insertions of any numbers at most 255 (quick: 63) above any base, sent and received
#[no_mangle]
pub extern "C" fn c30_ack_nack() {
    let flags = any_flags();
    let base = any_i64();
    assume(base <= i64::max_value() - 255);
    let ids = [any_array::<4>(), any_array::<4>()];
    let count = any_i32();
    let words = if thorough() { 7 } else { 1 };
    let numbers = [
        (choice(0, words) as i64) << 5 | i64::from(any_u8() & 31),
        (choice(0, words) as i64) << 5 | i64::from(any_u8() & 31),
    ];
    let make = || {
        let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
        set.insert(SequenceNumber_t::from(base + numbers[0]));
        set.insert(SequenceNumber_t::from(base + numbers[1]));
        set
    };
    let a = AckNack {
        reader_id: entity_id(ids[0]),
        writer_id: entity_id(ids[1]),
        reader_sn_state: make(),
        count: Count_t::from(count),
    };
    let (mut r, mut b) = received(&sent(ACKNACK, flags, &enc(flags & 1 == 0, &a)), any_array::<12>());
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::AckNack(x, f))) => {
            check!(x.reader_id == a.reader_id, "reader id as sent");
            check!(x.writer_id == a.writer_id, "writer id as sent");
            check!(x.count == a.count, "count as sent");
            check_eq!(f.flags, flags, "flags as sent");
            let bytes = enc(true, &x.reader_sn_state);
            check_eq!(rsn(true, &bytes), base, "base of the set as sent");
            let (bits, _) = read_bits(true, &bytes[8..]);
            let mut model = Bits::empty();
            model.add(numbers[0] as u32, true);
            model.add(numbers[1] as u32, true);
            for i in 0..8 {
                check_eq!(bits.words[i], model.words[i], "members of the set as sent");
            }
            cover(1);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    check!(b.is_empty(), "nothing is left of the message");
}

/// a Gap and a NackFrag with one number in their sets, any fields, sent and received in one message
#[no_mangle]
pub extern "C" fn c30_gap_nack_frag() {
    let flags = any_flags();
    let be = flags & 1 == 0;
    let base = any_i64();
    let fragment_base = any_u32();
    let d = (choice(0, 7) as u8) << 5 | any_u8() & 31;
    assume(base <= i64::max_value() - i64::from(d));
    assume(fragment_base <= u32::max_value() - u32::from(d));
    let ids = [any_array::<4>(), any_array::<4>()];
    let (start, sn, count) = (any_i64(), any_i64(), any_i32());
    let mut list = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    list.insert(SequenceNumber_t::from(base + i64::from(d)));
    let mut state = FragmentNumberSet_t::new(FragmentNumber_t::from(fragment_base));
    state.insert(FragmentNumber_t::from(fragment_base + u32::from(d)));
    let g = Gap {
        reader_id: entity_id(ids[0]),
        writer_id: entity_id(ids[1]),
        gap_start: SequenceNumber_t::from(start),
        gap_list: list,
    };
    let n = NackFrag {
        reader_id: entity_id(ids[0]),
        writer_id: entity_id(ids[1]),
        writer_sn: SequenceNumber_t::from(sn),
        fragment_number_state: state,
        count: Count_t::from(count),
    };
    let mut own = sent(GAP, flags, &enc(be, &g));
    own.extend_from_slice(&sent(NACK_FRAG, flags, &enc(be, &n)));
    let (mut r, mut b) = received(&own, any_array::<12>());
    let mut model = Bits::empty();
    model.add(u32::from(d), true);
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::Gap(x))) => {
            check!(x.reader_id == g.reader_id, "reader id as sent");
            check!(x.writer_id == g.writer_id, "writer id as sent");
            check!(x.gap_start == g.gap_start, "start of a gap as sent");
            let bytes = enc(true, &x.gap_list);
            check_eq!(rsn(true, &bytes), base, "base of the set as sent");
            let (bits, _) = read_bits(true, &bytes[8..]);
            for i in 0..8 {
                check_eq!(bits.words[i], model.words[i], "members of the set as sent");
            }
            cover(1);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::NackFrag(x))) => {
            check!(x.reader_id == n.reader_id, "reader id as sent");
            check!(x.writer_id == n.writer_id, "writer id as sent");
            check!(x.writer_sn == n.writer_sn, "sequence number as sent");
            check!(x.count == n.count, "count as sent");
            let bytes = enc(true, &x.fragment_number_state);
            check_eq!(ru32(true, &bytes), fragment_base, "base of the set as sent");
            let (bits, _) = read_bits(true, &bytes[4..]);
            for i in 0..8 {
                check_eq!(bits.words[i], model.words[i], "members of the set as sent");
            }
            cover(2);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    check!(b.is_empty(), "nothing is left of the message");
}

/// a Heartbeat and a HeartbeatFrag with any fields, sent and received in one message
#[no_mangle]
pub extern "C" fn c30_heartbeats() {
    let flags = any_flags();
    let be = flags & 1 == 0;
    let ids = [any_array::<4>(), any_array::<4>()];
    let h = Heartbeat {
        reader_id: entity_id(ids[0]),
        writer_id: entity_id(ids[1]),
        first_sn: SequenceNumber_t::from(any_i64()),
        last_sn: SequenceNumber_t::from(any_i64()),
        count: Count_t::from(any_i32()),
    };
    let f = HeartbeatFrag {
        reader_id: entity_id(ids[1]),
        writer_id: entity_id(ids[0]),
        writer_sn: SequenceNumber_t::from(any_i64()),
        last_fragment_num: FragmentNumber_t::from(any_u32()),
        count: Count_t::from(any_i32()),
    };
    let mut own = sent(HEARTBEAT, flags, &enc(be, &h));
    own.extend_from_slice(&sent(HEARTBEAT_FRAG, flags, &enc(be, &f)));
    let (mut r, mut b) = received(&own, any_array::<12>());
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::Heartbeat(x, g))) => {
            check!(x == h, "a Heartbeat as sent");
            check_eq!(g.flags, flags, "flags as sent");
            cover(1);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::HeartbeatFrag(x))) => {
            check!(x == f, "a HeartbeatFrag as sent");
            cover(2);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    check!(b.is_empty(), "nothing is left of the message");
}

/// INFO_* submessages with any fields and up to two reply locators of each sort, sent and received
#[no_mangle]
pub extern "C" fn c30_info() {
    let le = any_bool();
    let be = !le;
    let source = any_array::<12>();
    let s = InfoSource {
        protocol_version: ProtocolVersion_t { major: any_u8(), minor: any_u8() },
        vendor_id: decode_exactly(true, &any_array::<2>()),
        guid_prefix: prefix(source),
    };
    let d = InfoDestination { guid_prefix: prefix(any_array::<12>()) };
    assume(d.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN);
    let (seconds, fraction) = (any_i32(), any_u32());
    let locators = |n: usize| {
        let mut v: LocatorList_t = vec![];
        for _ in 0..n {
            v.push(Locator_t { kind: kind_of(choice(0, 2) as u32), port: any_u32(), address: any_array::<16>() });
        }
        v
    };
    let unicast = locators(choice(0, 2));
    let multicast = locators(choice(0, 1));
    let mut own = sent(INFO_SRC, le as u8, &enc(be, &s));
    own.extend_from_slice(&sent(INFO_DST, le as u8, &enc(be, &d)));
    own.extend_from_slice(&sent(INFO_TS, le as u8, &enc(be, &Time_t::verif_new(seconds, fraction))));
    let mut lists = enc(be, &unicast);
    lists.extend_from_slice(&enc(be, &multicast));
    own.extend_from_slice(&sent(INFO_REPLY, 2 | le as u8, &lists));
    let (mut r, mut b) = received(&own, any_array::<12>());
    for _ in 0..4 {
        let (item, ok) = outcome(r.decode(&mut b));
        check!(ok, "a sent submessage is accepted");
        check!(item.is_none(), "a sent INFO submessage is not delivered");
    }
    check!(b.is_empty(), "nothing is left of the message");
    let r = r.verif_receiver();
    check!(r.source_version == s.protocol_version, "source version as sent");
    check!(r.source_vendor_id == s.vendor_id, "source vendor as sent");
    check!(r.source_guid_prefix == s.guid_prefix, "source prefix as sent");
    check!(r.dest_guid_prefix == d.guid_prefix, "destination prefix as sent");
    check!(r.have_timestamp, "timestamp as sent");
    check!(r.timestamp == Time_t::verif_new(seconds, fraction), "timestamp as sent");
    check!(r.unicast_reply_locator_list == unicast, "unicast reply locators as sent");
    check!(r.multicast_reply_locator_list == multicast, "multicast reply locators as sent");
    cover(1);
}

/// The contents of a submessage as the crate encodes what it reads from these.
fn own_body(kind: u8, be: bool, body: &[u8]) -> Vec<u8> {
    match kind {
        ACKNACK => enc(be, &decode_exactly::<AckNack>(be, body)),
        GAP => enc(be, &decode_exactly::<Gap>(be, body)),
        NACK_FRAG => enc(be, &decode_exactly::<NackFrag>(be, body)),
        HEARTBEAT => enc(be, &decode_exactly::<Heartbeat>(be, body)),
        HEARTBEAT_FRAG => enc(be, &decode_exactly::<HeartbeatFrag>(be, body)),
        INFO_SRC => enc(be, &decode_exactly::<InfoSource>(be, body)),
        INFO_DST => enc(be, &decode_exactly::<InfoDestination>(be, body)),
        _ => enc(be, &decode_exactly::<Time_t>(be, body)),
    }
}

/// 200 (thorough: 800) submessages of this implementation's own encoding in one message, of each kind in turn or all of one, any fields: each is received as sent
#[no_mangle]
pub extern "C" fn c30_many() {
    let n = if thorough() { 800 } else { 200 };
    let which = choice(0, 8);
    let kinds = [INFO_TS, ACKNACK, HEARTBEAT, INFO_DST, GAP, NACK_FRAG, INFO_SRC, HEARTBEAT_FRAG];
    let source = any_array::<12>();
    let mut pieces = vec![];
    for i in 0..if which < 8 { 1 } else { 8 } {
        let kind = kinds[if which < 8 { which } else { i }];
        let flags = any_u8() & 0xfc | i as u8 & 1;
        let body = plain_body(kind);
        if kind == INFO_DST {
            assume(body[0] != 0);
        }
        let bytes = sent(kind, flags, &own_body(kind, flags & 1 == 0, &body));
        pieces.push((kind, flags, bytes, body));
    }
    let mut own = vec![];
    for i in 0..n {
        own.extend_from_slice(&pieces[i % pieces.len()].2);
    }
    let (mut r, mut b) = received(&own, source);
    let h = enc(true, &Header::new(prefix(source)));
    let mut c = Context::new(1, [h[4], h[5]], [h[6], h[7]], source);
    for i in 0..n {
        let (kind, flags, _, body) = &pieces[i % pieces.len()];
        if i < 20 || i % 32 < 9 {
            step(&mut r, &mut b, &mut c, *kind, *flags, body);
        } else {
            let fate = interpret(&mut c, *kind, *flags, body);
            let (item, ok) = outcome(r.decode(&mut b));
            check!(ok, "a sent submessage is accepted");
            check!(item.is_some() == (fate != Fate::Silent), "a sent submessage is delivered");
        }
    }
    check_context(&r, &c);
    check!(b.is_empty(), "nothing is left of the message");
    cover(1);
}

/// an AckNack, a Gap and a NackFrag with sets of 3 to 256 numbers (quick: 7 amounts, thorough: 29) above any base, inserted in a mixed order, sent and received in one message
#[no_mangle]
pub extern "C" fn c30_full_sets() {
    let flags = any_u8() & 0xfe | choice(0, 1) as u8;
    let be = flags & 1 == 0;
    let (base, fragment_base) = (any_i64(), any_u32());
    assume((base <= i64::max_value() - 255) & (fragment_base <= u32::max_value() - 255));
    let amounts = [3, 4, 16, 33, 100, 255, 256];
    let amount = if thorough() { choice(0, 28) as u32 * 9 + 4 } else { amounts[choice(0, 6)] };
    let mut model = Bits::empty();
    let mut set = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let mut list = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    let mut state = FragmentNumberSet_t::new(FragmentNumber_t::from(fragment_base));
    for i in 0..amount {
        let d = i * 101 % 256;
        set.insert(SequenceNumber_t::from(base + i64::from(d)));
        list.insert(SequenceNumber_t::from(base + i64::from(255 - d)));
        list.insert(SequenceNumber_t::from(base + i64::from(d)));
        state.insert(FragmentNumber_t::from(fragment_base + d));
        model.add(d, true);
    }
    let mut both = Bits::empty();
    for d in 0..256 {
        both.add(d, model.has(d) || model.has(255 - d));
    }
    let a = AckNack {
        reader_id: entity_id(any_array::<4>()),
        writer_id: entity_id(any_array::<4>()),
        reader_sn_state: set,
        count: Count_t::from(any_i32()),
    };
    let g = Gap {
        reader_id: entity_id(any_array::<4>()),
        writer_id: entity_id(any_array::<4>()),
        gap_start: SequenceNumber_t::from(any_i64()),
        gap_list: list,
    };
    let n = NackFrag {
        reader_id: entity_id(any_array::<4>()),
        writer_id: entity_id(any_array::<4>()),
        writer_sn: SequenceNumber_t::from(any_i64()),
        fragment_number_state: state,
        count: Count_t::from(any_i32()),
    };
    let mut own = sent(ACKNACK, flags, &enc(be, &a));
    own.extend_from_slice(&sent(GAP, flags, &enc(be, &g)));
    own.extend_from_slice(&sent(NACK_FRAG, flags, &enc(be, &n)));
    let (mut r, mut b) = received(&own, any_array::<12>());
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::AckNack(x, _))) => {
            check!((x.reader_id == a.reader_id) & (x.writer_id == a.writer_id) & (x.count == a.count), "fields as sent");
            check_members(x.reader_sn_state.into_iter().map(i64::from), base, &model);
            cover(1);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::Gap(x))) => {
            check!((x.reader_id == g.reader_id) & (x.writer_id == g.writer_id), "fields as sent");
            check!(x.gap_start == g.gap_start, "fields as sent");
            check_members(x.gap_list.into_iter().map(i64::from), base, &both);
            cover(2);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    match r.decode(&mut b) {
        Ok(Some(EntitySubmessage::NackFrag(x))) => {
            check!((x.reader_id == n.reader_id) & (x.writer_id == n.writer_id) & (x.count == n.count), "fields as sent");
            check!(x.writer_sn == n.writer_sn, "fields as sent");
            check_members(x.fragment_number_state.into_iter().map(|x| i64::from(u32::from(x))), i64::from(fragment_base), &model);
            cover(3);
        }
        _ => check!(false, "a sent submessage is delivered"),
    }
    check!(b.is_empty(), "nothing is left of the message");
}

/// The members of a set, in order.
fn check_members(mut members: impl Iterator<Item = i64>, base: i64, model: &Bits) {
    for d in 0..256 {
        if model.has(d) {
            match members.next() {
                Some(x) => check!(x == base + i64::from(d), "members of the set as sent"),
                None => check!(false, "members of the set as sent"),
            }
        }
    }
    check!(members.next().is_none(), "members of the set as sent");
}
