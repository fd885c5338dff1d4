//! Wire layout of the types that are not sets (C10 - C14, C18).

use crate::refs::*;
use crate::rt::*;
use crate::{check, check_bytes, check_eq};
use rtps_rs::verif::*;

const FILE: u32 = 2000;

// ---------------------------------------------------------------- C10 numbers and times

/// any sequence number, either byte order: written and read
#[no_mangle]
pub extern "C" fn c10_sequence_number() {
    let be = any_bool();
    let n = any_i64();
    let bytes = W::new(be).sn(n).v;
    check_bytes!(enc(be, &SequenceNumber_t::from(n)), bytes, "SequenceNumber_t is {high, low}");
    let v: SequenceNumber_t = round_trip(be, &bytes);
    check_eq!(i64::from(v), n, "the decoded sequence number");
    cover(1);
}

/// any fragment number, count, parameter id and reliability kind, either byte order: written and read
#[no_mangle]
pub extern "C" fn c10_small_numbers() {
    let be = any_bool();
    let n = any_u32();
    let bytes = W::new(be).u32(n).v;
    check_bytes!(enc(be, &FragmentNumber_t::from(n)), bytes, "FragmentNumber_t is an unsigned long");
    let v: FragmentNumber_t = round_trip(be, &bytes);
    check_eq!(u32::from(v), n, "the decoded fragment number");
    check_bytes!(enc(be, &Count_t::from(n as i32)), bytes, "Count_t is a long");
    let v: Count_t = round_trip(be, &bytes);
    check_eq!(i32::from(v), n as i32, "the decoded count");
    let _: ReliabilityKind_t = round_trip(be, &bytes);
    let bytes = W::new(be).u16(n as u16).v;
    let _: ParameterId = round_trip(be, &bytes);
    cover(1);
}

/// any time and duration, either byte order: written and read
#[no_mangle]
pub extern "C" fn c10_times() {
    let be = any_bool();
    let (seconds, fraction) = (any_i32(), any_u32());
    let bytes = W::new(be).i32(seconds).u32(fraction).v;
    check_bytes!(
        enc(be, &Time_t::verif_new(seconds, fraction)),
        bytes,
        "Time_t is {seconds, fraction}"
    );
    let v: Time_t = round_trip(be, &bytes);
    let (s, f) = v.verif_parts();
    check_eq!(s, seconds, "decoded seconds of a time");
    check_eq!(f, fraction, "decoded fraction of a time");
    check_bytes!(
        enc(be, &Duration_t::verif_new(seconds, fraction)),
        bytes,
        "Duration_t is {seconds, fraction}"
    );
    let v: Duration_t = round_trip(be, &bytes);
    let (s, f) = v.verif_parts();
    check_eq!(s, seconds, "decoded seconds of a duration");
    check_eq!(f, fraction, "decoded fraction of a duration");
    cover(1);
}

/// TopicKind_t has two values and no others are accepted.
#[no_mangle]
pub extern "C" fn c10_topic_kind() {
    let be = any_bool();
    let n = any_u32();
    let bytes = W::new(be).u32(n).v;
    let (v, _) = dec::<TopicKind_t>(be, &bytes);
    check!(v.is_some() == (n == 1 || n == 2), "a topic kind is 1 or 2");
    if let Some(kind) = v {
        cover(1);
        check!((kind == TopicKind_t::NO_KEY) == (n == 1), "NO_KEY is 1, WITH_KEY is 2");
        check_bytes!(enc(be, &kind), bytes, "a topic kind is encoded as it was decoded");
    } else {
        cover(2);
    }
}

/// the reserved numbers, times, kinds and parameter ids, either byte order
#[no_mangle]
pub extern "C" fn c10_constants() {
    let be = any_bool();
    let w = || W::new(be);
    check_bytes!(enc(be, &SequenceNumber_t::SEQUENCENUMBER_UNKNOWN), w().i32(-1).u32(0).v, "unknown sequence number");
    check_bytes!(enc(be, &Time_t::TIME_ZERO), w().i32(0).u32(0).v, "TIME_ZERO");
    check_bytes!(enc(be, &Time_t::TIME_INVALID), w().i32(-1).u32(0xffff_ffff).v, "TIME_INVALID");
    check_bytes!(enc(be, &Time_t::TIME_INFINITE), w().i32(0x7fff_ffff).u32(0xffff_ffff).v, "TIME_INFINITE");
    check_bytes!(enc(be, &Duration_t::DURATION_ZERO), w().i32(0).u32(0).v, "DURATION_ZERO");
    check_bytes!(enc(be, &Duration_t::DURATION_INVALID), w().i32(-1).u32(0xffff_ffff).v, "DURATION_INVALID");
    check_bytes!(enc(be, &Duration_t::DURATION_INFINITE), w().i32(0x7fff_ffff).u32(0xffff_ffff).v, "DURATION_INFINITE");
    check_bytes!(enc(be, &ReliabilityKind_t::BEST_EFFORT), w().u32(1).v, "BEST_EFFORT");
    check_bytes!(enc(be, &ReliabilityKind_t::RELIABLE), w().u32(2).v, "RELIABLE");
    check_bytes!(enc(be, &TopicKind_t::NO_KEY), w().u32(1).v, "NO_KEY");
    check_bytes!(enc(be, &TopicKind_t::WITH_KEY), w().u32(2).v, "WITH_KEY");
    for (id, value) in [
        (ParameterId::PID_PAD, 0u16),
        (ParameterId::PID_SENTINEL, 1),
        (ParameterId::PID_PARTICIPANT_LEASE_DURATION, 2),
        (ParameterId::PID_TOPIC_NAME, 5),
        (ParameterId::PID_TYPE_NAME, 7),
        (ParameterId::PID_PROTOCOL_VERSION, 0x15),
        (ParameterId::PID_VENDOR_ID, 0x16),
        (ParameterId::PID_RELIABILITY, 0x1a),
        (ParameterId::PID_UNICAST_LOCATOR, 0x2f),
        (ParameterId::PID_MULTICAST_LOCATOR, 0x30),
        (ParameterId::PID_DEFAULT_UNICAST_LOCATOR, 0x31),
        (ParameterId::PID_METATRAFFIC_UNICAST_LOCATOR, 0x32),
        (ParameterId::PID_METATRAFFIC_MULTICAST_LOCATOR, 0x33),
        (ParameterId::PID_DEFAULT_MULTICAST_LOCATOR, 0x48),
        (ParameterId::PID_PARTICIPANT_GUID, 0x50),
        (ParameterId::PID_BUILTIN_ENDPOINT_SET, 0x58),
        (ParameterId::PID_KEY_HASH, 0x70),
        (ParameterId::PID_STATUS_INFO, 0x71),
    ]
    .iter()
    {
        check_bytes!(enc(be, id), W::new(be).u16(*value).v, "parameter id");
    }
    cover(1);
}

// ---------------------------------------------------------------- C11 identities

/// any bytes, either byte order: written and read
#[no_mangle]
pub extern "C" fn c11_identities() {
    let be = any_bool();
    let bytes = any_array::<16>();
    let v: GuidPrefix_t = round_trip(be, &bytes[..12]);
    check_bytes!(v.entity_key, bytes[..12], "a guid prefix is its twelve bytes");
    let mut key = [0; 12];
    key.copy_from_slice(&bytes[..12]);
    check_bytes!(enc(be, &GuidPrefix_t::from(key)), bytes[..12], "a guid prefix is written in order");
    let entity: EntityId_t = round_trip(be, &bytes[12..]);
    let guid: GUID_t = round_trip(be, &bytes);
    check!(guid.guid_prefix == v, "a GUID starts with the guid prefix");
    check!(guid.entity_id == entity, "a GUID ends with the entity id");
    check_bytes!(enc(be, &GUID_t { guid_prefix: v, entity_id: entity }), bytes, "a GUID is prefix and entity id");
    let handle: InstanceHandle_t = round_trip(be, &bytes);
    check_bytes!(handle.entity_key, bytes, "an instance handle is its sixteen bytes");
    let vendor: VendorId_t = round_trip(be, &bytes[..2]);
    check_bytes!(vendor.vendor_id, bytes[..2], "a vendor id is its two bytes");
    let version: ProtocolVersion_t = round_trip(be, &bytes[..2]);
    check_eq!(version.major, bytes[0], "major version comes first");
    check_eq!(version.minor, bytes[1], "minor version comes second");
    cover(1);
}

/// Identities are equal exactly if all their bytes are, and ordered by them.
#[no_mangle]
pub extern "C" fn c11_comparison() {
    let a = any_array::<16>();
    let b = any_array::<16>();
    let equal = same(&a, &b);
    let x: GUID_t = decode_exactly(true, &a);
    let y: GUID_t = decode_exactly(true, &b);
    check!((x == y) == equal, "GUIDs are equal iff their bytes are");
    check!((x.guid_prefix == y.guid_prefix) == same(&a[..12], &b[..12]), "guid prefixes are equal iff their bytes are");
    check!((x.entity_id == y.entity_id) == same(&a[12..], &b[12..]), "entity ids are equal iff their bytes are");
    let x: InstanceHandle_t = decode_exactly(true, &a);
    let y: InstanceHandle_t = decode_exactly(true, &b);
    check!((x == y) == equal, "instance handles are equal iff their bytes are");
    let x: VendorId_t = decode_exactly(true, &a[..2]);
    let y: VendorId_t = decode_exactly(true, &b[..2]);
    check!((x == y) == same(&a[..2], &b[..2]), "vendor ids are equal iff their bytes are");
    let x: ProtocolVersion_t = decode_exactly(true, &a[..2]);
    let y: ProtocolVersion_t = decode_exactly(true, &b[..2]);
    check!((x == y) == same(&a[..2], &b[..2]), "protocol versions are equal iff their bytes are");
    if equal {
        cover(1);
    } else {
        cover(2);
    }
}

/// Big-endian value of up to sixteen bytes.
fn number(bytes: &[u8]) -> u128 {
    let mut n = 0u128;
    for &b in bytes {
        n = n << 8 | u128::from(b);
    }
    n
}

/// any two identities: the order is that of their bytes
#[no_mangle]
pub extern "C" fn c11_order() {
    let a = any_array::<16>();
    let b = any_array::<16>();
    let x: GUID_t = decode_exactly(true, &a);
    let y: GUID_t = decode_exactly(true, &b);
    check!((x < y) == (number(&a) < number(&b)), "GUIDs are ordered byte by byte");
    check!((x.cmp(&y) == std::cmp::Ordering::Equal) == same(&a, &b), "the order of GUIDs agrees with equality");
    check!(x.cmp(&y) == number(&a).cmp(&number(&b)), "GUIDs are ordered byte by byte");
    check!(x.entity_id.cmp(&y.entity_id) == number(&a[12..]).cmp(&number(&b[12..])), "entity ids are ordered byte by byte");
    check!(
        x.guid_prefix.cmp(&y.guid_prefix) == number(&a[..12]).cmp(&number(&b[..12])),
        "guid prefixes are ordered byte by byte"
    );
    check!(
        (x.entity_id < y.entity_id) == (number(&a[12..]) < number(&b[12..])),
        "entity ids are ordered byte by byte"
    );
    check!(
        (x.guid_prefix < y.guid_prefix) == (number(&a[..12]) < number(&b[..12])),
        "guid prefixes are ordered byte by byte"
    );
    cover(1);
}

/// any two instance handles and protocol versions: the order is that of their bytes
#[no_mangle]
pub extern "C" fn c11_order_of_handles_and_versions() {
    let a = any_array::<16>();
    let b = any_array::<16>();
    let x: InstanceHandle_t = decode_exactly(true, &a);
    let y: InstanceHandle_t = decode_exactly(true, &b);
    check!((x < y) == (number(&a) < number(&b)), "instance handles are ordered byte by byte");
    check!(x.cmp(&y) == number(&a).cmp(&number(&b)), "instance handles are ordered byte by byte");
    let x: ProtocolVersion_t = decode_exactly(true, &a[..2]);
    let y: ProtocolVersion_t = decode_exactly(true, &b[..2]);
    check!((x < y) == (number(&a[..2]) < number(&b[..2])), "protocol versions are ordered by major, then minor");
    check!((x <= y) == (number(&a[..2]) <= number(&b[..2])), "protocol versions are ordered by major, then minor");
    cover(1);
}

/// the predefined prefixes, GUIDs, entity ids, vendors and versions
#[no_mangle]
pub extern "C" fn c11_constants() {
    let be = any_bool();
    for (id, key) in [
        (EntityId_t::ENTITYID_UNKNOWN, [0u8, 0, 0, 0]),
        (EntityId_t::ENTITYID_PARTICIPANT, [0, 0, 1, 0xc1]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_TOPIC_WRITER, [0, 0, 2, 0xc2]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_TOPIC_READER, [0, 0, 2, 0xc7]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_WRITER, [0, 0, 3, 0xc2]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER, [0, 0, 3, 0xc7]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_WRITER, [0, 0, 4, 0xc2]),
        (EntityId_t::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_READER, [0, 0, 4, 0xc7]),
        (EntityId_t::ENTITYID_SPDP_BUILTIN_PARTICIPANT_WRITER, [0, 1, 0, 0xc2]),
        (EntityId_t::ENTITYID_SPDP_BUILTIN_PARTICIPANT_READER, [0, 1, 0, 0xc7]),
        (EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER, [0, 2, 0, 0xc2]),
        (EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_READER, [0, 2, 0, 0xc7]),
    ]
    .iter()
    {
        check_bytes!(enc(be, id), key, "entity id constant");
    }
    check_bytes!(enc(be, &GUID_t::GUID_UNKNOWN), [0u8; 16], "GUID_UNKNOWN");
    check_bytes!(enc(be, &GuidPrefix_t::GUIDPREFIX_UNKNOWN), [0u8; 12], "GUIDPREFIX_UNKNOWN");
    check_bytes!(enc(be, &VendorId_t::VENDOR_UNKNOWN), [0u8; 2], "VENDOR_UNKNOWN");
    check_bytes!(enc(be, &ProtocolVersion_t::PROTOCOLVERSION), [2u8, 4], "PROTOCOLVERSION");
    for (version, bytes) in [
        (ProtocolVersion_t::PROTOCOLVERSION_1_0, [1u8, 0]),
        (ProtocolVersion_t::PROTOCOLVERSION_1_1, [1, 1]),
        (ProtocolVersion_t::PROTOCOLVERSION_2_0, [2, 0]),
        (ProtocolVersion_t::PROTOCOLVERSION_2_1, [2, 1]),
        (ProtocolVersion_t::PROTOCOLVERSION_2_2, [2, 2]),
        (ProtocolVersion_t::PROTOCOLVERSION_2_4, [2, 4]),
        (ProtocolVersion_t::default(), [2, 4]),
    ]
    .iter()
    {
        check_bytes!(enc(be, version), bytes, "protocol version constant");
    }
    check_bytes!(enc(be, &VendorId_t::default()), [0u8; 2], "the default vendor id is unknown");
    check_bytes!(enc(be, &GUID_t::default()), [0u8; 16], "the default GUID is unknown");
    check_bytes!(enc(be, &ProtocolId_t::PROTOCOL_RTPS), b"RTPS", "PROTOCOL_RTPS");
    check_bytes!(enc(be, &EntityId_t::default()), [0u8; 4], "the default entity id is unknown");
    check_bytes!(enc(be, &GuidPrefix_t::default()), [0u8; 12], "the default guid prefix is unknown");
    check_bytes!(enc(be, &InstanceHandle_t::default()), [0u8; 16], "the default instance handle is nil");
    cover(1);
}

// ---------------------------------------------------------------- C12 headers

/// any 20 bytes, either byte order: read, and written again
#[no_mangle]
pub extern "C" fn c12_message_header() {
    let be = any_bool();
    let bytes = any_array::<20>();
    let h: Header = round_trip(be, &bytes);
    check_bytes!(enc(be, &h.protocol_id), bytes[..4], "the protocol id comes first");
    check_eq!(h.protocol_version.major, bytes[4], "major protocol version");
    check_eq!(h.protocol_version.minor, bytes[5], "minor protocol version");
    check_bytes!(h.vendor_id.vendor_id, bytes[6..8], "vendor id");
    check_bytes!(h.guid_prefix.entity_key, bytes[8..], "guid prefix");
    let rtps = bytes[0] == b'R' && bytes[1] == b'T' && bytes[2] == b'P' && bytes[3] == b'S';
    check!(h.protocol_id.valid() == rtps, "a protocol id is valid iff it is RTPS");
    check!(h.valid() == (rtps && bytes[4] <= 2), "a header is valid iff it is RTPS of a supported major version");
    if h.valid() {
        cover(1);
    } else {
        cover(2);
    }
}

/// a new header for any prefix
#[no_mangle]
pub extern "C" fn c12_new_header() {
    let be = any_bool();
    let prefix = any_array::<12>();
    let h = Header::new(GuidPrefix_t::from(prefix));
    check!(h.valid(), "a new header is valid");
    let expected = W::new(be).raw(b"RTPS").u8(2).u8(4).raw(&[0, 0]).raw(&prefix).v;
    check_bytes!(enc(be, &h), expected, "layout of a new header");
    cover(1);
}

/// The length of a submessage is encoded as its endianness flag says, whatever
/// the context it is read or written in.
#[no_mangle]
pub extern "C" fn c12_submessage_header() {
    let be = any_bool();
    let bytes = any_array::<4>();
    let h: SubmessageHeader = round_trip(be, &bytes);
    check_bytes!(enc(be, &h.submessage_id), bytes[..1], "the submessage id comes first");
    check_eq!(h.flags.flags, bytes[1], "the flags come second");
    check_eq!(
        h.submessage_length,
        ru16(bytes[1] & 1 == 0, &bytes[2..]),
        "the submessage length follows the endianness flag"
    );
    cover(1);
}

/// any id, flags and length, in either context: written
#[no_mangle]
pub extern "C" fn c12_write_submessage_header() {
    let be = any_bool();
    let (id, flags, length) = (any_u8(), any_u8(), any_u16());
    let h = SubmessageHeader {
        submessage_id: decode_exactly::<SubmessageKind>(be, &[id]),
        flags: SubmessageFlag { flags },
        submessage_length: length,
    };
    let expected = W::new(flags & 1 == 0).u8(id).u8(flags).u16(length).v;
    check_bytes!(enc(be, &h), expected, "layout of a submessage header");
    cover(1);
}

/// the ids of the submessage kinds
#[no_mangle]
pub extern "C" fn c12_submessage_ids() {
    let be = any_bool();
    for (kind, value) in [
        (SubmessageKind::PAD, 0x01u8),
        (SubmessageKind::ACKNACK, 0x06),
        (SubmessageKind::HEARTBEAT, 0x07),
        (SubmessageKind::GAP, 0x08),
        (SubmessageKind::INFO_TS, 0x09),
        (SubmessageKind::INFO_SRC, 0x0c),
        (SubmessageKind::INFO_REPLAY_IP4, 0x0d),
        (SubmessageKind::INFO_DST, 0x0e),
        (SubmessageKind::INFO_REPLAY, 0x0f),
        (SubmessageKind::NACK_FRAG, 0x12),
        (SubmessageKind::HEARTBEAT_FRAG, 0x13),
        (SubmessageKind::DATA, 0x15),
        (SubmessageKind::DATA_FRAG, 0x16),
    ]
    .iter()
    {
        check_bytes!(enc(be, kind), [*value], "submessage id");
    }
    let (a, b) = (any_u8(), any_u8());
    let x: SubmessageKind = round_trip(be, &[a]);
    let y: SubmessageKind = round_trip(be, &[b]);
    check!((x == y) == (a == b), "submessage kinds are equal iff their ids are");
    cover(1);
}

// ---------------------------------------------------------------- C13 locators

fn known_kind(kind: u32) -> bool {
    kind == 0 || kind == 1 || kind == 2 || kind == 0xffff_ffff
}

fn kind_number(kind: &LocatorKind_t) -> u32 {
    match kind {
        LocatorKind_t::LOCATOR_KIND_INVALID => 0xffff_ffff,
        LocatorKind_t::LOCATOR_KIND_RESERVED => 0,
        LocatorKind_t::LOCATOR_KIND_UDPv4 => 1,
        LocatorKind_t::LOCATOR_KIND_UDPv6 => 2,
    }
}

/// any kind, port and address, either byte order: read, and written again
#[no_mangle]
pub extern "C" fn c13_locator() {
    let be = any_bool();
    let (kind, port, address) = (any_u32(), any_u32(), any_array::<16>());
    let bytes = W::new(be).u32(kind).u32(port).raw(&address).v;
    let (v, n) = dec::<Locator_t>(be, &bytes);
    check!(v.is_some() == known_kind(kind), "a locator is accepted iff its kind is known");
    if let Some(l) = v {
        cover(1);
        check_eq!(n, 24, "a locator takes 24 bytes");
        check_eq!(kind_number(&l.kind), kind, "locator kind");
        check_eq!(l.port, port, "locator port");
        check_bytes!(l.address, address, "locator address");
        check_bytes!(enc(be, &l), bytes, "a locator is encoded as it was decoded");
    } else {
        cover(2);
    }
}

/// any address and port, either byte order: written and read
#[no_mangle]
pub extern "C" fn c13_locator_udp_v4() {
    let be = any_bool();
    let (address, port) = (any_u32(), any_u32());
    let bytes = W::new(be).u32(address).u32(port).v;
    let l: LocatorUDPv4_t = round_trip(be, &bytes);
    assume(port <= 0xffff);
    let s = std::net::SocketAddrV4::from(l);
    check_eq!(u32::from(*s.ip()), address, "the address of a UDPv4 locator comes first");
    check_eq!(s.port(), port, "the port of a UDPv4 locator comes second");
    let w = LocatorUDPv4_t::from(s);
    check_bytes!(enc(be, &w), bytes, "layout of a UDPv4 locator");
    check_bytes!(enc(be, &LocatorUDPv4_t::LOCATORUDPv4_INVALID), [0u8; 8], "LOCATORUDPv4_INVALID");
    cover(1);
}

/// any two locators: equal exactly if kind, port and address are
#[no_mangle]
pub extern "C" fn c13_equality() {
    let (a, b) = (any_array::<24>(), any_array::<24>());
    let (x, _) = dec::<Locator_t>(true, &a);
    let (y, _) = dec::<Locator_t>(true, &b);
    if let (Some(x), Some(y)) = (x, y) {
        check!((x == y) == same(&a, &b), "locators are equal iff their bytes are");
        cover(1);
    }
    let (x, _) = dec::<LocatorUDPv4_t>(true, &a);
    let (y, _) = dec::<LocatorUDPv4_t>(true, &b);
    if let (Some(x), Some(y)) = (x, y) {
        check!((x == y) == same(&a[..8], &b[..8]), "compact locators are equal iff their bytes are");
        cover(2);
    }
}

/// lists of up to 3 locators, any contents, either byte order; announcing any length
#[no_mangle]
pub extern "C" fn c13_locator_list() {
    let be = any_bool();
    let n = choice(0, if thorough() { 6 } else { 3 });
    let mut w = W::new(be).u32(n as u32);
    let mut addresses = Vec::with_capacity(8);
    for i in 0..n {
        let (port, address) = (any_u32(), any_array::<16>());
        w = w.u32((i % 3) as u32).u32(port).raw(&address);
        addresses.push((port, address));
    }
    let list: LocatorList_t = round_trip(be, &w.v);
    check_eq!(list.len(), n, "number of locators in a list");
    for (l, (port, address)) in list.iter().zip(addresses.iter()) {
        check_eq!(l.port, *port, "port of a locator in a list");
        check_bytes!(l.address, address, "address of a locator in a list");
    }
    cover(1);
}

/// lists of 4 to 43, 100, 129 and 257 (thorough: 4 to 141, 257) locators, the first, the last and one between any, either byte order
#[no_mangle]
pub extern "C" fn c13_long_lists() {
    let be = any_bool();
    let n = match choice(0, if thorough() { 140 } else { 42 }) as u32 {
        k @ 0..=2 => [100, 129, 257][k as usize],
        k => k + 1,
    };
    let mut w = W::new(be).u32(n);
    for i in 0..n {
        if i == 0 || i == n / 2 || i == n - 1 {
            w = w.u32(i % 3).u32(any_u32()).raw(&any_array::<16>());
        } else {
            w = w.u32(1).u32(i).raw(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127, 0, 0, 1]);
        }
    }
    let list: LocatorList_t = round_trip(be, &w.v);
    check_eq!(list.len(), n, "number of locators in a list");
    cover(1);
}

/// the reserved locators
#[no_mangle]
pub extern "C" fn c13_constants() {
    let be = any_bool();
    let invalid = W::new(be).u32(0xffff_ffff).u32(0).raw(&[0; 16]).v;
    check_bytes!(enc(be, &Locator_t::LOCATOR_INVALID), invalid, "LOCATOR_INVALID");
    check_bytes!(enc(be, &Locator_t::default()), invalid, "the default locator is invalid");
    cover(1);
}

// ---------------------------------------------------------------- C14 submessage bodies of fixed size

/// any fields, either byte order: written and read
#[no_mangle]
pub extern "C" fn c14_heartbeat() {
    let be = any_bool();
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let (first, last, count) = (any_i64(), any_i64(), any_i32());
    let bytes = W::new(be).raw(&reader).raw(&writer).sn(first).sn(last).i32(count).v;
    let h = Heartbeat {
        reader_id: decode_exactly(be, &reader),
        writer_id: decode_exactly(be, &writer),
        first_sn: SequenceNumber_t::from(first),
        last_sn: SequenceNumber_t::from(last),
        count: Count_t::from(count),
    };
    check_bytes!(enc(be, &h), bytes, "layout of a Heartbeat");
    let d: Heartbeat = decode_exactly(be, &bytes);
    check!(d.reader_id == h.reader_id, "reader id of a decoded Heartbeat");
    check!(d.writer_id == h.writer_id, "writer id of a decoded Heartbeat");
    check_eq!(i64::from(d.first_sn), first, "first sequence number of a decoded Heartbeat");
    check_eq!(i64::from(d.last_sn), last, "last sequence number of a decoded Heartbeat");
    check_eq!(i32::from(d.count), count, "count of a decoded Heartbeat");
    cover(1);
}

/// any fields, either byte order: written and read
#[no_mangle]
pub extern "C" fn c14_heartbeat_frag() {
    let be = any_bool();
    let (reader, writer) = (any_array::<4>(), any_array::<4>());
    let (sn, fragment, count) = (any_i64(), any_u32(), any_i32());
    let bytes = W::new(be).raw(&reader).raw(&writer).sn(sn).u32(fragment).i32(count).v;
    let h = HeartbeatFrag {
        reader_id: decode_exactly(be, &reader),
        writer_id: decode_exactly(be, &writer),
        writer_sn: SequenceNumber_t::from(sn),
        last_fragment_num: FragmentNumber_t::from(fragment),
        count: Count_t::from(count),
    };
    check_bytes!(enc(be, &h), bytes, "layout of a HeartbeatFrag");
    let d: HeartbeatFrag = decode_exactly(be, &bytes);
    check!(d.reader_id == h.reader_id, "reader id of a decoded HeartbeatFrag");
    check!(d.writer_id == h.writer_id, "writer id of a decoded HeartbeatFrag");
    check_eq!(i64::from(d.writer_sn), sn, "sequence number of a decoded HeartbeatFrag");
    check_eq!(u32::from(d.last_fragment_num), fragment, "fragment number of a decoded HeartbeatFrag");
    check_eq!(i32::from(d.count), count, "count of a decoded HeartbeatFrag");
    cover(1);
}

/// any fields, either byte order: written and read
#[no_mangle]
pub extern "C" fn c14_info_source() {
    let be = any_bool();
    let bytes = any_array::<16>();
    let d: InfoSource = round_trip(be, &bytes);
    check_eq!(d.protocol_version.major, bytes[0], "major version of a decoded InfoSource");
    check_eq!(d.protocol_version.minor, bytes[1], "minor version of a decoded InfoSource");
    check_bytes!(d.vendor_id.vendor_id, bytes[2..4], "vendor id of a decoded InfoSource");
    check_bytes!(d.guid_prefix.entity_key, bytes[4..], "guid prefix of a decoded InfoSource");
    cover(1);
}

/// any prefix, either byte order: written and read
#[no_mangle]
pub extern "C" fn c14_info_destination() {
    let be = any_bool();
    let bytes = any_array::<12>();
    let d: InfoDestination = round_trip(be, &bytes);
    check_bytes!(d.guid_prefix.entity_key, bytes, "guid prefix of a decoded InfoDestination");
    cover(1);
}

// ---------------------------------------------------------------- C18 truncated encodings

/// every fixed-size type cut at every place before its end, any contents, either byte order
#[no_mangle]
pub extern "C" fn c18_fixed() {
    let be = any_bool();
    let kind = choice(0, 20);
    let bytes = any_bytes(32);
    match kind {
        0 => prefixes_rejected::<SequenceNumber_t>(be, &bytes[..8]),
        1 => prefixes_rejected::<FragmentNumber_t>(be, &bytes[..4]),
        2 => prefixes_rejected::<Count_t>(be, &bytes[..4]),
        3 => prefixes_rejected::<Time_t>(be, &bytes[..8]),
        4 => prefixes_rejected::<Duration_t>(be, &bytes[..8]),
        5 => prefixes_rejected::<GuidPrefix_t>(be, &bytes[..12]),
        6 => prefixes_rejected::<EntityId_t>(be, &bytes[..4]),
        7 => prefixes_rejected::<GUID_t>(be, &bytes[..16]),
        8 => prefixes_rejected::<InstanceHandle_t>(be, &bytes[..16]),
        9 => prefixes_rejected::<VendorId_t>(be, &bytes[..2]),
        10 => prefixes_rejected::<ProtocolVersion_t>(be, &bytes[..2]),
        11 => prefixes_rejected::<Header>(be, &bytes[..20]),
        12 => prefixes_rejected::<SubmessageHeader>(be, &bytes[..4]),
        13 => prefixes_rejected::<Locator_t>(be, &bytes[..24]),
        14 => prefixes_rejected::<LocatorUDPv4_t>(be, &bytes[..8]),
        15 => prefixes_rejected::<Heartbeat>(be, &bytes[..28]),
        16 => prefixes_rejected::<HeartbeatFrag>(be, &bytes[..24]),
        17 => prefixes_rejected::<InfoSource>(be, &bytes[..16]),
        18 => prefixes_rejected::<InfoDestination>(be, &bytes[..12]),
        19 => prefixes_rejected::<ProtocolId_t>(be, &bytes[..4]),
        _ => prefixes_rejected::<TopicKind_t>(be, &bytes[..4]),
    }
}

/// Announced sizes that the buffer does not hold.
#[no_mangle]
pub extern "C" fn c18_sized() {
    let be = any_bool();
    let kind = choice(0, 5);
    let n = choice(0, if thorough() { 64 } else { 28 });
    let bytes = any_bytes(n);
    match kind {
        0 => {
            // a locator list holds as many locators as it announces
            let (v, used) = dec::<LocatorList_t>(be, &bytes);
            if let Some(list) = v {
                cover(1);
                check!(n >= 4, "a locator list has a length");
                check_eq!(list.len(), ru32(be, &bytes), "a locator list is as long as announced");
                check_eq!(used, 4 + 24 * list.len(), "bytes used by a locator list");
            }
        }
        1 => {
            let (v, used) = dec::<BitSetRef>(be, &bytes);
            if v.is_some() {
                cover(2);
                check!(n >= 4, "a bitmap has a length");
                let bits = ru32(be, &bytes);
                check!(bits <= 256, "a bitmap has at most 256 bits");
                check_eq!(used, 4 + (bits + 31) / 32 * 4, "bytes used by a bitmap");
            }
        }
        2 => {
            let (v, used) = dec::<Parameter>(be, &bytes);
            if v.is_some() {
                cover(3);
                check!(n >= 4, "a parameter has a header");
                let length = usize::from(ru16(be, &bytes[2..]));
                check_eq!(used, 4 + (length + 3) / 4 * 4, "bytes used by a parameter");
            }
        }
        3 => {
            let (v, used) = dec::<AckNack>(be, &bytes);
            if v.is_some() {
                cover(4);
                check!(n >= 24, "an AckNack has its fields");
                check_eq!(used, 24 + (ru32(be, &bytes[16..]) + 31) / 32 * 4, "bytes used by an AckNack");
            }
        }
        4 => {
            let (v, used) = dec::<Gap>(be, &bytes);
            if v.is_some() {
                cover(5);
                check!(n >= 28, "a Gap has its fields");
                check_eq!(used, 28 + (ru32(be, &bytes[24..]) + 31) / 32 * 4, "bytes used by a Gap");
            }
        }
        _ => {
            let (v, used) = dec::<NackFrag>(be, &bytes);
            if v.is_some() {
                cover(6);
                check!(n >= 28, "a NackFrag has its fields");
                check_eq!(used, 28 + (ru32(be, &bytes[20..]) + 31) / 32 * 4, "bytes used by a NackFrag");
            }
        }
    }
}

/// locator lists of 4 to 257 locators, parameters of 32 to 4100 bytes and sets of 256 bits cut up to 4 bytes, 24 bytes or in the middle before their end, either byte order, any byte behind the length
#[no_mangle]
pub extern "C" fn c18_long() {
    let be = choice(0, 1) == 1;
    let cut = choice(0, 6);
    let n;
    let full = match choice(0, 2) {
        0 => {
            n = [4, 5, 16, 17, 33, 64, 65, 257][choice(0, 7)];
            let mut w = W::new(be).u32(n as u32);
            for _ in 0..n {
                w = w.u32(1).raw(&[7; 20]);
            }
            w.v
        }
        1 => {
            n = [32, 64, 128, 252, 256, 1024, 4100][choice(0, 6)];
            W::new(be).u16(any_u16()).u16(n as u16).raw(&[any_u8()]).raw(&vec![7; n - 1]).v
        }
        _ => {
            n = 0;
            W::new(be).u32(256 - choice(0, 31) as u32).raw(&[any_u8()]).raw(&[0; 31]).v
        }
    };
    let end = match cut {
        0 => full.len(),
        5 => full.len() - 24,
        6 => full.len() / 2,
        k => full.len() - k,
    };
    let bytes = &full[..end];
    let whole = cut == 0;
    if n == 0 {
        check!(dec::<BitSetRef>(be, bytes).0.is_some() == whole, "a bitmap cut short is refused");
        cover(1);
    } else if full[4..8] == W::new(be).u32(1).v[..] && full.len() == 4 + 24 * n {
        check!(dec::<LocatorList_t>(be, bytes).0.is_some() == whole, "a locator list cut short is refused");
        cover(2);
    } else {
        check!(dec::<Parameter>(be, bytes).0.is_some() == whole, "a parameter cut short is refused");
        cover(3);
    }
}
