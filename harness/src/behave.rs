//! The writer's side: history cache, reader proxies, writers (C23 - C25, C28, C29, C31).

use crate::refs::*;
use crate::rt::*;
use rtps_rs::verif::*;

const FILE: u32 = 6000;

fn sn(x: i64) -> SequenceNumber_t {
    SequenceNumber_t::from(x)
}

fn any_guid() -> GUID_t {
    GUID_t {
        guid_prefix: GuidPrefix_t { entity_key: any_array::<12>() },
        entity_id: decode_exactly(true, &any_array::<4>()),
    }
}

/// What a change is made of: writers, handles and kinds may repeat.
#[derive(Clone, Copy)]
struct Made {
    number: i64,
    kind: usize,
    guid: u8,
    handle: u8,
}

/// Any change with this number.
fn any_made(number: i64) -> Made {
    let kind = any_u8();
    assume(kind < 3);
    Made { number, kind: kind as usize, guid: any_u8(), handle: any_u8() }
}

fn kind_of(i: usize) -> ChangeKind_t {
    let kinds = [ChangeKind_t::ALIVE, ChangeKind_t::NOT_ALIVE_DISPOSED, ChangeKind_t::NOT_ALIVE_UNREGISTERED];
    unsafe { std::ptr::read(&kinds[i]) }
}

fn handle_of(b: u8) -> [u8; 16] {
    [b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, !b]
}

fn guid_of(b: u8) -> GUID_t {
    GUID_t {
        guid_prefix: GuidPrefix_t { entity_key: [0, 0, 0, 0, 0, b, 0, 0, 0, 0, 0, !b] },
        entity_id: EntityId_t::ENTITYID_PARTICIPANT,
    }
}

fn change(m: &Made) -> CacheChange {
    CacheChange {
        kind: kind_of(m.kind),
        writer_guid: guid_of(m.guid),
        instance_handle: InstanceHandle_t { entity_key: handle_of(m.handle) },
        sequence_number: sn(m.number),
        data_value: Data {},
    }
}

/// The change is the one made.
fn is(c: &CacheChange, m: &Made) -> bool {
    (i64::from(c.sequence_number) == m.number)
        & (c.kind == kind_of(m.kind))
        & (c.writer_guid == guid_of(m.guid))
        & same(&c.instance_handle.entity_key, &handle_of(m.handle))
}

/// A change of which only the number matters.
fn plain(number: i64) -> CacheChange {
    change(&Made { number, kind: 0, guid: 0, handle: 0 })
}

fn any_kind() -> ChangeKind_t {
    match choice(0, 2) {
        0 => ChangeKind_t::ALIVE,
        1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

// ---------------------------------------------------------------- C23 history cache

/// What must be in a cache: what was added, and whether it is still there.
struct History {
    entries: [(Made, bool); 6],
    n: usize,
}

impl History {
    fn new() -> History {
        History { entries: [(Made { number: 0, kind: 0, guid: 0, handle: 0 }, false); 6], n: 0 }
    }
    fn add(&mut self, made: Made) {
        self.entries[self.n] = (made, true);
        self.n += 1;
    }
    fn remove(&mut self, number: i64) {
        for i in 0..self.n {
            let e = self.entries[i];
            self.entries[i].1 = e.1 & (e.0.number != number);
        }
    }
    fn len(&self) -> u32 {
        let mut r = 0;
        for i in 0..self.n {
            r += self.entries[i].1 as u32;
        }
        r
    }
    fn has(&self, number: i64) -> bool {
        let mut r = false;
        for i in 0..self.n {
            r |= self.entries[i].1 & (self.entries[i].0.number == number);
        }
        r
    }
}

fn check_history(h: &HistoryCacheProbe, m: &History) {
    check_eq!(h.len(), m.len(), "number of changes in the cache");
    let probe = any_i64();
    match h.get_change(sn(probe)) {
        Some(c) => {
            check_eq!(i64::from(c.sequence_number), probe, "the change asked for is returned");
            let mut there = false;
            for i in 0..m.n {
                let e = m.entries[i];
                there |= e.1 & is(c, &e.0);
            }
            check!(there, "a change returned is as it was added");
            cover(1);
        }
        None => {
            check!(!m.has(probe), "a change that is in the cache is found");
            cover(2);
        }
    }
    let (least, largest) = (h.get_seq_num_min().copied(), h.get_seq_num_max().copied());
    check!(least.is_some() == (m.len() > 0), "there is a least number exactly if there is a change");
    check!(largest.is_some() == (m.len() > 0), "there is a largest number exactly if there is a change");
    if let (Some(least), Some(largest)) = (least, largest) {
        let (least, largest) = (i64::from(least), i64::from(largest));
        check!(m.has(least), "the least number is in the cache");
        check!(m.has(largest), "the largest number is in the cache");
        for i in 0..m.n {
            let e = m.entries[i];
            check!(!e.1 | (least <= e.0.number), "no number is less than the least");
            check!(!e.1 | (largest >= e.0.number), "no number is larger than the largest");
        }
        cover(3);
    }
}

/// up to 3 (thorough: 4) changes of any numbers, two removals of any numbers between and behind them; asked before and after the second one (quick: of 3 changes, before or after)
#[no_mangle]
pub extern "C" fn c23_history() {
    let mut h = HistoryCacheProbe::new();
    let mut m = History::new();
    let most = if thorough() { 4 } else { 3 };
    let n = choice(0, most);
    let after = choice(0, n);
    for i in 0..n {
        let made = any_made(any_i64());
        h.add_change(change(&made));
        m.add(made);
        if i + 1 == after {
            let gone = any_i64();
            h.remove_change(sn(gone));
            m.remove(gone);
        }
    }
    let asked_twice = thorough() | (n <= 2);
    let ask = asked_twice || choice(0, 1) == 1;
    if ask {
        check_history(&h, &m);
    }
    if asked_twice | !ask {
        let gone = any_i64();
        h.remove_change(sn(gone));
        m.remove(gone);
        check_history(&h, &m);
    }
}

/// every field of a change added comes back, and removal takes only what was named
#[no_mangle]
pub extern "C" fn c23_contents() {
    let mut h = HistoryCacheProbe::new();
    let (a, b) = (any_i64(), any_i64());
    let kind = choice(0, 2);
    let kinds = [ChangeKind_t::ALIVE, ChangeKind_t::NOT_ALIVE_DISPOSED, ChangeKind_t::NOT_ALIVE_UNREGISTERED];
    let (prefix, id, handle) = (any_array::<12>(), any_array::<4>(), any_array::<16>());
    let make = || CacheChange {
        kind: match kind {
            0 => ChangeKind_t::ALIVE,
            1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
            _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
        },
        writer_guid: GUID_t {
            guid_prefix: GuidPrefix_t { entity_key: prefix },
            entity_id: decode_exactly(true, &id),
        },
        instance_handle: InstanceHandle_t { entity_key: handle },
        sequence_number: sn(a),
        data_value: Data {},
    };
    h.add_change(plain(b));
    h.add_change(make());
    assume(a != b);
    h.remove_change(sn(b));
    check!(h.get_change(sn(b)).is_none(), "a removed change is gone");
    match h.get_change(sn(a)) {
        Some(c) => {
            check!(*c == make(), "a change in the cache is as it was added");
            check!(c.kind == kinds[kind], "a change in the cache is as it was added");
            cover(1);
        }
        None => check!(false, "removal takes only what was named"),
    }
}

/// How many changes and the number of the first: any for some, one of a few for many.
fn run() -> (i64, i64) {
    if choice(0, 1) == 0 {
        let n = if thorough() { 150 } else { 40 };
        let base = any_i64();
        assume((base <= i64::max_value() - n) & (base > i64::min_value()));
        (n, base)
    } else {
        let n = if thorough() { 2200 } else { 1100 };
        let half = n / 2;
        let top = i64::max_value();
        (n, [1, -half, (1 << 31) - half, (1 << 32) - half, top - n][choice(0, 4)])
    }
}

/// 40 (thorough: 150) changes numbered from any number, or 1100 (thorough: 2200) from one of 5, upward, downward or mixed, of any one kind, writer and handle; one of them or none removed
#[no_mangle]
pub extern "C" fn c23_many() {
    let (n, base) = run();
    let made = any_made(0);
    let mut h = HistoryCacheProbe::new();
    let order = choice(0, 2);
    for i in 0..n {
        let i = [i, n - 1 - i, i * 101 % n][order];
        h.add_change(change(&Made { number: base + i, ..made }));
    }
    check_eq!(h.len(), n, "every change added is in the cache");
    let gone = [-1, 0, 1, n / 2, n - 1][choice(0, 4)];
    if gone >= 0 {
        h.remove_change(sn(base + gone));
        check_eq!(h.len(), n - 1, "removal takes only what was named");
    }
    for i in [0, 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, n / 2, 255, 256, n - 2, n - 1].iter().filter(|i| **i < n) {
        match h.get_change(sn(base + i)) {
            Some(c) => {
                check!(*i != gone, "a removed change is gone");
                check!(is(c, &Made { number: base + i, ..made }), "a change in the cache is as it was added");
            }
            None => check!(*i == gone, "removal takes only what was named"),
        }
    }
    let least = if gone == 0 { base + 1 } else { base };
    let largest = if gone == n - 1 { base + n - 2 } else { base + n - 1 };
    check!(h.get_seq_num_min() == Some(&sn(least)), "the least number is that of a change in the cache");
    check!(h.get_seq_num_max() == Some(&sn(largest)), "the largest number is that of a change in the cache");
    cover(1);
}

/// 100 (thorough: 400) changes numbered from any number, of which 1, 7 or 40 are in the cache at a time: the oldest is removed before the next is added; then all are removed, from either end
#[no_mangle]
pub extern "C" fn c23_churn() {
    let n = if thorough() { 400 } else { 100 };
    let base = any_i64();
    assume(base <= i64::max_value() - n);
    let made = any_made(0);
    let width = [1, 7, 40][choice(0, 2)];
    let mut h = HistoryCacheProbe::new();
    for i in 0..n {
        if i >= width {
            h.remove_change(sn(base + i - width));
            check!(h.get_change(sn(base + i - width)).is_none(), "a removed change is gone");
        }
        h.add_change(change(&Made { number: base + i, ..made }));
        let first = if i < width { 0 } else { i - width + 1 };
        check_eq!(h.len(), i - first + 1, "the changes in the cache are those added and not removed");
        check!(h.get_seq_num_min() == Some(&sn(base + first)), "the least number is that of a change in the cache");
        check!(h.get_seq_num_max() == Some(&sn(base + i)), "the largest number is that of a change in the cache");
        for k in &[first, (first + i) / 2, i] {
            match h.get_change(sn(base + *k)) {
                Some(c) => check!(is(c, &Made { number: base + *k, ..made }), "a change in the cache is as it was added"),
                None => check!(false, "removal takes only what was named"),
            }
        }
    }
    let upward = choice(0, 1) == 1;
    for k in 0..width {
        h.remove_change(sn(base + if upward { n - width + k } else { n - 1 - k }));
        check_eq!(h.len(), width - 1 - k, "removal takes only what was named");
    }
    check!(h.get_seq_num_min().is_none(), "an empty cache has no least number");
    check!(h.get_seq_num_max().is_none(), "an empty cache has no largest number");
    cover(1);
}

// ---------------------------------------------------------------- C24 reader proxy

fn any_changes(n: usize) -> (Vec<CacheChange>, Vec<Made>) {
    let (mut v, mut all) = (Vec::with_capacity(n), Vec::with_capacity(n));
    for _ in 0..n {
        let number = any_i64();
        assume(number > i64::min_value());
        let made = any_made(number);
        v.push(change(&made));
        all.push(made);
    }
    (v, all)
}

/// up to 3 (thorough: 4) changes of any numbers, repeated ones too, taken until none is left
#[no_mangle]
pub extern "C" fn c24_drain() {
    let n = choice(0, if thorough() { 4 } else { 3 });
    let (changes, _) = any_changes(n);
    let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, any_bool());
    let mut last = i64::min_value();
    let mut taken = 0;
    while let Some(number) = p.next_unsent_change(&changes).map(|c| i64::from(c.sequence_number)) {
        check!(number > last, "changes are sent in ascending order, each once");
        // nothing between the last and this one
        let mut skipped = false;
        let mut there = false;
        for c in &changes {
            let x = i64::from(c.sequence_number);
            skipped |= (x > last) & (x < number);
            there |= x == number;
        }
        check!(!skipped, "no change is passed over");
        check!(there, "only changes that exist are sent");
        last = number;
        taken += 1;
        check!(taken <= n, "no more changes are sent than there are");
        cover(1);
    }
    let mut left = false;
    for c in &changes {
        left |= i64::from(c.sequence_number) > last;
    }
    check!(!left, "sending ends when every change has been sent");
    cover(2);
}

/// the unsent changes are those above the last one sent, whatever was sent before, in the order of the history
#[no_mangle]
pub extern "C" fn c24_unsent() {
    let n = choice(0, if thorough() { 4 } else { 3 });
    let (changes, all) = any_changes(n);
    let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
    let mut last = i64::min_value();
    for _ in 0..choice(0, n) {
        if let Some(c) = p.next_unsent_change(&changes) {
            last = i64::from(c.sequence_number);
        }
    }
    let mut unsent = p.unsent_changes(&changes);
    for m in &all {
        if m.number > last {
            match unsent.next() {
                Some(c) => check!(is(c, m), "a change above the last one sent is unsent"),
                None => check!(false, "a change above the last one sent is unsent"),
            }
            cover(1);
        }
    }
    check!(unsent.next().is_none(), "a change up to the last one sent is not unsent");
    cover(2);
}

/// a history that grows between requests: changes above the last one sent are sent, in order, and none twice
#[no_mangle]
pub extern "C" fn c24_growing() {
    let n = if thorough() { 4 } else { 3 };
    let (changes, _) = any_changes(n);
    let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true);
    let mut last = i64::min_value();
    for upto in 1..n + 1 {
        for _ in 0..choice(0, 2) {
            let history = &changes[..upto];
            let got = p.next_unsent_change(history).map(|c| i64::from(c.sequence_number));
            match got {
                Some(number) => {
                    check!(number > last, "changes are sent in ascending order, each once");
                    let mut skipped = false;
                    for c in history {
                        let x = i64::from(c.sequence_number);
                        skipped |= (x > last) & (x < number);
                    }
                    check!(!skipped, "no change is passed over");
                    last = number;
                    cover(1);
                }
                None => {
                    let mut left = false;
                    for c in history {
                        left |= i64::from(c.sequence_number) > last;
                    }
                    check!(!left, "a change is sent when there is one");
                    cover(2);
                }
            }
        }
    }
}

/// asking for the unsent changes does not count as sending them; two readers are served independently
#[no_mangle]
pub extern "C" fn c24_independent() {
    let (changes, _) = any_changes(2);
    let mut a = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true);
    let mut b = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true);
    let before = a.unsent_changes(&changes).count();
    check_eq!(before, 2, "every change is unsent to a new reader");
    check_eq!(a.unsent_changes(&changes).count(), before, "asking for the unsent changes sends none");
    let first = a.next_unsent_change(&changes).map(|c| i64::from(c.sequence_number));
    check_eq!(b.unsent_changes(&changes).count(), 2, "what one reader was sent is unsent to another");
    let other = b.next_unsent_change(&changes).map(|c| i64::from(c.sequence_number));
    check!(first == other, "every reader is sent the same first change");
    check!(first.is_some(), "a change is sent when there is one");
    cover(1);
}

/// 40 changes (thorough: 100) numbered from any number on, in a mixed order, of any one kind, writer and handle, all taken
#[no_mangle]
pub extern "C" fn c24_many() {
    let n = if thorough() { 100 } else { 40 };
    let base = any_i64();
    assume((base <= i64::max_value() - n) & (base > i64::min_value()));
    let made = any_made(0);
    let mut changes = vec![];
    for i in 0..n {
        changes.push(change(&Made { number: base + i * 13 % n, ..made }));
    }
    let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true);
    for i in 0..n {
        check_eq!(p.unsent_changes(&changes).count(), n - i, "a change above the last one sent is unsent");
        match p.next_unsent_change(&changes) {
            Some(c) => check!(is(c, &Made { number: base + i, ..made }), "changes are sent in ascending order, each once"),
            None => check!(false, "a change is sent when there is one"),
        }
    }
    check!(p.next_unsent_change(&changes).is_none(), "sending ends when every change has been sent");
    cover(1);
}

/// 40 changes (thorough: 150) numbered from any number on, or 1100 (thorough: 2200) from one of 5, upward or downward; 3 are taken
#[no_mangle]
pub extern "C" fn c24_long() {
    let (n, base) = run();
    let made = any_made(0);
    let mut changes = vec![];
    let upward = any_bool();
    for i in 0..n {
        changes.push(change(&Made { number: base + if upward { i } else { n - 1 - i }, ..made }));
    }
    let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true);
    for i in 0..3 {
        match p.next_unsent_change(&changes) {
            Some(c) => check!(is(c, &Made { number: base + i, ..made }), "changes are sent in ascending order, each once"),
            None => check!(false, "a change is sent when there is one"),
        }
    }
    check_eq!(p.unsent_changes(&changes).count(), n - 3, "a change above the last one sent is unsent");
    let mut unsent = p.unsent_changes(&changes);
    match unsent.nth(n as usize - 4) {
        Some(c) => check!(is(c, &Made { number: base + if upward { n - 1 } else { 3 }, ..made }), "unsent changes are in the order of the history"),
        None => check!(false, "a change above the last one sent is unsent"),
    }
    cover(1);
}

// ---------------------------------------------------------------- C25 numbering of changes

fn locator() -> Locator_t {
    Locator_t::LOCATOR_INVALID
}

fn stateless(guid: GUID_t, last: i64) -> StatelessWriterProbe {
    StatelessWriterProbe::new(
        EntityAttributes { guid },
        EndpointAttributes {
            topic_kind: TopicKind_t::NO_KEY,
            reliability_level: ReliabilityKind_t::BEST_EFFORT,
            unicast_locator_list: locator(),
            multicast_locator_list: locator(),
        },
        WriterAttributes {
            push_mode: true,
            heartbeat_period: Duration_t::DURATION_ZERO,
            nack_response_delay: Duration_t::DURATION_ZERO,
            nack_suppression_duration: Duration_t::DURATION_ZERO,
            last_change_sequence_number: sn(last),
        },
        Time_t::TIME_ZERO,
    )
}

/// 4 changes of any kinds and handles from a writer of any GUID that has numbered any number of changes
#[no_mangle]
pub extern "C" fn c25_numbering() {
    let last = any_i64();
    assume(last <= i64::max_value() - 4);
    let (prefix, id) = (any_array::<12>(), any_array::<4>());
    let guid = || GUID_t {
        guid_prefix: GuidPrefix_t { entity_key: prefix },
        entity_id: decode_exactly(true, &id),
    };
    let mut w = stateless(guid(), last);
    check_eq!(i64::from(w.writer().last_change_sequence_number), last, "a new writer has the number it was given");
    for i in 1..5 {
        let kind = choice(0, 2);
        let kinds = [ChangeKind_t::ALIVE, ChangeKind_t::NOT_ALIVE_DISPOSED, ChangeKind_t::NOT_ALIVE_UNREGISTERED];
        let handle = any_array::<16>();
        let c = w.new_change(
            match kind {
                0 => ChangeKind_t::ALIVE,
                1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
                _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
            },
            Data {},
            InstanceHandle_t { entity_key: handle },
        );
        check_eq!(i64::from(c.sequence_number), last + i, "changes are numbered consecutively");
        check_eq!(i64::from(w.writer().last_change_sequence_number), last + i, "the writer knows the last number");
        check!(c.kind == kinds[kind], "a change is of the kind asked for");
        check_bytes!(c.instance_handle.entity_key, handle, "a change has the handle it was given");
        check!(c.writer_guid == guid(), "a change is known as its writer's");
    }
    check!(w.entity().guid == guid(), "a writer keeps its GUID");
    cover(1);
}

/// two writers: each numbers its own changes, in any interleaving of 4
#[no_mangle]
pub extern "C" fn c25_two_writers() {
    let mut last = [any_i64(), any_i64()];
    assume((last[0] <= i64::max_value() - 4) & (last[1] <= i64::max_value() - 4));
    let mut w = [stateless(any_guid(), last[0]), stateless(any_guid(), last[1])];
    for _ in 0..4 {
        let k = choice(0, 1);
        let c = w[k].new_change(any_kind(), Data {}, InstanceHandle_t::default());
        last[k] += 1;
        check_eq!(i64::from(c.sequence_number), last[k], "a writer numbers its own changes");
    }
    cover(1);
}

/// 1100 (thorough: 4400) changes of any one kind and handle from a writer of any GUID that has numbered any number of changes
#[no_mangle]
pub extern "C" fn c25_many() {
    let n = if thorough() { 4400 } else { 1100 };
    let last = any_i64();
    assume(last <= i64::max_value() - n);
    let id = guid_bytes();
    let mut w = stateless(guid(&id), last);
    let kind = choice(0, 2);
    let handle = any_array::<16>();
    for i in 1..n + 1 {
        let c = w.new_change(kind_of(kind), Data {}, InstanceHandle_t { entity_key: handle });
        check_eq!(i64::from(c.sequence_number), last + i, "changes are numbered consecutively");
        check!(c.kind == kind_of(kind), "a change is of the kind asked for");
        check!(same(&c.instance_handle.entity_key, &handle), "a change has the handle it was given");
        check!(c.writer_guid == guid(&id), "a change is known as its writer's");
    }
    check_eq!(i64::from(w.writer().last_change_sequence_number), last + n, "the writer knows the last number");
    cover(1);
}

// ---------------------------------------------------------------- C28 matched readers

fn stateful() -> StatefulWriter {
    StatefulWriter::verif_new(
        EntityAttributes { guid: GUID_t::GUID_UNKNOWN },
        EndpointAttributes {
            topic_kind: TopicKind_t::WITH_KEY,
            reliability_level: ReliabilityKind_t::RELIABLE,
            unicast_locator_list: locator(),
            multicast_locator_list: locator(),
        },
        WriterAttributes {
            push_mode: true,
            heartbeat_period: Duration_t::DURATION_ZERO,
            nack_response_delay: Duration_t::DURATION_ZERO,
            nack_suppression_duration: Duration_t::DURATION_ZERO,
            last_change_sequence_number: sn(0),
        },
    )
}

fn guid_bytes() -> [u8; 16] {
    any_array::<16>()
}

fn guid(b: &[u8; 16]) -> GUID_t {
    decode_exactly(true, b)
}

/// up to 3 (thorough: 4) readers of any GUIDs, the same ones too: those of a GUID are found, all of them, in order, and no others
#[no_mangle]
pub extern "C" fn c28_lookup() {
    let n = choice(0, if thorough() { 4 } else { 3 });
    let mut w = stateful();
    let changes = [plain(1), plain(2), plain(3), plain(4)];
    let mut guids = vec![];
    for i in 0..n {
        let b = guid_bytes();
        let mut p = ReaderProxy::new(guid(&b), false);
        // tells the proxies apart: what has been sent to each
        for _ in 0..i {
            p.next_unsent_change(&changes);
        }
        w.matched_reader_add(p);
        guids.push(b);
    }
    let wanted = guid_bytes();
    let mut found = w.matched_reader_lookup(guid(&wanted));
    for i in 0..n {
        if same(&guids[i], &wanted) {
            match found.next() {
                Some(p) => {
                    check!(p.remote_reader_guid == guid(&wanted), "a reader found is the one looked for");
                    check_eq!(p.unsent_changes(&changes).count(), 4 - i, "readers are found in the order they were added");
                    cover(1);
                }
                None => check!(false, "every matched reader is found"),
            }
        }
    }
    check!(found.next().is_none(), "no other reader is found");
    cover(2);
}

/// 270 (thorough: 540) readers, the GUIDs any that differ in the last byte but one, which is the same for two of them: those of a GUID are found, in order, and no others
#[no_mangle]
pub extern "C" fn c28_many() {
    let n = if thorough() { 540 } else { 270 };
    let mut w = stateful();
    let any = guid_bytes();
    let of = |i: usize| {
        let mut b = any;
        // the reader in the middle again at the end
        let i = if i == n - 1 { n / 2 } else { i };
        b[14] = i as u8;
        b[13] = (i >> 8) as u8;
        guid(&b)
    };
    for i in 0..n {
        let mut p = ReaderProxy::new(of(i), true);
        p.next_unsent_change(&[plain(i as i64)]);
        w.matched_reader_add(p);
    }
    for i in [0, 1, 2, 3, 4, 15, 16, 31, 32, 63, 64, n / 2, n - 2].iter() {
        let i = *i;
        let mut found = w.matched_reader_lookup(of(i));
        for j in 0..if i == n / 2 { 2 } else { 1 } {
            match found.next() {
                Some(p) => {
                    let number = if j == 0 { i } else { n - 1 } as i64;
                    let changes = [plain(number), plain(number + 1)];
                    check_eq!(p.unsent_changes(&changes).count(), 1, "readers are found in the order they were added");
                    check!(p.remote_reader_guid == of(i), "a reader found is the one looked for");
                }
                None => check!(false, "every matched reader is found"),
            }
        }
        check!(found.next().is_none(), "no other reader is found");
    }
    let mut b = any;
    b[13] = 255;
    check!(w.matched_reader_lookup(guid(&b)).next().is_none(), "no other reader is found");
    cover(1);
}

// ---------------------------------------------------------------- C29 reader locators

#[derive(Clone, Copy)]
struct Place {
    kind: usize,
    port: u32,
    address: [u8; 16],
    qos: bool,
}

fn any_place() -> Place {
    let mut address = [0; 16];
    for i in 12..16 {
        address[i] = any_u8();
    }
    address[0] = any_u8();
    Place { kind: choice(1, 2), port: any_u32(), address, qos: any_u8() & 1 == 1 }
}

fn reader_locator(p: &Place) -> ReaderLocator {
    let kind = if p.kind == 1 { LocatorKind_t::LOCATOR_KIND_UDPv4 } else { LocatorKind_t::LOCATOR_KIND_UDPv6 };
    ReaderLocator::verif_new(Locator_t { kind, port: p.port, address: p.address }, p.qos)
}

fn same_place(a: &Place, b: &Place) -> bool {
    (a.kind == b.kind) & (a.port == b.port) & same(&a.address, &b.address) & (a.qos == b.qos)
}

/// up to 3 locators of any addresses and ports, the same ones too; then one removed: all equal ones go, the others stay, in order
#[no_mangle]
pub extern "C" fn c29_reader_locators() {
    let mut w = stateless(GUID_t::GUID_UNKNOWN, 0);
    let n = choice(0, 3);
    let mut places = vec![];
    for i in 0..n {
        let p = any_place();
        w.reader_locator_add(reader_locator(&p));
        places.push(p);
        check_eq!(w.reader_locators().len(), i + 1, "a locator added is there");
    }
    for (l, p) in w.reader_locators().iter().zip(places.iter()) {
        check!(*l == reader_locator(p), "a locator is kept as it was added");
    }
    let gone = any_place();
    w.reader_locator_remove(reader_locator(&gone));
    let mut left = w.reader_locators().iter();
    for p in &places {
        if !same_place(p, &gone) {
            match left.next() {
                Some(l) => check!(*l == reader_locator(p), "the other locators stay"),
                None => check!(false, "the other locators stay"),
            }
            cover(1);
        } else {
            cover(2);
        }
    }
    check!(left.next().is_none(), "a locator removed is gone");
}

/// 270 (thorough: 540) locators of any one address, the ports any that follow each other; every third is removed in turn, then added again
#[no_mangle]
pub extern "C" fn c29_many() {
    let n = if thorough() { 540 } else { 270 };
    let any = any_place();
    assume(any.port < u32::max_value() - n);
    let of = |i: u32| reader_locator(&Place { port: any.port + i, ..any });
    let mut w = stateless(GUID_t::GUID_UNKNOWN, 0);
    for i in 0..n {
        w.reader_locator_add(of(i));
        check_eq!(w.reader_locators().len(), i + 1, "a locator added is there");
    }
    w.reader_locator_add(of(n / 2));
    for i in 0..n {
        if i % 3 == 0 {
            w.reader_locator_remove(of(i));
        }
    }
    let again = n / 2 % 3 != 0;
    let mut left = w.reader_locators().iter();
    for i in (0..n).filter(|i| i % 3 != 0).chain(Some(n / 2).filter(|_| again)) {
        match left.next() {
            Some(l) => check!(*l == of(i), "the other locators stay"),
            None => check!(false, "the other locators stay"),
        }
    }
    check!(left.next().is_none(), "a locator removed is gone");
    cover(1);
}

// ---------------------------------------------------------------- C31 from writer to reader

/// a writer that has numbered any number of changes creates 4 (thorough: 5), of each kind, with any handles; after each, one of those in the history or none is removed and a reader is sent one change or none; another reader is sent all in the end
#[no_mangle]
pub extern "C" fn c31_pipeline() {
    let last = any_i64();
    let n = if thorough() { 5 } else { 4 };
    assume((last < i64::max_value() - n as i64) & (last > i64::min_value()));
    let guid = any_guid();
    let mut w = stateless(any_guid(), last);
    let mut cache = HistoryCacheProbe::new();
    let mut p = ReaderProxy::new(any_guid(), true);
    let mut handles = vec![];
    // by position: is it in the history, has the reader got it or passed it
    let mut there = [false; 5];
    let mut reached = 0;
    for i in 0..n {
        let handle = any_array::<16>();
        let c = w.new_change(kinds(i), Data {}, InstanceHandle_t { entity_key: handle });
        let number = c.sequence_number;
        check!(cache.get_change(number).is_none(), "the number of a new change is new");
        cache.add_change(c);
        handles.push(handle);
        there[i] = true;
        check!(cache.get_seq_num_max() == Some(&number), "a new change is the latest");
        let gone = choice(0, i + 1);
        if gone <= i {
            assume(there[gone]);
            cache.remove_change(sn(last + 1 + gone as i64));
            there[gone] = false;
        }
        if any_bool() {
            let history = in_history(&cache, last, &there[..i + 1], &handles);
            take(&mut p, &history, last, &there[..i + 1], &handles, &mut reached);
        }
    }
    let history = in_history(&cache, last, &there[..n], &handles);
    for _ in 0..n + 1 {
        take(&mut p, &history, last, &there[..n], &handles, &mut reached);
    }
    let mut other = ReaderProxy::new(guid, false);
    let mut reached = 0;
    for _ in 0..n + 1 {
        take(&mut other, &history, last, &there[..n], &handles, &mut reached);
    }
    cover(1);
}

/// a writer that has numbered any number of changes creates 16 (thorough: 40) with some bytes of the handles any; one of them, any, is removed right after it was created, half-way or at the end; a reader is sent a change after each creation, after every third or only in the end; another reader is sent all in the end
#[no_mangle]
pub extern "C" fn c31_long() {
    let last = any_i64();
    let n = if thorough() { 40 } else { 16 };
    assume((last < i64::max_value() - n as i64) & (last > i64::min_value()));
    let mut w = stateless(any_guid(), last);
    let mut cache = HistoryCacheProbe::new();
    let mut p = ReaderProxy::new(any_guid(), true);
    let mut handles = vec![];
    let mut there = vec![false; n];
    let mut reached = 0;
    let gone = choice(0, n - 1);
    let when = match choice(0, 2) {
        0 => gone,
        1 => (gone + n - 1) / 2,
        _ => n - 1,
    };
    let pace = [1, 3, n + 1][choice(0, 2)];
    for i in 0..n {
        let mut handle = [i as u8; 16];
        handle[i % 16] = any_u8();
        let c = w.new_change(kinds(i), Data {}, InstanceHandle_t { entity_key: handle });
        let number = c.sequence_number;
        check!(cache.get_change(number).is_none(), "the number of a new change is new");
        cache.add_change(c);
        handles.push(handle);
        there[i] = true;
        check!(cache.get_seq_num_max() == Some(&number), "a new change is the latest");
        if i == when {
            cache.remove_change(sn(last + 1 + gone as i64));
            there[gone] = false;
        }
        if (i + 1) % pace == 0 {
            let history = in_history(&cache, last, &there[..i + 1], &handles);
            take(&mut p, &history, last, &there[..i + 1], &handles, &mut reached);
        }
    }
    let history = in_history(&cache, last, &there, &handles);
    for _ in 0..n + 1 {
        take(&mut p, &history, last, &there, &handles, &mut reached);
    }
    let mut other = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
    let mut reached = 0;
    for _ in 0..n + 1 {
        take(&mut other, &history, last, &there, &handles, &mut reached);
    }
    cover(1);
}

/// Kinds of changes, one after the other.
fn kinds(i: usize) -> ChangeKind_t {
    match i % 3 {
        0 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        1 => ChangeKind_t::ALIVE,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

/// The changes in the cache, which are those that are there.
fn in_history(cache: &HistoryCacheProbe, last: i64, there: &[bool], handles: &[[u8; 16]]) -> Vec<CacheChange> {
    let mut history = vec![];
    for (i, t) in there.iter().enumerate() {
        let number = sn(last + 1 + i as i64);
        match cache.get_change(number) {
            Some(c) => {
                check!(*t, "a removed change is gone");
                check!(c.kind == kinds(i), "a change in the history is the one created");
                check_bytes!(c.instance_handle.entity_key, handles[i], "a change in the history is the one created");
                history.push(CacheChange {
                    kind: kinds(i),
                    writer_guid: GUID_t::GUID_UNKNOWN,
                    instance_handle: InstanceHandle_t { entity_key: handles[i] },
                    sequence_number: c.sequence_number,
                    data_value: Data {},
                });
            }
            None => check!(!*t, "a change that was not removed is in the history"),
        }
    }
    check_eq!(cache.len(), history.len(), "the history holds the changes created and nothing else");
    history
}

/// Send a reader its next change: the first that is there of those it has not reached.
fn take(p: &mut ReaderProxy, history: &[CacheChange], last: i64, there: &[bool], handles: &[[u8; 16]], reached: &mut usize) {
    let mut due = *reached;
    while due < there.len() && !there[due] {
        due += 1;
    }
    match p.next_unsent_change(history) {
        Some(c) => {
            check!(due < there.len(), "a reader is sent nothing twice, and nothing that is not there");
            check_eq!(i64::from(c.sequence_number), last + 1 + due as i64, "a reader is sent every change, in order, once");
            check_bytes!(c.instance_handle.entity_key, handles[due], "a reader is sent the change created");
            *reached = due + 1;
        }
        None => check!(due >= there.len(), "a reader is sent what it has not got"),
    }
}

/// a writer that has numbered any number of changes creates 60 (thorough: 200), of which 1, 5 or 20 are in the history at a time: the oldest is removed before the next is added; one reader is sent each at once, another every second, a third all of them in the end
#[no_mangle]
pub extern "C" fn c31_sliding() {
    let last = any_i64();
    let n = if thorough() { 200 } else { 60 };
    assume((last < i64::max_value() - n as i64) & (last > i64::min_value()));
    let width = [1, 5, 20][choice(0, 2)];
    let mut w = stateless(any_guid(), last);
    let mut cache = HistoryCacheProbe::new();
    let mut readers = [ReaderProxy::new(any_guid(), true), ReaderProxy::new(any_guid(), false), ReaderProxy::new(any_guid(), true)];
    let mut reached = [0; 3];
    let mut history = vec![];
    let handle = any_array::<16>();
    for i in 0..n {
        if i >= width {
            cache.remove_change(sn(last + 1 + (i - width) as i64));
            history.remove(0);
        }
        let c = w.new_change(kinds(i), Data {}, InstanceHandle_t { entity_key: handle });
        check!(c.sequence_number == sn(last + 1 + i as i64), "the number of a new change follows");
        history.push(CacheChange {
            kind: kinds(i),
            writer_guid: c.writer_guid,
            instance_handle: InstanceHandle_t { entity_key: handle },
            sequence_number: c.sequence_number,
            data_value: Data {},
        });
        cache.add_change(c);
        let first = if i < width { 0 } else { i - width + 1 };
        check!(cache.get_seq_num_min() == Some(&sn(last + 1 + first as i64)), "the history holds the changes not removed");
        check!(cache.get_seq_num_max() == Some(&sn(last + 1 + i as i64)), "a new change is the latest");
        for (k, h) in history.iter().enumerate() {
            check!(cache.get_change(sn(last + 1 + (first + k) as i64)) == Some(h), "a change in the history is the one created");
        }
        for k in 0..3 {
            if k == 0 || k == 1 && i % 2 == 1 || k == 2 && i == n - 1 {
                for _ in 0..if k == 2 { width + 1 } else { 1 } {
                    let next = if reached[k] > first { reached[k] } else { first };
                    match readers[k].next_unsent_change(&history) {
                        Some(c) => {
                            check!(next <= i, "a change is sent once");
                            check!(c.sequence_number == sn(last + 1 + next as i64), "changes are sent in order");
                            check!(c.kind == kinds(next), "a change is sent as it was created");
                            check_bytes!(c.instance_handle.entity_key, handle, "a change is sent as it was created");
                        }
                        None => check!(next > i, "a change not yet sent is sent"),
                    }
                    reached[k] = next + 1;
                }
            }
        }
    }
    cover(1);
}

// ---------------------------------------------------------------- C37 a writer's configuration

/// What a writer is configured with.
struct Setup {
    guid: [u8; 16],
    with_key: bool,
    reliability: [u8; 4],
    locators: [Place; 2],
    push_mode: bool,
    durations: [(i32, u32); 3],
}

fn any_setup() -> Setup {
    let k = choice(0, 3);
    let mut place = |kind: usize| Place { kind, port: any_u32(), address: any_array::<16>(), qos: false };
    Setup {
        guid: guid_bytes(),
        with_key: k & 1 == 1,
        reliability: any_array::<4>(),
        locators: [place(1 + k / 2), place(1 + k % 2)],
        push_mode: k & 2 == 2,
        durations: [(any_i32(), any_u32()), (any_i32(), any_u32()), (any_i32(), any_u32())],
    }
}

fn locator_at(p: &Place) -> Locator_t {
    Locator_t {
        kind: if p.kind == 1 { LocatorKind_t::LOCATOR_KIND_UDPv4 } else { LocatorKind_t::LOCATOR_KIND_UDPv6 },
        port: p.port,
        address: p.address,
    }
}

impl Setup {
    fn entity(&self) -> EntityAttributes {
        EntityAttributes { guid: guid(&self.guid) }
    }

    fn endpoint(&self) -> EndpointAttributes {
        EndpointAttributes {
            topic_kind: if self.with_key { TopicKind_t::WITH_KEY } else { TopicKind_t::NO_KEY },
            reliability_level: decode_exactly(true, &self.reliability),
            unicast_locator_list: locator_at(&self.locators[0]),
            multicast_locator_list: locator_at(&self.locators[1]),
        }
    }

    fn writer(&self, last: i64) -> WriterAttributes {
        let d = |i: usize| Duration_t::verif_new(self.durations[i].0, self.durations[i].1);
        WriterAttributes {
            push_mode: self.push_mode,
            heartbeat_period: d(0),
            nack_response_delay: d(1),
            nack_suppression_duration: d(2),
            last_change_sequence_number: sn(last),
        }
    }

    fn kept(&self, entity: &EntityAttributes, endpoint: &EndpointAttributes, writer: &WriterAttributes) {
        check_bytes!(enc(true, &entity.guid), self.guid, "a writer keeps its GUID");
        check!((endpoint.topic_kind == TopicKind_t::WITH_KEY) == self.with_key, "a writer keeps its topic kind");
        check_bytes!(enc(true, &endpoint.reliability_level), self.reliability, "a writer keeps its reliability");
        for (l, p) in [(&endpoint.unicast_locator_list, &self.locators[0]), (&endpoint.multicast_locator_list, &self.locators[1])] {
            check!(same(&l.address, &p.address) & (l.port == p.port) & (l.kind == locator_at(p).kind), "a writer keeps its locators");
        }
        check!(writer.push_mode == self.push_mode, "a writer keeps its mode");
        for (d, e) in [&writer.heartbeat_period, &writer.nack_response_delay, &writer.nack_suppression_duration].iter().zip(&self.durations) {
            check!(d.verif_parts() == *e, "a writer keeps its periods");
        }
    }
}

/// a stateless writer of any configuration; any 4 (thorough: 6) operations: a change of any kind, a reader locator added or removed
#[no_mangle]
pub extern "C" fn c37_stateless() {
    let setup = any_setup();
    let mut last = any_i64();
    let n = if thorough() { 6 } else { 4 };
    assume(last <= i64::max_value() - n);
    let period = any_array::<8>();
    let mut w = StatelessWriterProbe::new(setup.entity(), setup.endpoint(), setup.writer(last), decode_exactly(true, &period));
    setup.kept(w.entity(), w.endpoint(), w.writer());
    let place = any_place();
    for _ in 0..n {
        match choice(0, 4) {
            0 => {
                w.reader_locator_add(reader_locator(&place));
                cover(1);
            }
            1 => {
                w.reader_locator_remove(reader_locator(&place));
                cover(2);
            }
            k => {
                w.new_change(kind_of(k - 2), Data {}, InstanceHandle_t { entity_key: any_array::<16>() });
                last += 1;
                cover(3);
            }
        }
        setup.kept(w.entity(), w.endpoint(), w.writer());
        check_bytes!(enc(true, w.resend_data_period()), period, "a writer keeps its resend period");
        check_eq!(i64::from(w.writer().last_change_sequence_number), last, "only new changes move the last number");
    }
}

/// a stateful writer of any configuration with up to 2 readers of any GUIDs
#[no_mangle]
pub extern "C" fn c37_stateful() {
    let setup = any_setup();
    let last = any_i64();
    let mut w = StatefulWriter::verif_new(setup.entity(), setup.endpoint(), setup.writer(last));
    let qos = any_u8() & 1 == 1;
    for _ in 0..choice(0, 2) {
        let b = guid_bytes();
        w.matched_reader_add(ReaderProxy::new(guid(&b), qos));
        cover(1);
    }
    setup.kept(w.as_entity(), w.as_endpoint(), w.as_writer());
    check_eq!(i64::from(w.as_writer().last_change_sequence_number), last, "readers do not move the last number");
    cover(2);
}

/// writers with the GUID of bytes 7 and otherwise of any configuration, with 40 (thorough: 270) readers, changes or reader locators
#[no_mangle]
pub extern "C" fn c37_many() {
    let n = if thorough() { 270 } else { 40 };
    let setup = Setup { guid: [7; 16], ..any_setup() };
    let last = any_i64();
    assume(last <= i64::max_value() - n);
    let mut full = StatefulWriter::verif_new(setup.entity(), setup.endpoint(), setup.writer(last));
    let mut less = StatelessWriterProbe::new(setup.entity(), setup.endpoint(), setup.writer(last), Time_t::TIME_ZERO);
    let place = Place { kind: 1, port: 0, address: [1; 16], qos: false };
    let what = choice(0, 2);
    for i in 0..n {
        match what {
            0 => full.matched_reader_add(ReaderProxy::new(guid(&[i as u8; 16]), i % 2 == 0)),
            1 => less.reader_locator_add(reader_locator(&Place { port: i as u32, ..place })),
            _ => {
                less.new_change(kind_of(i as usize % 3), Data {}, InstanceHandle_t { entity_key: [i as u8; 16] });
                cover(1);
            }
        }
    }
    setup.kept(full.as_entity(), full.as_endpoint(), full.as_writer());
    check_eq!(i64::from(full.as_writer().last_change_sequence_number), last, "readers do not move the last number");
    setup.kept(less.entity(), less.endpoint(), less.writer());
    check_eq!(i64::from(less.writer().last_change_sequence_number), if what == 2 { last + n } else { last }, "only new changes move the last number");
    cover(2);
}
