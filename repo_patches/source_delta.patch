From 68287f511563c610643e95e879f488a962489367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 01/16] verif hook: expose private items under --cfg rtps_verif

---
 src/behavior/stateful_writer.rs               | 18 +++++++
 src/behavior/stateless_writer.rs              | 41 ++++++++++++++
 src/lib.rs                                    | 53 +++++++++++++++++++
 src/messages/receiver.rs                      |  8 +++
 src/messages/submessage_elements/parameter.rs | 15 ++++++
 src/structure/duration.rs                     | 12 +++++
 src/structure/history_cache.rs                | 38 +++++++++++++
 src/structure/time.rs                         | 12 +++++
 8 files changed, 197 insertions(+)

diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..a89df6d 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -76,5 +76,23 @@ impl StatefulWriter {
     }
 }
 
+#[cfg(rtps_verif)]
+impl StatefulWriter {
+    /// A writer with no matched readers, for the out-of-tree verification
+    /// harnesses (`new` is not implemented yet).
+    pub fn verif_new(
+        entity: EntityAttributes,
+        endpoint: EndpointAttributes,
+        writer: WriterAttributes,
+    ) -> Self {
+        StatefulWriter {
+            matched_readers: vec![],
+            entity,
+            endpoint,
+            writer,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..8606aba 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -95,5 +95,46 @@ impl StatelessWriter {
     }
 }
 
+/// Access for the out-of-tree verification harnesses.
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct StatelessWriterProbe(StatelessWriter);
+
+    impl StatelessWriterProbe {
+        pub fn new(
+            entity_attributes: EntityAttributes,
+            endpoint_attributes: EndpointAttributes,
+            writer_attributes: WriterAttributes,
+            resend_data_period: Time_t,
+        ) -> Self {
+            StatelessWriterProbe(StatelessWriter::new(
+                entity_attributes,
+                endpoint_attributes,
+                writer_attributes,
+                resend_data_period,
+            ))
+        }
+
+        pub fn new_change(
+            &mut self,
+            kind: ChangeKind_t,
+            data: Data,
+            handle: InstanceHandle_t,
+        ) -> CacheChange {
+            self.0.new_change(kind, data, handle)
+        }
+
+        pub fn entity(&self) -> &EntityAttributes {
+            self.0.as_entity()
+        }
+
+        pub fn writer(&self) -> &WriterAttributes {
+            self.0.as_writer()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..315206b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(non_camel_case_types)]
 #![allow(non_upper_case_globals)]
 
@@ -20,3 +21,55 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+/// Names of the crate's otherwise private items, for the out-of-tree
+/// verification harnesses. Compiled only with `--cfg rtps_verif`.
+#[cfg(rtps_verif)]
+pub mod verif {
+    pub use crate::behavior::reader_proxy::ReaderProxy;
+    pub use crate::behavior::stateful_writer::StatefulWriter;
+    pub use crate::behavior::stateless_writer::verif::StatelessWriterProbe;
+    pub use crate::behavior::writer::{Writer, WriterAttributes};
+    pub use crate::common::bit_set::BitSetRef;
+    pub use crate::common::ranged_bit_set::RangedBitSet;
+    pub use crate::common::validity_trait::Validity;
+    pub use crate::messages::ack_nack::AckNack;
+    pub use crate::messages::fragment_number::FragmentNumber_t;
+    pub use crate::messages::fragment_number_set::FragmentNumberSet_t;
+    pub use crate::messages::gap::Gap;
+    pub use crate::messages::header::Header;
+    pub use crate::messages::heartbeat::Heartbeat;
+    pub use crate::messages::heartbeat_frag::HeartbeatFrag;
+    pub use crate::messages::info_destination::InfoDestination;
+    pub use crate::messages::info_source::InfoSource;
+    pub use crate::messages::nack_frag::NackFrag;
+    pub use crate::messages::protocol_id::ProtocolId_t;
+    pub use crate::messages::protocol_version::ProtocolVersion_t;
+    pub use crate::messages::receiver::{MessageReceiver, Receiver};
+    pub use crate::messages::submessage::EntitySubmessage;
+    pub use crate::messages::submessage_elements::parameter::Parameter;
+    pub use crate::messages::submessage_flag::SubmessageFlag;
+    pub use crate::messages::submessage_header::SubmessageHeader;
+    pub use crate::messages::submessage_kind::SubmessageKind;
+    pub use crate::messages::vendor_id::VendorId_t;
+    pub use crate::structure::cache_change::CacheChange;
+    pub use crate::structure::change_kind::ChangeKind_t;
+    pub use crate::structure::count::Count_t;
+    pub use crate::structure::data::Data;
+    pub use crate::structure::duration::Duration_t;
+    pub use crate::structure::endpoint::{Endpoint, EndpointAttributes};
+    pub use crate::structure::entity::{Entity, EntityAttributes};
+    pub use crate::structure::entity_id::EntityId_t;
+    pub use crate::structure::guid::GUID_t;
+    pub use crate::structure::guid_prefix::GuidPrefix_t;
+    pub use crate::structure::history_cache::verif::HistoryCacheProbe;
+    pub use crate::structure::instance_handle::InstanceHandle_t;
+    pub use crate::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
+    pub use crate::structure::locator_udp_v4::LocatorUDPv4_t;
+    pub use crate::structure::parameter_id::ParameterId;
+    pub use crate::structure::reliability_kind::ReliabilityKind_t;
+    pub use crate::structure::sequence_number::SequenceNumber_t;
+    pub use crate::structure::sequence_number_set::SequenceNumberSet_t;
+    pub use crate::structure::time::Time_t;
+    pub use crate::structure::topic_kind::TopicKind_t;
+}
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..da7345e 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -291,6 +291,14 @@ impl Decoder for MessageReceiver {
     }
 }
 
+#[cfg(rtps_verif)]
+impl MessageReceiver {
+    /// The interpretation context, for the out-of-tree verification harnesses.
+    pub fn verif_receiver(&self) -> &Receiver {
+        &self.receiver
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use speedy::Writable;
diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..38d0bd2 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -57,6 +57,21 @@ impl<C: Context> Writable<C> for Parameter {
     }
 }
 
+#[cfg(rtps_verif)]
+impl Parameter {
+    /// Construction and access for the out-of-tree verification harnesses.
+    pub fn verif_new(parameter_id: ParameterId, value: Vec<u8>) -> Self {
+        Parameter {
+            parameter_id,
+            value,
+        }
+    }
+
+    pub fn verif_parts(&self) -> (&ParameterId, &[u8]) {
+        (&self.parameter_id, &self.value)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..6f3cbe2 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -38,6 +38,18 @@ impl From<Duration_t> for Duration {
     }
 }
 
+#[cfg(rtps_verif)]
+impl Duration_t {
+    /// Construction and access for the out-of-tree verification harnesses.
+    pub fn verif_new(seconds: i32, fraction: u32) -> Self {
+        Duration_t { seconds, fraction }
+    }
+
+    pub fn verif_parts(&self) -> (i32, u32) {
+        (self.seconds, self.fraction)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..903bb3c 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -42,6 +42,44 @@ impl HistoryCache {
     }
 }
 
+/// Access for the out-of-tree verification harnesses.
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct HistoryCacheProbe(HistoryCache);
+
+    impl HistoryCacheProbe {
+        pub fn new() -> Self {
+            HistoryCacheProbe(HistoryCache::new())
+        }
+
+        pub fn add_change(&mut self, change: CacheChange) {
+            self.0.add_change(change)
+        }
+
+        pub fn get_change(&self, sequence_number: SequenceNumber_t) -> Option<&CacheChange> {
+            self.0.get_change(sequence_number)
+        }
+
+        pub fn remove_change(&mut self, sequence_number: SequenceNumber_t) {
+            self.0.remove_change(sequence_number)
+        }
+
+        pub fn get_seq_num_min(&self) -> Option<&SequenceNumber_t> {
+            self.0.get_seq_num_min()
+        }
+
+        pub fn get_seq_num_max(&self) -> Option<&SequenceNumber_t> {
+            self.0.get_seq_num_max()
+        }
+
+        pub fn len(&self) -> usize {
+            self.0.changes.len()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..b3198d3 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -60,6 +60,18 @@ impl TryFrom<Time_t> for SystemTime {
     }
 }
 
+#[cfg(rtps_verif)]
+impl Time_t {
+    /// Construction and access for the out-of-tree verification harnesses.
+    pub fn verif_new(seconds: i32, fraction: u32) -> Self {
+        Time_t { seconds, fraction }
+    }
+
+    pub fn verif_parts(&self) -> (i32, u32) {
+        (self.seconds, self.fraction)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 748562cd85f4bb53db605572c197005b8326f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 02/16] fix: keep the members of a bitmap read from the wire

BitSetRef::read_from pushed the words but left the length of the BitVec
at 0: a decoded set iterated as empty, contained nothing and lost its
words on the next insert.  numBits above 256 (forbidden by the
specification) overflowed the word count and pre-allocated up to 512 MB.
---
 src/common/bit_set.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..1b6f3e6 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -3,6 +3,10 @@ use bit_vec::BitVec;
 use speedy::{Context, Readable, Reader, Writable, Writer};
 use std::ops::{Deref, DerefMut};
 
+/// Limit the RTPS specification puts on numBits of a SequenceNumberSet and of
+/// a FragmentNumberSet.
+const MAX_NUMBER_OF_BITS: u32 = 256;
+
 #[derive(Debug, PartialEq)]
 pub struct BitSetRef(BitSet<u32>);
 
@@ -34,14 +38,28 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
-        let number_of_bytes = (number_of_bits + 31) / 32;
+        if number_of_bits > MAX_NUMBER_OF_BITS {
+            return Err(speedy::Error::custom(format!(
+                "Bitmap of {} bits exceeds the limit of {}",
+                number_of_bits, MAX_NUMBER_OF_BITS
+            ))
+            .into());
+        }
+        let number_of_words = (number_of_bits + 31) / 32;
 
         let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
         unsafe {
             let inner = bit_vec.storage_mut();
-            for _ in 0..number_of_bytes {
+            for _ in 0..number_of_words {
                 inner.push(reader.read_u32()?);
             }
+            // BitVec requires the unused bits of its last block to be zero
+            if number_of_bits % 32 != 0 {
+                if let Some(last) = inner.last_mut() {
+                    *last &= (1 << (number_of_bits % 32)) - 1;
+                }
+            }
+            bit_vec.set_len(number_of_bits as usize);
         }
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
-- 
2.43.0


From a5ba4d4a13e0dda84b241247b0fee89da8db1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 03/16] fix: do not panic on a number set reaching past the
 largest number

A bitmap base close to the maximum, as any peer can send, made the
iterator unwrap a failed checked_add.
---
 src/common/ranged_bit_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..f110611 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,8 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    // A set read from the wire may reach past the largest B
+                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                 }
             }
         }
-- 
2.43.0


From 17ff463bfac043ba1fb8199b839f15d0228839ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 04/16] fix: pad parameter values to a multiple of four

The padding was length % 4 instead of what is missing to the next
multiple of 4, so values of length 1 or 3 (mod 4) produced a length that
is no multiple of 4 and did not survive a round trip; lengths from 65533
overflowed u16 on reading, values that do not fit the length field were
written with a truncated one, and an empty value was refused.
---
 src/messages/submessage_elements/parameter.rs | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 38d0bd2..94c82f6 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -14,10 +14,10 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = (4 - length % 4) % 4;
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -32,17 +32,24 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
 impl<C: Context> Writable<C> for Parameter {
     #[inline]
     fn write_to<T: ?Sized + Writer<C>>(&self, writer: &mut T) -> Result<(), C::Error> {
-        writer.write_value(&self.parameter_id)?;
-
         let length = self.value.len();
-        let alignment = length % 4;
+        let alignment = (4 - length % 4) % 4;
+        if length + alignment > usize::from(std::u16::MAX) {
+            return Err(speedy::Error::custom(format!(
+                "Parameter value of {} bytes does not fit its length field",
+                length
+            ))
+            .into());
+        }
+
+        writer.write_value(&self.parameter_id)?;
         writer.write_u16((length + alignment) as u16)?;
 
         for byte in &self.value {
-- 
2.43.0


From 08bb675e97b29f5cd24045d3680a8f4514db1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 05/16] fix: bound the pre-allocation for a received
 LocatorList

Without minimum_bytes_needed speedy reserves room for the number of
locators the sender claims, up to 100 GB for a few bytes of input.
---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 8a993ab0ab1f2456e356783202aa9f5c39d9ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 06/16] fix: do not truncate locator ports to 16 bits

A locator with a port above 65535 was turned into the address of an
unrelated port; it now maps to the unspecified address, as every other
locator that cannot be addressed.
---
 src/structure/locator.rs        | 4 ++++
 src/structure/locator_udp_v4.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index fa5d345..7261b24 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -53,6 +53,10 @@ impl From<SocketAddr> for Locator_t {
 impl From<Locator_t> for SocketAddr {
     fn from(locator: Locator_t) -> Self {
         match locator.kind {
+            // no such UDP port, the locator cannot be addressed
+            _ if locator.port > u32::from(std::u16::MAX) => {
+                SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0)
+            }
             LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                 IpAddr::V4(Ipv4Addr::new(
                     locator.address[12],
diff --git a/src/structure/locator_udp_v4.rs b/src/structure/locator_udp_v4.rs
index e47e448..4110319 100644
--- a/src/structure/locator_udp_v4.rs
+++ b/src/structure/locator_udp_v4.rs
@@ -32,6 +32,10 @@ impl From<SocketAddrV4> for LocatorUDPv4_t {
 
 impl From<LocatorUDPv4_t> for SocketAddrV4 {
     fn from(locator_udp_v4: LocatorUDPv4_t) -> Self {
+        if locator_udp_v4.port > u32::from(std::u16::MAX) {
+            // no such UDP port, the locator cannot be addressed
+            return SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);
+        }
         SocketAddrV4::new(
             Ipv4Addr::from(locator_udp_v4.address),
             locator_udp_v4.port as u16,
-- 
2.43.0


From 97ef75bbd96945fbca86d7fe0698d5739a0f0e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 07/16] fix: refuse times that the other clock cannot represent

Negative seconds received from the wire became a huge u64 and made
SystemTime overflow, which panics; system times past 2038 wrapped to
negative seconds instead of TIME_INVALID.
---
 src/structure/time.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index b3198d3..185978e 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -35,12 +35,14 @@ impl From<SystemTime> for Time_t {
     fn from(sys_time: SystemTime) -> Self {
         sys_time
             .duration_since(std::time::UNIX_EPOCH)
-            .and_then(|dur_since_epoch| {
+            .ok()
+            .filter(|dur_since_epoch| dur_since_epoch.as_secs() <= std::i32::MAX as u64)
+            .map(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
+                Time_t {
                     seconds: dur_since_epoch.as_secs() as i32,
                     fraction: fraction as u32,
-                })
+                }
             })
             .unwrap_or(Time_t::TIME_INVALID)
     }
@@ -52,6 +54,7 @@ impl TryFrom<Time_t> for SystemTime {
     fn try_from(time: Time_t) -> Result<Self, Self::Error> {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
+            _ if time.seconds < 0 => Err("Conversion from Time_t before the epoch"),
             _ => {
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                 Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
-- 
2.43.0


From 9b1136ab46e6f476123afef6f91bc761fb6e200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 08/16] fix: clamp durations that the other type cannot
 represent

A negative Duration_t became centuries or, with a carry from the
fraction as in DURATION_INVALID, a panic; a Duration past 2^31 seconds
wrapped to a negative Duration_t.
---
 src/structure/duration.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 6f3cbe2..a9ef902 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -25,6 +25,9 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
+        if duration.as_secs() > std::i32::MAX as u64 {
+            return Duration_t::DURATION_INFINITE;
+        }
         Duration_t {
             seconds: duration.as_secs() as i32,
             fraction: duration.subsec_nanos() as u32,
@@ -34,6 +37,9 @@ impl From<Duration> for Duration_t {
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
+        if duration.seconds < 0 {
+            return Duration::new(0, 0);
+        }
         Duration::new(duration.seconds as u64, duration.fraction)
     }
 }
-- 
2.43.0


From 0a2c644748c4bed109101349b43e266d79dddbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 09/16] fix: leave incomplete messages in the decoder's buffer

decode() split more bytes off the buffer than it held and panicked on
every header or submessage that was cut short.
---
 src/messages/receiver.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index da7345e..5becc35 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -73,6 +73,26 @@ impl MessageReceiver {
             state: DeserializationState::ReadingHeader,
         }
     }
+
+    /// Number of bytes the next element (header or submessage) occupies, as
+    /// far as what is in the buffer tells.
+    fn bytes_needed(&self, bytes: &BytesMut) -> usize {
+        let submessage_header_length =
+            <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed();
+
+        match self.state {
+            DeserializationState::ReadingHeader => {
+                <Header as Readable<Endianness>>::minimum_bytes_needed()
+            }
+            DeserializationState::ReadingSubmessage if bytes.len() >= submessage_header_length => {
+                SubmessageHeader::read_from_buffer_owned_with_ctx(Endianness::NATIVE, bytes)
+                    .map(|header| usize::from(header.submessage_length))
+                    .unwrap_or(0)
+                    + submessage_header_length
+            }
+            DeserializationState::ReadingSubmessage => submessage_header_length,
+        }
+    }
 }
 
 impl Decoder for MessageReceiver {
@@ -88,6 +108,11 @@ impl Decoder for MessageReceiver {
             }
         };
 
+        // Leave an incomplete element in the buffer until the rest of it arrives
+        if bytes.len() < self.bytes_needed(bytes) {
+            return Ok(None);
+        }
+
         match self.state {
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
-- 
2.43.0


From 05b3add0e818e5f9f19a8ba92a90ba301c165d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 10/16] fix: consume exactly the length a submessage header
 announces

The bytes of unknown submessages and of an INFO_TS with the invalidate
flag stayed in the buffer and were parsed as the next submessage.
---
 src/messages/receiver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 5becc35..71838c3 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -109,7 +109,8 @@ impl Decoder for MessageReceiver {
         };
 
         // Leave an incomplete element in the buffer until the rest of it arrives
-        if bytes.len() < self.bytes_needed(bytes) {
+        let bytes_needed = self.bytes_needed(bytes);
+        if bytes.len() < bytes_needed {
             return Ok(None);
         }
 
@@ -136,6 +137,9 @@ impl Decoder for MessageReceiver {
             }),
 
             DeserializationState::ReadingSubmessage => {
+                // Nothing beyond this submessage, whatever it turns out to be
+                let mut bytes = bytes.split_to(bytes_needed);
+
                 SubmessageHeader::read_from_buffer_owned_with_ctx(
                     Endianness::NATIVE,
                     &bytes.split_to(
-- 
2.43.0


From 7c3b96392bd1b7fb19daaf1323e7b49ee6aee5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 11/16] fix: report a short InfoReplyIp4 as an error instead of
 panicking

---
 src/messages/receiver.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 71838c3..03a4551 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -265,21 +265,19 @@ impl Decoder for MessageReceiver {
                         let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
+                            &bytes,
                         )?;
+                        let _ = bytes.split_to(
+                            <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
+                        );
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                                submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
-                            )?;
+                                    submessage_header.flags.endianness_flag(),
+                                    &bytes,
+                                )?;
                                 vec![multicast_locator.into()]
                             } else {
                                 vec![]
-- 
2.43.0


From 36c85c9b5fcd40e77e6ec69ec5ead7cb943dc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 12/16] fix: apply reply locators only when the whole
 submessage is well formed

---
 src/messages/receiver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 03a4551..c5c2ab4 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -241,7 +241,7 @@ impl Decoder for MessageReceiver {
                                 submessage_header.flags.endianness_flag(),
                                 &bytes,
                             );
-                        self.receiver.unicast_reply_locator_list = unicast_locator_list?;
+                        let unicast_locator_list = unicast_locator_list?;
 
                         use crate::bytes::Buf;
                         let mut bytes = bytes.split_off(read_bytes);
@@ -258,6 +258,7 @@ impl Decoder for MessageReceiver {
                             } else {
                                 vec![]
                             };
+                        self.receiver.unicast_reply_locator_list = unicast_locator_list;
 
                         Ok(None)
                     }
@@ -270,7 +271,6 @@ impl Decoder for MessageReceiver {
                         let _ = bytes.split_to(
                             <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
                         );
-                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
@@ -282,6 +282,7 @@ impl Decoder for MessageReceiver {
                             } else {
                                 vec![]
                             };
+                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         Ok(None)
                     }
-- 
2.43.0


From a105a14a86c288b30fed0bb0bf519b687d231ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 13/16] fix: extend a last submessage of length zero to the end
 of the message

---
 src/messages/receiver.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index c5c2ab4..b8e2d0a 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -85,16 +85,24 @@ impl MessageReceiver {
                 <Header as Readable<Endianness>>::minimum_bytes_needed()
             }
             DeserializationState::ReadingSubmessage if bytes.len() >= submessage_header_length => {
-                SubmessageHeader::read_from_buffer_owned_with_ctx(Endianness::NATIVE, bytes)
-                    .map(|header| usize::from(header.submessage_length))
-                    .unwrap_or(0)
-                    + submessage_header_length
+                match SubmessageHeader::read_from_buffer_owned_with_ctx(Endianness::NATIVE, bytes) {
+                    // The last submessage extends to the end of the message
+                    Ok(header) if is_last_submessage(&header) => bytes.len(),
+                    Ok(header) => usize::from(header.submessage_length) + submessage_header_length,
+                    Err(_) => submessage_header_length,
+                }
             }
             DeserializationState::ReadingSubmessage => submessage_header_length,
         }
     }
 }
 
+fn is_last_submessage(submessage_header: &SubmessageHeader) -> bool {
+    submessage_header.submessage_length == 0
+        && submessage_header.submessage_id != SubmessageKind::INFO_TS
+        && submessage_header.submessage_id != SubmessageKind::PAD
+}
+
 impl Decoder for MessageReceiver {
     type Item = EntitySubmessage;
     type Error = std::io::Error;
@@ -146,12 +154,10 @@ impl Decoder for MessageReceiver {
                         <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed(),
                     ),
                 )
-                .and_then(|submessage_header| {
-                    if submessage_header.submessage_length == 0
-                        && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                        && submessage_header.submessage_id != SubmessageKind::PAD
-                    {
-                        // This is a last submessage
+                .and_then(|mut submessage_header| {
+                    if is_last_submessage(&submessage_header) {
+                        submessage_header.submessage_length =
+                            bytes.len().min(usize::from(u16::MAX)) as u16;
                         self.state = DeserializationState::ReadingHeader;
                     }
                     Ok(submessage_header)
-- 
2.43.0


From 2353a6139e28e0537d03305ea100785e6aeb9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 14/16] fix: start every message from the initial
 interpretation context

---
 src/messages/receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index b8e2d0a..fdc8614 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -129,6 +131,8 @@ impl Decoder for MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                // Nothing an earlier message has set applies to this one
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-- 
2.43.0


From bb5ab788d4c9f38de7de35e3abbb201637a5f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 15/16] verif hook: reader locators of the stateless writer

---
 src/behavior/reader_locator.rs   | 14 ++++++++++++++
 src/behavior/stateless_writer.rs | 12 ++++++++++++
 src/lib.rs                       |  1 +
 3 files changed, 27 insertions(+)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..a5a0d6a 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,17 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+#[cfg(rtps_verif)]
+impl ReaderLocator {
+    /// A locator with no changes pending, for the out-of-tree verification
+    /// harnesses (`new` is not implemented yet).
+    pub fn verif_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
+        ReaderLocator {
+            requested_changes: vec![],
+            unsent_changes: vec![],
+            locator,
+            expects_inline_qos,
+        }
+    }
+}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 8606aba..701f343 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -126,6 +126,18 @@ pub mod verif {
             self.0.new_change(kind, data, handle)
         }
 
+        pub fn reader_locator_add(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_add(a_locator)
+        }
+
+        pub fn reader_locator_remove(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_remove(a_locator)
+        }
+
+        pub fn reader_locators(&self) -> &[ReaderLocator] {
+            &self.0.reader_locators
+        }
+
         pub fn entity(&self) -> &EntityAttributes {
             self.0.as_entity()
         }
diff --git a/src/lib.rs b/src/lib.rs
index 315206b..48a8950 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,7 @@ mod structure;
 /// verification harnesses. Compiled only with `--cfg rtps_verif`.
 #[cfg(rtps_verif)]
 pub mod verif {
+    pub use crate::behavior::reader_locator::ReaderLocator;
     pub use crate::behavior::reader_proxy::ReaderProxy;
     pub use crate::behavior::stateful_writer::StatefulWriter;
     pub use crate::behavior::stateless_writer::verif::StatelessWriterProbe;
-- 
2.43.0


From 9b01e24028572fc44936b3aa37ee1421593be5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:46 +0000
Subject: [PATCH 16/16] Expose the remaining attributes of a stateless writer
 to the verification harnesses

---
 src/behavior/stateless_writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 701f343..281065d 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -142,9 +142,17 @@ pub mod verif {
             self.0.as_entity()
         }
 
+        pub fn endpoint(&self) -> &EndpointAttributes {
+            self.0.as_endpoint()
+        }
+
         pub fn writer(&self) -> &WriterAttributes {
             self.0.as_writer()
         }
+
+        pub fn resend_data_period(&self) -> &Time_t {
+            &self.0.resend_data_period
+        }
     }
 }
 
-- 
2.43.0

