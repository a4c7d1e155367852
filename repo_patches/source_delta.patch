From a97cacfbe9cd53ab039c86828fc44e49223d0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 01/43] fix: wake the tasks that wait for a pool item when one
 is returned

put() never woke the registered wakers, so a getter that found the pool
exhausted slept forever unless something else happened to poll it again.
---
 src/pool/async_pool.rs | 71 ++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..3c69653 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake_waiting();
     }
 }
 
@@ -33,6 +34,15 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    /// Wakes every task that waits for an item. Those that still don't get one register again.
+    fn wake_waiting(&self) {
+        for _ in 0..self.wakers.len() {
+            if let Some(waker) = self.wakers.pop() {
+                waker.wake();
+            }
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -40,7 +50,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,7 +59,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -75,38 +83,35 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
         if let Some(res) = this.poll_add(cx) {
             return res;
         }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
+        let mut waker_added = false;
+        loop {
+            if let Some(item) = pool.pool.pop() {
+                return Poll::Ready(Ok(PoolItem {
+                    item: ManuallyDrop::new(item),
+                    pool,
+                }));
+            }
+            let item_count = pool.items.load(Ordering::SeqCst);
+            if item_count < N {
+                if pool
+                    .items
+                    .compare_exchange(
+                        item_count,
+                        item_count + 1,
+                        Ordering::SeqCst,
+                        Ordering::Relaxed,
+                    )
+                    .is_ok()
+                {
+                    this.add = Some(Box::pin(T::new(&pool.ctx)));
+                    return this.poll_add(cx).unwrap_or(Poll::Pending);
                 }
-                Poll::Pending
+            } else if waker_added {
+                return Poll::Pending;
+            } else {
+                waker_added = true;
+                pool.wakers.push(cx.waker().clone());
+                // look again, as an item could have been returned before the waker was registered
             }
         }
     }
-- 
2.43.0


From 8f9f4b4fe5d11b0fe161ef487a7b52fad918541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 02/43] fix: give the slot of a failed or abandoned pool item
 creation back

The item count was never decremented when creating an item failed or its
getter was dropped meanwhile, which permanently shrunk the pool.
---
 src/pool/async_pool.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 3c69653..c51d175 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -35,6 +35,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
         }
     }
 
+    /// Gives the slot of an item that does not exist (anymore) back.
+    fn release_slot(&self) {
+        self.items.fetch_sub(1, Ordering::SeqCst);
+        self.wake_waiting();
+    }
+
     /// Wakes every task that waits for an item. Those that still don't get one register again.
     fn wake_waiting(&self) {
         for _ in 0..self.wakers.len() {
@@ -63,14 +69,28 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
+        let pool = self.pool;
+        let poll = self.add.as_mut()?.as_mut().poll(cx);
+        if poll.is_ready() {
+            self.add = None;
+        }
+        Some(poll.map(|res| {
+            if res.is_err() {
+                pool.release_slot();
+            }
+            res.map(|item| PoolItem {
+                item: ManuallyDrop::new(item),
+                pool,
             })
-        })
+        }))
+    }
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.release_slot();
+        }
     }
 }
 
-- 
2.43.0


From 3e0cda0601ce842fda3895a0d4d79cdc9d5f536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 03/43] fix: keep the sign of durations between -1s and 0s

num_seconds() truncates towards zero, so -0.5s became +0.5s.
---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From 05d18ec0bac8acee7a9ceb4c3d4dee4f98b5855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/43] fix: don't panic in Hex::try_from_hex for less than two
 bytes

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From a79af98f54cb04a93f5610299633178b4ce72a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/43] fix: format empty bytes as a valid sql literal

`0x` without any digits is an identifier in sql.
---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..3af9a0d 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // `0x` without digits isn't a literal
+            Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From 57ddbe763b58e2ec7c9ac09cde7dec899327344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/43] fix: format very small and very large floats with an
 exponent

A literal without exponent is a decimal in sql: 1e-40 was read as 0 and
1e300 as 10^65 - 1.
---
 src/types/value/text.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 3af9a0d..9792c94 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -163,8 +163,10 @@ impl fmt::Display for Value {
             Value::UShort(x) => x.fmt(f),
             Value::UInt(x) => x.fmt(f),
             Value::ULong(x) => x.fmt(f),
-            Value::Float(x) => x.fmt(f),
-            Value::Double(x) => x.fmt(f),
+            // `Debug` uses an exponent for very small and very large numbers, without which they
+            // are decimals in sql and therefore clamped to 65 digits with a scale of 30.
+            Value::Float(x) => write!(f, "{x:?}"),
+            Value::Double(x) => write!(f, "{x:?}"),
             // `0x` without digits isn't a literal
             Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
-- 
2.43.0


From 8c43cb62258b23ad2b24b8285faa7bd80ead0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/43] fix: don't overflow when formatting a time with many
 days

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 9792c94..64c9e59 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -185,7 +185,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -196,7 +196,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From 6a0767edc5ac088d709a0dc74a3dca6135d4df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 08/43] fix: remove every trailing space of an identifier

The first character was kept even if the identifier consists of spaces only.
---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 64c9e59..82d9200 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut end = 0;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                end = i + 1;
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if i < end && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From 1fe8a1f8130eb2817da226fd9b413909f822c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 09/43] fix: read long blobs of the text protocol

---
 src/types/value/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 82d9200..c1d2601 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -371,6 +371,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
-- 
2.43.0


From 727f58a48afa8cb304a89f4aaec228878c6014e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 10/43] fix: return an error for values that can't be read

A value of an unsupported column type or a time with more than six
fractional digits caused a panic.
---
 src/types/value/bin.rs  | 4 ++--
 src/types/value/text.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index c1d2601..6d49ab5 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -224,6 +224,9 @@ impl Value {
                 return Err(invalid_value().into());
             }
             let buf = &value[first_colon + 6 + 1..];
+            if buf.len() > 6 {
+                return Err(invalid_value().into());
+            }
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
@@ -384,7 +387,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From aa66b460b4b5d9106c97ab3b020e320a5dcef757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 11/43] fix: return an error if the handshake fails

An error of the server in place of the handshake, a malformed handshake
or an unknown auth plugin caused a panic.
---
 src/connection/init.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..5693609 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -53,7 +54,15 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            // The capabilities aren't negotiated yet, so the state might be missing
+            let capabilities = match packet.get(3) {
+                Some(b'#') => CapabilityFlags::PROTOCOL_41,
+                _ => CapabilityFlags::empty(),
+            };
+            return Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
-- 
2.43.0


From 27f5ec09cedcf04b494e6909af982fd0ad1f1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 12/43] fix: don't overflow for nonces longer than 127 bytes

---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..18b882b 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = usize::max(13, (auth_plugin_data_len as usize).saturating_sub(8));
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
-- 
2.43.0


From 7b5af87ce761c94913801599544289dc3d0419ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 13/43] fix: don't panic if the server version contains
 multibyte characters

---
 src/connection/packets/handshake.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 18b882b..3a5a0e9 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -85,10 +85,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
+            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, x)) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    *string = &string[pos + x.len_utf8()..];
                     value
                 }
                 None => {
-- 
2.43.0


From d46e31bddaa58a92177fcc524d32f01fb9368f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 14/43] fix: recognise MariaDB servers with the replication
 version prefix

---
 src/connection/packets/handshake.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 3a5a0e9..c4a44b3 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -83,7 +83,11 @@ impl<'a> HandshakePacket<'a> {
     }
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
-        let mut server_version = self.server_version;
+        // MariaDB prepends this because old replicas only accept single digit major versions
+        let mut server_version = match self.server_version.strip_prefix("5.5.5-") {
+            Some(version) if version.contains("MariaDB") => version,
+            _ => self.server_version,
+        };
         fn eat_int(string: &mut &str) -> Option<u16> {
             match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
                 Some((pos, x)) => {
-- 
2.43.0


From 40bcda6072f9c91dfd8493d7c83839a4376690ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 15/43] fix: check the packet that follows a successful fast
 authentication

connect() succeeded even if the server refused the login afterwards,
e.g. because the database is unknown.
---
 src/connection/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..ae13e66 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,7 +60,7 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
+                    self.read_response().await??;
                     Ok(())
                 }
                 Some(0x04) => {
-- 
2.43.0


From b3441c2c9d20e203187f8b692c79777b7354eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 16/43] fix: don't divide by zero if the server sent an empty
 nonce

---
 src/connection/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index ae13e66..8c9b0db 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -64,6 +64,14 @@ impl Connection {
                     Ok(())
                 }
                 Some(0x04) => {
+                    if self.data.nonce.is_empty() {
+                        return Err(ProtocolError::invalid_packet(
+                            packet.to_vec(),
+                            "Auth switch",
+                            "missing nonce",
+                        )
+                        .into());
+                    }
                     let mut pass = super::BUFFER_POOL.get();
                     pass.extend_from_slice(self.options.password().as_bytes());
                     pass.push(0);
-- 
2.43.0


From d9ff5d1c87ee9b5fb71194c9f79ae894dd9a76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 17/43] fix: return an error for malformed public keys instead
 of panicking

---
 src/utils/crypt.rs | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..a528540 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,55 +17,54 @@ mod der {
         num::BigUint,
     };
 
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (left, right) = der.split_at(len);
+        *der = right;
+        Ok(left)
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat(der, 1)?[0];
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
     fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+        if eat(der, 1)?[0] != 0x02 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        Ok(BigUint::from_bytes_be(eat(der, len)?))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
+        if eat(der, 1)?[0] != 0x30 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat(der, len)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
+        if eat(der, 1)?[0] != 0x03 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
+        let mut bit_string = eat(der, len)?;
+        let unused_bits = eat(&mut bit_string, 1)?[0];
         Ok((unused_bits, bit_string))
     }
 
@@ -98,6 +97,9 @@ mod der {
                 .cloned()
                 .collect();
 
+            if pem.len() < PKCS1.0.len() + PKCS1.1.len() {
+                return Err(Error::InvalidPem);
+            }
             let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
                 (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
             } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-- 
2.43.0


From f40fa3f32f983bc70b0b8dedf4b5f08bf9c75796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 18/43] fix: encrypt with keys whose length isn't a multiple of
 eight bits

A modulus of 8 * n + 1 bits has n + 1 octets; the encrypted password
may be too long for n, which caused an underflow.
---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index a528540..237ac2a 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -129,7 +129,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 3985dbc24356f993370818cff8cd8ad0303d810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 19/43] fix: read column definitions with names longer than 250
 bytes

The strings of a column definition have a length-encoded length.
---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From e9d448b02a2cdfc6d01641f6cfadc5cbef8769fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 20/43] fix: read the status and warnings of the packet that
 ends a result set

The header of the packet wasn't skipped and the old format wasn't used
for servers that don't support DEPRECATE_EOF.
---
 src/connection/packets/ok.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..00671f1 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -82,13 +82,17 @@ impl OkPacket {
         packet: PoolItem<'_, Vec<u8>>,
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
+        if !capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            return Self::read_old_eof(packet, capabilities);
+        }
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
         // (see `read_ok_ex` in sql-common/client.cc)
-        let _ = buf.checked_eat_lenenc_int();
-        let _ = buf.checked_eat_lenenc_int();
+        buf.checked_eat_lenenc_int()?;
+        buf.checked_eat_lenenc_int()?;
 
         // We assume that CLIENT_PROTOCOL_41 was set
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
@@ -120,6 +124,7 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
-- 
2.43.0


From c068297e542a4aeff6142595c892dc894e6d3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 21/43] fix: flush the stream after writing a packet

A buffering stream never sent the command the client waits an answer for.
---
 src/connection/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..8bcdbc9 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,8 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
-- 
2.43.0


From 8be2866c41bc65ee16cecf9c63f2202e4557addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 22/43] fix: recognise an error that ends a result set

A server error in place of a row was read as row, and an abandoned result
set that ended with an error was never recognised as ended. An empty
packet caused a panic.
---
 src/connection/result_set.rs | 94 +++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 40 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..03f3c83 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,8 +5,10 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -67,24 +69,19 @@ where
         if self.ok_packet.is_some() {
             return Ok(None);
         }
-        let packet = self.conn.read_packet().await?;
-        let is_last_result_set_packet = if self
-            .conn
-            .data
-            .capabilities
-            .contains(CapabilityFlags::DEPRECATE_EOF)
-        {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-        } else {
-            packet[0] == 0xFE && packet.len() < 8
-        };
-        if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
-            self.conn.pending_result = false;
-            Ok(None)
-        } else {
-            let mut row = P::read_result_set_row(&packet, &self.columns)?;
-            Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+        if !self.conn.pending_result {
+            // the result set was ended by an error
+            return Ok(None);
+        }
+        match self.conn.read_row().await? {
+            Ok(packet) => {
+                let mut row = P::read_result_set_row(&packet, &self.columns)?;
+                Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+            }
+            Err(ok_packet) => {
+                self.ok_packet = Some(ok_packet);
+                Ok(None)
+            }
         }
     }
 
@@ -127,8 +124,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // There is no ok packet if the result set was ended by an error
+                self.ok_packet.ok_or(ProtocolError::OutOfSync.into())
             }
         }
     }
@@ -138,34 +135,51 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // There is no ok packet if the result set was ended by an error
+                let ok_packet = self.ok_packet.ok_or(ProtocolError::OutOfSync)?;
+                Ok((ok_packet, self.columns, self.mapping))
             }
         }
     }
 }
 
 impl Connection {
+    /// Reads the next packet of the pending result set, which is either a row or its end.
+    async fn read_row(&mut self) -> Result<Result<PoolItem<'static, Vec<u8>>, OkPacket>, Error> {
+        let packet = self.read_packet().await?;
+        let capabilities = self.data.capabilities;
+        let max_eof_len = if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            MAX_PAYLOAD_LEN
+        } else {
+            8
+        };
+        match packet.first() {
+            Some(0xFE) if packet.len() < max_eof_len => {
+                let ok_packet = OkPacket::read_eof(packet, capabilities)?;
+                self.pending_result = false;
+                Ok(Err(ok_packet))
+            }
+            Some(0xFF) => {
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
+                self.pending_result = false;
+                Err(err.into())
+            }
+            Some(_) => Ok(Ok(packet)),
+            None => Err(ProtocolError::eof().into()),
+        }
+    }
+
+    /// Skips the result set that was not read to its end.
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        if self.pending_result {
-            loop {
-                let packet = self.read_packet().await?;
-                let is_last_result_set_packet = if self
-                    .data
-                    .capabilities
-                    .contains(CapabilityFlags::DEPRECATE_EOF)
-                {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-                } else {
-                    packet[0] == 0xFE && packet.len() < 8
-                };
-                if is_last_result_set_packet {
-                    self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
-                }
+        while self.pending_result {
+            match self.read_row().await {
+                Ok(Ok(_row)) => (),
+                Ok(Err(ok_packet)) => return Ok(Some(ok_packet)),
+                // the error belongs to the skipped result set
+                Err(Error::Server(_)) => (),
+                Err(err) => return Err(err),
             }
-        } else {
-            Ok(None)
         }
+        Ok(None)
     }
 }
-- 
2.43.0


From 61de6ee5727a13549225c4a52e08a730c2d704f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 23/43] fix: return an error if the server requests a local
 file

---
 src/connection/result_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 03f3c83..ad64358 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -39,7 +39,12 @@ where
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
+            // local infile, which isn't supported
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                packet.to_vec(),
+                Some("Ok or Result Set"),
+            )
+            .into()),
             Some(0xFF) => Err(ErrPacket::deserialize(
                 &mut ParseBuf(&packet),
                 conn.data().capabilities(),
-- 
2.43.0


From f7106d04f83ac67bcd17eba954905f9aa0e7e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 24/43] fix: don't allocate memory for columns that were not
 sent

---
 src/connection/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..4897c5d 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,8 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        // `count` was sent by the server and can't be trusted
+        let mut columns: Vec<Column> = Vec::with_capacity(usize::min(count, 4096));
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From 72494ddd3d369baf2108b699e2b65f24be455aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 25/43] fix: read the packets that end definitions if the
 server sends them

Without DEPRECATE_EOF the server ends the definitions of columns and
parameters with an eof packet, which was read as the end of the rows or
as the answer of the next command.
---
 src/connection/prepared_statement.rs |  7 +++++--
 src/connection/query.rs              | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..de91fcc 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,11 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for count in [stmt.params_len as usize, stmt.columns_len as usize] {
+            for _ in 0..count {
+                self.read_packet().await?;
+            }
+            self.read_definitions_end(count).await?;
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 4897c5d..93082bc 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,8 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -46,9 +48,26 @@ impl Connection {
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
+        self.read_definitions_end(count).await?;
         Ok(columns)
     }
 
+    /// Servers that don't support DEPRECATE_EOF end a list of definitions with an eof packet.
+    pub(super) async fn read_definitions_end(&mut self, count: usize) -> Result<(), Error> {
+        if count != 0
+            && !self
+                .data
+                .capabilities
+                .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            if packet.first() != Some(&0xFE) {
+                return Err(ProtocolError::unexpected_packet(packet.to_vec(), Some("Eof")).into());
+            }
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
-- 
2.43.0


From ac7b7372533fecf2cb4a9dc59bb60b53eb6455e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 26/43] fix: don't use a connection after an exchange was cut
 short

If a call was cancelled, timed out or failed within an exchange, the next
command was written into that exchange and received its answer.
---
 src/connection/init.rs               |  1 +
 src/connection/io.rs                 |  9 +++++---
 src/connection/mod.rs                | 16 +++++++++++++-
 src/connection/prepared_statement.rs |  7 +++---
 src/connection/query.rs              |  3 +--
 src/connection/result_set.rs         | 32 ++++++++++++++++++++++------
 6 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 5693609..1b302dc 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            busy: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 8bcdbc9..b2a02d7 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -31,11 +31,13 @@ impl Connection {
                 if bytes.is_empty() {
                     self.write_command(&StmtSendLongData::new(statement_id, i as u16, &[]))
                         .await?;
+                    self.busy = false;
                 } else {
                     let chunks = bytes.chunks(MAX_PAYLOAD_LEN - 6);
                     for chunk in chunks {
                         self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
                             .await?;
+                        self.busy = false;
                     }
                 }
             }
@@ -147,8 +149,7 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.cleanup().await?;
-        self.seq_id = 0;
+        self.start_exchange().await?;
         self.write_struct(cmd).await
     }
 
@@ -174,6 +175,8 @@ impl Connection {
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
-        self.decode_response(&packet).await
+        let res = self.decode_response(&packet).await?;
+        self.busy = false;
+        Ok(res)
     }
 }
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..bbde4c0 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -28,7 +28,10 @@ lazy_static::lazy_static! {
 }
 
 use {
-    crate::pool::{AsyncPoolContent, AsyncPoolContentError, SyncPool, VecPoolCtx},
+    crate::{
+        error::Error,
+        pool::{AsyncPoolContent, AsyncPoolContentError, SyncPool, VecPoolCtx},
+    },
     std::{fmt, sync::Arc},
     tokio::io::{AsyncRead, AsyncWrite},
 };
@@ -53,9 +56,20 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// There is an exchange under way. If this is still the case when the next one starts, the
+    /// exchange was cut short and it's unknown what the next packet belongs to.
+    busy: bool,
 }
 
 impl Connection {
+    /// Finishes the previous exchange and starts a new one, that lasts until `busy` is unset.
+    pub(super) async fn start_exchange(&mut self) -> Result<(), Error> {
+        self.cleanup().await?;
+        self.seq_id = 0;
+        self.busy = true;
+        Ok(())
+    }
+
     pub fn data(&self) -> &ConnectionData {
         &self.data
     }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index de91fcc..7e0036b 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -48,9 +48,9 @@ impl Connection {
         let stmt = match packet.first() {
             Some(0x00) => Stmt::deserialize(&mut ParseBuf(&packet), ())?,
             Some(0xFF) => {
-                return Err(
-                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
-                )
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?;
+                self.busy = false;
+                return Err(err.into());
             }
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
@@ -61,6 +61,7 @@ impl Connection {
             }
             self.read_definitions_end(count).await?;
         }
+        self.busy = false;
 
         Ok(PreparedStatement {
             id: stmt.id,
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 93082bc..c8eef2e 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -35,8 +35,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.cleanup().await?;
-        self.seq_id = 0;
+        self.start_exchange().await?;
         self.write_packet(&buf).await
     }
 
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index ad64358..aa1a7bd 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -37,6 +37,7 @@ where
             Some(0x00) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
+                res.conn.busy = false;
                 Ok(res)
             }
             // local infile, which isn't supported
@@ -45,15 +46,17 @@ where
                 Some("Ok or Result Set"),
             )
             .into()),
-            Some(0xFF) => Err(ErrPacket::deserialize(
-                &mut ParseBuf(&packet),
-                conn.data().capabilities(),
-            )?
-            .into()),
+            Some(0xFF) => {
+                let err =
+                    ErrPacket::deserialize(&mut ParseBuf(&packet), conn.data().capabilities())?;
+                conn.busy = false;
+                Err(err.into())
+            }
             _ => {
-                conn.pending_result = true;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = conn.read_column_defs(columns_len as usize).await?;
+                conn.pending_result = true;
+                conn.busy = false;
                 Ok(ResultSet::new(columns, conn))
             }
         }
@@ -149,8 +152,17 @@ where
 }
 
 impl Connection {
+    fn check_not_busy(&self) -> Result<(), Error> {
+        match self.busy {
+            true => Err(ProtocolError::OutOfSync.into()),
+            false => Ok(()),
+        }
+    }
+
     /// Reads the next packet of the pending result set, which is either a row or its end.
     async fn read_row(&mut self) -> Result<Result<PoolItem<'static, Vec<u8>>, OkPacket>, Error> {
+        self.check_not_busy()?;
+        self.busy = true;
         let packet = self.read_packet().await?;
         let capabilities = self.data.capabilities;
         let max_eof_len = if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
@@ -162,20 +174,26 @@ impl Connection {
             Some(0xFE) if packet.len() < max_eof_len => {
                 let ok_packet = OkPacket::read_eof(packet, capabilities)?;
                 self.pending_result = false;
+                self.busy = false;
                 Ok(Err(ok_packet))
             }
             Some(0xFF) => {
                 let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
                 self.pending_result = false;
+                self.busy = false;
                 Err(err.into())
             }
-            Some(_) => Ok(Ok(packet)),
+            Some(_) => {
+                self.busy = false;
+                Ok(Ok(packet))
+            }
             None => Err(ProtocolError::eof().into()),
         }
     }
 
     /// Skips the result set that was not read to its end.
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
+        self.check_not_busy()?;
         while self.pending_result {
             match self.read_row().await {
                 Ok(Ok(_row)) => (),
-- 
2.43.0


From fc97f81392a9f492878901d7edcf4882bce84b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 27/43] fix: skip the result set of a statement that wasn't
 expected to return one

execute() and execute_query() failed after the first packet of a result
set, the remaining packets were read as the answer of the next command.
---
 src/connection/io.rs                 |  1 +
 src/connection/prepared_statement.rs |  2 +-
 src/connection/query.rs              |  2 +-
 src/connection/result_set.rs         | 64 +++++++++++++++++-----------
 4 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index b2a02d7..1d5c386 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -173,6 +173,7 @@ impl Connection {
         }
     }
 
+    #[cfg(feature = "caching-sha2-password")]
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
         let res = self.decode_response(&packet).await?;
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 7e0036b..8b7ad14 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -97,6 +97,6 @@ impl Connection {
         }
 
         self.write_command(&request).await?;
-        self.read_response().await?.map_err(Into::into)
+        self.read_ok_result().await
     }
 }
diff --git a/src/connection/query.rs b/src/connection/query.rs
index c8eef2e..387f4cc 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -24,7 +24,7 @@ impl Connection {
 
     pub async fn execute_query(&mut self, query: &str) -> Result<OkPacket, Error> {
         self.execute_command(Command::Query, query).await?;
-        self.read_response().await?.map_err(Into::into)
+        self.read_ok_result().await
     }
 
     pub(super) async fn execute_command<D>(&mut self, cmd: Command, data: D) -> Result<(), Error>
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index aa1a7bd..bd08a9e 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -32,33 +32,13 @@ where
     R: FromQueryResult,
 {
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
-        let packet = conn.read_packet().await?;
-        match packet.first() {
-            Some(0x00) => {
+        match conn.read_result().await? {
+            Ok(columns) => Ok(ResultSet::new(columns, conn)),
+            Err(ok_packet) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
-                res.ok_packet = Some(res.conn.decode_response(&packet).await??);
-                res.conn.busy = false;
+                res.ok_packet = Some(ok_packet);
                 Ok(res)
             }
-            // local infile, which isn't supported
-            Some(0xFB) => Err(ProtocolError::unexpected_packet(
-                packet.to_vec(),
-                Some("Ok or Result Set"),
-            )
-            .into()),
-            Some(0xFF) => {
-                let err =
-                    ErrPacket::deserialize(&mut ParseBuf(&packet), conn.data().capabilities())?;
-                conn.busy = false;
-                Err(err.into())
-            }
-            _ => {
-                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
-                let columns = conn.read_column_defs(columns_len as usize).await?;
-                conn.pending_result = true;
-                conn.busy = false;
-                Ok(ResultSet::new(columns, conn))
-            }
         }
     }
 
@@ -159,6 +139,42 @@ impl Connection {
         }
     }
 
+    /// Reads the begin of a result, which is either an ok packet or the columns of a result set.
+    async fn read_result(&mut self) -> Result<Result<Vec<Column>, OkPacket>, Error> {
+        let packet = self.read_packet().await?;
+        match packet.first() {
+            Some(0x00) | Some(0xFF) | None => {
+                let res = self.decode_response(&packet).await?;
+                self.busy = false;
+                Ok(Err(res?))
+            }
+            // local infile, which isn't supported
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                packet.to_vec(),
+                Some("Ok or Result Set"),
+            )
+            .into()),
+            _ => {
+                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
+                let columns = self.read_column_defs(columns_len as usize).await?;
+                self.pending_result = true;
+                self.busy = false;
+                Ok(Ok(columns))
+            }
+        }
+    }
+
+    /// Reads a result that isn't expected to be a result set. The rows of an unexpected result set
+    /// are skipped by the next command.
+    pub(super) async fn read_ok_result(&mut self) -> Result<OkPacket, Error> {
+        match self.read_result().await? {
+            Ok(_columns) => {
+                Err(ProtocolError::unexpected_packet(Vec::new(), Some("Ok Packet")).into())
+            }
+            Err(ok_packet) => Ok(ok_packet),
+        }
+    }
+
     /// Reads the next packet of the pending result set, which is either a row or its end.
     async fn read_row(&mut self) -> Result<Result<PoolItem<'static, Vec<u8>>, OkPacket>, Error> {
         self.check_not_busy()?;
-- 
2.43.0


From 69a09d10d4900534b25147eb9a432fb21864cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 28/43] fix: skip the remaining results of a statement with
 multiple results

The results after the first one (e.g. of a called procedure, the client
sets PS_MULTI_RESULTS) were read as the answer of the next command.
---
 src/connection/init.rs       |  1 +
 src/connection/mod.rs        |  2 ++
 src/connection/packets/ok.rs |  4 ++++
 src/connection/result_set.rs | 24 +++++++++++++++++-------
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 1b302dc..db3d35a 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            more_results: false,
             busy: false,
         };
         this.do_handshake_response().await?;
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index bbde4c0..85fe520 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -56,6 +56,8 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// There is at least one more result after the current one.
+    more_results: bool,
     /// There is an exchange under way. If this is still the case when the next one starts, the
     /// exchange was cut short and it's unknown what the next packet belongs to.
     busy: bool,
diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 00671f1..b5c7358 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -39,6 +39,10 @@ impl OkPacket {
     pub fn session_state_info(&self) -> Option<&String> {
         self.session_state_info.as_ref()
     }
+
+    pub(crate) fn more_results(&self) -> bool {
+        self.status.contains(StatusFlags::MORE_RESULTS_EXISTS)
+    }
 }
 
 impl OkPacket {
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index bd08a9e..af76a5e 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -145,6 +145,7 @@ impl Connection {
         match packet.first() {
             Some(0x00) | Some(0xFF) | None => {
                 let res = self.decode_response(&packet).await?;
+                self.more_results = matches!(&res, Ok(ok) if ok.more_results());
                 self.busy = false;
                 Ok(Err(res?))
             }
@@ -190,12 +191,14 @@ impl Connection {
             Some(0xFE) if packet.len() < max_eof_len => {
                 let ok_packet = OkPacket::read_eof(packet, capabilities)?;
                 self.pending_result = false;
+                self.more_results = ok_packet.more_results();
                 self.busy = false;
                 Ok(Err(ok_packet))
             }
             Some(0xFF) => {
                 let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
                 self.pending_result = false;
+                self.more_results = false;
                 self.busy = false;
                 Err(err.into())
             }
@@ -207,18 +210,25 @@ impl Connection {
         }
     }
 
-    /// Skips the result set that was not read to its end.
+    /// Skips the result set that was not read to its end and the results after it.
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
         self.check_not_busy()?;
-        while self.pending_result {
-            match self.read_row().await {
-                Ok(Ok(_row)) => (),
-                Ok(Err(ok_packet)) => return Ok(Some(ok_packet)),
-                // the error belongs to the skipped result set
+        let mut last = None;
+        while self.pending_result || self.more_results {
+            let end = if self.pending_result {
+                self.read_row().await.map(|row| row.err())
+            } else {
+                self.busy = true;
+                self.read_result().await.map(|res| res.err())
+            };
+            match end {
+                Ok(Some(ok_packet)) => last = Some(ok_packet),
+                Ok(None) => (),
+                // the error belongs to the skipped result
                 Err(Error::Server(_)) => (),
                 Err(err) => return Err(err),
             }
         }
-        Ok(None)
+        Ok(last)
     }
 }
-- 
2.43.0


From f2e34861b613d9986fa3803e4a6d203d15ec51bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 29/43] fix: close prepared statements that are not used
 anymore

The server keeps every statement until it's closed, so it refused to
prepare more statements (max_prepared_stmt_count) sooner or later.
---
 src/connection/init.rs               | 1 +
 src/connection/mod.rs                | 3 +++
 src/connection/packets/stmt_close.rs | 1 -
 src/connection/prepared_statement.rs | 1 +
 src/connection/query.rs              | 7 ++++++-
 5 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index db3d35a..de0d3a6 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -24,6 +24,7 @@ impl Connection {
             options,
             pending_result: false,
             more_results: false,
+            open_statement: None,
             busy: false,
         };
         this.do_handshake_response().await?;
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 85fe520..f036c2f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -58,6 +58,9 @@ pub struct Connection {
     pending_result: bool,
     /// There is at least one more result after the current one.
     more_results: bool,
+    /// Statement that was prepared and not closed yet. As a [`PreparedStatement`] borrows the
+    /// connection, it doesn't exist anymore if another command is executed.
+    open_statement: Option<u32>,
     /// There is an exchange under way. If this is still the case when the next one starts, the
     /// exchange was cut short and it's unknown what the next packet belongs to.
     busy: bool,
diff --git a/src/connection/packets/stmt_close.rs b/src/connection/packets/stmt_close.rs
index 5b2556e..100be62 100644
--- a/src/connection/packets/stmt_close.rs
+++ b/src/connection/packets/stmt_close.rs
@@ -6,7 +6,6 @@ pub struct StmtClose {
 }
 
 impl StmtClose {
-    #[allow(dead_code)]
     pub fn new(stmt_id: u32) -> Self {
         Self { stmt_id }
     }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 8b7ad14..ebb6330 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -62,6 +62,7 @@ impl Connection {
             self.read_definitions_end(count).await?;
         }
         self.busy = false;
+        self.open_statement = Some(stmt.id);
 
         Ok(PreparedStatement {
             id: stmt.id,
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 387f4cc..a048501 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -7,7 +7,7 @@ use {
         bitflags::CapabilityFlags,
         error::ProtocolError,
         model::FromQueryResult,
-        packets::{ColumnDef, OkPacket},
+        packets::{ColumnDef, OkPacket, StmtClose},
         types::Value,
         Deserialize, Error,
     },
@@ -35,6 +35,11 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
+        if let Some(id) = self.open_statement {
+            self.write_command(&StmtClose::new(id)).await?;
+            self.busy = false;
+            self.open_statement = None;
+        }
         self.start_exchange().await?;
         self.write_packet(&buf).await
     }
-- 
2.43.0


From fba88001929c521b9d2f3ed66fd27fd7715aee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 30/43] fix: don't return a connection to the pool after an
 exchange was cut short

Every later user of the connection would have failed.
---
 src/connection/mod.rs  | 4 ++++
 src/pool/async_pool.rs | 5 +++++
 src/pool/mod.rs        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index f036c2f..0c359bf 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -124,6 +124,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn is_reusable(&self) -> bool {
+        !self.busy
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index c51d175..2ca3afc 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -19,6 +19,11 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
+        if !value.is_reusable() {
+            drop(value);
+            self.release_slot();
+            return;
+        }
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
         self.wake_waiting();
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..652a83d 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Whether the item can be used again after it was returned to the pool.
+    fn is_reusable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0


From 3f559c240512e4e3fa53f449c31c5468bc57c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 31/43] fix: escape the name of recorded migrations

---
 src/migrator/migrator_inner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..1a334cb 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,10 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error,
+        migrator::model::MigrationModel,
+        pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -113,7 +116,7 @@ impl<'a> Migrator<'a> {
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,7 +136,7 @@ impl<'a> Migrator<'a> {
                     ) {
                         migration.down(self.pool).await?;
                         applied.swap_remove(index);
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     }
                 }
             }
@@ -155,7 +158,7 @@ impl<'a> Migrator<'a> {
                 {
                     migration.down(self.pool).await?;
                     applied.swap_remove(index);
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From f439b4a971b8a4d3091acf1d0cbe9858f0ab3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 32/43] fix: only regard a migration as applied (or not
 applied) if this was recorded

If the record couldn't be written, the migrator skipped the migration when
it was called again, although it was not recorded.
---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 1a334cb..e21b3c8 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -111,12 +111,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -135,8 +135,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -157,8 +157,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From 15232b5e19046f339c92bf2fca7f35ee581987a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 33/43] fix: map columns to their own field if a table and a
 reference have the same name

Columns of a table were read as columns of the reference with that name,
and the name of a referenced table was removed from the path of nested
references.
---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..ddbb5f1 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,14 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From 81a733bfffd2dd91ffb76127d29639bee9312aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 34/43] fix: one() hid the error that broke the connection
 behind a further read

---
 src/connection/result_set.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index af76a5e..c2b1a81 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -83,6 +83,10 @@ where
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
         let res = self.next().await;
+        if self.conn.busy {
+            // the remaining rows cannot be read
+            return res;
+        }
         while self.next().await?.is_some() {}
         res
     }
-- 
2.43.0


From 7e5a49bf015a0d991ced06f799129c89418f32a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:51 +0000
Subject: [PATCH 35/43] fix: encrypt passwords of the maximal length of a key

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 237ac2a..be65c9c 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -215,7 +215,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 1 + seed_len + Self::HASH_LEN + 1 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From 24c7a4d958e284ac6adea8392e3b890e2d45e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 36/43] fix: terminate a clear password in the handshake
 response

---
 src/connection/init.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index de0d3a6..c960b22 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -97,8 +97,22 @@ impl Connection {
         let auth_data =
             auth_plugin.gen_data(self.options.password(), &self.data.nonce, &*self.options)?;
 
+        let mut scramble = Vec::new();
+        if let Some(auth_data) = auth_data {
+            if self
+                .data
+                .capabilities
+                .contains(CapabilityFlags::SECURE_CONNECTION)
+            {
+                // includes the terminator of a clear password
+                auth_data.serialize(&mut scramble);
+            } else {
+                scramble.extend_from_slice(&auth_data);
+            }
+        }
+
         let handshake_response = HandshakeResponse::new(
-            auth_data.as_deref().unwrap_or_default(),
+            &scramble,
             self.data.version,
             self.options.user().as_bytes(),
             self.options.db_name().map(|x| x.as_bytes()),
-- 
2.43.0


From d6307fbbea07a8b1d572ba35697214a4ea962e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 37/43] verification hooks: scheduling points in the pools (cfg
 vp_hooks)

---
 src/lib.rs             |   3 +
 src/pool/async_pool.rs |  11 ++-
 src/pool/sync_pool.rs  |   6 +-
 src/vp_hooks.rs        | 166 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 183 insertions(+), 3 deletions(-)
 create mode 100644 src/vp_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index c4996d0..fcd1727 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![cfg_attr(doc, feature(doc_cfg))]
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
 
 pub mod connection;
 pub mod error;
@@ -8,6 +9,8 @@ pub mod model;
 pub mod pool;
 pub mod types;
 mod utils;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
 
 pub use {connection::*, error::Error, migrator::*, mysql_connector_macros as macros};
 
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 2ca3afc..85a3483 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -1,15 +1,22 @@
 use {
     super::{AsyncPoolContent, AsyncPoolGetFuture, AsyncPoolTrait, PoolItem, PoolPut},
-    crossbeam::queue::{ArrayQueue, SegQueue},
     std::{
         future::Future,
         mem::ManuallyDrop,
         pin::Pin,
-        sync::atomic::{AtomicUsize, Ordering},
+        sync::atomic::Ordering,
         task::{self, Poll, Waker},
     },
 };
 
+#[cfg(vp_hooks)]
+use crate::vp_hooks::{ArrayQueue, AtomicUsize, SegQueue};
+#[cfg(not(vp_hooks))]
+use {
+    crossbeam::queue::{ArrayQueue, SegQueue},
+    std::sync::atomic::AtomicUsize,
+};
+
 pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
     ctx: T::Ctx,
     items: AtomicUsize,
diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..0f92ed4 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -1,9 +1,13 @@
 use {
     super::{PoolItem, PoolPut},
-    crossbeam::queue::ArrayQueue,
     std::{fmt, mem::ManuallyDrop},
 };
 
+#[cfg(vp_hooks)]
+use crate::vp_hooks::ArrayQueue;
+#[cfg(not(vp_hooks))]
+use crossbeam::queue::ArrayQueue;
+
 pub struct SyncPool<T: SyncPoolContent, const N: usize> {
     ctx: T::Ctx,
     pool: ArrayQueue<T>,
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
new file mode 100644
index 0000000..0bc5281
--- /dev/null
+++ b/src/vp_hooks.rs
@@ -0,0 +1,166 @@
+//! Scheduling points for verification. Only compiled with `--cfg vp_hooks`.
+//!
+//! The types behave like the ones they wrap, but call the hook before every operation on the shared
+//! state of a pool, so that a test driver can decide which thread goes on.
+
+use std::{
+    ops,
+    sync::{atomic, OnceLock},
+};
+
+static HOOK: OnceLock<fn(&'static str)> = OnceLock::new();
+
+/// Sets the function that is called before every operation (once per process).
+pub fn set_hook(hook: fn(&'static str)) {
+    let _ = HOOK.set(hook);
+}
+
+fn point(name: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(name)
+    }
+}
+
+pub(crate) struct AtomicUsize(atomic::AtomicUsize);
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    pub const fn new(value: usize) -> Self {
+        Self(atomic::AtomicUsize::new(value))
+    }
+
+    pub fn load(&self, order: atomic::Ordering) -> usize {
+        point("load");
+        self.0.load(order)
+    }
+
+    pub fn store(&self, value: usize, order: atomic::Ordering) {
+        point("store");
+        self.0.store(value, order)
+    }
+
+    pub fn swap(&self, value: usize, order: atomic::Ordering) -> usize {
+        point("swap");
+        self.0.swap(value, order)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: atomic::Ordering,
+        failure: atomic::Ordering,
+    ) -> Result<usize, usize> {
+        point("compare_exchange");
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: atomic::Ordering,
+        failure: atomic::Ordering,
+    ) -> Result<usize, usize> {
+        point("compare_exchange");
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn fetch_add(&self, value: usize, order: atomic::Ordering) -> usize {
+        point("fetch_add");
+        self.0.fetch_add(value, order)
+    }
+
+    pub fn fetch_sub(&self, value: usize, order: atomic::Ordering) -> usize {
+        point("fetch_sub");
+        self.0.fetch_sub(value, order)
+    }
+
+    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
+        &self,
+        set: atomic::Ordering,
+        fetch: atomic::Ordering,
+        mut f: F,
+    ) -> Result<usize, usize> {
+        let mut prev = self.load(fetch);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange(prev, next, set, fetch) {
+                Ok(x) => return Ok(x),
+                Err(x) => prev = x,
+            }
+        }
+        Err(prev)
+    }
+}
+
+impl ops::Deref for AtomicUsize {
+    type Target = atomic::AtomicUsize;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+macro_rules! queue {
+    ($name:ident, $res:ty) => {
+        pub(crate) struct $name<T>(crossbeam::queue::$name<T>);
+
+        #[allow(dead_code)]
+        impl<T> $name<T> {
+            pub fn push(&self, value: T) -> $res {
+                point("push");
+                self.0.push(value)
+            }
+
+            pub fn pop(&self) -> Option<T> {
+                point("pop");
+                self.0.pop()
+            }
+
+            pub fn len(&self) -> usize {
+                point("len");
+                self.0.len()
+            }
+
+            pub fn is_empty(&self) -> bool {
+                point("is_empty");
+                self.0.is_empty()
+            }
+        }
+
+        impl<T> ops::Deref for $name<T> {
+            type Target = crossbeam::queue::$name<T>;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+    };
+}
+
+queue!(ArrayQueue, Result<(), T>);
+queue!(SegQueue, ());
+
+#[allow(dead_code)]
+impl<T> ArrayQueue<T> {
+    pub fn new(cap: usize) -> Self {
+        Self(crossbeam::queue::ArrayQueue::new(cap))
+    }
+
+    pub fn is_full(&self) -> bool {
+        point("is_full");
+        self.0.is_full()
+    }
+
+    pub fn force_push(&self, value: T) -> Option<T> {
+        point("force_push");
+        self.0.force_push(value)
+    }
+}
+
+#[allow(dead_code)]
+impl<T> SegQueue<T> {
+    pub const fn new() -> Self {
+        Self(crossbeam::queue::SegQueue::new())
+    }
+}
-- 
2.43.0


From 8cfd1790e77a747c1c37a0a4c8d9760a67c78a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:03 +0000
Subject: [PATCH 38/43] fix: columns of fields with raw identifiers are named
 without r#

---
 macros/src/lib.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..a9de710 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,7 +8,7 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
 struct Error(Option<syn::Error>);
@@ -38,6 +38,11 @@ impl Error {
     }
 }
 
+/// Name of a field in the database (without `r#`)
+fn db_name(ident: &Ident) -> LitStr {
+    LitStr::new(&ident.unraw().to_string(), ident.span())
+}
+
 #[proc_macro_derive(ModelData, attributes(mysql_connector))]
 pub fn derive_model_data(input: TokenStream) -> TokenStream {
     let mut error = Error::empty();
@@ -139,7 +144,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let name = ident.unraw().to_string();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -154,9 +159,10 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             };
         }
 
+        let simple_db_names = simple_field_names.iter().map(|x| db_name(x));
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_db_names => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -243,7 +249,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format_ident!("{}_{}", ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
@@ -315,6 +321,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .map(|x| &x.ty)
         .collect();
 
+    let simple_db_names = simple_field_names.iter().map(|x| db_name(x));
+    let complex_db_names = complex_field_names.iter().map(|x| db_name(x));
+
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
 
@@ -330,9 +339,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_db_names)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_db_names, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +381,21 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| db_name(&x.ident))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
             let mapping_names = r#struct
                 .fields
                 .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+                .map(|x| db_name(&format_ident!("{}_{}", field.ident, x.1)));
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| db_name(&x.ident))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
-- 
2.43.0


From a4832b82d63c2d4e9247c2f1c838ec5375e7ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:42 +0000
Subject: [PATCH 39/43] fix: clear passwords of more than 254 bytes were
 truncated

They are sent with a length-encoded length if the server supports it,
and are refused otherwise.
---
 src/connection/init.rs    | 24 +++++++++++++++++++-----
 src/connection/options.rs |  3 ++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index c960b22..eeaaef0 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -5,7 +5,9 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::SerializeError,
         packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        types::ValueType,
         ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
@@ -99,13 +101,25 @@ impl Connection {
 
         let mut scramble = Vec::new();
         if let Some(auth_data) = auth_data {
-            if self
-                .data
-                .capabilities
-                .contains(CapabilityFlags::SECURE_CONNECTION)
-            {
+            if self.data.capabilities.intersects(
+                CapabilityFlags::SECURE_CONNECTION
+                    | CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA,
+            ) {
                 // includes the terminator of a clear password
                 auth_data.serialize(&mut scramble);
+                if scramble.len() > u8::MAX as usize
+                    && !self
+                        .data
+                        .capabilities
+                        .contains(CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA)
+                {
+                    // there is only one byte for its length
+                    return Err(SerializeError::InvalidValue(
+                        ValueType::Bytes,
+                        Box::new("password"),
+                    )
+                    .into());
+                }
             } else {
                 scramble.extend_from_slice(&auth_data);
             }
diff --git a/src/connection/options.rs b/src/connection/options.rs
index 2a0154d..ef12d6d 100644
--- a/src/connection/options.rs
+++ b/src/connection/options.rs
@@ -84,7 +84,8 @@ impl<T: Stream> ConnectionOptionsTrait for ConnectionOptions<T> {
             | CapabilityFlags::TRANSACTIONS
             | CapabilityFlags::PS_MULTI_RESULTS
             | CapabilityFlags::DEPRECATE_EOF
-            | CapabilityFlags::PLUGIN_AUTH;
+            | CapabilityFlags::PLUGIN_AUTH
+            | CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA;
 
         if self.db_name.is_some() {
             out |= CapabilityFlags::CONNECT_WITH_DB;
-- 
2.43.0


From 1630a453eee5d04e6cf03bcd1ef439a97a5cc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:43 +0000
Subject: [PATCH 40/43] fix: users and databases with a NUL changed the layout
 of the handshake response

---
 src/connection/init.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index eeaaef0..52dd30f 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -95,6 +95,20 @@ impl Connection {
     }
 
     async fn do_handshake_response(&mut self) -> Result<(), Error> {
+        for name in [Some(self.options.user()), self.options.db_name()] {
+            match name {
+                // it would end there
+                Some(name) if name.contains('\0') => {
+                    return Err(SerializeError::InvalidValue(
+                        ValueType::Bytes,
+                        Box::new(name.to_owned()),
+                    )
+                    .into())
+                }
+                _ => (),
+            }
+        }
+
         let auth_plugin = self.options.auth_plugin().unwrap_or(self.data.auth_plugin);
         let auth_data =
             auth_plugin.gen_data(self.options.password(), &self.data.nonce, &*self.options)?;
-- 
2.43.0


From d09249fad2c57544efdf84958f90c32677facd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:43 +0000
Subject: [PATCH 41/43] fix: packet limits beyond 32 bits were truncated in the
 handshake response

---
 src/connection/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 52dd30f..1e711e6 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -147,7 +147,7 @@ impl Connection {
             Some(auth_plugin),
             self.data.capabilities,
             Default::default(),
-            self.data.max_allowed_packet as u32,
+            u32::try_from(self.data.max_allowed_packet).unwrap_or(u32::MAX),
         );
 
         let mut buf = BUFFER_POOL.get();
-- 
2.43.0


From b71d9dce7c36ec4b66b0f9134fcce49a75e67b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:53 +0000
Subject: [PATCH 42/43] fix: a creation that panicked at once kept its slot of
 the pool

---
 src/pool/async_pool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 85a3483..0d0dae4 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -135,7 +135,8 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
                     )
                     .is_ok()
                 {
-                    this.add = Some(Box::pin(T::new(&pool.ctx)));
+                    // called when it is polled, as the slot has to be given back even if it panics
+                    this.add = Some(Box::pin(async move { T::new(&pool.ctx).await }));
                     return this.poll_add(cx).unwrap_or(Poll::Pending);
                 }
             } else if waker_added {
-- 
2.43.0


From ed3d04fb086b550afcfb19e50698ece818195664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:56 +0000
Subject: [PATCH 43/43] fix: Hex could only be deserialized from texts that can
 be borrowed

---
 src/types/hex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 0d8d59d..9f0218b 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -74,8 +74,9 @@ impl<'de> serde::Deserialize<'de> for Hex {
     where
         D: serde::Deserializer<'de>,
     {
-        let hex = <&str as serde::Deserialize>::deserialize(deserializer)?;
-        <Hex as std::str::FromStr>::from_str(hex).map_err(<D::Error as serde::de::Error>::custom)
+        // the text can't always be borrowed
+        let hex = <std::borrow::Cow<str> as serde::Deserialize>::deserialize(deserializer)?;
+        <Hex as std::str::FromStr>::from_str(&hex).map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0

