From f186694f377787a17d8e56d0ce114554f509a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 01/23] fix: keep the enclosing limit when a nested limit
 reaches its end

---
 src/byte_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..af6a97b 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -49,10 +49,10 @@ impl<R: Read> ByteReader<R> {
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
     pub fn take(&mut self, len: u32) {
+        let mut len = len;
         if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
-            }
+            // a nested limit never reaches beyond the enclosing one
+            len = len.min(l);
             // push alread subtracted number
             self.read_limits.push(l - len);
         }
-- 
2.43.0


From a9314581f86b54eb2d079926187a28cafa2f5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 02/23] fix: refuse a property length that reaches beyond the
 packet

---
 src/byte_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index af6a97b..3906c71 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -185,6 +185,8 @@ impl<R: Read> ByteReader<R> {
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
         if length > 0 {
+            // properties can not be longer than the rest of the packet
+            self.ensure_limit(length)?;
             self.take(length);
         }
         Ok(length)
-- 
2.43.0


From c3b8419f10fc63cf1e22fd348f73eaa79f3036d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 03/23] fix: always continue at the end of the packet, also
 after truncated and malformed ones

---
 src/byte_reader.rs | 23 +++++++++++++++++------
 src/packet.rs      | 10 ++++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 3906c71..d94cdb9 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -29,8 +29,7 @@ impl<R: Read> ByteReader<R> {
             Err(e) => {
                 if let Ok(len) = length {
                     self.take(len);
-                    self.consume()?;
-                    self.reset_limit();
+                    self.discard_packet()?;
                 }
                 return Err(e);
             }
@@ -170,11 +169,12 @@ impl<R: Read> ByteReader<R> {
     }
 
     pub fn has_more(&mut self) -> bool {
-        // if curr_limit is anything other than Some(0)
-        // rely on fill_buf
-        if let Some(0) = self.curr_limit {
-            return false;
+        // within a limit the announced bytes still have to come, if the stream
+        // ends before that the next read has to fail
+        if let Some(n) = self.curr_limit {
+            return n > 0;
         }
+        // without a limit rely on fill_buf
         // TODO: switch to a better way to do this
         match self.reader.fill_buf() {
             Ok(v) => !v.is_empty(),
@@ -224,6 +224,17 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// drops all limits of the current packet and skips the bytes
+    /// that are left of it
+    pub(crate) fn discard_packet(&mut self) -> Res<()> {
+        while !self.read_limits.is_empty() {
+            self.reset_limit();
+        }
+        let rest = self.consume();
+        self.reset_limit();
+        rest.map(|_| ())
+    }
+
     pub fn read_properties(&mut self) -> Res<Option<Vec<(u8, PropType)>>> {
         let mut props = vec![];
         // zero length properties are also valid
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..f35410f 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -169,12 +169,10 @@ impl<R: io::Read> PacketDecoder<R> {
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
         let (length, fixed) = self.reader.read_header()?;
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.consume()?;
-        }
-        self.reader.reset_limit();
+        // also without an error there can be bytes left, the next packet starts after them
+        // TODO: this should probably return an Error that indicates some
+        // critical failure
+        self.reader.discard_packet()?;
         dec
     }
 
-- 
2.43.0


From 50ad2730db88fbfe48c786b0a4a60f3c08a3b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 04/23] fix: refuse a variable byte integer whose fourth byte
 is not the last

---
 src/byte_reader.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index d94cdb9..9660126 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -159,13 +159,11 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        // the fourth byte must be the last one
+        Err(format!("Invalid variable int {}", num))
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From bc949b9df1b0ef6d20291b8ad773d39532f33484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 05/23] fix: decode a v5 DISCONNECT without reason code or
 properties

---
 src/disconnect.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..422c616 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,13 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, can be omitted
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From 8833f0a0e88242f5fa7954fb10b4d820e9d2ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 06/23] fix: write the reason code byte a v5 DISCONNECT length
 accounts for

---
 src/disconnect.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 422c616..b700371 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -48,8 +48,9 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_variable_num(length as u32)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            let code = self.reason_code.as_ref();
+            writer.write_u8(code.map_or(0x00, |c| c.to_byte()));
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From 82eb1afb46f9af475c78dd287bb7ce922cb385fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 07/23] fix: decode an AUTH packet without reason code and
 properties

---
 src/auth.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..d6e201b 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,10 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties can be omitted in case of success
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
-- 
2.43.0


From 7db03d1cf909eedd4f5b3ed175231df5159ebc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 08/23] fix: count the reason code in the remaining length of
 v5 confirmations

---
 src/confirmation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..1b7cf86 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,8 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            (Some(_), _) => length += 1 + properties_data.len() + props_len.len(),
+            (None, _) => {}
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From 17c17fc9b27ade00a52e37c93c937a20a05249cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 09/23] fix: write a zero property length for empty properties

---
 src/mqtt_writer.rs          | 6 ++++--
 src/structure/properties.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..7f6c063 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -97,15 +97,17 @@ impl MqttWriter {
 
     pub fn encode_variable_num(mut length: u32) -> Vec<u8> {
         let mut v = Vec::<u8>::with_capacity(4);
-        while length > 0 {
+        loop {
             let mut next = length % 128;
             length /= 128;
             if length > 0 {
                 next |= 0x80;
             }
             v.push(next as u8);
+            if length == 0 {
+                return v;
+            }
         }
-        v
     }
 
     pub fn write_variable_num(&mut self, num: u32) -> Res<()> {
diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..fc521e4 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -16,7 +16,7 @@ pub(crate) trait Properties: Sized {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         let pairs = self.to_pairs()?;
         if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
+            return Ok(vec![]); // empty properties
         }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
-- 
2.43.0


From 834bd39f80effacc0c59e6bc5fc9ef486d390001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 10/23] fix: refuse to encode a PUBLISH with an invalid QoS

---
 src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/publish.rs b/src/publish.rs
index 766e571..19bd228 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -61,6 +61,10 @@ impl Packet for PublishPacket {
         // Get the payload length
         length += payload.len();
 
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
+
         // Message ID must a number if qos > 0
         if *qos > 0 {
             if message_id.is_none() {
-- 
2.43.0


From 0ef4a53242e15fc7c0f00707c2f8629cc092f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 11/23] fix: refuse will QoS 3 in CONNECT

---
 src/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..cb83c77 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -78,6 +78,9 @@ impl Packet for ConnectPacket {
                 qos,
                 retain,
             } = will;
+            if *qos > 2 {
+                return Err("Invalid will QoS, must be <= 2".to_string());
+            }
             has_will = true;
             will_retain = *retain;
             will_qos = Some(qos);
@@ -278,6 +281,9 @@ impl ConnectFlags {
         }
         let connect_flags = ConnectFlags::new(connect_flags);
 
+        if connect_flags.will_qos > 2 {
+            return Err("Invalid will QoS, must be <= 2".to_string());
+        }
         if !connect_flags.will {
             if connect_flags.will_retain {
                 return Err(
-- 
2.43.0


From bd22051e61cc9e2f49f8b9e7ab3ec0989cda87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 12/23] fix: refuse to encode a will without topic

---
 src/connect.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index cb83c77..5054e36 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -86,12 +86,12 @@ impl Packet for ConnectPacket {
             will_qos = Some(qos);
             // It must have non-empty topic
             // add topic length if any
-            if let Some(t) = topic.as_ref() {
-                if t.is_empty() {
-                    return Err("Not allowed to use empty will topic".to_string());
+            match topic.as_ref() {
+                Some(t) if !t.is_empty() => {
+                    will_topic = t;
+                    length += t.len() + 2;
                 }
-                will_topic = t;
-                length += t.len() + 2;
+                _ => return Err("Not allowed to use empty will topic".to_string()),
             }
             // Payload
             length += 2; // payload length
-- 
2.43.0


From 8c4de5307159595bb107762d5b6c5229be6b6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 13/23] fix: refuse to encode a v3 confirmation of another
 packet type

---
 src/confirmation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index 1b7cf86..0eef782 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -212,7 +212,13 @@ impl Packet for ConfirmationPacket {
                 }
             }
         } else {
-            None
+            match cmd {
+                PacketType::Puback
+                | PacketType::Pubrec
+                | PacketType::Pubrel
+                | PacketType::Pubcomp => None,
+                t => return Err(format!("Invalid confirmation type {:?}", t)),
+            }
         };
 
         // properies mqtt 5
-- 
2.43.0


From 69063b5917f420992e6d767f6b56decb130d96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 14/23] fix: do not write reason codes into a v3 UNSUBACK

---
 src/unsuback.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..c0d9484 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,15 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
+        // only MQTT 5 has reason codes
+        let granted: &[UnsubackCode] = if protocol_version == 5 {
+            &self.granted
+        } else {
+            &[]
+        };
+
         // add length of unsubscriptions
-        length += self.granted.len();
+        length += granted.len();
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,7 +37,7 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
+        for g in granted.iter() {
             writer.write_u8(g.to_byte());
         }
         Ok(writer.into_vec())
-- 
2.43.0


From 7f7d2a30dc52fca3fb6925ebe0edc52acd233f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 15/23] fix: refuse to encode SUBSCRIBE, SUBACK and UNSUBSCRIBE
 without payload

---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 3 +++
 src/unsubscribe.rs | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..3408faa 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Invalid suback, no payload specified".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..d2d511a 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -91,6 +91,9 @@ impl Packet for SubscribePacket {
         let mut length = 2;
 
         // check subscriptions
+        if self.subscriptions.is_empty() {
+            return Err("Invalid subscriptions - no topics".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..4854479 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -9,6 +9,10 @@ impl Packet for UnsubscribePacket {
     // Check message ID
     let mut length = 2;
 
+    if self.unsubscriptions.is_empty() {
+      return Err("Invalid unsubscriptions - no topics".to_string());
+    }
+
     // add length of unsubscriptions
     length += self
       .unsubscriptions
-- 
2.43.0


From 8b09492ded42fcd60efb33121190d98c76c15427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 16/23] fix: refuse to encode strings and binary data longer
 than 65535 bytes

---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 45 +++++++++++++++++++++++++++++----------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 5054e36..8c0cbe4 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -152,24 +152,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index 7f6c063..cd34edc 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -123,29 +123,42 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
+    /// strings and binary data are prefixed with a 2 byte length
+    fn write_data_len(&mut self, len: usize) -> Res<()> {
+        if len > u16::MAX as usize {
+            return Err(format!("Data too long, {} > {} bytes", len, u16::MAX));
+        }
+        self.write_u16(len as u16);
+        Ok(())
+    }
+
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_data_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_data_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_data_len(s.len())?;
         self.write_vec(s);
+        Ok(())
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        self.write_data_len(s.len())?;
         self.write_slice(s);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 19bd228..ce17fde 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -90,7 +90,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index d2d511a..1d389f8 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -130,7 +130,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 4854479..0007b0e 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -38,7 +38,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From ae9052de1702e6f2561ffdefe0803342b429f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 17/23] fix: CONNACK availability properties default to
 available when absent

---
 src/structure/properties.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index fc521e4..155d65e 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -409,9 +409,9 @@ impl Default for ConnackProperties {
             maximum_qos: 2,
             // retained messages available by default
             retain_available: true,
-            wildcard_subscription_available: false,
-            subscription_identifiers_available: false,
-            shared_subscription_available: false,
+            wildcard_subscription_available: true,
+            subscription_identifiers_available: true,
+            shared_subscription_available: true,
         }
     }
 }
-- 
2.43.0


From 7b24492aa39b0d951a37ceded20f52ccd047969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 18/23] fix: do not allocate the announced length before the
 bytes arrived

---
 src/byte_reader.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 9660126..1287bf8 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -3,6 +3,8 @@ use std::io::{BufRead, BufReader, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
+// memory is only reserved for bytes that can be expected to arrive soon
+const READ_CHUNK: usize = 64 * 1024;
 
 pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
@@ -90,14 +92,22 @@ impl<R: Read> ByteReader<R> {
 
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
-        let mut buf = vec![0; len as usize];
-        match self.reader.read_exact(&mut buf) {
-            Ok(_) => {
-                self.limit(len);
-                Ok(buf)
+        let total = len as usize;
+        let mut buf = vec![0; total.min(READ_CHUNK)];
+        let mut filled = 0;
+        loop {
+            if let Err(e) = self.reader.read_exact(&mut buf[filled..]) {
+                return Err(format!("Failed to read {} bytes. Reason: {:?}", len, e));
             }
-            Err(e) => Err(format!("Failed to read {} bytes. Reason: {:?}", len, e)),
+            filled = buf.len();
+            if filled == total {
+                break;
+            }
+            // the announced length alone is no reason to allocate all of it
+            buf.resize(total.min(filled + READ_CHUNK), 0);
         }
+        self.limit(len);
+        Ok(buf)
     }
 
     pub fn read_u8(&mut self) -> Result<u8, String> {
-- 
2.43.0


From 8f1d6254376e1e877c6a868ae6390e583c09ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 19/23] fix: set the reserved flag bits of PUBREL when encoding
 a fixed header

---
 src/structure/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure/common.rs b/src/structure/common.rs
index 6076842..3a83e18 100644
--- a/src/structure/common.rs
+++ b/src/structure/common.rs
@@ -216,7 +216,7 @@ impl FixedHeader {
             PacketType::Publish => {
                 message_type | ((self.dup as u8) << 3) | (self.qos << 1) | self.retain as u8
             }
-            PacketType::Unsubscribe | PacketType::Subscribe => {
+            PacketType::Unsubscribe | PacketType::Subscribe | PacketType::Pubrel => {
                 message_type | 2 // Bits 3,2,1 and 0 need to ALWAYS be set to 0, 0, 1, 0 respectively
             }
             _ => message_type,
-- 
2.43.0


From 5f07a2aa7c8a27942f8b30c418ecacdcbabfb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 20/23] fix: let a PUBLISH with a topic alias leave out the
 topic name

---
 src/publish.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/publish.rs b/src/publish.rs
index ce17fde..75d17f0 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -54,7 +54,12 @@ impl Packet for PublishPacket {
 
         // Topic must be a non-empty string or Buffer
         length += 2 + topic.len();
-        if topic.is_empty() {
+        // unless a topic alias stands in for it
+        let has_alias = protocol_version == 5
+            && properties
+                .as_ref()
+                .map_or(false, |p| p.topic_alias.is_some());
+        if topic.is_empty() && !has_alias {
             return Err("Invalid topic".to_string());
         }
 
-- 
2.43.0


From 6a52072a99cf7424d2527a97c0d3b9221cb02438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 21/23] fix: refuse an empty topic filter when encoding
 UNSUBSCRIBE, as SUBSCRIBE does

---
 src/unsubscribe.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 0007b0e..7f1d9f2 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -12,6 +12,9 @@ impl Packet for UnsubscribePacket {
     if self.unsubscriptions.is_empty() {
       return Err("Invalid unsubscriptions - no topics".to_string());
     }
+    if self.unsubscriptions.iter().any(|unsub| unsub.is_empty()) {
+      return Err("Invalid unsubscriptions - empty topic".to_string());
+    }
 
     // add length of unsubscriptions
     length += self
-- 
2.43.0


From 686260b206c72289b009a228329345fde5b9ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 22/23] fix: repeat an interrupted read in has_more instead of
 reporting the end of the stream

---
 src/byte_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 1287bf8..19917a0 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -1,5 +1,5 @@
 use crate::structure::*;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
@@ -184,9 +184,13 @@ impl<R: Read> ByteReader<R> {
         }
         // without a limit rely on fill_buf
         // TODO: switch to a better way to do this
-        match self.reader.fill_buf() {
-            Ok(v) => !v.is_empty(),
-            Err(_) => false,
+        loop {
+            match self.reader.fill_buf() {
+                Ok(v) => return !v.is_empty(),
+                // an interrupted read says nothing about the stream, it has to be repeated
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(_) => return false,
+            }
         }
     }
 
-- 
2.43.0


From ea06f9e3c21f7c630e490e614de651369d511512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 23/23] fix: refuse a packet whose length does not fit the
 remaining length instead of truncating it to 32 bits

---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 8 ++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index d6e201b..70b7da8 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index 0eef782..b799065 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -247,7 +247,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..cc04b4c 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index 8c0cbe4..2080d15 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -129,7 +129,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index b700371..59d6d68 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -46,7 +46,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // reason code in header
         if protocol_version == 5 {
             let code = self.reason_code.as_ref();
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cd34edc..a351d72 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -123,6 +123,14 @@ impl MqttWriter {
         Ok(())
     }
 
+    /// writes the remaining length of a packet, which may be more than fits into 32 bits
+    pub(crate) fn write_length(&mut self, len: usize) -> Res<()> {
+        if len > VARBYTEINT_MAX as usize {
+            return Err(format!("Packet too long, {} bytes", len));
+        }
+        self.write_variable_num(len as u32)
+    }
+
     /// strings and binary data are prefixed with a 2 byte length
     fn write_data_len(&mut self, len: usize) -> Res<()> {
         if len > u16::MAX as usize {
diff --git a/src/publish.rs b/src/publish.rs
index 75d17f0..29635f5 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -92,7 +92,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index 3408faa..d2fb4f5 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -103,7 +103,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 1d389f8..5bde874 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -120,7 +120,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index c0d9484..68986cf 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -28,7 +28,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 7f1d9f2..88e164e 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -31,7 +31,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0

