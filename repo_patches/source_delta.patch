From 73d3c6e2b7bf7ea53e08171e0eee66ee01461a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:58 +0000
Subject: [PATCH 01/26] fix: truncated query and rows-query events are errors,
 not empty statements

---
 src/events/query_event.rs      | 4 ++--
 src/events/rows_query_event.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/events/query_event.rs b/src/events/query_event.rs
index e9f1160..dfc6d56 100644
--- a/src/events/query_event.rs
+++ b/src/events/query_event.rs
@@ -1,6 +1,6 @@
 use crate::{errors::Error, extensions::read_string};
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Read};
 
 /// Represents sql statement in binary log.
 /// <a href="https://mariadb.com/kb/en/library/query_event/">See more</a>
@@ -42,7 +42,7 @@ impl QueryEvent {
 
         // DatabaseName is null terminated
         let database_name = read_string(cursor, database_name_length as usize)?;
-        cursor.seek(SeekFrom::Current(1))?;
+        cursor.read_u8()?;
 
         let mut sql_statement = String::new();
         cursor.read_to_string(&mut sql_statement)?;
diff --git a/src/events/rows_query_event.rs b/src/events/rows_query_event.rs
index d29aa38..6634535 100644
--- a/src/events/rows_query_event.rs
+++ b/src/events/rows_query_event.rs
@@ -1,4 +1,5 @@
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use byteorder::ReadBytesExt;
+use std::io::{Cursor, Read};
 
 use crate::errors::Error;
 
@@ -14,7 +15,7 @@ pub struct RowsQueryEvent {
 impl RowsQueryEvent {
     /// Supports MySQL 5.6+.
     pub fn parse_mysql(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        cursor.seek(SeekFrom::Current(1))?;
+        cursor.read_u8()?;
 
         let mut query = String::new();
         cursor.read_to_string(&mut query)?;
-- 
2.43.0


From 448cbc085e5b9d1c5899aa6d162c75ce4389819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 02/26] fix: write complete packet bodies and refuse bodies
 that do not fit a packet

---
 src/packet_channel.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..eac12a8 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -32,10 +32,17 @@ impl PacketChannel {
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
+        if packet.len() >= MAX_BODY_LENGTH {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "The packet body doesn't fit one packet",
+            ));
+        }
+
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From fcc26faba927e54ba285bcfeb320ce437103857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 03/26] fix: an empty server reply is an error instead of a
 panic

---
 src/extensions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..523ec63 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -137,6 +137,9 @@ pub fn read_bitmap_big_endian(
 }
 
 pub fn check_error_packet(packet: &[u8], message: &str) -> Result<(), Error> {
+    if packet.is_empty() {
+        return Err(Error::String(format!("{} The packet is empty.", message)));
+    }
     if packet[0] == ResponseType::ERROR {
         let error = ErrorPacket::parse(&packet[1..])?;
         let message = format!("{} {:?}", message, error).to_string();
-- 
2.43.0


From 957771a35070ed23c572705a7f09eb7be256f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 04/26] fix: unterminated strings keep their last character

---
 src/extensions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 523ec63..9271ce0 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -46,7 +46,9 @@ pub fn xor(slice1: &[u8], slice2: &[u8]) -> Vec<u8> {
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
-    vec.pop();
+    if vec.last() == Some(&NULL_TERMINATOR) {
+        vec.pop();
+    }
     Ok(String::from_utf8(vec)?)
 }
 
-- 
2.43.0


From 3fd7b75182d321d5b0bdebce849b9f5806ff5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 05/26] fix: an empty password is authenticated by an empty
 proof

---
 src/extensions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 9271ce0..64a5936 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,10 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // An empty password is proved by an empty response
+    if password.is_empty() {
+        return Vec::new();
+    }
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From 2097d5514abcc610b608a7feb11ca7e02ad4228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 06/26] fix: packet sequence numbers wrap around instead of
 overflowing

---
 src/connect.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..eff13be 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num.wrapping_add(1))?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +45,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +61,12 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(
+                    channel,
+                    switch_packet,
+                    seq_num.wrapping_add(1),
+                    use_ssl,
+                )?;
                 Ok(())
             }
             _ => {
@@ -69,7 +74,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +105,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -149,7 +154,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
-- 
2.43.0


From 4f4ccc0af85b51303991cde2820c8da8650d3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:00 +0000
Subject: [PATCH 07/26] fix: accept an OK reply to a switch to
 caching_sha2_password

---
 src/connect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index eff13be..7ff8936 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -100,6 +100,10 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication switch error.")?;
 
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
         if switch_packet.auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
             self.authenticate_sha_256(
                 channel,
-- 
2.43.0


From cc7ec842198f5341034cff2e523457d4eda360db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:00 +0000
Subject: [PATCH 08/26] fix: malformed authentication replies are errors and
 the final reply is consumed

---
 src/connect.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 7ff8936..ed34687 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -112,8 +112,11 @@ impl BinlogClient {
                 seq_num.wrapping_add(1),
                 use_ssl,
             )?;
+            return Ok(());
         }
-        Ok(())
+        Err(Error::String(
+            "Unexpected reply to the authentication switch.".to_string(),
+        ))
     }
 
     fn authenticate_sha_256(
@@ -125,8 +128,16 @@ impl BinlogClient {
         use_ssl: bool,
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
+        if packet.len() < 2 || packet[0] != 0x01 {
+            return Err(Error::String(
+                "Unexpected reply to the authentication request.".to_string(),
+            ));
+        }
+
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet[1] == 0x03 {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
@@ -148,6 +159,9 @@ impl BinlogClient {
 
         // Extract public key.
         let public_key = &packet[1..];
+        if scramble.is_empty() {
+            return Err(Error::String("The scramble is empty.".to_string()));
+        }
         let encrypted_password = xor(&password, &scramble.as_bytes());
 
         let rsa = Rsa::public_key_from_pem(public_key)?;
-- 
2.43.0


From ed20de5a18b14d24479fa0bbc36060ce2c950d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:01 +0000
Subject: [PATCH 09/26] fix: a server error inside result set metadata fails
 the query

---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..f1f7f90 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -74,6 +74,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From cc74d8366ece2badf777c7abfeb364bd0525df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 10/26] fix: short result sets are errors and leave the saved
 position unchanged

---
 src/configure.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index f1f7f90..5a49f53 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -23,14 +23,15 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
 
         let result_set = self.read_result_set(channel)?;
-        if result_set.len() != 1 {
+        if result_set.len() != 1 || result_set[0].cells.len() < 2 {
             return Err(Error::String(
                 "Could not read master binlog position.".to_string(),
             ));
         }
 
+        let position = result_set[0].cells[1].parse()?;
         self.options.binlog.filename = result_set[0].cells[0].clone();
-        self.options.binlog.position = result_set[0].cells[1].parse()?;
+        self.options.binlog.position = position;
         Ok(())
     }
 
@@ -59,6 +60,12 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
         let result_set = self.read_result_set(channel)?;
 
+        if result_set.is_empty() || result_set[0].cells.is_empty() {
+            return Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            ));
+        }
+
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
         Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
-- 
2.43.0


From f2ce2e8d67d91b5cd5938b61dad58d13bbad8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 11/26] fix: lengths read from the input are checked against it
 before allocating

---
 src/events/row_events/col_parser.rs |  3 ++-
 src/events/table_map_event.rs       |  5 ++++-
 src/extensions.rs                   | 16 ++++++++++++++--
 src/metadata/table_metadata.rs      |  6 ++++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..a7d807a 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{ensure_available, read_bitmap_big_endian, read_string};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -22,6 +22,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
     let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    ensure_available(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..83df3a3 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,6 +1,8 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{
+    ensure_available, read_bitmap_little_endian, read_len_enc_num, read_string,
+};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -50,6 +52,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
+        ensure_available(cursor, columns_number)?;
         let mut column_types = vec![0u8; columns_number];
         cursor.read_exact(&mut column_types)?;
 
diff --git a/src/extensions.rs b/src/extensions.rs
index 64a5936..46e59ba 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -65,7 +65,17 @@ pub fn write_null_term_string(
     Ok(())
 }
 
+/// Checks that the cursor has the given number of bytes before they are allocated and read
+pub fn ensure_available(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let length = cursor.get_ref().len() as u64;
+    if cursor.position() > length || size as u64 > length - cursor.position() {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+    Ok(())
+}
+
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    ensure_available(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
     Ok(String::from_utf8(vec)?)
@@ -107,8 +117,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    ensure_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -127,8 +138,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    ensure_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..0dbfa66 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{ensure_available, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
@@ -66,6 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
+            ensure_available(cursor, metadata_length)?;
             let mut metadata = vec![0u8; metadata_length];
             cursor.read_exact(&mut metadata)?;
 
@@ -183,8 +184,9 @@ fn read_bitmap_reverted(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    ensure_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
-- 
2.43.0


From 66966fac8dde543b165528cad121afb76a3acc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 12/26] fix: row events that do not match their table map are
 errors

---
 src/events/row_events/row_parser.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..5fdfd3f 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -19,6 +19,9 @@ pub const TABLE_MAP_NOT_FOUND: &str =
     "No preceding TableMapEvent event was found for the row event. \
 You possibly started replication in the middle of logical event group.";
 
+const COLUMNS_MISMATCH: &str = "The row event doesn't have the columns of its TableMapEvent.";
+const NO_COLUMNS: &str = "The row event has row data but no columns.";
+
 /// Parsing row based events.
 /// See <a href="https://mariadb.com/kb/en/library/rows_event_v1/">MariaDB rows version 1</a>
 /// See <a href="https://dev.mysql.com/doc/internals/en/rows-event.html#write-rows-eventv2">MySQL rows version 1/2</a>
@@ -35,9 +38,16 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    if columns_present.len() != table.column_types.len() {
+        return Err(Error::String(COLUMNS_MISMATCH.to_string()));
+    }
+
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        if cells_included == 0 {
+            return Err(Error::String(NO_COLUMNS.to_string()));
+        }
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
     }
     Ok(rows)
@@ -55,10 +65,19 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    if columns_before_update.len() != table.column_types.len()
+        || columns_after_update.len() != table.column_types.len()
+    {
+        return Err(Error::String(COLUMNS_MISMATCH.to_string()));
+    }
+
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        if cells_included_before_update == 0 && cells_included_after_update == 0 {
+            return Err(Error::String(NO_COLUMNS.to_string()));
+        }
         let row_before_update = parse_row(
             cursor,
             table,
@@ -86,6 +105,12 @@ pub fn parse_head(
     // Ignore extra data from newer versions of events
     if row_event_version == 2 {
         let extra_data_length = cursor.read_u16::<LittleEndian>()?;
+        if extra_data_length < 2 {
+            return Err(Error::String(format!(
+                "Invalid extra data length {}",
+                extra_data_length
+            )));
+        }
         let skip = extra_data_length as i64 - 2;
         cursor.seek(SeekFrom::Current(skip))?;
     }
-- 
2.43.0


From 62f0f48bbfb424e61a19c32410f4838d62c8c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:35 +0000
Subject: [PATCH 13/26] fix: impossible column metadata is an error instead of
 a panic

---
 src/events/row_events/col_parser.rs | 16 +++++++++++++++-
 src/events/row_events/decimal.rs    |  6 ++++++
 src/events/row_events/row_parser.rs |  6 +++---
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index a7d807a..3d9ddf6 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -20,8 +20,16 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
     Ok(bitmap)
 }
 
+/// Reads little-endian integer of the given number of bytes
+pub fn parse_uint(cursor: &mut Cursor<&[u8]>, size: u16) -> Result<u64, Error> {
+    if size == 0 || size > 8 {
+        return Err(Error::String(format!("Invalid integer size {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size as usize)?)
+}
+
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = parse_uint(cursor, metadata)? as usize;
     ensure_available(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
@@ -159,6 +167,12 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > 6 {
+        return Err(Error::String(format!(
+            "Invalid fractional seconds precision {}",
+            metadata
+        )));
+    }
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..dfba7af 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Invalid DECIMAL({},{}) column",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 5fdfd3f..baa6ccf 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -2,7 +2,7 @@ use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
 use crate::events::row_events::col_parser::{
     parse_bit, parse_blob, parse_date, parse_date_time, parse_date_time2, parse_string, parse_time,
-    parse_time2, parse_timestamp, parse_timestamp2, parse_year,
+    parse_time2, parse_timestamp, parse_timestamp2, parse_uint, parse_year,
 };
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
@@ -174,10 +174,10 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
+            MySqlValue::Enum(parse_uint(cursor, metadata)? as u32)
         }
         ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Set(parse_uint(cursor, metadata)?)
         }
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
-- 
2.43.0


From 49c9a949c5b2bc51b160297029575aac95c0bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:35 +0000
Subject: [PATCH 14/26] fix: the format description checksum test no longer
 wraps in 8 bits

---
 src/events/format_description_event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..e0e162e 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,9 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        if payload_length as i64
+            != header.event_length as i64 - constants::EVENT_HEADER_SIZE as i64
+        {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From e0ed5040f091db382e94afecacb4caf532cf0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 15/26] fix: an event shorter than its checksum is an error

---
 src/events/event_parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..4c411b3 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -46,6 +46,11 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
+            ChecksumType::Crc32 if slice.len() < 4 => {
+                return Err(Error::String(
+                    "The event is too short to have a checksum".to_string(),
+                ))
+            }
             ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
         };
 
-- 
2.43.0


From 5947ab18d9923a5ca2d02087f163369264a7ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 16/26] fix: short packets in the event stream are errors

---
 src/binlog_events.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binlog_events.rs b/src/binlog_events.rs
index ba7edfb..12b9b00 100644
--- a/src/binlog_events.rs
+++ b/src/binlog_events.rs
@@ -23,6 +23,9 @@ impl BinlogEvents {
     }
 
     pub fn read_event(&mut self, packet: &[u8]) -> Result<(EventHeader, BinlogEvent), Error> {
+        if packet.len() < 1 + EVENT_HEADER_SIZE {
+            return Err(Error::String("The event packet is too short".to_string()));
+        }
         let header = EventHeader::parse(&packet[1..])?;
         let event_slice = &packet[1 + EVENT_HEADER_SIZE..];
         let event = self.parser.parse_event(&header, event_slice)?;
@@ -45,6 +48,9 @@ impl Iterator for BinlogEvents {
             Ok(x) => x,
             Err(e) => return Some(Err(Error::IoError(e))),
         };
+        if packet.is_empty() {
+            return Some(Err(Error::String("The packet is empty".to_string())));
+        }
         match packet[0] {
             ResponseType::OK => Some(self.read_event(&packet)),
             ResponseType::ERROR => Some(self.read_error(&packet)),
-- 
2.43.0


From 6eb764c8960bdf9242da714a0381e2312348051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 17/26] fix: an event length smaller than the header is an
 error

---
 src/binlog_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..a83743c 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,6 +42,9 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
+        if (header.event_length as usize) < EVENT_HEADER_SIZE {
+            return Err(Error::String("Invalid event length".to_string()));
+        }
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             let mut vec: Vec<u8> = vec![0; payload_length];
-- 
2.43.0


From 841f0cfb5d5ad71a93e1d46d2b05c15b1d39e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 18/26] fix: a corrupted event length does not allocate more
 than the file holds

---
 src/binlog_reader.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index a83743c..eeba82b 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -5,7 +5,7 @@ use crate::events::event_header::EventHeader;
 use crate::events::event_parser::EventParser;
 use constants::EVENT_HEADER_SIZE;
 use std::fs::File;
-use std::io::{ErrorKind, Read};
+use std::io::{self, ErrorKind, Read};
 
 const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0x6e];
 
@@ -47,9 +47,14 @@ impl BinlogReader {
         }
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
-            let mut vec: Vec<u8> = vec![0; payload_length];
+            // The length may be corrupted so the memory is allocated as the file is read.
+            let mut vec: Vec<u8> = Vec::new();
 
-            self.stream.read_exact(&mut vec)?;
+            let mut payload = self.stream.by_ref().take(payload_length as u64);
+            payload.read_to_end(&mut vec)?;
+            if vec.len() < payload_length {
+                return Err(Error::from(io::Error::from(ErrorKind::UnexpectedEof)));
+            }
             let binlog_event = self.parser.parse_event(&header, &vec)?;
             Ok((header, binlog_event))
         } else {
-- 
2.43.0


From 1f76c07e3983d6a9580712247a721cda5ffec181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 19/26] fix: an undecodable event is yielded as an error
 instead of ending the file

---
 src/binlog_reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index eeba82b..2926629 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -55,18 +55,26 @@ impl BinlogReader {
             if vec.len() < payload_length {
                 return Err(Error::from(io::Error::from(ErrorKind::UnexpectedEof)));
             }
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = self.parser.parse_event(&header, &vec).map_err(decode_error)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = self.parser.parse_event(&header, slice).map_err(decode_error)?;
             Ok((header, binlog_event))
         }
     }
 }
 
+/// A payload that ends too early is corrupted and is not the end of the file.
+fn decode_error(error: Error) -> Error {
+    match error {
+        Error::IoError(x) => Error::String(format!("Could not decode the event: {}", x)),
+        x => x,
+    }
+}
+
 impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
-- 
2.43.0


From 86a673fa4595ec203c6a1b30b78160f315f474b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 20/26] fix: an empty interval in a previous gtids event is an
 error

---
 src/providers/mysql/events/prev_gtids_event.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..6f649d9 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,12 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String(format!(
+                        "Invalid interval {}-{}",
+                        start, end
+                    )));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
-- 
2.43.0


From fe209d864e4b576ec746ffc65b6de29686561166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 21/26] fix: the largest transaction id no longer overflows

---
 src/commands/dump_binlog_gtid_command.rs | 3 ++-
 src/providers/mysql/gtid/uuid_set.rs     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..b259de1 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,8 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                let end = interval.end.checked_add(1).ok_or(io::ErrorKind::InvalidInput)?;
+                cursor.write_u64::<LittleEndian>(end)?;
             }
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..7bea471 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -37,10 +37,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if Some(interval.start) == gtid.transaction_id.checked_add(1) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
@@ -88,7 +88,7 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
+        if left.end.checked_add(1) == Some(right_start) {
             left.end = right_end;
             intervals.remove(index + 1);
         } else {
-- 
2.43.0


From 41f6a8d479a62ea0fd0e35cb8bdb11f39083f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 22/26] fix: a uuid has exactly 16 bytes and one text form

---
 src/providers/mysql/gtid/uuid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..a5daf1a 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,10 +24,14 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
+        if vec.len() != 16 {
+            return Err(Error::String(format!("Invalid uuid {}", uuid)));
+        }
+
         let mut data = [0u8; 16];
         (0..16).for_each(|i| data[i] = vec[i]);
 
-        Ok(Self { data, uuid })
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From dc28f127aa9d6c15b403448e71b2a27ec9ba56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 23/26] fix: a mariadb gtid has exactly three components

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 4c8cb583102b7f3aa2234fb5ff0a5165b07e182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 24/26] fix: a mariadb gtid event begins a transaction

---
 src/binlog_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..15118b2 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -74,6 +74,8 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // The event begins a transaction unless it's flagged as standalone.
+                self.transaction = x.flags & 1 == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From d476b871178ea4ec601dd8259a57e5a33d7a8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 25/26] fix: unordered, overlapping and repeated intervals of a
 gtid set are merged

---
 src/providers/mysql/gtid/gtid_set.rs | 6 +++++-
 src/providers/mysql/gtid/uuid_set.rs | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..56e6a80 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -50,6 +50,10 @@ impl GtidSet {
                 };
                 intervals.push(interval);
             }
+            // The same server may be listed several times
+            if let Some(uuid_set) = result.remove(&source_id.uuid) {
+                intervals.extend(uuid_set.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 7bea471..8713401 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end.checked_add(1) == Some(right_start) {
-            left.end = right_end;
+        if right_start <= left.end || left.end.checked_add(1) == Some(right_start) {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From 9d279020657c1f81ed078c06ccf87ba0f8f90802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 26/26] fix: malformed gtid set text is an error

---
 src/providers/mysql/gtid/gtid_set.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 56e6a80..bc81164 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -34,6 +34,9 @@ impl GtidSet {
 
         let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
+            if uuid_set.chars().nth(UUID_LENGTH) != Some(':') {
+                return Err(Error::String(format!("Invalid gtid set {}", uuid_set)));
+            }
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
 
@@ -48,6 +51,9 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.start > interval.end {
+                    return Err(Error::String(format!("Invalid interval {}", token)));
+                }
                 intervals.push(interval);
             }
             // The same server may be listed several times
-- 
2.43.0

