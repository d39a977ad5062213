From 56bcc58e3e61ac0fd38cf27b767316b5ff32e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 01/23] fix: previous-GTIDs event with an empty interval
 underflows

---
 src/providers/mysql/events/prev_gtids_event.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..ac390b2 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,12 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String(format!(
+                        "Invalid gtid interval {}-{}",
+                        start, end
+                    )));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
-- 
2.43.0


From fef1c2e596b05f84db1c5f3d5210fec4604e70d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 02/23] fix: format description event shorter than 19 modulo
 256 bytes overflows

---
 src/events/format_description_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..865896f 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,8 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_length = header.event_length as u8;
+        if payload_length != event_length.wrapping_sub(constants::EVENT_HEADER_SIZE as u8) {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From 8a4ed4d3833fb2d414c76bb926930330bb0a7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 03/23] fix: events and packets shorter than their fixed parts
 panic, file reader trusts the event length

---
 src/binlog_events.rs       |  6 +++++-
 src/binlog_reader.rs       | 18 +++++++++++++++---
 src/events/event_parser.rs |  8 +++++++-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/binlog_events.rs b/src/binlog_events.rs
index ba7edfb..ff0cf17 100644
--- a/src/binlog_events.rs
+++ b/src/binlog_events.rs
@@ -45,7 +45,11 @@ impl Iterator for BinlogEvents {
             Ok(x) => x,
             Err(e) => return Some(Err(Error::IoError(e))),
         };
-        match packet[0] {
+        let status = match packet.first() {
+            Some(x) => *x,
+            None => return Some(Err(Error::String("Empty network packet".to_string()))),
+        };
+        match status {
             ResponseType::OK => Some(self.read_event(&packet)),
             ResponseType::ERROR => Some(self.read_error(&packet)),
             ResponseType::END_OF_FILE => {
diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..e2f5de9 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,11 +42,23 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
-        let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
+        let payload_length = match (header.event_length as usize).checked_sub(EVENT_HEADER_SIZE) {
+            Some(x) => x,
+            None => {
+                return Err(Error::String(format!(
+                    "Invalid event length {}",
+                    header.event_length
+                )))
+            }
+        };
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
-            let mut vec: Vec<u8> = vec![0; payload_length];
+            // The length is not trusted until the bytes are read
+            let mut vec: Vec<u8> = Vec::new();
+            let mut payload = (&mut self.stream).take(payload_length as u64);
 
-            self.stream.read_exact(&mut vec)?;
+            if payload.read_to_end(&mut vec)? < payload_length {
+                return Err(Error::IoError(ErrorKind::UnexpectedEof.into()));
+            }
             let binlog_event = self.parser.parse_event(&header, &vec)?;
             Ok((header, binlog_event))
         } else {
diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..d624434 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -22,6 +22,9 @@ use crate::providers::mysql::events::prev_gtids_event::PreviousGtidsEvent;
 use std::collections::HashMap;
 use std::io::Cursor;
 
+/// Size of CRC32 checksum at the end of an event.
+const CHECKSUM_SIZE: usize = 4;
+
 pub struct EventParser {
     /// Gets checksum algorithm type used in a binlog file.
     pub checksum_type: ChecksumType,
@@ -46,7 +49,10 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 if slice.len() < CHECKSUM_SIZE => {
+                return Err(Error::String("Event is too short".to_string()))
+            }
+            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - CHECKSUM_SIZE]),
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
-- 
2.43.0


From 3fb7904b616e24fe1fbfbcf627386dd0a7fac901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 04/23] fix: malformed lengths, type metadata and column counts
 in table map and row events panic, exhaust memory or loop forever

---
 src/events/row_events/col_parser.rs | 19 ++++++++++-----
 src/events/row_events/decimal.rs    |  6 +++++
 src/events/row_events/row_parser.rs | 31 ++++++++++++++++++++++---
 src/events/table_map_event.rs       |  7 +++---
 src/extensions.rs                   | 36 ++++++++++++++++++++++++++---
 src/metadata/table_metadata.rs      |  8 +++----
 6 files changed, 86 insertions(+), 21 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..59f1b43 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,8 +1,10 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{
+    read_bitmap_big_endian, read_bytes, read_string, read_uint_little_endian,
+};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::Cursor;
 
 pub fn parse_string(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let length = if metadata < 256 {
@@ -21,10 +23,8 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
-    let mut vec = vec![0; length];
-    cursor.read_exact(&mut vec)?;
-    Ok(vec)
+    let length = read_uint_little_endian(cursor, metadata as usize)? as usize;
+    Ok(read_bytes(cursor, length)?)
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
@@ -163,6 +163,13 @@ fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u6
         return Ok(0);
     }
 
+    if length > 3 {
+        return Err(Error::String(format!(
+            "Invalid fractional seconds precision {}",
+            metadata
+        )));
+    }
+
     let fraction = cursor.read_uint::<BigEndian>(length as usize)?;
     Ok(fraction * u64::pow(100, 3 - length as u32))
 }
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..2af10e3 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Invalid decimal type ({},{})",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..28ee7fb 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_uint_little_endian};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -35,9 +35,11 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_present)?;
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        check_row_size(cells_included)?;
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
     }
     Ok(rows)
@@ -55,10 +57,13 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_before_update)?;
+    check_columns_number(table, columns_after_update)?;
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        check_row_size(cells_included_before_update + cells_included_after_update)?;
         let row_before_update = parse_row(
             cursor,
             table,
@@ -94,6 +99,26 @@ pub fn parse_head(
     Ok((table_id, flags, columns_number))
 }
 
+/// Number of columns in a row event has to match the preceding TableMapEvent.
+fn check_columns_number(table: &TableMapEvent, columns: &Vec<bool>) -> Result<(), Error> {
+    if columns.len() != table.column_types.len() {
+        return Err(Error::String(
+            "Number of columns in the row event doesn't match the TableMapEvent.".to_string(),
+        ));
+    }
+    Ok(())
+}
+
+/// Rows without any columns have no size, so bytes which are left can't belong to a row.
+fn check_row_size(cells_included: usize) -> Result<(), Error> {
+    if cells_included == 0 {
+        return Err(Error::String(
+            "The row event has data but doesn't include any columns.".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 pub fn parse_row(
     cursor: &mut Cursor<&[u8]>,
     table_map: &TableMapEvent,
@@ -149,10 +174,10 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
+            MySqlValue::Enum(read_uint_little_endian(cursor, metadata as usize)? as u32)
         }
         ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Set(read_uint_little_endian(cursor, metadata as usize)? as u64)
         }
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..b1b6df9 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,9 +1,9 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{read_bitmap_little_endian, read_bytes, read_len_enc_num, read_string};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Seek, SeekFrom};
 
 /// The event has table defition for row events.
 /// <a href="https://mariadb.com/kb/en/library/table_map_event/">See more</a>
@@ -50,8 +50,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
-        let mut column_types = vec![0u8; columns_number];
-        cursor.read_exact(&mut column_types)?;
+        let column_types = read_bytes(cursor, columns_number)?;
 
         let _metadata_length = read_len_enc_num(cursor)?;
         let column_metadata = TableMapEvent::parse_metadata(cursor, &column_types)?;
diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..f82d0d2 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -60,9 +60,37 @@ pub fn write_null_term_string(
 }
 
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    let vec = read_bytes(cursor, size)?;
+    Ok(String::from_utf8(vec)?)
+}
+
+/// Reads the exact number of bytes. Doesn't trust the size until the bytes are known to be there.
+pub fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, io::Error> {
+    check_remaining(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
-    Ok(String::from_utf8(vec)?)
+    Ok(vec)
+}
+
+/// Reads little-endian integer of the size which was received from the server.
+pub fn read_uint_little_endian(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<u64, Error> {
+    if size < 1 || size > 8 {
+        return Err(Error::String(format!("Invalid integer size {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size)?)
+}
+
+fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let length = cursor.get_ref().len() as u64;
+    if length.saturating_sub(cursor.position()) < size as u64 {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(())
+}
+
+/// Gets number of bytes in a bitmap.
+fn get_bitmap_size(bits_number: usize) -> usize {
+    bits_number / 8 + (bits_number % 8 + 7) / 8
 }
 
 pub fn read_len_enc_str(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
@@ -101,8 +129,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = get_bitmap_size(bits_number);
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -121,8 +150,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = get_bitmap_size(bits_number);
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..150e343 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,10 +1,10 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{read_bytes, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
-use std::io::{self, Cursor, Read};
+use std::io::{self, Cursor};
 
 /// Contains metadata for table columns.
 /// <a href="https://dev.mysql.com/doc/dev/mysql-server/latest/classbinary__log_1_1Table__map__event.html">See more</a>
@@ -66,9 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
-            let mut metadata = vec![0u8; metadata_length];
-            cursor.read_exact(&mut metadata)?;
-
+            let metadata = read_bytes(cursor, metadata_length)?;
             let mut buffer = Cursor::new(metadata.as_slice());
             match metadata_type {
                 MetadataType::Signedness => {
-- 
2.43.0


From b6158f85827d6658ecd783d183e4ccdc349830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 05/23] fix: short or unexpected packets panic during
 connection and session setup

---
 src/configure.rs  | 19 ++++++++++++++++---
 src/connect.rs    | 18 +++++++++++-------
 src/extensions.rs |  3 +++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..4fed1b1 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -29,8 +29,16 @@ impl BinlogClient {
             ));
         }
 
-        self.options.binlog.filename = result_set[0].cells[0].clone();
-        self.options.binlog.position = result_set[0].cells[1].parse()?;
+        let cells = &result_set[0].cells;
+        if cells.len() < 2 {
+            return Err(Error::String(
+                "Could not read master binlog position.".to_string(),
+            ));
+        }
+
+        let position = cells[1].parse()?;
+        self.options.binlog.filename = cells[0].clone();
+        self.options.binlog.position = position;
         Ok(())
     }
 
@@ -61,7 +69,12 @@ impl BinlogClient {
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
+        match result_set.first().and_then(|x| x.cells.first()) {
+            Some(checksum) => Ok(ChecksumType::from_name(checksum)?),
+            None => Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            )),
+        }
     }
 
     fn read_result_set(
diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..d8386d4 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num.wrapping_add(1))?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +45,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +61,7 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(channel, switch_packet, seq_num.wrapping_add(1), use_ssl)?;
                 Ok(())
             }
             _ => {
@@ -69,7 +69,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +100,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -117,7 +117,7 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet.starts_with(&[0x01, 0x03]) {
             return Ok(());
         }
 
@@ -137,6 +137,10 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Requesting caching_sha2_password public key.")?;
 
+        if scramble.is_empty() {
+            return Err(Error::String("Scramble is empty".to_string()));
+        }
+
         // Extract public key.
         let public_key = &packet[1..];
         let encrypted_password = xor(&password, &scramble.as_bytes());
@@ -149,7 +153,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
diff --git a/src/extensions.rs b/src/extensions.rs
index f82d0d2..3176527 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -167,6 +167,9 @@ pub fn read_bitmap_big_endian(
 }
 
 pub fn check_error_packet(packet: &[u8], message: &str) -> Result<(), Error> {
+    if packet.is_empty() {
+        return Err(Error::String(format!("{} Empty packet", message)));
+    }
     if packet[0] == ResponseType::ERROR {
         let error = ErrorPacket::parse(&packet[1..])?;
         let message = format!("{} {:?}", message, error).to_string();
-- 
2.43.0


From 17cd1395e070d871d87f4ae1153e115bf6474d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 06/23] fix: error packet among result set metadata is skipped

---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index 4fed1b1..1d10642 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -87,6 +87,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Result set metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From eb52acf602aad94381a78c34b76b8c2d07d572ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:17 +0000
Subject: [PATCH 07/23] fix: a packet may be sent only in part

---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..5b08041 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -35,7 +35,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 38c6097ae4dd3d9579b4c628e03ec2d0ec718bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 08/23] fix: account without a password cannot be authenticated

---
 src/extensions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 3176527..26116e2 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // Accounts without a password expect an empty response
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From df7793974266bbac209c4fc541bc7e629f67e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 09/23] fix: caching_sha2_password proof concatenates the hash
 and the scramble in wrong order

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 26116e2..440de79 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -22,7 +22,7 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From 35ee451ee89c5ccb7a210ca6bd983d37f47590fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/23] fix: last byte of a string without null terminator is
 dropped

---
 src/extensions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 440de79..cdddbc9 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -51,7 +51,9 @@ pub fn xor(slice1: &[u8], slice2: &[u8]) -> Vec<u8> {
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
-    vec.pop();
+    if vec.last() == Some(&NULL_TERMINATOR) {
+        vec.pop();
+    }
     Ok(String::from_utf8(vec)?)
 }
 
-- 
2.43.0


From 1b4461232fe414b0dfd915e277027a3db6930012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 11/23] fix: authentication result is not read after cached
 caching_sha2_password login, and other replies are taken for success

---
 src/connect.rs | 55 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index d8386d4..e4646ed 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -65,6 +65,7 @@ impl BinlogClient {
                 Ok(())
             }
             _ => {
+                check_sha_256(&handshake.auth_plugin_name)?;
                 self.authenticate_sha_256(
                     channel,
                     &packet,
@@ -95,15 +96,18 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication switch error.")?;
 
-        if switch_packet.auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
-            self.authenticate_sha_256(
-                channel,
-                &packet,
-                &switch_packet.auth_plugin_data,
-                seq_num.wrapping_add(1),
-                use_ssl,
-            )?;
+        if packet[0] == ResponseType::OK {
+            return Ok(());
         }
+
+        check_sha_256(&switch_packet.auth_plugin_name)?;
+        self.authenticate_sha_256(
+            channel,
+            &packet,
+            &switch_packet.auth_plugin_data,
+            seq_num.wrapping_add(1),
+            use_ssl,
+        )?;
         Ok(())
     }
 
@@ -118,7 +122,10 @@ impl BinlogClient {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
         if packet.starts_with(&[0x01, 0x03]) {
-            return Ok(());
+            return self.read_authentication_result(channel, "Authentication error.");
+        }
+        if !packet.starts_with(&[0x01, 0x04]) {
+            return Err(unexpected_packet());
         }
 
         let mut password = self.options.password.as_bytes().to_vec();
@@ -127,9 +134,7 @@ impl BinlogClient {
         // Send clear password if ssl is used.
         if use_ssl {
             channel.write_packet(&password, seq_num)?;
-            let (packet, _seq_num) = channel.read_packet()?;
-            check_error_packet(&packet, "Sending clear password error.")?;
-            return Ok(());
+            return self.read_authentication_result(channel, "Sending clear password error.");
         }
 
         // Request public key.
@@ -154,8 +159,20 @@ impl BinlogClient {
         )?;
 
         channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
+        self.read_authentication_result(channel, "Authentication error.")
+    }
+
+    /// Authentication is over only when the server sends OK or error packet.
+    fn read_authentication_result(
+        &self,
+        channel: &mut PacketChannel,
+        message: &str,
+    ) -> Result<(), Error> {
         let (packet, _seq_num) = channel.read_packet()?;
-        check_error_packet(&packet, "Authentication error.")?;
+        check_error_packet(&packet, message)?;
+        if packet[0] != ResponseType::OK {
+            return Err(unexpected_packet());
+        }
         Ok(())
     }
 
@@ -170,3 +187,15 @@ impl BinlogClient {
         Err(Error::String(message.to_string()))
     }
 }
+
+/// Only caching_sha2_password has additional steps.
+fn check_sha_256(auth_plugin_name: &String) -> Result<(), Error> {
+    if auth_plugin_name != auth_plugin_names::CACHING_SHA2_PASSWORD {
+        return Err(unexpected_packet());
+    }
+    Ok(())
+}
+
+fn unexpected_packet() -> Error {
+    Error::String("Unexpected packet during authentication".to_string())
+}
-- 
2.43.0


From ab4d88e1913b1f94694f88ff3181577eba7fe3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 12/23] fix: heartbeat interval is truncated to milliseconds

---
 src/configure.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index 1d10642..77b9ee8 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -43,8 +43,7 @@ impl BinlogClient {
     }
 
     pub fn set_master_heartbeat(&mut self, channel: &mut PacketChannel) -> Result<(), Error> {
-        let milliseconds = self.options.heartbeat_interval.as_millis();
-        let nanoseconds = milliseconds * 1000 * 1000;
+        let nanoseconds = self.options.heartbeat_interval.as_nanos();
         let query = format!("set @master_heartbeat_period={}", nanoseconds);
         let command = QueryCommand::new(query.to_string());
         channel.write_packet(&command.serialize()?, 0)?;
-- 
2.43.0


From 08f7c1dabf68e2934f5707581d44c46e1ed4be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:04 +0000
Subject: [PATCH 13/23] fix: YEAR 0000 is decoded as 1900

---
 src/events/row_events/col_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 59f1b43..2269fb7 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -28,7 +28,9 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    let value = cursor.read_u8()? as u16;
+    // Zero is stored for 0000 year
+    Ok(if value == 0 { 0 } else { 1900 + value })
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From eba7da9f7bf41834fedb40d781f25ef9f5b2bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:05 +0000
Subject: [PATCH 14/23] fix: flags of MariaDB GTID list event are taken for a
 part of the count

---
 src/providers/mariadb/events/gtid_list_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/events/gtid_list_event.rs b/src/providers/mariadb/events/gtid_list_event.rs
index 18443e6..433dcdb 100644
--- a/src/providers/mariadb/events/gtid_list_event.rs
+++ b/src/providers/mariadb/events/gtid_list_event.rs
@@ -14,7 +14,8 @@ pub struct GtidListEvent {
 impl GtidListEvent {
     /// Parses events in MariaDB.
     pub fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        let gtid_list_len = cursor.read_u32::<LittleEndian>()?;
+        // Higher 4 bits are flags
+        let gtid_list_len = cursor.read_u32::<LittleEndian>()? & 0x0FFFFFFF;
 
         let mut gtid_list = GtidList::new();
         for _i in 0..gtid_list_len {
-- 
2.43.0


From 5f181e0c11a8b7beb50694d70b2282eda6891faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 15/23] fix: malformed event silently ends reading of a binlog
 file

---
 src/binlog_reader.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e2f5de9..e8b62ac 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -5,7 +5,7 @@ use crate::events::event_header::EventHeader;
 use crate::events::event_parser::EventParser;
 use constants::EVENT_HEADER_SIZE;
 use std::fs::File;
-use std::io::{ErrorKind, Read};
+use std::io::{self, ErrorKind, Read};
 
 const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0x6e];
 
@@ -59,13 +59,13 @@ impl BinlogReader {
             if payload.read_to_end(&mut vec)? < payload_length {
                 return Err(Error::IoError(ErrorKind::UnexpectedEof.into()));
             }
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = self.parser.parse_event(&header, &vec).map_err(invalid_event)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = self.parser.parse_event(&header, slice).map_err(invalid_event)?;
             Ok((header, binlog_event))
         }
     }
@@ -86,3 +86,13 @@ impl Iterator for BinlogReader {
         Some(result)
     }
 }
+
+/// End of an event's payload must not be taken for end of the stream.
+fn invalid_event(error: Error) -> Error {
+    match error {
+        Error::IoError(x) if x.kind() == ErrorKind::UnexpectedEof => {
+            Error::IoError(io::Error::new(ErrorKind::InvalidData, x))
+        }
+        x => x,
+    }
+}
-- 
2.43.0


From e0af04fe5f98853b9696ea3b404f2add396472fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:57 +0000
Subject: [PATCH 16/23] fix: GTID is recorded inside MariaDB, XA and
 interrupted transactions and is not recorded at XA PREPARE

---
 src/binlog_client.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..2326089 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -3,6 +3,7 @@ use crate::constants::database_provider::DatabaseProvider;
 use crate::errors::Error;
 use crate::events::binlog_event::BinlogEvent;
 use crate::events::event_header::EventHeader;
+use crate::events::event_type::EventType;
 use crate::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
 use crate::providers::mariadb::mariadb_provider::replicate_mariadb;
 use crate::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
@@ -11,6 +12,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// Flag of a MariaDB event group which is a single statement without transaction end.
+const MARIADB_FL_STANDALONE: u8 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -62,11 +66,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -74,9 +78,13 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // Transactions in MariaDB have no BEGIN, the gtid event starts them
+                self.transaction = (x.flags & MARIADB_FL_STANDALONE) == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
+                // Previous transaction is over even if it was interrupted
+                self.transaction = false;
             }
             BinlogEvent::XidEvent(_) => {
                 self.commit_gtid();
@@ -85,16 +93,25 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START") {
                     self.transaction = true;
-                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
+                } else if x.sql_statement == "COMMIT"
+                    || x.sql_statement == "ROLLBACK"
+                    || x.sql_statement.starts_with("XA COMMIT")
+                    || x.sql_statement.starts_with("XA ROLLBACK")
+                {
                     self.commit_gtid();
                 } else if !self.transaction {
                     // Auto-commit query like DDL
                     self.commit_gtid();
                 }
             }
-            _ => {}
+            _ => {
+                // The first part of XA transaction ends when it is prepared
+                if header.event_type == EventType::MySqlXaPrepare as u8 {
+                    self.commit_gtid();
+                }
+            }
         }
     }
 
-- 
2.43.0


From 249080d10fa70bfb530b16d0e5dbfbf254c21b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 17/23] fix: MySQL GTID dump request depends on binlog filename
 and position of another server

---
 src/providers/mysql/mysql_provider.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..03bbbbc 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,10 +13,12 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
+            // The position is defined only by the GtidSet. Filename and position recorded
+            // during replication may not exist on another server.
             let command = DumpBinlogGtidCommand::new(
                 server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
+                String::new(),
+                constants::FIRST_EVENT_POSITION as u32,
             );
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
-- 
2.43.0


From b71156f6b794cae0ff995f71e511932dd9778b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:20 +0000
Subject: [PATCH 18/23] fix: largest transaction id overflows in a MySQL GTID
 set

---
 src/commands/dump_binlog_gtid_command.rs | 6 +++++-
 src/providers/mysql/gtid/uuid_set.rs     | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..5aa6160 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,11 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                // The end is exclusive
+                match interval.end.checked_add(1) {
+                    Some(end) => cursor.write_u64::<LittleEndian>(end)?,
+                    None => return Err(io::ErrorKind::InvalidInput.into()),
+                }
             }
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..ffd0a55 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -37,10 +37,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if gtid.transaction_id.checked_add(1) == Some(interval.start) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
@@ -88,7 +88,7 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
+        if left.end.checked_add(1) == Some(right_start) {
             left.end = right_end;
             intervals.remove(index + 1);
         } else {
-- 
2.43.0


From ddc9ea72c536413ecb5817a23fc8f3df9d38f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 19/23] fix: MySQL GTID set text is parsed to another set or
 panics

---
 src/providers/mysql/gtid/gtid_set.rs | 14 ++++++++++++--
 src/providers/mysql/gtid/uuid.rs     |  8 +++++++-
 src/providers/mysql/gtid/uuid_set.rs |  5 +++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..2f2fe5d 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -29,15 +29,17 @@ impl GtidSet {
             return Ok(GtidSet::new());
         }
 
-        let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
 
             let mut intervals = Vec::new();
+            if uuid_set.chars().nth(UUID_LENGTH) != Some(':') {
+                return Err(Error::String(format!("Invalid uuid set {}", uuid_set)));
+            }
             let ranges: String = uuid_set.chars().skip(UUID_LENGTH + 1).collect();
             let ranges = ranges.split(':').collect::<Vec<&str>>();
 
@@ -48,8 +50,16 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.start > interval.end {
+                    return Err(Error::String(format!("Invalid interval {}", token)));
+                }
                 intervals.push(interval);
             }
+
+            // The same uuid may be listed several times
+            if let Some(x) = result.remove(&source_id.uuid) {
+                intervals.extend(x.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..bd91d85 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -21,13 +21,19 @@ impl Uuid {
 
     /// Parses Uuid from string representation.
     pub fn parse(uuid: String) -> Result<Self, Error> {
+        let dashes = uuid.match_indices('-').map(|(i, _)| i);
+        if uuid.len() != 36 || !dashes.eq(vec![8, 13, 18, 23]) {
+            return Err(Error::String(format!("Invalid uuid format {}", uuid)));
+        }
+
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
         let mut data = [0u8; 16];
         (0..16).for_each(|i| data[i] = vec[i]);
 
-        Ok(Self { data, uuid })
+        // The string is always in lower case
+        Ok(Self::new(data))
     }
 }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index ffd0a55..fa6c956 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end.checked_add(1) == Some(right_start) {
-            left.end = right_end;
+        if left.end >= right_start || left.end.checked_add(1) == Some(right_start) {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From dbed49aa1f9ffe11edc6469bf81f4d951cc4fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:22 +0000
Subject: [PATCH 20/23] fix: malformed MariaDB GTID list text panics or is
 parsed to another list

---
 src/providers/mariadb/gtid/gtid_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..f4ef238 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -21,7 +21,6 @@ impl GtidList {
             return Ok(GtidList::new());
         }
 
-        let value = value.replace("\n", "");
         let gtid_list = value.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
         let mut domain_map = HashSet::new();
@@ -29,6 +28,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 036ffc2e768324336e1a8b0a4894ecba01f527a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:07 +0000
Subject: [PATCH 21/23] fix: report an error instead of panicking when a
 command doesn't fit in a packet

---
 src/packet_channel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 5b08041..340586e 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -32,6 +32,10 @@ impl PacketChannel {
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
+        // Split packets are not supported
+        if packet.len() >= MAX_BODY_LENGTH {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-- 
2.43.0


From fc69cf43233b3eef75f9f6fac473bbdba4082826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 22/23] fix: a timeout inside a packet made the rest of it be
 read as packets

---
 src/packet_channel.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 340586e..3330da2 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -1,5 +1,6 @@
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
+use std::mem;
 use std::net::TcpStream;
 
 use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
@@ -7,6 +8,8 @@ use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
     stream: TcpStream,
+    /// Received part of the current packet. It's kept when reading times out inside the packet.
+    received: Vec<u8>,
 }
 
 impl PacketChannel {
@@ -15,22 +18,38 @@ impl PacketChannel {
         let stream = TcpStream::connect(address)?;
         let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
         stream.set_read_timeout(Some(read_timeout))?;
-        Ok(Self { stream })
+        Ok(Self {
+            stream,
+            received: Vec::new(),
+        })
     }
 
     pub fn read_packet(&mut self) -> Result<(Vec<u8>, u8), io::Error> {
-        let mut header_buffer = [0; PACKET_HEADER_SIZE];
+        self.receive(PACKET_HEADER_SIZE)?;
+        let packet_size = (&self.received[0..3]).read_u24::<LittleEndian>()?;
+        let seq_num = self.received[3];
 
-        self.stream.read_exact(&mut header_buffer)?;
-        let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
-        let seq_num = header_buffer[3];
-
-        let mut packet: Vec<u8> = vec![0; packet_size as usize];
-        self.stream.read_exact(&mut packet)?;
+        self.receive(PACKET_HEADER_SIZE + packet_size as usize)?;
+        let mut packet = mem::take(&mut self.received);
+        packet.drain(..PACKET_HEADER_SIZE);
 
         Ok((packet, seq_num))
     }
 
+    /// Receives the packet up to the length. Goes on where reading was interrupted.
+    fn receive(&mut self, length: usize) -> Result<(), io::Error> {
+        let missing = length.saturating_sub(self.received.len());
+        self.received.reserve(missing);
+        (&self.stream)
+            .take(missing as u64)
+            .read_to_end(&mut self.received)?;
+
+        if self.received.len() < length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(())
+    }
+
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
         // Split packets are not supported
         if packet.len() >= MAX_BODY_LENGTH {
-- 
2.43.0


From 377ed3b1183f0ad6dc416d761d8ad11013526289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:02 +0000
Subject: [PATCH 23/23] fix: a client waited forever for a server which doesn't
 read a long request

---
 src/packet_channel.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 3330da2..5c30ab0 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,6 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::mem;
 use std::net::TcpStream;
+use std::time::{Duration, Instant};
 
 use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
@@ -10,6 +11,7 @@ pub struct PacketChannel {
     stream: TcpStream,
     /// Received part of the current packet. It's kept when reading times out inside the packet.
     received: Vec<u8>,
+    timeout: Duration,
 }
 
 impl PacketChannel {
@@ -18,9 +20,11 @@ impl PacketChannel {
         let stream = TcpStream::connect(address)?;
         let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
         stream.set_read_timeout(Some(read_timeout))?;
+        stream.set_write_timeout(Some(read_timeout))?;
         Ok(Self {
             stream,
             received: Vec::new(),
+            timeout: read_timeout,
         })
     }
 
@@ -58,7 +62,23 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write_all(packet)?;
+        self.send(packet)
+    }
+
+    /// The same as write_all, but a write which is timed out after sending a part is not repeated.
+    fn send(&mut self, mut bytes: &[u8]) -> Result<(), io::Error> {
+        while !bytes.is_empty() {
+            let started = Instant::now();
+            match self.stream.write(bytes) {
+                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
+                Ok(written) => bytes = &bytes[written..],
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+            if !bytes.is_empty() && started.elapsed() >= self.timeout {
+                return Err(io::ErrorKind::TimedOut.into());
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0

