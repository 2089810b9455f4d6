From 1dc5aff53d323368dfe08c72d6fb0117c1370a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 01/19] fix: write the custom icon of a group

---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From aff8c837dc2028411e991e026620dc90a56a008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 02/19] fix: write booleans as True and False, the only
 spelling KeePass accepts

---
 src/format/xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..f5d27d6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -317,8 +317,8 @@ pub fn write_bool_opt_tag<W: Write>(
     value: &Option<bool>,
 ) -> Result<()> {
     match *value {
-        Some(false) => write_string_tag(writer, tag, &String::from("false")),
-        Some(true) => write_string_tag(writer, tag, &String::from("true")),
+        Some(false) => write_string_tag(writer, tag, &String::from("False")),
+        Some(true) => write_string_tag(writer, tag, &String::from("True")),
         None => write_string_tag(writer, tag, &String::from("null")),
     }
 }
-- 
2.43.0


From 49720a3277e192b7fc9f3cfa73614da2caa35952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 03/19] fix: read exactly the requested bytes from readers that
 return less per call

---
 src/format/kdb2_reader.rs | 14 +++++++++-----
 src/io/log_reader.rs      |  6 +++---
 src/types/database.rs     |  4 ++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..6bcbaff 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -35,7 +35,7 @@ use crate::types::TransformedKey;
 use crate::types::Version;
 use crate::types::XmlData;
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 
 /// Attempts to read the database content from the reader.
 pub fn read<R>(reader: &mut R, composite_key: &CompositeKey) -> Result<(MetaData, XmlData)>
@@ -346,19 +346,23 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
-    let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    // The size comes from the file, so don't reserve memory for it up front.
+    let mut data = Vec::new();
+    reader.take(*size as u64).read_to_end(&mut data)?;
+    if data.len() != *size {
+        return Err(Error::Io(io::ErrorKind::UnexpectedEof.into()));
+    }
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..40c86ca 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let size = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From cc5f3d42745b84b5de02d047bfd2f02e00c0043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 04/19] fix: write all bytes to writers that accept less per
 call

---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..fd21435 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let size = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From b3bb540def3f7716b095eaa4ee00a37e5ade3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 05/19] fix: report an invalid padding or a short payload
 instead of panicking

---
 src/crypto/aes256.rs      | 16 ++++++++++++++--
 src/format/kdb2_reader.rs |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..a789bf1 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,18 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
 use crate::types::{MasterIV, MasterKey, Result};
 
+const BLOCK_SIZE: usize = 16;
+
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,6 +39,15 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
+    // rust-crypto panics on a padding longer than a block, so check and strip the padding here.
+    if let Some(&size) = output.last() {
+        let valid = size >= 1 && size as usize <= BLOCK_SIZE;
+        if !valid || !output.ends_with(&vec![size; size as usize]) {
+            return Err(SymmetricCipherError::InvalidPadding.into());
+        }
+        output.truncate(output.len() - size as usize);
+    }
+
     Ok(output)
 }
 
diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6bcbaff..37e164e 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if !payload.starts_with(&stream_start_bytes.0) {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 1ffce2fb5d6e1971a6bf5ecb8a6f3b61560d3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 06/19] fix: decompress the payload as a whole, not block by
 block

---
 src/format/kdb2_reader.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 37e164e..5ee5397 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut block_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -332,16 +332,15 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             }
         }
 
-        let block_hash = sha256::hash(&[&raw_data]);
+        let block_hash = sha256::hash(&[&block_data]);
         if block_hash != hash {
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut block_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 74431af4557530193f240e4b256addfd61b95486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 07/19] fix: reject colors with multi-byte characters or signs
 instead of panicking or accepting them

---
 src/types/color.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..d590a25 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -139,26 +139,32 @@ impl error::Error for ColorError {
 }
 
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match parse_hex(hex_str.get(5..7)) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match parse_hex(hex_str.get(3..5)) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match parse_hex(hex_str.get(1..3)) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidRedValue),
     }
 }
 
+fn parse_hex(digits: Option<&str>) -> Option<u8> {
+    // The digits are checked because from_str_radix also accepts a sign.
+    let digits = digits.filter(|d| d.chars().all(|c| c.is_ascii_hexdigit()))?;
+    u8::from_str_radix(digits, 16).ok()
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 47feaeacf9a08767c037dd8921f89cb2ca1ed3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/19] fix: read the whole text of an element, including
 whitespace and CDATA sections

---
 src/format/xml.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index f5d27d6..6e99638 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -222,21 +222,27 @@ pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
     }
 }
 
-/// Attempts to read an optional string.
+/// Attempts to read an optional string (up to and including the end tag of its element).
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
-    let event = reader.next()?;
-    match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
-        reader::XmlEvent::EndElement { .. } => Ok(None),
-        _ => {
-            let _: Result<Option<String>> =
-                read_err(reader, "No characters found").map_err(|err| {
-                    eprintln!("{}", err);
-                    err
-                });
-            Ok(None)
+    let mut string = String::new();
+    loop {
+        match reader.next()? {
+            reader::XmlEvent::Characters(val)
+            | reader::XmlEvent::Whitespace(val)
+            | reader::XmlEvent::CData(val) => string.push_str(&val),
+            reader::XmlEvent::EndElement { .. } => break,
+            reader::XmlEvent::StartElement { name, .. } => {
+                return read_err(reader, format!("Unexpected element {}", name));
+            }
+            _ => {}
         }
     }
+
+    if string.is_empty() {
+        Ok(None)
+    } else {
+        Ok(Some(string))
+    }
 }
 
 /// Attempts to read an optional string value.
-- 
2.43.0


From feafe7ca744f309aaeb3865b3166f43570a0bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 09/19] fix: accept keys, values, windows and icons that are
 present but empty

---
 src/format/kdb2_xml_reader.rs | 14 +++++++-------
 src/format/xml.rs             | 18 ++++++------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..c9dfa48 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -662,7 +662,7 @@ fn read_binary<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_binary_key_opt(reader)?;
+                    key = Some(xml::read_binary_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
@@ -735,7 +735,7 @@ fn read_string<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_key_opt(reader)?;
+                    key = Some(xml::read_string_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 6e99638..91db7c8 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -39,12 +39,9 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     }
 }
 
-/// Attempts to read an optional binary key.
-pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+/// Attempts to read a binary key.
+pub fn read_binary_key<R: Read>(reader: &mut EventReader<R>) -> Result<BinaryKey> {
+    Ok(BinaryKey(read_string(reader)?))
 }
 
 /// Attempts to read optional binary data.
@@ -214,12 +211,9 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
     }
 }
 
-/// Attempts to read an optional string key
-pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+/// Attempts to read a string key.
+pub fn read_string_key<R: Read>(reader: &mut EventReader<R>) -> Result<StringKey> {
+    Ok(StringKey::from_string(&read_string(reader)?))
 }
 
 /// Attempts to read an optional string (up to and including the end tag of its element).
-- 
2.43.0


From 9aef9890371c90bd0e96226b2cb4d5408c3340c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 10/19] fix: decrypt protected attachments in the binaries pool
 and decompress inline ones

---
 src/format/kdb2_xml_reader.rs | 35 ++++++++++++++++-------------------
 src/format/xml.rs             | 20 +++++++++++++++++++-
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index c9dfa48..d9d89a1 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -70,7 +70,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +91,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +222,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -228,8 +235,11 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
             } => match name.local_name.as_str() {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
-                    let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let compressed = xml::get_compressed_attr_value(reader, &attributes)?;
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
@@ -812,19 +822,6 @@ where
     Ok(())
 }
 
-fn get_compressed_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match xml::search_attr_value(attrs, "compressed") {
-        Some(val) => match val.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => xml::read_err(reader, "Attribute Compressed invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 91db7c8..d05c5a6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,20 @@ use xml::common::Position;
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// Gets the value of the compressed attribute (false if it's absent).
+pub fn get_compressed_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "compressed") {
+        Some(val) => match val.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Compressed invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
@@ -62,6 +76,7 @@ pub fn read_binary_value_opt<R: Read>(
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<Option<BinaryValue>> {
     let ref_value = search_attr_value(attrs, "ref");
+    let compressed = get_compressed_attr_value(reader, attrs)?;
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
         Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
@@ -71,6 +86,8 @@ pub fn read_binary_value_opt<R: Read>(
                     let pbytes = salsa20::decrypt(cipher, &bytes);
                     let secstr = SecStr::new(pbytes);
                     Ok(Some(BinaryValue::Protected(secstr)))
+                } else if compressed {
+                    Ok(Some(BinaryValue::Plain(gzip::decode(&bytes)?)))
                 } else {
                     Ok(Some(BinaryValue::Plain(bytes)))
                 }
@@ -427,7 +444,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Gets the value of the protected attribute (false if it's absent).
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From ffdcb56981761d7acf6af03ae8139b42c707c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 11/19] fix: skip unknown elements as a whole instead of
 reading known names inside them

---
 src/format/kdb2_xml_reader.rs | 153 +++++++++++++++++++++++-----------
 src/format/xml.rs             |  30 +++++++
 2 files changed, 135 insertions(+), 48 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index d9d89a1..67e27b7 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -68,14 +68,16 @@ fn read_kee_pass_file<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
                     read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -99,7 +101,9 @@ fn read_meta<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
                     data.binaries = read_binaries(reader, cipher)?;
                 }
@@ -107,10 +111,10 @@ fn read_meta<R: Read>(
                     data.color = xml::read_color_opt(reader)?;
                 }
                 kdb2::CUSTOM_DATA_TAG => {
-                    data.custom_data = read_custom_data(reader)?;
+                    data.custom_data = read_custom_data(reader, cipher)?;
                 }
                 kdb2::CUSTOM_ICONS_TAG => {
-                    data.custom_icons = read_custom_icons(reader)?;
+                    data.custom_icons = read_custom_icons(reader, cipher)?;
                 }
                 kdb2::DATABASE_DESCRIPTION_TAG => {
                     data.description = xml::read_string(reader)?;
@@ -167,7 +171,7 @@ fn read_meta<R: Read>(
                     data.master_key_changed = xml::read_datetime(reader)?;
                 }
                 kdb2::MEMORY_PROTECTION_TAG => {
-                    read_memory_protection(reader, data)?;
+                    read_memory_protection(reader, cipher, data)?;
                 }
                 kdb2::RECYCLE_BIN_CHANGED_TAG => {
                     data.recycle_bin_changed = xml::read_datetime(reader)?;
@@ -178,7 +182,7 @@ fn read_meta<R: Read>(
                 kdb2::RECYCLE_BIN_UUID_TAG => {
                     data.recycle_bin_uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -202,11 +206,13 @@ fn read_root<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::GROUP_TAG => {
                     data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -246,7 +252,7 @@ fn read_binaries<R: Read>(
                     };
                     map.insert(id, bytes);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -262,17 +268,22 @@ fn read_binaries<R: Read>(
     Ok(map)
 }
 
-fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMap> {
+fn read_custom_data<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomDataMap> {
     let mut map = CustomDataMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ITEM_TAG => {
-                    let (key, value) = read_custom_data_item(reader)?;
+                    let (key, value) = read_custom_data_item(reader, cipher)?;
                     map.insert(key, value);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -288,20 +299,25 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
     Ok(map)
 }
 
-fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String, String)> {
+fn read_custom_data_item<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(String, String)> {
     let mut key: Option<String> = None;
     let mut value: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
                     key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -327,17 +343,22 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
     Ok((key, value))
 }
 
-fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIconsMap> {
+fn read_custom_icons<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomIconsMap> {
     let mut map = CustomIconsMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ICON_TAG => {
-                    let (uuid, data) = read_custom_icon(reader)?;
+                    let (uuid, data) = read_custom_icon(reader, cipher)?;
                     map.insert(uuid, data);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -353,20 +374,25 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
     Ok(map)
 }
 
-fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconUuid, Vec<u8>)> {
+fn read_custom_icon<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(CustomIconUuid, Vec<u8>)> {
     let mut uuid: Option<CustomIconUuid> = None;
     let mut data: Option<Vec<u8>> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
                     data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -392,11 +418,17 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
     Ok((uuid, data))
 }
 
-fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_memory_protection<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    data: &mut XmlData,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::PROTECT_NOTES_TAG => {
                     data.protect_notes = xml::read_bool(reader)?;
                 }
@@ -412,7 +444,7 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -438,7 +470,9 @@ fn read_group<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CUSTOM_ICON_UUID_TAG => {
                     node.custom_icon_uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
@@ -479,12 +513,12 @@ fn read_group<R: Read>(
                     node.notes = xml::read_string(reader)?;
                 }
                 kdb2::TIMES_TAG => {
-                    read_times(reader, &mut node)?;
+                    read_times(reader, cipher, &mut node)?;
                 }
                 kdb2::UUID_TAG => {
                     node.uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -519,11 +553,13 @@ fn read_entry<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 node.parent = parent;
                 match name.local_name.as_str() {
                     kdb2::AUTO_TYPE_TAG => {
-                        read_auto_type(reader, &mut node)?;
+                        read_auto_type(reader, cipher, &mut node)?;
                     }
                     kdb2::BACKGROUND_COLOR_TAG => {
                         node.background_color = xml::read_color_opt(reader)?;
@@ -542,6 +578,8 @@ fn read_entry<R: Read>(
                         if state == EntryState::Active {
                             node.history
                                 .append(&mut read_history(reader, cipher, parent.clone())?);
+                        } else {
+                            xml::skip_element(reader, cipher, &attributes)?;
                         }
                     }
                     kdb2::ICON_ID_TAG => {
@@ -558,12 +596,12 @@ fn read_entry<R: Read>(
                         node.tags = xml::read_string(reader)?;
                     }
                     kdb2::TIMES_TAG => {
-                        read_times(reader, &mut node)?;
+                        read_times(reader, cipher, &mut node)?;
                     }
                     kdb2::UUID_TAG => {
                         node.uuid = EntryUuid(xml::read_uuid(reader)?);
                     }
-                    _ => {}
+                    _ => xml::skip_element(reader, cipher, &attributes)?,
                 }
             }
 
@@ -579,16 +617,22 @@ fn read_entry<R: Read>(
     Ok(node)
 }
 
-fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Result<()> {
+fn read_auto_type<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    node: &mut Entry,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } =>
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } =>
             {
                 #[allow(unused_must_use)]
                 match name.local_name.as_str() {
                     kdb2::ASSOCIATION_TAG => {
-                        read_association(reader)
+                        read_association(reader, cipher)
                             .map(|x| node.associations.push(x))
                             .map_err(|err| eprintln!("{}", err));
                     }
@@ -601,7 +645,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => {}
+                    _ => xml::skip_element(reader, cipher, &attributes)?,
                 }
             }
 
@@ -617,20 +661,25 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
     Ok(())
 }
 
-fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association> {
+fn read_association<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<Association> {
     let mut keystroke: Option<String> = None;
     let mut window: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
                     keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
                     window = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -677,7 +726,7 @@ fn read_binary<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -712,11 +761,13 @@ fn read_history<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ENTRY_TAG => {
                     list.push(read_entry(reader, cipher, EntryState::History, parent)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -750,7 +801,7 @@ fn read_string<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -776,7 +827,11 @@ fn read_string<R: Read>(
     Ok((key, value))
 }
 
-fn read_times<N, R>(reader: &mut EventReader<R>, node: &mut N) -> Result<()>
+fn read_times<N, R>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    node: &mut N,
+) -> Result<()>
 where
     N: Times,
     R: Read,
@@ -784,7 +839,9 @@ where
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CREATION_TIME_TAG => {
                     node.set_creation_time(xml::read_datetime(reader)?);
                 }
@@ -806,7 +863,7 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => {}
+                _ => xml::skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index d05c5a6..b097ce1 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -313,6 +313,36 @@ pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<Stri
     None
 }
 
+/// Skips an element and everything inside it. The protected values it contains are decrypted,
+/// because the values that follow continue the same cipher stream.
+pub fn skip_element<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<()> {
+    let mut depth = 0;
+    let mut start = Some(attrs.clone());
+    loop {
+        if let Some(attrs) = start.take() {
+            if let Ok(true) = get_protected_attr_value(reader, &attrs) {
+                salsa20::decrypt(cipher, &read_binary(reader)?);
+            } else {
+                depth += 1;
+            }
+        }
+
+        if depth == 0 {
+            return Ok(());
+        }
+
+        match reader.next()? {
+            reader::XmlEvent::StartElement { attributes, .. } => start = Some(attributes),
+            reader::XmlEvent::EndElement { .. } => depth -= 1,
+            _ => {}
+        }
+    }
+}
+
 /// Attempts to write binary data.
 pub fn write_binary<W: Write>(writer: &mut EventWriter<W>, data: &[u8]) -> Result<()> {
     write_string(writer, &general_purpose::STANDARD.encode(&data))
-- 
2.43.0


From 2c0f70c58295bbf1371c7f49657ac4fccc3bec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 12/19] fix: report malformed XML inside associations and
 attachment references

---
 src/format/kdb2_xml_reader.rs | 37 +++++++++++++++--------------------
 src/format/xml.rs             |  5 ++++-
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 67e27b7..92f4dc4 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -31,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
+use rust_xml::common::Position;
 use rust_xml::reader::{EventReader, XmlEvent};
 use std::io::Read;
 
@@ -627,14 +628,12 @@ fn read_auto_type<R: Read>(
         match event {
             XmlEvent::StartElement {
                 name, attributes, ..
-            } =>
-            {
-                #[allow(unused_must_use)]
+            } => {
                 match name.local_name.as_str() {
                     kdb2::ASSOCIATION_TAG => {
-                        read_association(reader, cipher)
-                            .map(|x| node.associations.push(x))
-                            .map_err(|err| eprintln!("{}", err));
+                        if let Some(association) = read_association(reader, cipher)? {
+                            node.associations.push(association);
+                        }
                     }
                     kdb2::DATA_TRANSFER_OBFUSCATION_TAG => {
                         node.auto_type_obfuscation = xml::read_obfuscation(reader)?;
@@ -664,7 +663,7 @@ fn read_auto_type<R: Read>(
 fn read_association<R: Read>(
     reader: &mut EventReader<R>,
     cipher: &mut Salsa20,
-) -> Result<Association> {
+) -> Result<Option<Association>> {
     let mut keystroke: Option<String> = None;
     let mut window: Option<String> = None;
     loop {
@@ -692,20 +691,16 @@ fn read_association<R: Read>(
         }
     }
 
-    let keystroke = match keystroke {
-        Some(k) => k,
-        None => return xml::read_err(reader, "KeystrokeSequence element not found"),
-    };
-
-    let window = match window {
-        Some(w) => w,
-        None => return xml::read_err(reader, "Window element not found"),
-    };
-
-    Ok(Association {
-        keystroke_sequence: keystroke,
-        window: window,
-    })
+    match (keystroke, window) {
+        (Some(keystroke), Some(window)) => Ok(Some(Association {
+            keystroke_sequence: keystroke,
+            window: window,
+        })),
+        _ => {
+            eprintln!("{} Incomplete association skipped", reader.position());
+            Ok(None)
+        }
+    }
 }
 
 fn read_binary<R: Read>(
diff --git a/src/format/xml.rs b/src/format/xml.rs
index b097ce1..5b5c2b4 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -79,7 +79,10 @@ pub fn read_binary_value_opt<R: Read>(
     let compressed = get_compressed_attr_value(reader, attrs)?;
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
-        Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
+        Some(string) => {
+            read_string_opt(reader)?;
+            Ok(Some(BinaryValue::Ref(BinaryId(string))))
+        }
         None => match read_binary_opt(reader)? {
             Some(bytes) => {
                 if protected {
-- 
2.43.0


From fafdd4b05020399832774ff4bd921703499ad944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 13/19] fix: reject foreign and additional root elements and
 skip unknown key file elements

---
 src/format/kdb2_xml_reader.rs |  4 +++-
 src/format/kf_reader.rs       | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 92f4dc4..ec04667 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -40,11 +40,13 @@ pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData>
     let mut data = XmlData::default();
     let mut reader = EventReader::new(reader);
     let mut cipher = salsa20::new_cipher(stream_key);
+    let mut has_root = false;
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
-                kdb2::KEE_PASS_FILE_TAG => {
+                kdb2::KEE_PASS_FILE_TAG if !has_root => {
+                    has_root = true;
                     read_kee_pass_file(&mut reader, &mut data, &mut cipher)?;
                 }
                 _ => return xml::read_err(&mut reader, "Invalid root node"),
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..4d6b7f5 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -50,8 +50,10 @@ fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => {
-                if name.local_name == kf::KEY_FILE_TAG {
+                if name.local_name == kf::KEY_FILE_TAG && opt_key.is_none() {
                     opt_key = Some(read_xml_key_file(&mut reader)?);
+                } else {
+                    return xml::read_err(&mut reader, "Invalid root node");
                 }
             }
             XmlEvent::EndDocument { .. } => {
@@ -80,6 +82,8 @@ fn read_xml_key_file<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
                     opt_key = Some(read_xml_key(reader)?);
                 } else if name.local_name == kf::META_TAG {
                     read_xml_meta(reader)?;
+                } else {
+                    skip_xml_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -107,6 +111,8 @@ fn read_xml_meta<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
                     if version != kf::XML_KEY_FILE_VERSION {
                         return xml::read_err(reader, "Unsupported key file version");
                     }
+                } else {
+                    skip_xml_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -129,6 +135,8 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::DATA_TAG {
                     opt_key = Some(SecStr::new(xml::read_binary(reader)?));
+                } else {
+                    skip_xml_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -145,3 +153,16 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
         None => xml::read_err(reader, "No Data tag found"),
     }
 }
+
+fn skip_xml_element<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
+    let mut depth = 1;
+    while depth > 0 {
+        match reader.next()? {
+            XmlEvent::StartElement { .. } => depth += 1,
+            XmlEvent::EndElement { .. } => depth -= 1,
+            _ => {}
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 9bc27e3d78826ed69d140ab209cfccd96e46ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 14/19] fix: refuse characters that XML does not allow and keep
 carriage returns on save

---
 src/format/kdb2_xml_writer.rs | 10 +++++++---
 src/format/xml.rs             | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..1d1d5e7 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -39,9 +39,11 @@ pub fn write<W: Write>(
     key: &StreamKey,
 ) -> Result<()> {
     let mut cipher = salsa20::new_cipher(key);
-    let config = EmitterConfig::new()
+    let mut config = EmitterConfig::new()
         .perform_indent(true)
         .indent_string("\t");
+    // The text is already escaped by the functions that write it.
+    config.perform_escaping = false;
 
     {
         let mut writer = EventWriter::new_with_config(writer, config);
@@ -104,8 +106,9 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            let id = xml::escape_attr(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
-            let tag = tag.attr("Ref", binary_id.0.as_str());
+            let tag = tag.attr("Ref", id.as_str());
             writer.write(tag)?;
             xml::write_end_tag(writer)?;
         }
@@ -119,8 +122,9 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        let id = xml::escape_attr(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
-        let tag = tag.attr("ID", id.0.as_str());
+        let tag = tag.attr("ID", id.as_str());
         let tag = tag.attr("Compressed", "True");
         writer.write(tag)?;
         xml::write_gzip(writer, &data)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 5b5c2b4..78378ae 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,37 @@ use xml::common::Position;
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// Escapes text for use as character data; the writer must not escape it again. Contrary to the
+/// escaping of the writer this keeps carriage returns, which XML parsers would normalize, and
+/// fails on characters that are not allowed in XML.
+pub fn escape(value: &str) -> Result<String> {
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '&' => escaped.push_str("&amp;"),
+            '"' => escaped.push_str("&quot;"),
+            '\r' => escaped.push_str("&#xD;"),
+            '\t' | '\n' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'.. => {
+                escaped.push(c)
+            }
+            _ => {
+                let msg = format!("Character {} is not allowed in XML", c.escape_unicode());
+                return Err(Error::XmlError(msg));
+            }
+        }
+    }
+
+    Ok(escaped)
+}
+
+/// Escapes text for use as attribute value.
+pub fn escape_attr(value: &str) -> Result<String> {
+    let escaped = escape(value)?;
+    Ok(escaped.replace('\t', "&#x9;").replace('\n', "&#xA;"))
+}
+
 /// Gets the value of the compressed attribute (false if it's absent).
 pub fn get_compressed_attr_value<R: Read>(
     reader: &mut EventReader<R>,
@@ -443,7 +474,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
-    writer.write(value.as_str())?;
+    writer.write(escape(value)?.as_str())?;
     Ok(())
 }
 
-- 
2.43.0


From 0f6a6eccd20b182ea1a86050d1c3e891a5bccb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 15/19] fix: refuse to save protected strings that are not
 valid UTF-8

---
 src/format/kdb2_xml_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 1d1d5e7..6943515 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -346,6 +348,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if let Err(err) = str::from_utf8(sec.unsecure()) {
+                return Err(Error::XmlError(format!("UTF8 {}", err)));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From c8a7940988601d74b0c72482f12f5f1b4eee317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 16/19] fix: refuse to save a comment that does not fit its
 header field

---
 src/format/kdb2_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..6e9f560 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -33,7 +34,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,6 +107,10 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            if comment.0.len() > u16::MAX as usize {
+                let err = io::Error::new(io::ErrorKind::InvalidInput, "comment too long");
+                return Err(Error::Io(err));
+            }
             write_header_id(writer, kdb2::COMMENT_HID)?;
             write_header_size(writer, comment.0.len() as u16)?;
             write_bytes(writer, &comment.0)?;
-- 
2.43.0


From f978dd8848a12becb276a38bdbc275ba5a9279e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 17/19] fix: find text with a capital sigma wherever the sigma
 is

---
 src/types/database.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/types/database.rs b/src/types/database.rs
index 1f2756d..c1fa6ae 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -229,7 +229,7 @@ impl Database {
     /// ```
     pub fn find_entries<'a, S: Into<String>>(&'a self, text: S) -> Vec<&'a Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter() {
             for entry in group.entries.iter() {
                 if entry_contains_string(entry, text) {
@@ -264,7 +264,7 @@ impl Database {
     /// ```
     pub fn find_entries_mut<'a, S: Into<String>>(&'a mut self, text: S) -> Vec<&'a mut Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter_mut() {
             for entry in group.entries.iter_mut() {
                 if entry_contains_string(entry, text) {
@@ -294,10 +294,10 @@ impl Database {
     /// assert_eq!(result.len(), 0);
     /// ```
     pub fn find_groups<'a, S: Into<String>>(&'a self, name: S) -> Vec<&'a Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a Group>>()
     }
 
@@ -317,10 +317,10 @@ impl Database {
     /// assert_eq!(result.len(), 1);
     /// ```
     pub fn find_groups_mut<'a, S: Into<String>>(&'a mut self, name: S) -> Vec<&'a mut Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter_mut()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a mut Group>>()
     }
 
@@ -545,7 +545,7 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     for value in entry.strings.values() {
         match *value {
             StringValue::Plain(ref string) => {
-                if string.to_lowercase().contains(name) {
+                if fold_case(string).contains(name) {
                     return true;
                 }
             }
@@ -555,6 +555,12 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     false
 }
 
+/// Lowers the case of the text. A final sigma is lowered like any other sigma, because its form
+/// would otherwise depend on whether it's at the end of the name or of the searched text.
+fn fold_case(text: &str) -> String {
+    text.to_lowercase().replace('ς', "σ")
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 8d163eff364f1291a25d4ad191170f48cbb9805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 18/19] fix: deeply nested groups overflow the stack

---
 src/format/kdb2.rs            |  3 +++
 src/format/kdb2_xml_reader.rs | 36 +++++++++++++++++++++++------------
 src/format/kdb2_xml_writer.rs | 34 ++++++++++++++++++++++++++++-----
 3 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/format/kdb2.rs b/src/format/kdb2.rs
index dbfd03c..42f88bc 100644
--- a/src/format/kdb2.rs
+++ b/src/format/kdb2.rs
@@ -46,6 +46,9 @@ pub const MASTER_SEED_HID: u8 = 4;
 /// The size of the master seed header data.
 pub const MASTER_SEED_SIZE: u16 = 32;
 
+/// The number of levels groups can be nested (deeper trees would overflow the stack when dropped).
+pub const MAX_GROUP_DEPTH: usize = 1000;
+
 /// The identifier of the protected stream key header.
 pub const PROTECTED_STREAM_KEY_HID: u8 = 8;
 
diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index ec04667..a6fcbeb 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -34,6 +34,7 @@ use rust_xml::attribute::OwnedAttribute;
 use rust_xml::common::Position;
 use rust_xml::reader::{EventReader, XmlEvent};
 use std::io::Read;
+use std::mem;
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
@@ -470,6 +471,8 @@ fn read_group<R: Read>(
 ) -> Result<Group> {
     let mut node = Group::default();
     node.parent = parent;
+    // The groups around the current one (recursion would overflow the stack on deep trees).
+    let mut outer: Vec<Group> = Vec::new();
     loop {
         let event = reader.next()?;
         match event {
@@ -497,8 +500,10 @@ fn read_group<R: Read>(
                     )?);
                 }
                 kdb2::GROUP_TAG => {
-                    node.groups
-                        .push(read_group(reader, cipher, GroupUuid::nil())?);
+                    if outer.len() + 1 >= kdb2::MAX_GROUP_DEPTH {
+                        return xml::read_err(reader, "Groups nested too deep");
+                    }
+                    outer.push(mem::replace(&mut node, Group::default()));
                 }
                 kdb2::ICON_ID_TAG => {
                     node.icon = xml::read_icon(reader)?;
@@ -526,22 +531,29 @@ fn read_group<R: Read>(
 
             XmlEvent::EndElement { name, .. } => {
                 if name.local_name == kdb2::GROUP_TAG {
-                    break;
+                    // Has to be done after building up the entries/groups because the UUID is not
+                    // known at the time the entries get constructed
+                    let parent = node.uuid.clone();
+                    for entry in node.entries.iter_mut() {
+                        entry.parent = parent;
+                    }
+                    for group in node.groups.iter_mut() {
+                        group.parent = parent;
+                    }
+
+                    match outer.pop() {
+                        Some(group) => {
+                            let sub = mem::replace(&mut node, group);
+                            node.groups.push(sub);
+                        }
+                        None => break,
+                    }
                 }
             }
 
             _ => {}
         }
     }
-    // Has to be done after building up the entries/groups because the UUID is not known at the time
-    // the entries get constructed
-    let parent = node.uuid.clone();
-    for entry in node.entries.iter_mut() {
-        entry.parent = parent;
-    }
-    for group in node.groups.iter_mut() {
-        group.parent = parent;
-    }
 
     Ok(node)
 }
diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 6943515..0b20414 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -214,6 +214,34 @@ fn write_group_section<W: Write>(
     writer: &mut EventWriter<W>,
     cipher: &mut Salsa20,
     group: &Group,
+) -> Result<()> {
+    write_group_start(writer, cipher, group)?;
+
+    // The remaining subgroups of the open groups (recursion would overflow the stack on deep trees).
+    let mut open = vec![group.groups.iter()];
+    while let Some(subgroups) = open.last_mut() {
+        match subgroups.next() {
+            Some(subgroup) => {
+                if open.len() >= kdb2::MAX_GROUP_DEPTH {
+                    return Err(Error::XmlError(String::from("Groups nested too deep")));
+                }
+                write_group_start(writer, cipher, subgroup)?;
+                open.push(subgroup.groups.iter());
+            }
+            None => {
+                xml::write_end_tag(writer)?;
+                open.pop();
+            }
+        }
+    }
+
+    Ok(())
+}
+
+fn write_group_start<W: Write>(
+    writer: &mut EventWriter<W>,
+    cipher: &mut Salsa20,
+    group: &Group,
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
@@ -236,11 +264,7 @@ fn write_group_section<W: Write>(
         write_entry_section(writer, cipher, entry, EntryState::Active)?;
     }
 
-    for subgroup in &group.groups {
-        write_group_section(writer, cipher, subgroup)?;
-    }
-
-    xml::write_end_tag(writer)
+    Ok(())
 }
 
 fn write_history_section<W: Write>(
-- 
2.43.0


From b642f510d17937a8eae8cabd7209b24b42c08a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 19/19] fix: do not copy protected values to unwiped memory
 when saving

---
 src/crypto/salsa20.rs         | 4 ++--
 src/format/kdb2_xml_writer.rs | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/crypto/salsa20.rs b/src/crypto/salsa20.rs
index ab61351..72c1f08 100644
--- a/src/crypto/salsa20.rs
+++ b/src/crypto/salsa20.rs
@@ -19,7 +19,7 @@ pub fn decrypt(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
 }
 
 /// Encrypt the input using the Salsa20 stream cipher.
-pub fn encrypt(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
+pub fn encrypt(cipher: &mut Salsa20, input: &[u8]) -> Vec<u8> {
     process(cipher, input)
 }
 
@@ -28,7 +28,7 @@ pub fn new_cipher(key: &StreamKey) -> Salsa20 {
     Salsa20::new(&key.unpack(), &SALSA20_NOUNCE)
 }
 
-fn process(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
+fn process(cipher: &mut Salsa20, input: &[u8]) -> Vec<u8> {
     let mut output = vec![0; input.len()];
     cipher.process(input, &mut output);
     output
diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 0b20414..2bbd047 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -102,8 +102,7 @@ fn write_binary_section<W: Write>(
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-            let plain = sec.unsecure().to_vec();
-            let encrypted = salsa20::encrypt(cipher, &plain);
+            let encrypted = salsa20::encrypt(cipher, sec.unsecure());
             xml::write_binary(writer, encrypted.as_slice())?;
             xml::write_end_tag(writer)?;
         }
@@ -378,8 +377,7 @@ fn write_string_section<W: Write>(
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-            let plain = sec.unsecure().to_vec();
-            let encrypted = salsa20::encrypt(cipher, &plain);
+            let encrypted = salsa20::encrypt(cipher, sec.unsecure());
             xml::write_binary(writer, encrypted.as_slice())?;
             xml::write_end_tag(writer)?;
         }
-- 
2.43.0

