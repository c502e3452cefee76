From fab45dcddcc5a708e31f8bbba85f34de0ae593be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 01/16] fix: do not panic on an array size that does not fit in
 usize

The tokenizer unwrapped parse::<usize>(), so a format definition or info key
such as `uint8_t[99999999999999999999999] x` aborted the whole iterator.
---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..390d544 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            // A number that does not fit in a usize cannot be an array size: it is not a valid token.
+            tokens.push_back(match number.as_str().parse::<usize>() {
+                Ok(number) => Token::Number(number),
+                Err(_) => Token::Unknown('0'),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From 6caab2090fccedd7ad468a9ce9a4fc179da81c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 02/16] fix: reject an array larger than its message before
 allocating it

Vec::with_capacity(array_size) was called with the array size found in the
file: capacity overflow panic, or abort on allocation failure.
---
 core/src/field_helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..e090b26 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,6 +82,15 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
+    // Every element occupies at least one byte, so don't allocate for an array that can't be there.
+    if array_size > message_buf.len() {
+        return Err(ULogError::ParseError(format!(
+            "Array of {} elements does not fit in the {} remaining bytes of the message",
+            array_size,
+            message_buf.len()
+        )));
+    }
+
     let mut array = Vec::with_capacity(array_size);
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
-- 
2.43.0


From 3125085a6c49571fddbbf527c1afe49d7f677349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 03/16] fix: MessageBuf::advance must not overflow for a huge
 size

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..f3bccd6 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.len() {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From 74c15d551655dfa205f123173f606a6ca46fa1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 04/16] fix: keep the msg_id in the contents of a
 REMOVE_SUBSCRIPTION message

The two msg_id bytes were consumed before the remaining bytes were handed out,
so re-encoding the message produced an empty one.
---
 core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..f2e804d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -273,11 +273,13 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                // Keep the full contents, including the msg_id, so that the message can be re-encoded.
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From 11cac9b3f05e82d5a0809607880f40481591b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 05/16] fix: return tagged log messages as TaggedLoggedString

They were returned as LoggedString, and re-encoded as an untagged 'L' message
with the tag bytes in the middle.
---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f2e804d..5f41adb 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -307,7 +307,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From d8db656c41b3d08c8528ee7cb986477b74c77334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 06/16] fix: a reused msg_id must not stay on the allow list

Once a msg_id was allowed it stayed allowed, also after a later subscription
assigned it to a message name that is not on the allow list.
---
 core/src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 5f41adb..4b676d1 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -61,12 +61,14 @@ impl SubscriptionFilter {
         // Once the AddSubscription messages come in, then we can convert the strings names to msg_ids
         // to more efficiently filter the subscriptions.
         if let Some(allowed_subscription_names) = &self.allowed_subscription_names {
+            // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
+            let allowed_subscription_ids = self.allowed_subscription_ids.as_mut().unwrap();
+
             if allowed_subscription_names.contains(&sub.message_name) {
-                // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
-                self.allowed_subscription_ids
-                    .as_mut()
-                    .unwrap()
-                    .insert(sub.msg_id);
+                allowed_subscription_ids.insert(sub.msg_id);
+            } else {
+                // The msg_id may have been used before by an allowed subscription.
+                allowed_subscription_ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From 9012d050a1805d326b9186f8844505739db9c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 07/16] fix: report an error instead of truncating sizes when
 encoding

The message size (u16) and the key length (u8) silently wrapped around, which
produced a corrupt file.
---
 core/src/encode.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..6810c15 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -24,7 +24,12 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "ULOG message contents exceed 65535 bytes",
+                    )
+                })?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -120,7 +125,7 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -137,7 +142,7 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -152,7 +157,7 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -169,7 +174,7 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -404,6 +409,16 @@ impl<T: Encode> Encode for &T {
     }
 }
 
+// The length of a key is stored in a single byte.
+fn key_len(key_bytes: &[u8]) -> io::Result<u8> {
+    u8::try_from(key_bytes.len()).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            "ULOG key exceeds 255 bytes",
+        )
+    })
+}
+
 // Convenience method to encode to Vec<u8>
 trait EncodeToVec {
     fn encode_to_vec(&self) -> io::Result<Vec<u8>>;
-- 
2.43.0


From 87e82a67638da6bef0c7359f9e010bce957572bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 08/16] fix: limit how deep formats may be nested

A format with a field of its own type (or a cycle of formats) recursed until
the stack overflowed, which aborts the process.
---
 core/src/parser.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 4b676d1..f711e8c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+/// How deep formats may be nested. A format that contains itself would otherwise never end.
+const MAX_NESTING_DEPTH: usize = 64;
+
 pub struct ULogParser<R: Read> {
     state: State,
     file_header: Option<FileHeader>,
@@ -393,7 +396,7 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, 0)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -419,7 +422,15 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::Format, ULogError> {
+        if depth > MAX_NESTING_DEPTH {
+            return Err(ULogError::ParseError(format!(
+                "Format {} is nested too deeply",
+                format.name
+            )));
+        }
+
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
 
@@ -432,7 +443,7 @@ impl<R: Read> ULogParser<R> {
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -502,6 +513,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -524,13 +536,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_data_message_sub(child_format, message_buf, depth + 1)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, depth),
         }
     }
 
@@ -539,6 +551,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -559,7 +572,7 @@ impl<R: Read> ULogParser<R> {
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
                 ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
+                    self.parse_data_message_sub(child_format.clone(), buf, depth + 1)
                 })?)
             }
         })
@@ -689,7 +702,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -710,7 +723,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From b6983374ced034ec4ad7c21552d62e1402593268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 09/16] fix: a message cut short by the end of the file is an
 error

DataStream::read_exact reports EOF through a flag that only the size of a
message was checked for, so a truncated message was returned with its missing
bytes (or all of them) replaced by zeros.
---
 core/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f711e8c..af40158 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -155,6 +155,9 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
         Ok(MessageBuf::from_vec(message))
     }
 
@@ -372,13 +375,16 @@ impl<R: Read> ULogParser<R> {
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️This is the only place where EOF is expected when calling a datastream read method.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
         if self.datastream.eof {
             return Ok(None);
         }
 
         let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -581,6 +587,9 @@ impl<R: Read> ULogParser<R> {
     fn read_file_header(&mut self) -> Result<FileHeader, ULogError> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
 
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
-- 
2.43.0


From a362e4ed3499c546d36d1137d1831f484d99f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 10/16] fix: forward messages to the user's enum, whatever its
 name

The generated code named LoggedMessages::Other, so that it only compiled when
the enum and its forward_other variant had exactly these names.
---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..0c6f89c 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -516,7 +516,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let extra_logged_msg_conditional = match has_forward_other {
         true => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_other_variant_ident(UlogMessage::LoggedData(data))));
             }
         },
         false => quote! {},
@@ -526,7 +526,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         true => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_other_variant_ident(UlogMessage::AddSubscription(sub))));
             }
         },
         false => quote! {},
-- 
2.43.0


From f4f2053e63b05d86d4976aa0514832048154815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 11/16] fix: derived streams must not decode a reused msg_id as
 its old subscription

---
 macros/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0c6f89c..e45c2fa 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -672,6 +672,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
+                                    // The msg_id may have been used before by a mapped subscription.
+                                    self.subs.remove(&sub.msg_id);
                                     #extra_subscription_forwarder
                                 }
                             }
-- 
2.43.0


From 3dce1fba57abf7d46c59577fbafecc407067b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 12/16] fix: derived accessors must not use a field index
 blindly

The index of a field in the format definition was used for a message whose
padding fields (or timestamp) were omitted: another field was read, or the
accessor panicked.
---
 core/src/macro_utils.rs | 20 ++++++++++++++++++++
 macros/src/lib.rs       | 21 ++++++++++++---------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/core/src/macro_utils.rs b/core/src/macro_utils.rs
index e3a4780..f6cca5e 100644
--- a/core/src/macro_utils.rs
+++ b/core/src/macro_utils.rs
@@ -16,6 +16,26 @@ pub trait ULogAccessor {
     fn get_data(&self, field: &inst::Format) -> Result<Self::Output, ULogError>;
 }
 
+/// Get the field of a logged message that an accessor found at `index` of the format definition.
+///
+/// A message can have fewer fields than its definition, as padding fields and
+/// the timestamp can be omitted from it. In that case the field is searched by name.
+pub fn get_field<'a>(
+    format: &'a inst::Format,
+    index: usize,
+    name: &str,
+) -> Result<&'a inst::Field, ULogError> {
+    match format.fields.get(index) {
+        Some(field) if field.name.as_ref() == name => Ok(field),
+        _ => format
+            .fields
+            .iter()
+            .rev()
+            .find(|field| field.name.as_ref() == name)
+            .ok_or_else(|| ULogError::InvalidFieldName(name.to_string())),
+    }
+}
+
 /// FromField
 ///
 /// Converts an inst::Field to the specified type, with runtime
diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e45c2fa..c47f508 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -154,6 +154,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         make_index_type(f)
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name
+            .unwrap_or_else(|| named_ident(f).to_string())
+    }
+
     // Generate index_fields to hold the index of the field in the LoggedData message, for efficient lookup.
     let index_fields = fields.iter().map(|f| {
         let idx_ident = idx_ident(f);
@@ -164,12 +171,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -230,7 +232,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     // - For any non-optional field `f`, the corresponding index field is `usize` and guaranteed to be present.
     //
     // This invariant is established earlier when generating index fields and validated by construction of the Accessor struct.
-    // Therefore, it is safe to unwrap and index into `format.fields` accordingly.
+    // A message can have fewer fields than its definition: `get_field` checks that the index is right.
     //
     // The generated code uses this to:
     // - Return `None` directly when the index is `None` (field missing),
@@ -240,6 +242,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         fields.iter().map(|f| {
             let name = named_ident(f);
             let idx_ident = idx_ident(f);
+            let ulog_name = ulog_name(f);
             let ty = &f.ty;
 
             if is_option_type(ty) {
@@ -249,12 +252,12 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match self.#idx_ident {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(::yule_log::macro_utils::get_field(format, idx, #ulog_name)?)?)
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: <#ty as #from_field_path>::from_field(::yule_log::macro_utils::get_field(format, self.#idx_ident, #ulog_name)?)?
                 }
             }
         });
-- 
2.43.0


From 9f98938e42820523c75a8c5481f4ea228be3257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 13/16] fix: a subscription that fails to map must not leave
 the old accessor of its msg_id

---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c47f508..23bec16 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -672,11 +672,11 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have been used before by a mapped subscription.
+                            self.subs.remove(&sub.msg_id);
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-                                    // The msg_id may have been used before by a mapped subscription.
-                                    self.subs.remove(&sub.msg_id);
                                     #extra_subscription_forwarder
                                 }
                             }
-- 
2.43.0


From bab3e97c8706f0c726153a7c54df7f6058ece6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 14/16] fix: forward_subscriptions(false) did not revoke an
 earlier request

---
 macros/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 23bec16..7be55f4 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -593,17 +593,12 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
             #[allow(dead_code)]
             pub fn forward_subscriptions(mut self, value: bool) -> Result<Self, yule_log::errors::ULogError> {
-                match value {
-                    true => {
-                        if !Self::HAS_FORWARD_OTHER {
-                            return Err(yule_log::errors::ULogError::InvalidConfiguration(
-                                "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
-                            ));
-                        }
-                        self.forward_subscriptions = true;
-                    }
-                    false => {}
+                if value && !Self::HAS_FORWARD_OTHER {
+                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                        "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
+                    ));
                 }
+                self.forward_subscriptions = value;
 
                 Ok(self)
             }
-- 
2.43.0


From 22f551e3026e164543f9366ae34b3e50321800e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 15/16] fix: derive ULogData for a struct whose members are all
 optional

The generated accessor did not compile, as the type of the list of missing fields could not be inferred.
---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 7be55f4..60211eb 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -200,7 +200,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From 3bf6e5590e3a370c948b5e53bc1d0a7c43f54b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 16/16] fix: a format named *heartbeat* must not be printed to
 the host's stdout (println! panics when stdout cannot be written)

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index af40158..674f5bb 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -216,10 +216,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0

