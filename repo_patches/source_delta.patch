From 3cf24897fe3ec90bff25e5ac1914660a055f88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 01/31] fix: return tagged logging messages as
 TaggedLoggedString

They were returned as LoggedString, which re-encodes with the message type of
an untagged message and so corrupts the log.
---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..e239d7a 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -305,7 +305,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From d4e550c552846f022d46189b5068ba403fbdfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 02/31] fix: keep the msg_id in the contents of
 remove-subscription messages

The contents of the Unhandled message lacked the first two bytes, so that it
re-encoded to an empty message.
---
 core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index e239d7a..33122cc 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -273,11 +273,12 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From d5fee75dc3bb7d5f1ece0c752b502cd42b4df699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 03/31] fix: report a log that ends inside a message

A truncated message was filled up with zeros and returned as if complete, and
so was a truncated file header.
---
 core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 33122cc..7a83456 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -150,6 +150,12 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+
+        // The stream ended inside this message: what has been read of it is not a message.
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         Ok(MessageBuf::from_vec(message))
     }
 
@@ -366,7 +372,7 @@ impl<R: Read> ULogParser<R> {
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️This is the only place where EOF is not an error.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
         if self.datastream.eof {
             return Ok(None);
@@ -566,6 +572,10 @@ impl<R: Read> ULogParser<R> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
 
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
         }
-- 
2.43.0


From d9d48b27286a08793c308720960a58effa84c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 04/31] fix: do not panic on numbers that exceed usize in
 definitions

---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..64fe2b1 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            // A number that does not fit is not a valid array size.
+            tokens.push_back(match number.as_str().parse::<usize>() {
+                Ok(number) => Token::Number(number),
+                Err(_) => Token::Unknown(number.as_str().chars().next().unwrap()),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From 8dbca4a67cdbe2a30d94c738fa685f20f6b20e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 05/31] fix: bound the resources a message can claim by the
 bytes it contains

A log could make the parser reserve terabytes for an array it merely declares,
overflow the stack with formats that contain themselves, or spend unbounded
time and memory on nested formats and arrays without any data.
---
 core/src/field_helpers.rs |  9 +++++++
 core/src/parser.rs        | 57 ++++++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..98731a5 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,6 +82,15 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
+    // Every element takes up at least one byte. The size is only a claim made by the log, so check it against
+    // what is there before reserving any memory.
+    if array_size > message_buf.len() {
+        return Err(ULogError::ParseError(format!(
+            "Array of {array_size} elements, but only {} bytes remaining",
+            message_buf.len()
+        )));
+    }
+
     let mut array = Vec::with_capacity(array_size);
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 7a83456..8d5669e 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -8,7 +8,7 @@ use byteorder::{ByteOrder, LittleEndian};
 use crate::datastream::DataStream;
 use crate::errors::ULogError;
 use crate::errors::ULogError::{UndefinedFormat, UndefinedSubscription};
-use crate::field_helpers::{parse_array, parse_data_field};
+use crate::field_helpers::parse_data_field;
 use crate::formats::{parse_field, parse_format};
 use crate::message_buf::MessageBuf;
 use crate::model::def::BaseType;
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+/// How deep formats may be nested in each other.
+const MAX_NESTING_DEPTH: usize = 64;
+
 pub struct ULogParser<R: Read> {
     state: State,
     file_header: Option<FileHeader>,
@@ -396,7 +399,7 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, 0)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -422,20 +425,33 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::Format, ULogError> {
+        if depth > MAX_NESTING_DEPTH {
+            return Err(ULogError::ParseError(format!(
+                "Formats are nested too deeply: {}",
+                format.name
+            )));
+        }
+
+        let bytes_available = message_buf.len();
+        let mut num_absent = 0;
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
 
         for field in &format.fields {
             // Handle padding fields.
             if field.name.starts_with("_padding") {
+                if message_buf.is_empty() {
+                    num_absent += 1;
+                }
                 if let Some(padding_field) = self.parse_padding(field, message_buf)? {
                     fields.push(padding_field);
                 }
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -456,6 +472,16 @@ impl<R: Read> ULogParser<R> {
             });
         }
 
+        // Nested structures must come with at least one byte per field. Otherwise a few short format definitions,
+        // nested in each other, could stand for any amount of data without the log containing it.
+        let bytes_required = usize::max(1, format.fields.len() - num_absent);
+        if depth > 0 && bytes_available - message_buf.len() < bytes_required {
+            return Err(ULogError::ParseError(format!(
+                "No data for nested format: {}",
+                format.name
+            )));
+        }
+
         Ok(inst::Format {
             name: format.name.clone(),
             timestamp,
@@ -505,6 +531,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -527,13 +554,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_data_message_sub(child_format, message_buf, depth + 1)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, depth),
         }
     }
 
@@ -542,6 +569,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -561,9 +589,18 @@ impl<R: Read> ULogParser<R> {
             CHAR => ArrayChar(parse_primitive_array(array_size, message_buf)?),
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
-                ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
-                })?)
+                // The elements are large in memory: let the vector grow with those that are really there.
+                ArrayOther(
+                    (0..array_size)
+                        .map(|_| {
+                            self.parse_data_message_sub(
+                                child_format.clone(),
+                                message_buf,
+                                depth + 1,
+                            )
+                        })
+                        .collect::<Result<_, _>>()?,
+                )
             }
         })
     }
@@ -696,7 +733,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -717,7 +754,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From 6070a7a310f869ab66e29058180566155bbaaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 06/31] fix: end the iteration after an I/O error

If the source recovered, the parser went on in the middle of a message and
returned messages made up of arbitrary bytes.
---
 core/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 8d5669e..4420a4a 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -99,7 +99,14 @@ impl<R: Read> Iterator for ULogParser<R> {
         match self.next_sub() {
             Ok(Some(data)) => Some(Ok(data)),
             Ok(None) => None, // Iterator exhausted.
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                // Whatever was being read is lost: even if the source recovers, the next byte need not be the
+                // start of a message.
+                if matches!(e, ULogError::Io(_)) {
+                    self.state = State::EOF;
+                }
+                Some(Err(e))
+            }
         }
     }
 }
-- 
2.43.0


From 4f3b0b248bc0551e234440355c76542eacae77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 07/31] fix: do not read a message across the start of appended
 data

A message that begins before the first appended data offset and ends after it
was completed with bytes of the appended data.
---
 core/src/parser.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 4420a4a..1219f32 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+/// The size of the header of each message: two bytes of message size and one byte of message type.
+const MESSAGE_HEADER_SIZE: usize = 3;
+
 /// How deep formats may be nested in each other.
 const MAX_NESTING_DEPTH: usize = 64;
 
@@ -201,7 +204,8 @@ impl<R: Read> ULogParser<R> {
         let max_bytes_to_read = self.max_bytes_to_read;
 
         if let Some(max_bytes_to_read) = max_bytes_to_read {
-            if self.datastream.num_bytes_read >= max_bytes_to_read {
+            let remaining = max_bytes_to_read.saturating_sub(self.datastream.num_bytes_read);
+            if remaining < MESSAGE_HEADER_SIZE {
                 self.state = State::EOF;
                 return Ok(None);
             }
@@ -212,10 +216,19 @@ impl<R: Read> ULogParser<R> {
                 self.state = State::EOF;
                 return Ok(None);
             }
-            Some(header) => (
-                header.msg_type,
-                self.read_message(header.msg_size as usize)?,
-            ),
+            Some(header) => {
+                let msg_size = header.msg_size as usize;
+
+                // A message cut off by the appended data is no different from one cut off by the end of the file.
+                if let Some(max_bytes_to_read) = max_bytes_to_read {
+                    if self.datastream.num_bytes_read + msg_size > max_bytes_to_read {
+                        self.state = State::EOF;
+                        return Err(ULogError::UnexpectedEndOfFile);
+                    }
+                }
+
+                (header.msg_type, self.read_message(msg_size)?)
+            }
         };
 
         match self.state {
-- 
2.43.0


From 0f703a8436a3f8cfca09a29a1c6605316378ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 08/31] fix: refuse logs with any unknown incompat bit

The seven unknown bits of the first byte were not checked, and the parser went
on returning messages after the error.
---
 core/src/model.rs  | 2 +-
 core/src/parser.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/model.rs b/core/src/model.rs
index 08b44dc..414d49e 100644
--- a/core/src/model.rs
+++ b/core/src/model.rs
@@ -64,7 +64,7 @@ pub mod msg {
 
     impl FlagBits {
         const ULOG_COMPAT_FLAG0_DEFAULT_PARAMETERS_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DEFAULT_PARAMETERS
-        const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
+        pub(crate) const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
 
         // If true, the log contains default parameters message
         // FIXME: Handle default parameters.
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 1219f32..9ffc4f4 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -105,7 +105,8 @@ impl<R: Read> Iterator for ULogParser<R> {
             Err(e) => {
                 // Whatever was being read is lost: even if the source recovers, the next byte need not be the
                 // start of a message.
-                if matches!(e, ULogError::Io(_)) {
+                // And a log with unknown incompat bits must not be interpreted any further.
+                if matches!(e, ULogError::Io(_) | ULogError::UnknownIncompatBits) {
                     self.state = State::EOF;
                 }
                 Some(Err(e))
@@ -728,7 +729,10 @@ impl<R: Read> ULogParser<R> {
         let incompat_flags: [u8; 8] = message_buf.advance(8)?.try_into().unwrap();
 
         // Check for any unknown bits in incompat_flags
-        let has_unknown_incompat_bits = incompat_flags.iter().skip(1).any(|&f| f != 0);
+        let has_unknown_incompat_bits = incompat_flags[0]
+            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
+            != 0
+            || incompat_flags.iter().skip(1).any(|&f| f != 0);
 
         if has_unknown_incompat_bits {
             return Err(ULogError::UnknownIncompatBits);
-- 
2.43.0


From 3ab60fd4dd5dd79a08d4fa122c0441b94fc57f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 09/31] fix: accept all characters the ULog format allows in
 names

Names are made of a-zA-Z0-9_-/ and may begin with any of these.
---
 core/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index 64fe2b1..80a206c 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -6,7 +6,7 @@ use crate::errors::ULogError;
 
 lazy_static! {
     static ref TOKEN_REGEXP: Regex = Regex::new(
-        r"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
+        r"(?P<identifier>[0-9]*[a-zA-Z_/\-][a-zA-Z0-9_/\-]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
     )
     .unwrap();
 }
-- 
2.43.0


From ea6f9a41e0374ae5d409258ab1ed167fe73ae7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 10/31] fix: decode logging messages and dropouts before the
 first subscription

---
 core/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 9ffc4f4..e99f55a 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -691,6 +691,10 @@ impl<R: Read> ULogParser<R> {
                 let multi_info = self.parse_multi_info(message_buf)?;
                 Ok(msg::UlogMessage::MultiInfo(multi_info))
             }
+            // Logging messages and dropouts may come before the first subscription.
+            ULogMessageType::LOGGING
+            | ULogMessageType::LOGGING_TAGGED
+            | ULogMessageType::DROPOUT => self.parse_data(message_type, message_buf),
             /*
             ULogMessageType::INFO_MULTIPLE | ULogMessageType::PARAMETER_DEFAULT => {
                 Ok(UlogMessage::Unhandled { msg_type: message_type.into(), message_contents: message_buf.into_remaining_bytes() })
-- 
2.43.0


From 2723d5437f59a57a1e8cf3959a78787f747aa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 11/31] fix: forget an allowed msg_id when it is given to
 another subscription

Data of a subscription not on the allow list was returned if its msg_id had
been used by an allowed subscription before.
---
 core/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index e99f55a..9e2d5e3 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -67,12 +67,13 @@ impl SubscriptionFilter {
         // Once the AddSubscription messages come in, then we can convert the strings names to msg_ids
         // to more efficiently filter the subscriptions.
         if let Some(allowed_subscription_names) = &self.allowed_subscription_names {
+            // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
+            let allowed_subscription_ids = self.allowed_subscription_ids.as_mut().unwrap();
             if allowed_subscription_names.contains(&sub.message_name) {
-                // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
-                self.allowed_subscription_ids
-                    .as_mut()
-                    .unwrap()
-                    .insert(sub.msg_id);
+                allowed_subscription_ids.insert(sub.msg_id);
+            } else {
+                // The msg_id may have belonged to an allowed subscription before.
+                allowed_subscription_ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From 8bdd039df0f392ad3fc7608d491d0bc8943ed4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 12/31] fix: write nothing for ignored messages

They were written as empty messages, which no ULog parser accepts.
---
 core/src/encode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..7a40ba9 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -19,6 +19,8 @@ impl Encode for UlogMessage {
                 writer.write_all(&header.to_bytes())?;
                 Ok(())
             }
+            // The contents of ignored messages are not kept, so there is no message to write.
+            UlogMessage::Ignored { .. } => Ok(()),
             other => {
                 // Wrap in Message struct with size and type prefix
                 let mut content_buf = Vec::new();
-- 
2.43.0


From ffc58ca4df1c0cc0e91b2b36374fda6772cc85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 13/31] fix: do not write heartbeat formats to standard output

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 9e2d5e3..32b46c9 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -239,10 +239,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From 39f93b482e90ca8e2e79dcbb43333bff31903d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 14/31] fix: consume padding fields of any type and size

---
 core/src/formats.rs | 14 +++++++++++++
 core/src/parser.rs  | 50 ++++++++++++++++++++++++---------------------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/core/src/formats.rs b/core/src/formats.rs
index f9de917..ba17818 100644
--- a/core/src/formats.rs
+++ b/core/src/formats.rs
@@ -98,6 +98,20 @@ impl def::BaseType {
         }
     }
 
+    /// The number of bytes that a value of this type takes up, unless it is a nested format.
+    pub(crate) fn size_of_primitive(&self) -> Option<usize> {
+        match self {
+            def::BaseType::INT8
+            | def::BaseType::UINT8
+            | def::BaseType::BOOL
+            | def::BaseType::CHAR => Some(1),
+            def::BaseType::INT16 | def::BaseType::UINT16 => Some(2),
+            def::BaseType::INT32 | def::BaseType::UINT32 | def::BaseType::FLOAT => Some(4),
+            def::BaseType::INT64 | def::BaseType::UINT64 | def::BaseType::DOUBLE => Some(8),
+            def::BaseType::OTHER(_) => None,
+        }
+    }
+
     #[allow(dead_code)]
     pub(crate) fn is_other(&self) -> bool {
         matches!(self, def::BaseType::OTHER(_))
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 32b46c9..a6f27bb 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -463,7 +463,7 @@ impl<R: Read> ULogParser<R> {
                 if message_buf.is_empty() {
                     num_absent += 1;
                 }
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, depth)? {
                     fields.push(padding_field);
                 }
                 continue;
@@ -516,33 +516,37 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
+        let num_elements = field.r#type.array_size.unwrap_or(1);
+
+        if message_buf.is_empty() && num_elements > 0 {
+            log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec.");
             return Ok(None);
-        };
-        
-        if array_size <= message_buf.len() {
-            log::debug!("Encountered padding, and padding <= message.len(). Ok.");
-
-            if self.include_padding {
-                let array = message_buf.advance(array_size)?.to_vec();
-                return Ok( Some( inst::Field {
-                    name: Shared::from(field.name.clone()),
-                    r#type: field.r#type.clone(),
-                    value: inst::FieldValue::ArrayU8(array),
-                }));
-            } else {
-                //Skip over the padding bytes.
-                message_buf.skip(array_size)?;
+        }
+
+        let value = match field.r#type.base_type.size_of_primitive() {
+            Some(size) if num_elements.saturating_mul(size) > message_buf.len() => {
+                log::error!("Encountered padding, and padding > message.len(). Taking what is left.");
+                inst::FieldValue::ArrayU8(message_buf.advance(message_buf.len())?.to_vec())
             }
-        } else {
-            match message_buf.len() {
-                0 => log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec."),
-                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring and hoping for the best"),
+            Some(size) if !self.include_padding => {
+                //Skip over the padding bytes.
+                message_buf.skip(num_elements * size)?;
+                return Ok(None);
             }
+            _ => self.parse_field_value(field, message_buf, depth)?,
+        };
+
+        if !self.include_padding {
+            return Ok(None);
         }
-        Ok(None)
+
+        Ok(Some(inst::Field {
+            name: Shared::from(field.name.clone()),
+            r#type: field.r#type.clone(),
+            value,
+        }))
     }
 
     fn parse_field_value(
-- 
2.43.0


From b0e0d333492129d517aaf23c2e3593bbd1e7c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 15/31] fix: forward messages to the catch-all variant whatever
 its name

---
 macros/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..3e7b562 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -513,23 +513,25 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
     let has_forward_other = forward_other_variant_ident.is_some();
 
-    let extra_logged_msg_conditional = match has_forward_other {
-        true => quote! {
+    let extra_logged_msg_conditional = if let Some(forward_ident) = &forward_other_variant_ident {
+        quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
             }
-        },
-        false => quote! {},
+        }
+    } else {
+        quote! {}
     };
 
-    let extra_subscription_forwarder = match has_forward_other {
-        true => quote! {
+    let extra_subscription_forwarder = if let Some(forward_ident) = &forward_other_variant_ident {
+        quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
             }
-        },
-        false => quote! {},
+        }
+    } else {
+        quote! {}
     };
 
     let expanded = quote! {
-- 
2.43.0


From 80f828beb90405a025578b7f89391e1570c93323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 16/31] fix: forget the mapping of a msg_id when it is given to
 another subscription

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 3e7b562..fb24a17 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -671,6 +671,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have belonged to another subscription before.
+                            self.subs.remove(&sub.msg_id);
+
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From ef6a6a8b547aac4f62d3748873606fb41b4dd3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 17/31] fix: accept raw identifiers as field names

---
 macros/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index fb24a17..585756a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,6 +41,7 @@ use darling::FromVariant;
 use heck::ToSnakeCase;
 use proc_macro::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{DeriveInput, Ident, Type};
 //
@@ -144,7 +145,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     fn idx_ident(f: &syn::Field) -> Ident {
-        let name = named_ident(f);
+        let name = named_ident(f).unraw();
         Ident::new(&format!("{name}_index"), name.span())
     }
 
@@ -168,7 +169,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
                 let attr = LoggedFieldAttr::from_field(f).unwrap();
                 attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
+                    .unwrap_or_else(|| named_ident(f).unraw().to_string())
             };
 
             if is_option_type(&make_index_type(f)) {
-- 
2.43.0


From 1d2b8074d42c77163dc3c7d45917fbfc7e336611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 18/31] fix: convert field names to snake case as documented

---
 macros/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 585756a..31035e7 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -168,8 +168,15 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             let ulog_name = {
                 // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
                 let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).unraw().to_string())
+                attr.field_name.unwrap_or_else(|| {
+                    let name = named_ident(f).unraw().to_string();
+                    // Names without capitals, such as `_padding0`, are in snake case already.
+                    if name.chars().any(char::is_uppercase) {
+                        name.to_snake_case()
+                    } else {
+                        name
+                    }
+                })
             };
 
             if is_option_type(&make_index_type(f)) {
-- 
2.43.0


From 21009ab8a675cc19065cb5a76b5d7f301ffd6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 19/31] fix: do not index past the fields of a message that
 lacks padding

---
 core/src/macro_utils.rs | 11 +++++++++++
 macros/src/lib.rs       | 43 +++++++++++++++++++++++++----------------
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/core/src/macro_utils.rs b/core/src/macro_utils.rs
index e3a4780..881922b 100644
--- a/core/src/macro_utils.rs
+++ b/core/src/macro_utils.rs
@@ -16,6 +16,17 @@ pub trait ULogAccessor {
     fn get_data(&self, field: &inst::Format) -> Result<Self::Output, ULogError>;
 }
 
+/// Finds a field of a message, given its index in the format definition.
+///
+/// Padding at the end of a message may be absent, so the message can have fewer fields than its format.
+pub fn find_field<'a>(format: &'a inst::Format, idx: usize, name: &str) -> Option<&'a inst::Field> {
+    format
+        .fields
+        .get(idx)
+        .filter(|field| field.name.as_ref() == name)
+        .or_else(|| format.fields.iter().find(|field| field.name.as_ref() == name))
+}
+
 /// FromField
 ///
 /// Converts an inst::Field to the specified type, with runtime
diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 31035e7..1523e14 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -149,6 +149,20 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         Ident::new(&format!("{name}_index"), name.span())
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name.unwrap_or_else(|| {
+            let name = named_ident(f).unraw().to_string();
+            // Names without capitals, such as `_padding0`, are in snake case already.
+            if name.chars().any(char::is_uppercase) {
+                name.to_snake_case()
+            } else {
+                name
+            }
+        })
+    }
+
     fn idx_type(f: &syn::Field) -> Type {
         // If the user type is an Option<T>, will generate Option<usize>
         // otherwise usize.
@@ -165,19 +179,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name.unwrap_or_else(|| {
-                    let name = named_ident(f).unraw().to_string();
-                    // Names without capitals, such as `_padding0`, are in snake case already.
-                    if name.chars().any(char::is_uppercase) {
-                        name.to_snake_case()
-                    } else {
-                        name
-                    }
-                })
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -238,7 +240,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     // - For any non-optional field `f`, the corresponding index field is `usize` and guaranteed to be present.
     //
     // This invariant is established earlier when generating index fields and validated by construction of the Accessor struct.
-    // Therefore, it is safe to unwrap and index into `format.fields` accordingly.
+    // It holds for the format, though: a message may lack padding fields of its format, so its fields are looked up
+    // with `find_field()`, which also compares the name.
     //
     // The generated code uses this to:
     // - Return `None` directly when the index is `None` (field missing),
@@ -248,6 +251,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         fields.iter().map(|f| {
             let name = named_ident(f);
             let idx_ident = idx_ident(f);
+            let ulog_name = ulog_name(f);
             let ty = &f.ty;
 
             if is_option_type(ty) {
@@ -255,14 +259,19 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 let inner_ty = extract_option_type(ty).expect("Expected Option inner type.");
 
                 quote! {
-                    #name: match self.#idx_ident {
+                    #name: match self.#idx_ident.and_then(|idx| ::yule_log::macro_utils::find_field(format, idx, #ulog_name)) {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        Some(field) => Some(<#inner_ty as #from_field_path>::from_field(field)?)
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: match ::yule_log::macro_utils::find_field(format, self.#idx_ident, #ulog_name) {
+                        None => return Err(::yule_log::errors::ULogError::InvalidFieldName(
+                            format!("The field `{}` is missing in a message of subscription `{}`", #ulog_name, #subscription)
+                        )),
+                        Some(field) => <#ty as #from_field_path>::from_field(field)?
+                    }
                 }
             }
         });
-- 
2.43.0


From b73e6b8ab164a500ecc11253f0d7ea73995b194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 20/31] fix: refuse to encode messages and keys that exceed the
 size of their length field

---
 core/src/encode.rs | 52 ++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 7a40ba9..dba088d 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -26,7 +26,12 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidInput,
+                        format!("Message is too long: {} bytes", content_buf.len()),
+                    )
+                })?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -118,12 +123,7 @@ impl Encode for LoggedData {
 
 impl Encode for msg::Info {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {
-        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;
-        key_bytes.push(b' ');
-        key_bytes.extend_from_slice(self.key.as_bytes());
-
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        encode_key(&self.r#type, &self.key, writer)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -135,12 +135,7 @@ impl Encode for msg::MultiInfo {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {
         writer.write_all(&[self.is_continued as u8])?;
 
-        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;
-        key_bytes.push(b' ');
-        key_bytes.extend_from_slice(self.key.as_bytes());
-
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        encode_key(&self.r#type, &self.key, writer)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -150,12 +145,7 @@ impl Encode for msg::MultiInfo {
 
 impl Encode for msg::Parameter {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {
-        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;
-        key_bytes.push(b' ');
-        key_bytes.extend_from_slice(self.key.as_bytes());
-
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        encode_key(&self.r#type, &self.key, writer)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -167,12 +157,7 @@ impl Encode for msg::DefaultParameter {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {
         writer.write_all(&[self.default_types])?;
 
-        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;
-        key_bytes.push(b' ');
-        key_bytes.extend_from_slice(self.key.as_bytes());
-
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        encode_key(&self.r#type, &self.key, writer)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -406,6 +391,23 @@ impl<T: Encode> Encode for &T {
     }
 }
 
+// Writes the length, type and name of a key, as used by info and parameter messages.
+fn encode_key<W: Write>(r#type: &def::TypeExpr, key: &str, writer: &mut W) -> io::Result<()> {
+    let mut key_bytes: Vec<u8> = r#type.encode_to_vec()?;
+    key_bytes.push(b' ');
+    key_bytes.extend_from_slice(key.as_bytes());
+
+    let key_len = u8::try_from(key_bytes.len()).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("Key is too long: {} bytes", key_bytes.len()),
+        )
+    })?;
+
+    writer.write_all(&[key_len])?;
+    writer.write_all(&key_bytes)
+}
+
 // Convenience method to encode to Vec<u8>
 trait EncodeToVec {
     fn encode_to_vec(&self) -> io::Result<Vec<u8>>;
-- 
2.43.0


From c0b6b3ec399421357e79dac51a1a7d8bc8e9471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 21/31] fix: do not overflow when asked to advance by a huge
 number of bytes

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..f3bccd6 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.len() {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From ccb27cdd5b2f3a04aac0f093aae78c836108ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 22/31] fix: let all fields of a derived struct be optional

---
 macros/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 1523e14..76519d0 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -208,7 +208,9 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                // Without a required field nothing is ever pushed.
+                #[allow(unused_mut)]
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From 266eb00932718037a059b43ca5b4278c955ada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 23/31] fix: accept raw identifiers as names of structs and
 enums

---
 macros/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 76519d0..777e396 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -133,10 +133,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     };
     let subscription = attr
         .subscription_name
-        .unwrap_or_else(|| struct_name.to_string().to_snake_case());
+        .unwrap_or_else(|| struct_name.unraw().to_string().to_snake_case());
     let multi_id = attr.multi_id.unwrap_or(0);
 
-    let accessor_name = Ident::new(&format!("{struct_name}Accessor"), struct_name.span());
+    let accessor_name = Ident::new(
+        &format!("{}Accessor", struct_name.unraw()),
+        struct_name.span(),
+    );
 
     fn named_ident(f: &syn::Field) -> &syn::Ident {
         #[allow(clippy::unwrap_used)]
@@ -373,6 +376,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let input = syn::parse_macro_input!(input as DeriveInput);
 
     let enum_name = &input.ident;
+    let plain_enum_name = enum_name.unraw();
 
     let variants = if let syn::Data::Enum(data_enum) = &input.data {
         &data_enum.variants
@@ -430,15 +434,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .collect();
 
     let accessor_enum_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Accessor"),
+        &format!("__yule_log_derive_{plain_enum_name}Accessor"),
         enum_name.span(),
     );
 
     let hidden_struct_name =
-        Ident::new(&format!("__yule_log_derive_{enum_name}"), enum_name.span());
+        Ident::new(&format!("__yule_log_derive_{plain_enum_name}"), enum_name.span());
 
     let builder_struct_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Builder"),
+        &format!("__yule_log_derive_{plain_enum_name}Builder"),
         enum_name.span(),
     );
 
@@ -451,7 +455,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         if let syn::Type::Path(type_path) = ty {
             #[allow(clippy::unwrap_used)]
             // Safe: syn::Type::Path always has at least one segment for a valid Rust struct type.
-            let ident = &type_path.path.segments.last().unwrap().ident;
+            let ident = type_path.path.segments.last().unwrap().ident.unraw();
             let name = format!("{ident}Accessor");
             Ok(Ident::new(&name, span))
         } else {
-- 
2.43.0


From e2a47b408fc971904bfa28c488c5fa73f3312d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 24/31] fix: keep the names of generated code apart from the
 user's types

---
 macros/src/lib.rs | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 777e396..e57c138 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -234,7 +234,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         }
     };
 
-    let from_field_path: syn::Path = syn::parse_str("FromField").unwrap();
+    let from_field_path: syn::Path =
+        syn::parse_str("::yule_log::macro_utils::FromField").unwrap();
 
     // Generate get_data fields using the FromField trait.
     //
@@ -324,8 +325,6 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             fn get_data(&self, format: &yule_log::model::inst::Format)
                 -> Result<Self::Output, yule_log::errors::ULogError>
             {
-                use ::yule_log::macro_utils::FromField;
-
                 Ok(#struct_name {
                     #( #get_data_fields ),*
                 })
@@ -510,7 +509,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .iter()
         .map(|(var, _ty)| {
             quote! {
-                #accessor_enum_name::#var(a) => a.get_data(&data.data).map(|v| #enum_name::#var(v))
+                #accessor_enum_name::#var(a) => ::yule_log::macro_utils::ULogAccessor::get_data(a, &data.data).map(|v| #enum_name::#var(v))
             }
         })
         .collect();
@@ -539,7 +538,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let extra_logged_msg_conditional = if let Some(forward_ident) = &forward_other_variant_ident {
         quote! {
             else {
-                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));
             }
         }
     } else {
@@ -550,7 +549,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::AddSubscription(sub))));
             }
         }
     } else {
@@ -569,16 +568,16 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[allow(non_camel_case_types)]
         #[derive(Debug)]
         #[automatically_derived]
-        struct #builder_struct_name<R: std::io::Read> {
-            reader: R,
+        struct #builder_struct_name<__YuleLogReader: std::io::Read> {
+            reader: __YuleLogReader,
             extra_allow_list: Vec<String>,
             forward_subscriptions: bool,
         }
 
-        impl<R: std::io::Read> #builder_struct_name<R> {
+        impl<__YuleLogReader: std::io::Read> #builder_struct_name<__YuleLogReader> {
             pub const HAS_FORWARD_OTHER: bool = #has_forward_other;
 
-            pub fn new(reader: R) -> Self {
+            pub fn new(reader: __YuleLogReader) -> Self {
                 Self {
                     reader,
                     extra_allow_list: Vec::new(),
@@ -630,7 +629,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 Ok(self)
             }
 
-            pub fn stream(self) -> Result<#hidden_struct_name<R>, yule_log::errors::ULogError> {
+            pub fn stream(self) -> Result<#hidden_struct_name<__YuleLogReader>, yule_log::errors::ULogError> {
                 let mut result = #hidden_struct_name::new(self.reader)?;
                 result.extend_allow_list(self.extra_allow_list);
                 result.forward_subscriptions(self.forward_subscriptions);
@@ -641,15 +640,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[doc = "Internal iterator struct driving the ULog parser and dispatching messages."]
         #[allow(non_camel_case_types)]
         #[automatically_derived]
-        struct #hidden_struct_name<R: std::io::Read> {
-            parser: yule_log::parser::ULogParser<R>,
+        struct #hidden_struct_name<__YuleLogReader: std::io::Read> {
+            parser: yule_log::parser::ULogParser<__YuleLogReader>,
             subs: std::collections::HashMap<u16, #accessor_enum_name>,
             forward_subscriptions: bool,
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> #hidden_struct_name<R> {
-            fn new(reader: R) -> Result<Self, yule_log::errors::ULogError> {
+        impl<__YuleLogReader: std::io::Read> #hidden_struct_name<__YuleLogReader> {
+            fn new(reader: __YuleLogReader) -> Result<Self, yule_log::errors::ULogError> {
                 let mut parser = yule_log::builder::ULogParserBuilder::new(reader)
                     .include_timestamp(true)
                     .include_padding(true)
@@ -678,14 +677,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> Iterator for #hidden_struct_name<R> {
+        impl<__YuleLogReader: std::io::Read> Iterator for #hidden_struct_name<__YuleLogReader> {
             type Item = Result<#enum_name, yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                use ::yule_log::macro_utils::ULogAccessorFactory;
-                use ::yule_log::model::msg::UlogMessage;
-                use ::yule_log::macro_utils::ULogAccessor;
-
                 while let Some(msg_res) = self.parser.next() {
                     let msg = match msg_res {
                         Ok(m) => m,
@@ -693,7 +688,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                     };
 
                     match msg {
-                        UlogMessage::AddSubscription(sub) => {
+                        ::yule_log::model::msg::UlogMessage::AddSubscription(sub) => {
                             // The msg_id may have belonged to another subscription before.
                             self.subs.remove(&sub.msg_id);
 
@@ -705,7 +700,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                             }
                             // Continue looping; don't yield yet
                         }
-                        UlogMessage::LoggedData(data) => {
+                        ::yule_log::model::msg::UlogMessage::LoggedData(data) => {
                             if let Some(acc) = self.subs.get(&data.msg_id) {
                                 return Some(match acc {
                                     #( #logged_data_arms ),*
@@ -724,15 +719,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[automatically_derived]
         impl #enum_name {
             #[doc = "Returns an iterator over the selected ULOG messages from the reader."]
-            pub fn stream<R: std::io::Read>(
-                reader: R,
+            pub fn stream<__YuleLogReader: std::io::Read>(
+                reader: __YuleLogReader,
             ) -> Result<impl Iterator<Item = Result<Self, yule_log::errors::ULogError>>, yule_log::errors::ULogError>
             {
                 #hidden_struct_name::new(reader)
             }
 
             #[doc = "Returns a builder that allows the iterator to be customised."]
-            pub fn builder<R: std::io::Read>(reader: R) -> #builder_struct_name<R> {
+            pub fn builder<__YuleLogReader: std::io::Read>(reader: __YuleLogReader) -> #builder_struct_name<__YuleLogReader> {
                 #builder_struct_name::new(reader)
             }
         }
-- 
2.43.0


From dcf4941dfd4187805474c66c0c2d58d0ce49f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 25/31] fix: accept structs that are not public

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e57c138..df13adf 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -125,6 +125,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     let struct_name = &input.ident;
+    let struct_vis = &input.vis;
 
     // Parse optional subscription name + multi_id
     let attr = match LoggedStructAttr::from_derive_input(&input) {
@@ -295,7 +296,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
         #[automatically_derived]
-        pub struct #accessor_name {
+        #struct_vis struct #accessor_name {
             #( #index_fields ),*
         }
 
-- 
2.43.0


From c58f16cc504d923b3196a3dec50c452c5f918a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 26/31] fix: let forward_subscriptions(false) undo an earlier
 forward_subscriptions(true)

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index df13adf..0415232 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -624,7 +624,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                         }
                         self.forward_subscriptions = true;
                     }
-                    false => {}
+                    false => self.forward_subscriptions = false,
                 }
 
                 Ok(self)
-- 
2.43.0


From f688028f9e85df2a3f6a831e4026fc1b0e42696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 27/31] fix: apply an allow list set while reading to
 subscriptions already announced

---
 core/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index a6f27bb..3ce602e 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -146,6 +146,11 @@ impl<R: Read> ULogParser<R> {
     #[deprecated]
     pub fn set_subscription_allow_list(&mut self, set: HashSet<String>) {
         self.subscription_filter = SubscriptionFilter::new(set);
+
+        // The list applies to subscriptions that have already been read, too.
+        for sub in self.subscriptions.values() {
+            self.subscription_filter.update_ids(sub);
+        }
     }
 
     pub fn get_format(&self, message_name: &str) -> Result<Shared<def::Format>, ULogError> {
-- 
2.43.0


From 2978ef405cccbd2c7b9bb5e6316ef357fb37ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 28/31] fix: refuse invalid yule_log attributes on enum
 variants instead of ignoring them

---
 macros/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0415232..98a8f0c 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -401,7 +401,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let mut variant_info = Vec::new();
 
     for v in variants {
-        let attr = LoggedVariantAttr::from_variant(v).unwrap_or_default();
+        let attr = match LoggedVariantAttr::from_variant(v) {
+            Ok(a) => a,
+            Err(e) => return e.write_errors().into(),
+        };
         if attr.forward_other {
             if forward_other_variant_ident.is_some() {
                 return syn::Error::new_spanned(
-- 
2.43.0


From c6a3ea62f05704eeff98166dee33675d0bac32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 29/31] fix: count bytes and appended-data offsets in 64 bits
 on every machine

---
 core/src/datastream.rs | 8 ++++----
 core/src/parser.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/datastream.rs b/core/src/datastream.rs
index e7ecd65..1c06c84 100644
--- a/core/src/datastream.rs
+++ b/core/src/datastream.rs
@@ -7,7 +7,7 @@ use crate::errors::ULogError;
 #[derive(Debug)]
 pub struct DataStream<R: Read> {
     reader: R,
-    pub(crate) num_bytes_read: usize,
+    pub(crate) num_bytes_read: u64,
     pub(crate) eof: bool,
 }
 
@@ -24,9 +24,9 @@ impl<R: Read> DataStream<R> {
         log::trace!(
             "datastream read from:  [{:04X}-{:04X}]",
             self.num_bytes_read,
-            self.num_bytes_read + buf.len()
+            self.num_bytes_read + buf.len() as u64
         );
-        self.num_bytes_read += buf.len();
+        self.num_bytes_read += buf.len() as u64;
 
         match self.reader.read_exact(buf) {
             Ok(()) => Ok(buf.len()),
@@ -61,7 +61,7 @@ impl<R: Read> DataStream<R> {
             }
             total_skipped += bytes_read;
         }
-        self.num_bytes_read += total_skipped;
+        self.num_bytes_read += total_skipped as u64;
         Ok(total_skipped)
     }
 
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 3ce602e..a776496 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -33,7 +33,7 @@ pub struct ULogParser<R: Read> {
     message_name_with_multi_id: HashSet<String>,
     subscription_filter: SubscriptionFilter,
     datastream: DataStream<R>,
-    max_bytes_to_read: Option<usize>,
+    max_bytes_to_read: Option<u64>,
     pub(crate) include_header: bool,
     pub(crate) include_timestamp: bool,
     pub(crate) include_padding: bool,
@@ -212,7 +212,7 @@ impl<R: Read> ULogParser<R> {
 
         if let Some(max_bytes_to_read) = max_bytes_to_read {
             let remaining = max_bytes_to_read.saturating_sub(self.datastream.num_bytes_read);
-            if remaining < MESSAGE_HEADER_SIZE {
+            if remaining < MESSAGE_HEADER_SIZE as u64 {
                 self.state = State::EOF;
                 return Ok(None);
             }
@@ -228,7 +228,7 @@ impl<R: Read> ULogParser<R> {
 
                 // A message cut off by the appended data is no different from one cut off by the end of the file.
                 if let Some(max_bytes_to_read) = max_bytes_to_read {
-                    if self.datastream.num_bytes_read + msg_size > max_bytes_to_read {
+                    if self.datastream.num_bytes_read + msg_size as u64 > max_bytes_to_read {
                         self.state = State::EOF;
                         return Err(ULogError::UnexpectedEndOfFile);
                     }
@@ -668,7 +668,7 @@ impl<R: Read> ULogParser<R> {
                         .appended_data_offsets
                         .iter()
                         .find(|&&offset| offset > 0)
-                        .map(|&offset| offset as usize);
+                        .copied();
                 }
 
                 Ok(UlogMessage::FlagBits(flag_bits))
-- 
2.43.0


From 7e57a17ad365014b4a6895c26a6c33ac8a7fa3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 30/31] fix: refuse enum variants with named fields instead of
 never delivering them

---
 macros/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 98a8f0c..1e90ad4 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -417,8 +417,13 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             forward_other_variant_ident = Some(v.ident.clone());
         }
 
-        if let syn::Fields::Unnamed(fields) = &v.fields {
-            if fields.unnamed.len() != 1 {
+        match &v.fields {
+            syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1 => {
+                variant_info.push((v.ident.clone(), &fields.unnamed[0].ty));
+            }
+            // Nothing to map.
+            syn::Fields::Unit => {}
+            _ => {
                 return syn::Error::new_spanned(
                     v,
                     "Enum variants must be tuple variants containing exactly one struct type.",
@@ -426,7 +431,6 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 .to_compile_error()
                 .into();
             }
-            variant_info.push((v.ident.clone(), &fields.unnamed[0].ty));
         }
     }
 
-- 
2.43.0


From 38408dc31936ec818f858d3e424f9b875ea181c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 31/31] fix: refuse yule_log attributes on the enum itself and
 inside its variants instead of ignoring them

---
 macros/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 1e90ad4..98349be 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -396,6 +396,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .into();
     }
 
+    // Neither the enum itself nor what its variants wrap has any attributes.
+    let wrapped = variants.iter().flat_map(|v| v.fields.iter());
+    let misplaced = wrapped.flat_map(|f| f.attrs.iter()).chain(&input.attrs).find(|a| a.path().is_ident("yule_log"));
+    if let Some(attr) = misplaced {
+        return syn::Error::new_spanned(attr, "Attributes belong to the variants of the enum.")
+            .to_compile_error()
+            .into();
+    }
+
     // Find the variant marked with #[yule_log(forward_other)], if present
     let mut forward_other_variant_ident = None;
     let mut variant_info = Vec::new();
-- 
2.43.0

