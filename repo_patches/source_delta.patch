From dc89024c3b527144e1d4e7269a7d04750d979c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 01/48] fix: decode the key type byte of typed requests

---
 engine/src/command/request/context.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..5e1a56f 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -108,32 +108,39 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        // The lower 7 bits are the ID of the command.
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        // If the first bit is flipped, then the next byte is denoting the type
+        // of key to work with. This means that byte idx 2 is the argument
+        // length.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
+        // If the first bit is 0, then the next byte is the argument length, and
+        // the type of key to work with is not a requirement.
         let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
             Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
         } else {
             None
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        self.idx += 1 + key_type.is_some() as usize;
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From c66be389ecb53c576bee7937e55938c8031b0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 02/48] fix: parse request arguments at their own offsets and
 keep them in the request

---
 engine/src/command/request/context.rs | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 5e1a56f..5eea4df 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -2,7 +2,10 @@ use super::{super::ContextConclusion, Request};
 use crate::{command::CommandId, state::KeyType};
 use alloc::borrow::Cow;
 use arrayvec::ArrayVec;
-use core::convert::{TryFrom, TryInto};
+use core::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 type Conclusion<'a> = ContextConclusion<(CommandId, Option<KeyType>)>;
 
@@ -87,13 +90,18 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    // The request only consists of the bytes parsed for it: the
+                    // rest of the buffer belongs to the next request.
+                    let len = self.idx;
+                    let positions = mem::replace(&mut self.positions, ArrayVec::new());
+
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..len]),
                         command_id,
                         key_type,
-                        positions: Cow::Borrowed(&self.positions),
+                        positions: Cow::Owned(positions),
                     }));
                 }
                 Conclusion::Incomplete => return Ok(None),
@@ -163,6 +171,10 @@ impl Context {
         };
         self.idx = self.idx.saturating_add(1);
 
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         Ok(Conclusion::Next)
     }
 
@@ -180,13 +192,16 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let arg_start = self.idx + Self::ARG_LEN_BYTES;
+
+        if buf.get(arg_start..arg_start + arg_len).is_none() {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        self.idx = arg_start + arg_len;
+
+        // The position of an argument is the index of its last byte.
+        self.positions.push(self.idx - 1);
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From c8ac6f2d83f474cb29c34aa2558d43bd597592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 03/48] fix: report unknown error codes in responses instead of
 panicking

---
 engine/src/command/response/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..435c470 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -215,7 +215,7 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant = DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -366,7 +366,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
-- 
2.43.0


From 4ce7351ccab4fb1756821a7ea0e5ee9d85e56583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 04/48] fix: decode empty bytes, list and set responses

---
 engine/src/command/response/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 435c470..d37e0b6 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -192,7 +192,6 @@ impl Context {
 
     fn stage_bytes(&mut self, buf: &[u8], len: u32) -> Result<Option<Instruction>, ParseError> {
         debug_assert_eq!(self.idx, 9);
-        debug_assert_ne!(len, 0);
 
         let bytes = match buf.get(self.idx..self.idx + len as usize) {
             Some(bytes) => bytes,
@@ -396,6 +395,12 @@ impl Context {
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(
+                        Vec::<Vec<u8>>::new(),
+                    ))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -416,6 +421,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(DashSet::new()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From a3986381d7f163e499f71bb33025f636447bf377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 05/48] fix: ask for the bytes missing from a truncated
 response header

---
 engine/src/command/response/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index d37e0b6..543ab35 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -381,7 +381,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
-- 
2.43.0


From 5ee8296c553d71e95e00f4348e552aeb507de893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 06/48] fix: create missing keys atomically so that concurrent
 writes aren't lost

---
 engine/src/state/mod.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..9ccfda7 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,9 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        // Creating the key happens under the lock of its entry, as otherwise the
+        // default value could overwrite a value written in the meantime.
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From 8656dadd457e796e1b0a348a423d2d6ada0b761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 07/48] fix: replace values atomically when setting a key

---
 engine/src/command/impl/set.rs | 53 +++++++---------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..87fa6bf 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -10,13 +10,7 @@ pub struct Set;
 impl Set {
     fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
+        hop.state().insert(key.to_owned(), Value::Boolean(arg));
 
         response::write_bool(resp, arg);
 
@@ -27,11 +21,8 @@ impl Set {
         let arg = req
             .typed_arg::<&[u8]>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
+        hop.state()
+            .insert(key.to_owned(), Value::Bytes(arg.to_vec()));
 
         response::write_bytes(resp, arg);
 
@@ -40,11 +31,7 @@ impl Set {
 
     fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
+        hop.state().insert(key.to_owned(), Value::Float(arg));
 
         response::write_float(resp, arg);
 
@@ -53,13 +40,7 @@ impl Set {
 
     fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
+        hop.state().insert(key.to_owned(), Value::Integer(arg));
 
         response::write_int(resp, arg);
 
@@ -68,11 +49,8 @@ impl Set {
 
     fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *list = args.map(ToOwned::to_owned).collect();
+        let list = args.map(ToOwned::to_owned).collect();
+        hop.state().insert(key.to_owned(), Value::List(list));
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
 
         response::write_list(resp, args);
@@ -82,26 +60,20 @@ impl Set {
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_map(resp, &args);
 
-        *map = args;
+        hop.state().insert(key.to_owned(), Value::Map(args));
 
         Ok(())
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_set(resp, &args);
 
-        *set = args;
+        hop.state().insert(key.to_owned(), Value::Set(args));
 
         Ok(())
     }
@@ -110,11 +82,8 @@ impl Set {
         let arg = req
             .typed_arg::<&str>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
+        hop.state()
+            .insert(key.to_owned(), Value::String(arg.to_owned()));
 
         response::write_str(resp, arg);
 
-- 
2.43.0


From b4fb6fb2aaa0b314622d2cb258fce900b3a0d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 08/48] fix: create missing keys as floats when incrementing a
 float

---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 0a5ac100b6cbb60c221e02803955f5c9b05bedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 09/48] fix: wrap around when an integer overflows instead of
 panicking

---
 engine/src/command/impl/decrement_by.rs | 2 +-
 engine/src/command/impl/increment_by.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..b094bc1 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,7 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..7a7bc85 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,7 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int.wrapping_add(amount);
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From a6a04730fdb01a7132ef6391e0b00f21e34a9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 10/48] fix: work with floats when incrementing or decrementing
 float keys

---
 engine/src/command/impl/decrement.rs    |  4 ++--
 engine/src/command/impl/decrement_by.rs | 14 ++++++++++----
 engine/src/command/impl/increment.rs    |  4 ++--
 engine/src/command/impl/increment_by.rs | 23 ++++++++++++++++++-----
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..bb637d2 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Decrement;
@@ -11,7 +11,7 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        if IncrementBy::is_float(hop, req, key) {
             IncrementBy::increment_float_by(hop, key, -1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, -1, resp)
diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index b094bc1..eb5c003 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -11,12 +11,18 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if IncrementBy::is_float(hop, req, key) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..982dbcc 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Increment;
@@ -11,7 +11,7 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        if IncrementBy::is_float(hop, req, key) {
             IncrementBy::increment_float_by(hop, key, 1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, 1, resp)
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7a7bc85..ca82396 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,10 +1,21 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
 
 impl IncrementBy {
+    /// Determine whether a request works with a float, which it does if it
+    /// requests so or, when it doesn't request a type, if the key is a float.
+    pub fn is_float(hop: &Hop, req: &Request, key: &[u8]) -> bool {
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
+
+        key_type == Some(KeyType::Float)
+    }
+
     pub fn increment_float_by(
         hop: &Hop,
         key: &[u8],
@@ -44,12 +55,14 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if Self::is_float(hop, req, key) {
+            let float = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_int_by(hop, key, int, resp)
         }
     }
 }
-- 
2.43.0


From c227f41990e3c6044794a2fc21eaa0cb7e7318dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 11/48] fix: refuse empty and internal keys instead of
 panicking

---
 engine/src/hop.rs       | 19 ++++++++++++++++++-
 engine/src/state/mod.rs | 11 ++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/engine/src/hop.rs b/engine/src/hop.rs
index 9d9e27e..fac2a4a 100644
--- a/engine/src/hop.rs
+++ b/engine/src/hop.rs
@@ -10,7 +10,10 @@
 //! [`Hop`]: struct.Hop.html
 
 use crate::{
-    command::{r#impl::*, CommandId, Dispatch, DispatchResult, Request},
+    command::{
+        command_id::KeyNotation, r#impl::*, CommandId, Dispatch, DispatchError, DispatchResult,
+        Request,
+    },
     metrics::{Metric, Metrics, Reader, Writer},
     pubsub::PubSubManager,
     session::SessionManager,
@@ -169,6 +172,8 @@ impl Hop {
     /// response to on success.
     pub fn dispatch(&self, req: &Request, res: &mut Vec<u8>) -> DispatchResult<()> {
         let res = match req.command_id() {
+            _ if Self::keys(req).any(<[u8]>::is_empty) => Err(DispatchError::KeyUnspecified),
+            _ if Self::keys(req).any(State::is_internal) => Err(DispatchError::PreconditionFailed),
             CommandId::Append => Append::dispatch(self, req, res),
             CommandId::DecrementBy => DecrementBy::dispatch(self, req, res),
             CommandId::Decrement => Decrement::dispatch(self, req, res),
@@ -196,6 +201,18 @@ impl Hop {
         res
     }
 
+    /// Iterate over the keys that the request's command works on.
+    fn keys<'a>(req: &'a Request) -> impl Iterator<Item = &'a [u8]> {
+        let amount = match req.command_id().key_notation() {
+            // Commands of multiple keys only check which keys exist.
+            KeyNotation::Multiple | KeyNotation::None => 0,
+            KeyNotation::One => 1,
+            KeyNotation::Two => 2,
+        };
+
+        (0..amount).filter_map(move |idx| req.arg(idx))
+    }
+
     /// Return an immutable reference to the configuration.
     pub fn config(&self) -> &Config {
         &self.0.config
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 9ccfda7..630b59d 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -53,6 +53,11 @@ impl State {
         Self::default()
     }
 
+    /// Check if a key is reserved for internal use.
+    pub(crate) fn is_internal(key: &[u8]) -> bool {
+        key.starts_with(b"__hop__:")
+    }
+
     /// Check if a key exists.
     ///
     /// # Examples
@@ -126,7 +131,7 @@ impl State {
     /// assert!(state.key_ref(b"foo").is_some());
     /// ```
     pub fn key_ref<'a>(&'a self, key: &[u8]) -> Option<Ref<'a, Key, Value>> {
-        if key.starts_with(b"__hop__:") {
+        if Self::is_internal(key) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
@@ -140,7 +145,7 @@ impl State {
     /// Returns `None` if the key does not exist.
     /// ```
     pub fn key_mut<'a>(&'a self, key: &[u8]) -> Option<RefMut<'a, Key, Value>> {
-        if key.starts_with(b"__hop__:") {
+        if Self::is_internal(key) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
@@ -171,7 +176,7 @@ impl State {
         key: &[u8],
         f: impl Fn() -> Value,
     ) -> RefMut<'a, Key, Value> {
-        if key.starts_with(b"__hop__:") {
+        if Self::is_internal(key) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
-- 
2.43.0


From bd9189500d6169fce11c319a3d73ac19c26f98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 12/48] fix: report the remaining amount of request arguments
 as their length

---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..0483451 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to.saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From 8d0f657ebe73142465077e1454c56ca974617d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 13/48] fix: check for strings in Value::is_string

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From 1bd9f05746796c767931a7d53b0ff994f9f2cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 14/48] fix: refuse to grow lists past the amount of items a
 response can hold

---
 engine/src/command/impl/append.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..77c26ca 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -29,6 +29,11 @@ impl Append {
         let mut key = hop.state().key_or_insert_with(key, Value::list);
         let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
+        // A list can't be written to a response when it has more items than this.
+        if list.len() + args.len() > u16::MAX as usize {
+            return Err(DispatchError::PreconditionFailed);
+        }
+
         list.append(&mut args.map(ToOwned::to_owned).collect());
 
         response::write_list(resp, list.iter());
-- 
2.43.0


From 58b3e3efb27c8ea2a5be938976e865fb9ba48b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 15/48] fix: refuse map keys and set items that are too long
 for a response

---
 engine/src/command/impl/set.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 87fa6bf..29ae8e2 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -4,6 +4,7 @@ use crate::{
     Hop,
 };
 use alloc::{borrow::ToOwned, vec::Vec};
+use dashmap::{DashMap, DashSet};
 
 pub struct Set;
 
@@ -59,7 +60,14 @@ impl Set {
     }
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
+        let args = req
+            .typed_args::<DashMap<_, _>>()
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+
+        // Longer keys can't be written to a response.
+        if args.iter().any(|arg| arg.key().len() > u8::MAX as usize) {
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_map(resp, &args);
 
@@ -69,7 +77,14 @@ impl Set {
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
+        let args = req
+            .typed_args::<DashSet<_>>()
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+
+        // Longer items can't be written to a response.
+        if args.iter().any(|arg| arg.len() > u16::MAX as usize) {
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_set(resp, &args);
 
-- 
2.43.0


From c9cd2809b5d2880b03d8cbea0e000a82b1e3e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 16/48] fix: refuse more request arguments than fit in the
 argument count

---
 engine/src/command/request/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..ae888e1 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len() * 2) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,8 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        self.argument_count as usize + amount > u8::MAX as usize
     }
 
     fn update_count(&mut self) {
@@ -242,6 +242,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 901db02292d7a28ee59555928280000e3a46236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 17/48] fix: refuse empty lists in requests before adding any
 argument

---
 engine/src/command/request/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index ae888e1..6c514ab 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,11 +175,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(Vec::is_empty) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
-- 
2.43.0


From e87728e8f52ccab9712089bed652165481f7fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 18/48] fix: restore the argument count when rebuilding a
 request

---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 6c514ab..0a1f51e 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -281,6 +281,7 @@ impl RequestBuilder {
 impl From<Request<'_>> for RequestBuilder {
     fn from(request: Request) -> Self {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
+        builder.argument_count = request.arg_count() as u8;
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
 
-- 
2.43.0


From 7978e4292c1fe835c5379bc60c5f9e9c60c1434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 19/48] fix: refuse arguments for commands without an argument
 list

---
 engine/src/command/request/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 0a1f51e..eb95887 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -223,7 +223,14 @@ impl RequestBuilder {
     }
 
     fn arguments_would_overfill(&self, amount: usize) -> bool {
-        self.argument_count as usize + amount > u8::MAX as usize
+        // Simple commands have no argument list at all.
+        let max = if self.command_id.is_simple() {
+            0
+        } else {
+            u8::MAX as usize
+        };
+
+        self.argument_count as usize + amount > max
     }
 
     fn update_count(&mut self) {
-- 
2.43.0


From 737606fbf7be475500575ca4f129b55c69ba0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 20/48] fix: don't lose values when renaming keys concurrently

---
 engine/src/command/impl/rename.rs | 10 +++++++++-
 engine/src/hop.rs                 |  4 ++++
 engine/src/state/mod.rs           | 18 +++++++++++++++++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..fe0040f 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -13,6 +13,7 @@ impl Dispatch for Rename {
         let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
         let arg = req.arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
         let state = hop.state();
+        let _renames = hop.0.renames.write();
 
         if !state.contains_key(key) {
             return Err(DispatchError::KeyNonexistent);
@@ -23,7 +24,14 @@ impl Dispatch for Rename {
         }
 
         let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
-        state.insert(arg.to_vec(), v);
+
+        // Another command may have created the destination since it was checked,
+        // in which case neither value may be lost.
+        if let Some(v) = state.insert_vacant(arg.to_vec(), v) {
+            state.insert_vacant(key.to_vec(), v);
+
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_bytes(resp, arg);
 
diff --git a/engine/src/hop.rs b/engine/src/hop.rs
index fac2a4a..fd3dabd 100644
--- a/engine/src/hop.rs
+++ b/engine/src/hop.rs
@@ -20,6 +20,7 @@ use crate::{
     state::State,
 };
 use alloc::{sync::Arc, vec::Vec};
+use dashmap::lock::RwLock;
 
 /// Configuration defining how a Hop engine will operate.
 ///
@@ -127,6 +128,8 @@ pub(crate) struct HopRef {
     metrics: Metrics,
     pub(crate) metrics_writer: Writer,
     pubsub: PubSubManager,
+    /// Held while renaming a key, which takes multiple operations on the state.
+    pub(crate) renames: RwLock<()>,
     sessions: SessionManager,
     state: State,
 }
@@ -141,6 +144,7 @@ impl Default for HopRef {
             metrics,
             metrics_writer: writer.clone(),
             pubsub: PubSubManager::default(),
+            renames: RwLock::default(),
             sessions: SessionManager::new(writer),
             state: State::default(),
         }
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 630b59d..ac7a282 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -5,7 +5,10 @@ pub use self::value::Value;
 use alloc::{borrow::ToOwned, string::String, sync::Arc, vec::Vec};
 use core::convert::TryFrom;
 use dashmap::{
-    mapref::one::{Ref, RefMut},
+    mapref::{
+        entry::Entry,
+        one::{Ref, RefMut},
+    },
     DashMap,
 };
 
@@ -92,6 +95,19 @@ impl State {
         self.0.insert(key, value)
     }
 
+    /// Insert a value by key if the key isn't taken yet, returning the given
+    /// value if the key is already taken.
+    pub(crate) fn insert_vacant(&self, key: Vec<u8>, value: Value) -> Option<Value> {
+        match self.0.entry(key) {
+            Entry::Occupied(_) => Some(value),
+            Entry::Vacant(entry) => {
+                entry.insert(value);
+
+                None
+            }
+        }
+    }
+
     /// Remove a value by key, returning both the owned key and value if
     /// present.
     ///
-- 
2.43.0


From fc125881c1d3991d39622d9c1dd86286380fbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 21/48] fix: give concurrently added sessions their own IDs

---
 engine/src/session/manager.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..37b49f2 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,22 +27,18 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        loop {
+            let id = self.next_id();
 
-        let value = match self.0.sessions.entry(self.next_id()) {
-            Entry::Occupied(_) => {
-                unreachable!();
-            }
-            Entry::Vacant(v) => v.insert(session),
-        };
-
-        self.0.metrics_writer.increment(Metric::SessionsStarted);
+            // The ID may be in use if the IDs have wrapped around.
+            if let Entry::Vacant(v) = self.0.sessions.entry(id) {
+                let value = v.insert(Session::new(client_token, id));
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
+                self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        value
+                return value;
+            }
+        }
     }
 
     pub fn remove(&self, id: u32) -> bool {
@@ -50,7 +46,7 @@ impl SessionManager {
     }
 
     fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
+        self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From e34fbf6525ab1d89b1e3b78e85a99fb04830fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 22/48] fix: count and report ended sessions

---
 engine/src/command/impl/stats.rs | 1 +
 engine/src/session/manager.rs    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 37b49f2..5508d6f 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -42,7 +42,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-- 
2.43.0


From e28417f226fbfa3126976db3ba7f9d18f2f3a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 23/48] fix: allow multiple sessions to subscribe to the same
 key

---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From f01a9aad286eae59f62a1bff3b0d7557caf90d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 24/48] fix: forget the subscriptions of removed sessions

---
 engine/src/pubsub/manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..8b78235 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,11 +80,19 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                let subscribed = !subscriptions.is_empty();
+
+                for (key, sub) in subscriptions.into_iter() {
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
+
                     sub.close();
                 }
+
+                subscribed
             })
-            .is_some()
+            .unwrap_or(false)
     }
 }
 
-- 
2.43.0


From 1c2b5af5cf4b798385bbdbc87921b811882e0edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 25/48] fix: read requests of the binary protocol by their own
 framing

---
 server/src/main.rs | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..8e33342 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -83,36 +83,55 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
+    let mut buf = [0; 8192];
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    loop {
+        let size = reader.read(&mut buf).await?;
+
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        input.extend_from_slice(&buf[..size]);
+
+        // The input may contain a part of a request, or multiple requests.
+        let mut consumed = 0;
+
+        loop {
+            match ctx.feed(&input[consumed..]) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    consumed += req.as_bytes().len();
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
+                    writer.write_all(&resp).await?;
+                    writer.shutdown().await?;
+
+                    // It's unknown where the next request starts, so discard the
+                    // rest of the input.
+                    while reader.read(&mut buf).await? > 0 {}
 
-                res.copy_to(&mut resp);
+                    return Ok(());
+                }
             }
-        };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            writer.write_all(&resp).await?;
+            resp.clear();
+        }
+
+        input.drain(..consumed);
     }
 
     Ok(())
-- 
2.43.0


From d19d1d2d359abe047b30ba6789139e0eeceb096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 26/48] fix: keep serving after failing to accept a connection

---
 server/src/main.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 8e33342..14bcb4f 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -12,6 +12,8 @@ use std::{
     error::Error,
     net::{IpAddr, Ipv4Addr, SocketAddr},
     str::FromStr as _,
+    thread,
+    time::Duration,
 };
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
@@ -61,15 +63,33 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => {
+                warn!("Accepting a connection failed: {:?}", why);
+
+                // The process may have run out of file descriptors, so give other
+                // connections time to close.
+                task::spawn_blocking(|| thread::sleep(Duration::from_millis(20))).await?;
+            }
+        }
     }
 
     Ok(())
 }
 
 async fn handle_socket(socket: TcpStream, hop: Hop) {
-    let addr = socket.peer_addr().unwrap();
+    let addr = match socket.peer_addr() {
+        Ok(addr) => addr,
+        Err(why) => {
+            warn!("The peer already disconnected: {:?}", why);
+
+            return;
+        }
+    };
 
     log::debug!("Connected to peer {}", addr);
 
-- 
2.43.0


From 2bcaf16050e0c34b99c9b637291b9713068ec702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 27/48] fix: read the bytes of responses from the server

---
 client/src/backend/server.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..e25410b 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -123,20 +123,11 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
 
         let mut reader = self.reader.lock().await;
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
             match ctx.feed(&resp).unwrap() {
                 Instruction::Concluded(response) => {
                     return match response {
@@ -146,7 +137,16 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    // The buffer only grows by what the server really sends.
+                    let read_amount = (&mut *reader)
+                        .take(bytes as u64)
+                        .read_to_end(&mut resp)
+                        .await
+                        .map_err(|source| Error::ReadingMessage { source })?;
+
+                    if read_amount < bytes {
+                        return Err(Error::ConnectionClosed);
+                    }
                 }
             }
         }
-- 
2.43.0


From 953acf0f0309f73e614e0348a198d5c78d5789bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 28/48] fix: report malformed responses instead of panicking

---
 client/src/backend/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index e25410b..d373321 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -128,7 +128,7 @@ impl ServerBackend {
         let mut reader = self.reader.lock().await;
 
         loop {
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
-- 
2.43.0


From e4f3f5a949545b4d0e127691753b3b7636852023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 29/48] fix: don't mix up the responses of concurrent requests

---
 client/src/backend/server.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index d373321..2042568 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -115,9 +115,11 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        // Responses come in the order of the requests, so no other request may be
+        // made until the response to this one was read.
+        let mut writer = self.writer.lock().await;
+
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
-- 
2.43.0


From 18cb42b6841b7c224d349ec4eee03ebf56cd6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 30/48] fix: return the error of failing to connect

---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From 91637ee2756dfb2ebd65d055ee61849fddadfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 31/48] fix: don't take the response of an abandoned request
 for another's

---
 client/src/backend/server.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 2042568..df86a78 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -6,6 +6,7 @@ use core::{
     convert::TryInto,
     fmt::{Display, Formatter, Result as FmtResult},
     result::Result as StdResult,
+    sync::atomic::{AtomicBool, Ordering},
 };
 use hop_engine::{
     command::{
@@ -96,6 +97,11 @@ impl From<RequestBuilderError> for Error {
 
 #[derive(Debug)]
 pub struct ServerBackend {
+    /// Whether a request was made without its whole response having been read.
+    ///
+    /// This is the case while waiting for a response, and stays so if the wait
+    /// was cancelled or failed, after which the stream can't be used anymore.
+    desynchronized: AtomicBool,
     reader: Mutex<BufReader<OwnedReadHalf>>,
     writer: Mutex<OwnedWriteHalf>,
 }
@@ -109,6 +115,7 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
+            desynchronized: AtomicBool::new(false),
             reader: Mutex::new(BufReader::new(reader)),
             writer: Mutex::new(writer),
         })
@@ -119,6 +126,10 @@ impl ServerBackend {
         // made until the response to this one was read.
         let mut writer = self.writer.lock().await;
 
+        if self.desynchronized.swap(true, Ordering::SeqCst) {
+            return Err(Error::ConnectionClosed);
+        }
+
         writer
             .write_all(request.into().as_bytes())
             .await
@@ -132,6 +143,8 @@ impl ServerBackend {
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    self.desynchronized.store(false, Ordering::SeqCst);
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
-- 
2.43.0


From 74e972df11eeca8c9064b3033b70a60434943a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 32/48] fix: send the requested key type when incrementing

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index df86a78..e1a2623 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -302,8 +302,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 24f332d8c3a980261ab7ce943df30650a12249bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 33/48] fix: return an error when getting a key as a type that
 it isn't

---
 client/src/backend/memory.rs          | 7 +++++++
 client/src/backend/mod.rs             | 5 +++++
 client/src/backend/server.rs          | 7 +++++++
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 7 +++++--
 client/src/request/get/get_set.rs     | 7 +++++--
 client/src/request/get/get_string.rs  | 4 ++--
 11 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..32ca806 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -223,6 +223,13 @@ impl Backend for MemoryBackend {
         self.send(builder)
     }
 
+    async fn get_typed(&self, key: &[u8], key_type: KeyType) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
+        builder.bytes(key)?;
+
+        self.send(builder)
+    }
+
     async fn increment_by<T: Into<Value> + Send>(
         &self,
         key: &[u8],
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..ea79202 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -56,6 +56,11 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
+    /// Get the value of a key which must be of the given type.
+    async fn get_typed(&self, key: &[u8], key_type: KeyType) -> Result<Value, Self::Error>
+    where
+        Self: Sized;
+
     async fn increment_by<T: Into<Value> + Send>(
         &self,
         key: &[u8],
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index e1a2623..a8758a8 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -281,6 +281,13 @@ impl Backend for ServerBackend {
         self.send_and_wait(builder).await
     }
 
+    async fn get_typed(&self, key: &[u8], key_type: KeyType) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
+        builder.bytes(key)?;
+
+        self.send_and_wait(builder).await
+    }
+
     async fn increment_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
         let value = value.into();
         let key_type = value.kind();
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..3db84d2 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Boolean).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..e7446b1 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Bytes).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..59ff553 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Float).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..8da1bad 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Integer).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..52bafc9 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::List).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..a68f3dc 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,10 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{
+    dashmap::DashMap,
+    state::{KeyType, Value},
+};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +44,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Map).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..653f549 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,10 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{
+    dashmap::DashSet,
+    state::{KeyType, Value},
+};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +44,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::Set).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..6fa25fd 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get_typed(key, KeyType::String).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
-- 
2.43.0


From 3977997f82b568b7fcd3e48fdfd73bf9be0170c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 34/48] fix: report mistyped responses as bad instead of
 panicking

---
 client/src/backend/server.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index a8758a8..a385f0e 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -168,6 +168,15 @@ impl ServerBackend {
     }
 }
 
+/// Check that the server responded with a value of the type that was requested.
+fn expect_type(value: Value, key_type: KeyType) -> Result<Value> {
+    if value.kind() == key_type {
+        Ok(value)
+    } else {
+        Err(Error::BadResponse)
+    }
+}
+
 #[async_trait]
 impl Backend for ServerBackend {
     type Error = Error;
@@ -194,7 +203,7 @@ impl Backend for ServerBackend {
             _ => return Err(Error::KeyTypeUnsupported { key_type }),
         }
 
-        self.send_and_wait(builder).await
+        expect_type(self.send_and_wait(builder).await?, key_type)
     }
 
     async fn decrement_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -210,13 +219,7 @@ impl Backend for ServerBackend {
 
         builder.value(value)?;
 
-        let value = self.send_and_wait(builder).await?;
-
-        match value {
-            Value::Float(float) => Ok(Value::Float(float)),
-            Value::Integer(int) => Ok(Value::Integer(int)),
-            _ => Err(Error::BadResponse),
-        }
+        expect_type(self.send_and_wait(builder).await?, key_type)
     }
 
     async fn decrement(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
@@ -285,7 +288,7 @@ impl Backend for ServerBackend {
         let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
-        self.send_and_wait(builder).await
+        expect_type(self.send_and_wait(builder).await?, key_type)
     }
 
     async fn increment_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -300,13 +303,7 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        let value = self.send_and_wait(builder).await?;
-
-        match value {
-            Value::Float(float) => Ok(Value::Float(float)),
-            Value::Integer(int) => Ok(Value::Integer(int)),
-            _ => Err(Error::BadResponse),
-        }
+        expect_type(self.send_and_wait(builder).await?, key_type)
     }
 
     async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
@@ -417,7 +414,7 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        self.send_and_wait(builder).await
+        expect_type(self.send_and_wait(builder).await?, key_type)
     }
 }
 
-- 
2.43.0


From 2c1284402727df86124ede1868834f4e789d7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 35/48] fix: print lists, maps and sets completely

---
 cli/lib/src/print.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..890509e 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -14,31 +14,21 @@ pub fn key_type_name(key_type: KeyType) -> &'static str {
 }
 
 pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
-    let mut output = String::new();
-
-    for item in items {
-        output.push_str(&String::from_utf8_lossy(item.as_ref()));
-        output.push('\n');
-    }
-
-    output.truncate(output.len() - 2);
-
-    output
+    items
+        .into_iter()
+        .map(|item| String::from_utf8_lossy(item.as_ref()).into_owned())
+        .collect::<Vec<_>>()
+        .join("\n")
 }
 
 pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs: T) -> String {
-    let mut output = String::new();
-
-    for (k, v) in pairs {
-        output.push_str(&String::from_utf8_lossy(k.as_ref()));
-        output.push('=');
-        output.push_str(&String::from_utf8_lossy(v.as_ref()));
-        output.push('\n');
-    }
-
-    output.truncate(output.len() - 2);
+    list(pairs.into_iter().map(|(k, v)| {
+        let mut pair = k.as_ref().to_vec();
+        pair.push(b'=');
+        pair.extend_from_slice(v.as_ref());
 
-    output
+        pair
+    }))
 }
 
 pub fn value(value: Value) -> String {
-- 
2.43.0


From 6fca05dbf1e6bd348aefed1a40877133e3f1afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 36/48] fix: refuse input of a map key without a value

---
 cli/lib/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..0b3f373 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -92,6 +92,9 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
 /// type as the provided key type. For example, when a float key type is
 /// provided but the argument is "abc", which clearly can't be parsed into a
 /// float.
+///
+/// Returns [`ParseError::MapIncomplete`] when a key of a map isn't followed by
+/// its value.
 fn input_args<'a>(
     provided: impl IntoIterator<Item = &'a str>,
     cmd_id: CommandId,
@@ -159,7 +162,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From 1abcd5a0d8310b98308f8df67ffd61d377e13cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 37/48] fix: don't make up a key type for input that has none

---
 cli/lib/src/parse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 0b3f373..5aaf6b8 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,13 +69,13 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
+    let key_type = key_type.or_else(|| default_key_type(cmd_id));
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-        for arg in input_args(arg_iter, cmd_id, key_type)? {
+        for arg in input_args(arg_iter, cmd_id, key_type.unwrap_or(KeyType::Bytes))? {
             builder.bytes(arg)?;
         }
     }
@@ -198,6 +198,16 @@ fn command(name: &str) -> Option<(CommandId, Option<KeyType>)> {
     Some((cmd_id, Some(key_type)))
 }
 
+/// Retrieve the key type that a command works with when none was provided, if
+/// its arguments have to be of one.
+fn default_key_type(cmd_id: CommandId) -> Option<KeyType> {
+    match cmd_id {
+        CommandId::Append | CommandId::Set => Some(KeyType::Bytes),
+        CommandId::DecrementBy | CommandId::IncrementBy => Some(KeyType::Integer),
+        _ => None,
+    }
+}
+
 fn key_type(key_type: &str) -> Option<KeyType> {
     Some(match key_type {
         "boolean" | "bool" => KeyType::Boolean,
-- 
2.43.0


From de23994fae3de24bebd8dc0815a08d85255e1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 38/48] fix: run every command of the command line as the key
 type it was given

---
 cli/lib/src/process.rs | 184 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 169 insertions(+), 15 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..84d1a03 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{request::Argument, CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -208,16 +211,62 @@ where
     B::Error: Error,
 {
     match req.command_id() {
+        CommandId::Append => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let args = values(&req)?;
+            let append = client.append(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Bytes) | None => append.bytes(args.concat()).await.map(Value::Bytes),
+                Some(KeyType::List) => append.list(args).await.map(Value::List),
+                Some(KeyType::String) => {
+                    let string = String::from_utf8_lossy(&args.concat()).into_owned();
+
+                    append.string(string).await.map(Value::String)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeDifferent),
+            };
+
+            Ok(print::value(v.map_err(backend_err)?).into())
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let decrement = client.decrement(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => decrement.float().await.map(Value::Float),
+                Some(KeyType::Integer) => decrement.int().await.map(Value::Integer),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => decrement.await,
+            };
+
+            Ok(print::value(v.map_err(backend_err)?).into())
+        }
+        CommandId::DecrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let decrement = client.decrement(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    let amount = value(&req)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+                    decrement.float().by(amount).await.map(Value::Float)
+                }
+                Some(KeyType::Integer) | None => {
+                    let amount = value(&req)?;
+
+                    decrement.int().by(amount).await.map(Value::Integer)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            };
 
-            Ok(print::value(v).into())
+            Ok(print::value(v.map_err(backend_err)?).into())
         }
         CommandId::Delete => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            no_key_type(&req)?;
+
             let v = client.delete(key).await.map_err(backend_err)?;
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
@@ -239,6 +288,8 @@ where
             }
         }
         CommandId::Exists => {
+            no_key_type(&req)?;
+
             let args = req
                 .args(..)
                 .ok_or_else(|| InnerProcessError::KeyUnspecified)?;
@@ -259,17 +310,54 @@ where
         }
         CommandId::Get => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let get = client.get(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Boolean) => get.bool().await.map(Value::Boolean),
+                Some(KeyType::Bytes) => get.bytes().await.map(Value::Bytes),
+                Some(KeyType::Float) => get.float().await.map(Value::Float),
+                Some(KeyType::Integer) => get.int().await.map(Value::Integer),
+                Some(KeyType::List) => get.list().await.map(Value::List),
+                Some(KeyType::Map) => get.map().await.map(Value::Map),
+                Some(KeyType::Set) => get.set().await.map(Value::Set),
+                Some(KeyType::String) => get.string().await.map(Value::String),
+                None => get.await,
+            };
 
-            let value = client.get(key).await.map_err(backend_err)?;
-
-            Ok(print::value(value).into())
+            Ok(print::value(v.map_err(backend_err)?).into())
         }
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let increment = client.increment(key);
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => increment.float().await.map(Value::Float),
+                Some(KeyType::Integer) => increment.int().await.map(Value::Integer),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => increment.await,
+            };
 
-            Ok(print::value(v).into())
+            Ok(print::value(v.map_err(backend_err)?).into())
+        }
+        CommandId::IncrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let increment = client.increment(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    let amount = value(&req)?;
+
+                    increment.float().by(amount).await.map(Value::Float)
+                }
+                Some(KeyType::Integer) | None => {
+                    let amount = value(&req)?;
+
+                    increment.int().by(amount).await.map(Value::Integer)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v.map_err(backend_err)?).into())
         }
         CommandId::Is => {
             let key_type = req
@@ -287,9 +375,30 @@ where
         CommandId::Keys => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            match req.key_type() {
+                Some(KeyType::Map) | None => {}
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            }
+
             let v = client.keys(key).await.map_err(backend_err)?;
 
-            Ok(print_list(v).into())
+            Ok(print::list(v).into())
+        }
+        CommandId::Length => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let length = client.length(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Bytes) => length.bytes().await,
+                Some(KeyType::List) => length.list().await,
+                Some(KeyType::Map) => length.map().await,
+                Some(KeyType::Set) => length.set().await,
+                Some(KeyType::String) => length.string().await,
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => length.await,
+            };
+
+            Ok(v.map_err(backend_err)?.to_string().into())
         }
         CommandId::Rename => {
             let from = req
@@ -299,11 +408,43 @@ where
                 .arg(1)
                 .ok_or_else(|| InnerProcessError::KeySourceRequired)?;
 
+            no_key_type(&req)?;
+
             let v = client.rename(from, to).await.map_err(backend_err)?;
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
+        CommandId::Set => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let args = values(&req)?;
+            let set = client.set(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Boolean) => set.bool(value(&req)?).await.map(Value::Boolean),
+                Some(KeyType::Bytes) | None => {
+                    set.bytes(value::<_, &[u8]>(&req)?).await.map(Value::Bytes)
+                }
+                Some(KeyType::Float) => set.float(value(&req)?).await.map(Value::Float),
+                Some(KeyType::Integer) => set.int(value(&req)?).await.map(Value::Integer),
+                Some(KeyType::List) => set.list(args).await.map(Value::List),
+                Some(KeyType::Map) => {
+                    let pairs = args
+                        .chunks_exact(2)
+                        .map(|pair| (pair[0].clone(), pair[1].clone()));
+
+                    set.map(pairs).await.map(Value::Map)
+                }
+                Some(KeyType::Set) => set.set(args).await.map(Value::List),
+                Some(KeyType::String) => {
+                    set.string(value::<_, &str>(&req)?).await.map(Value::String)
+                }
+            };
+
+            Ok(print::value(v.map_err(backend_err)?).into())
+        }
         CommandId::Stats => {
+            no_key_type(&req)?;
+
             let stats = client.stats().await.map_err(backend_err)?;
 
             let mut output = String::new();
@@ -325,17 +466,30 @@ where
         CommandId::Type => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            no_key_type(&req)?;
+
             let key_type = client.key_type(key).await.map_err(backend_err)?;
 
             Ok(print::key_type_name(key_type).into())
         }
-        _ => panic!(),
     }
 }
 
-fn print_list(list: Vec<Vec<u8>>) -> String {
-    list.into_iter()
-        .map(|item| String::from_utf8_lossy(&item).into_owned())
-        .collect::<Vec<_>>()
-        .join("\n")
+fn no_key_type<B: Backend>(req: &Request<'_>) -> Result<(), InnerProcessError<B>> {
+    match req.key_type() {
+        Some(_) => Err(InnerProcessError::KeyTypeUnexpected),
+        None => Ok(()),
+    }
+}
+
+fn value<'a, B: Backend, T: Argument<'a>>(req: &'a Request<'_>) -> Result<T, InnerProcessError<B>> {
+    req.typed_arg(1)
+        .ok_or_else(|| InnerProcessError::TooFewArguments)
+}
+
+fn values<B: Backend>(req: &Request<'_>) -> Result<Vec<Vec<u8>>, InnerProcessError<B>> {
+    match req.args(1..) {
+        Some(args) if args.len() > 0 => Ok(args.map(ToOwned::to_owned).collect()),
+        _ => Err(InnerProcessError::TooFewArguments),
+    }
 }
-- 
2.43.0


From d504b4092faeb39773eb641f27cfbfe18a50bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 39/48] fix: keep the command line running after invalid input
 and end it with the input

---
 cli/bin/src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cli/bin/src/main.rs b/cli/bin/src/main.rs
index 4851b5b..8f6d9fa 100644
--- a/cli/bin/src/main.rs
+++ b/cli/bin/src/main.rs
@@ -23,15 +23,23 @@ async fn run(
     mut writer: impl AsyncWrite + Unpin,
 ) -> Result<(), Box<dyn Error>> {
     let client = Client::memory();
-    let mut input = String::new();
+    let mut input = Vec::new();
 
     loop {
         writer.write_all(b"> ").await?;
         writer.flush().await?;
-        reader.read_line(&mut input).await?;
 
-        let mut output = hop_cli::process(&client, input.trim_end()).await?;
-        output.to_mut().push('\n');
+        if reader.read_until(b'\n', &mut input).await? == 0 {
+            return Ok(());
+        }
+
+        let line = String::from_utf8_lossy(&input);
+
+        let mut output = match hop_cli::process(&client, line.trim_end()).await {
+            Ok(output) => output.into_owned(),
+            Err(source) => source.to_string(),
+        };
+        output.push('\n');
 
         writer.write_all(output.as_bytes()).await?;
         input.clear();
-- 
2.43.0


From 90b2da81a20837c3df785b25107ae4a5e9cb5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 40/48] fix: unsubscribe and remove sessions atomically

---
 engine/src/pubsub/manager.rs | 64 +++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 8b78235..f231038 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,45 +54,43 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
-
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        // The session stays locked for the whole operation, like it does when
+        // subscribing, so that concurrent operations on it can't interleave.
+        let session = match self.0.sessions.get_mut(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        let unsubbed = session.remove(object_key).is_some();
+
+        if unsubbed {
+            if let Some(sessions) = self.0.keys.get(object_key) {
+                sessions.remove(&session_id);
+            }
+        }
+
+        unsubbed
     }
 
     /// Unsubscribes a session from all of its subscriptions.
     ///
     /// Returns whether the session was subscribed to any channels.
     pub fn remove_session(&self, session_id: SessionId) -> bool {
-        self.0
-            .sessions
-            .remove(&session_id)
-            .map(|(_, subscriptions)| {
-                let subscribed = !subscriptions.is_empty();
-
-                for (key, sub) in subscriptions.into_iter() {
-                    if let Some(sessions) = self.0.keys.get(&key) {
-                        sessions.remove(&session_id);
-                    }
-
-                    sub.close();
-                }
-
-                subscribed
-            })
-            .unwrap_or(false)
+        // Like above, the session stays locked until it's entirely removed.
+        let session = match self.0.sessions.entry(session_id) {
+            Entry::Occupied(session) => session,
+            Entry::Vacant(_) => return false,
+        };
+
+        for sub in session.get().iter() {
+            if let Some(sessions) = self.0.keys.get(sub.key()) {
+                sessions.remove(&session_id);
+            }
+
+            sub.value().close();
+        }
+
+        !session.remove().is_empty()
     }
 }
 
-- 
2.43.0


From 236bfa55ae10848b8ee1ed5c547d2e93c7a69a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 41/48] Add observation points behind the verif feature

---
 engine/Cargo.toml             |  2 ++
 engine/src/pubsub/manager.rs  | 12 ++++++++++++
 engine/src/session/manager.rs | 12 ++++++++++++
 engine/src/session/mod.rs     |  8 ++++++++
 engine/src/state/mod.rs       | 10 ++++++++++
 5 files changed, 44 insertions(+)

diff --git a/engine/Cargo.toml b/engine/Cargo.toml
index 1869731..dee83db 100755
--- a/engine/Cargo.toml
+++ b/engine/Cargo.toml
@@ -20,6 +20,8 @@ log = { default-features = false, optional = true, version = "0.4" }
 
 [features]
 default = ["log"]
+# Observation points for the verification machinery, not part of the public API.
+verif = []
 
 [dev-dependencies]
 static_assertions = { default-features = false, version = "^1.0.0" }
diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index f231038..9b5d082 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -94,6 +94,18 @@ impl PubSubManager {
     }
 }
 
+#[cfg(feature = "verif")]
+impl PubSubManager {
+    /// Retrieve the sessions that are registered for a key.
+    pub fn verif_subscribers(&self, object_key: &[u8]) -> alloc::vec::Vec<SessionId> {
+        self.0
+            .keys
+            .get(object_key)
+            .map(|r| r.value().iter().map(|id| *id.key()).collect())
+            .unwrap_or_default()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{PubSubManager, PubSubManagerRef};
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 5508d6f..15e2e10 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -56,6 +56,18 @@ impl SessionManager {
     }
 }
 
+#[cfg(feature = "verif")]
+impl SessionManager {
+    /// Retrieve the key, ID, and token of every stored session.
+    pub fn verif_sessions(&self) -> alloc::vec::Vec<(u32, u32, [u8; 32])> {
+        self.0
+            .sessions
+            .iter()
+            .map(|r| (*r.key(), r.value().id, r.value().client_token))
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{SessionManager, SessionManagerRef};
diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..5f583b5 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -17,6 +17,14 @@ impl Session {
     }
 }
 
+#[cfg(feature = "verif")]
+impl SessionId {
+    /// Construct the ID of a session.
+    pub fn verif_new(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{Session, SessionId};
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index ac7a282..d33d147 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -221,6 +221,16 @@ impl State {
     }
 }
 
+#[cfg(feature = "verif")]
+impl State {
+    /// Visit every stored key and value, internal ones included.
+    pub fn verif_for_each(&self, mut f: impl FnMut(&[u8], &Value)) {
+        for r in self.0.iter() {
+            f(r.key(), r.value());
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{KeyType, State, Value};
-- 
2.43.0


From 6b6631def4f462c5d6b2e68eee8d50ddf0addbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 42/48] fix: refuse to append invalid text instead of skipping
 it

---
 engine/src/command/impl/append.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 77c26ca..08225e5 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -47,13 +47,16 @@ impl Append {
         resp: &mut Vec<u8>,
         key: &[u8],
     ) -> DispatchResult<()> {
+        let args = args
+            .map(str::from_utf8)
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| DispatchError::ArgumentRetrieval)?;
+
         let mut key = hop.state().key_or_insert_with(key, Value::string);
         let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
+            string.push_str(arg);
         }
 
         response::write_str(resp, &string);
-- 
2.43.0


From a4e3484c19819244c43bd0a51e541af9ff444a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 43/48] fix: refuse to set a map with a key that has no value

---
 engine/src/command/request/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 0483451..a39fcba 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -66,7 +66,9 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
     fn convert(mut args: Arguments<'_>) -> Option<Self> {
         let map = DashMap::new();
 
-        while let (Some(k), Some(v)) = (args.next(), args.next()) {
+        while let Some(k) = args.next() {
+            let v = args.next()?;
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
-- 
2.43.0


From a69fd8235937b5155e030f447a8678d01659844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 44/48] fix: keep ranges of request arguments within the
 request

---
 engine/src/command/request/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index a39fcba..71a0d49 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -141,18 +141,19 @@ impl<'a> Request<'a> {
         }
 
         let start = match range.start_bound() {
-            Bound::Excluded(amt) => *amt + 1,
+            Bound::Excluded(amt) => amt.saturating_add(1),
             Bound::Included(amt) => *amt,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
             Bound::Excluded(amt) => *amt,
-            Bound::Included(amt) => *amt + 1,
+            Bound::Included(amt) => amt.saturating_add(1),
             Bound::Unbounded => self.arg_count(),
-        };
+        }
+        .min(self.arg_count());
 
         Some(Arguments {
-            idx: start,
+            idx: start.min(end),
             request: self,
             to: end,
         })
-- 
2.43.0


From fb04007c784ab711ecc9401f4953e1d335b5c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 45/48] fix: reject key types outside of the range of a byte

The client truncated the server's reply to a byte, so that a server replying
with 257 as the type of a key made the call succeed with a type that was not
sent.
---
 client/src/backend/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index a385f0e..770c9af 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -346,7 +346,7 @@ impl Backend for ServerBackend {
 
         match value {
             Value::Integer(int) => {
-                let number = int as u8;
+                let number: u8 = int.try_into().map_err(|_| Error::BadResponse)?;
 
                 number
                     .try_into()
-- 
2.43.0


From dc71360fec6f8742e78046594b8c17a079d52719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 46/48] Allow setting the next session ID behind the verif
 feature

---
 engine/src/session/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 15e2e10..70eb130 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -58,6 +58,11 @@ impl SessionManager {
 
 #[cfg(feature = "verif")]
 impl SessionManager {
+    /// Set the ID that will be tried next, to get near the end of their range.
+    pub fn verif_set_next_id(&self, id: u32) {
+        self.0.next_id.store(id, Ordering::SeqCst);
+    }
+
     /// Retrieve the key, ID, and token of every stored session.
     pub fn verif_sessions(&self) -> alloc::vec::Vec<(u32, u32, [u8; 32])> {
         self.0
-- 
2.43.0


From 2e025fe4f4b6ce6ea8acaaed74bae0fe004d86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 47/48] fix: forget keys that nobody is subscribed to any more

---
 engine/src/pubsub/manager.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 9b5d082..570ef07 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -64,9 +64,7 @@ impl PubSubManager {
         let unsubbed = session.remove(object_key).is_some();
 
         if unsubbed {
-            if let Some(sessions) = self.0.keys.get(object_key) {
-                sessions.remove(&session_id);
-            }
+            self.forget(object_key, session_id);
         }
 
         unsubbed
@@ -83,15 +81,23 @@ impl PubSubManager {
         };
 
         for sub in session.get().iter() {
-            if let Some(sessions) = self.0.keys.get(sub.key()) {
-                sessions.remove(&session_id);
-            }
+            self.forget(sub.key(), session_id);
 
             sub.value().close();
         }
 
         !session.remove().is_empty()
     }
+
+    /// Removes a session from the sessions subscribed to a key, and the key with
+    /// the last of its sessions.
+    fn forget(&self, object_key: &[u8], session_id: SessionId) {
+        self.0.keys.remove_if(object_key, |_, sessions| {
+            sessions.remove(&session_id);
+
+            sessions.is_empty()
+        });
+    }
 }
 
 #[cfg(feature = "verif")]
-- 
2.43.0


From 7846ca832162fbc49b5f7a5bac7004f34e83b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:16 +0000
Subject: [PATCH 48/48] Guard the managers' observation points by a feature of
 their own

---
 engine/Cargo.toml             | 2 ++
 engine/src/pubsub/manager.rs  | 2 +-
 engine/src/session/manager.rs | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/Cargo.toml b/engine/Cargo.toml
index dee83db..859e554 100755
--- a/engine/Cargo.toml
+++ b/engine/Cargo.toml
@@ -22,6 +22,8 @@ log = { default-features = false, optional = true, version = "0.4" }
 default = ["log"]
 # Observation points for the verification machinery, not part of the public API.
 verif = []
+# Those that depend on how the managers of sessions and subscriptions store them.
+verif-managers = ["verif"]
 
 [dev-dependencies]
 static_assertions = { default-features = false, version = "^1.0.0" }
diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 570ef07..436f020 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -100,7 +100,7 @@ impl PubSubManager {
     }
 }
 
-#[cfg(feature = "verif")]
+#[cfg(feature = "verif-managers")]
 impl PubSubManager {
     /// Retrieve the sessions that are registered for a key.
     pub fn verif_subscribers(&self, object_key: &[u8]) -> alloc::vec::Vec<SessionId> {
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 70eb130..03423ba 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -56,7 +56,7 @@ impl SessionManager {
     }
 }
 
-#[cfg(feature = "verif")]
+#[cfg(feature = "verif-managers")]
 impl SessionManager {
     /// Set the ID that will be tried next, to get near the end of their range.
     pub fn verif_set_next_id(&self, id: u32) {
-- 
2.43.0

