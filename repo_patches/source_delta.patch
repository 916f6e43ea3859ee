From a27130fb470f8a2beef98b12629f61bf0e040d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 01/26] fix: deserialise map keys with their own type byte and
 allow empty maps and arrays

Value::ser writes every map key as a whole Value::String, but Value::deser
parsed keys with the map's own type byte, and tried to read an element of
empty containers. No serialised Store could be deserialised.
---
 crates/sourisdb/src/values.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..2bc5331 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1285,8 +1285,10 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1307,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1347,28 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
+                DeserialisationState::Map(so_far, left) => {
+                    //keys are serialised as a whole `Value::String`, so they have their own type byte
+                    let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let ty = ValueTy::try_from((byte & 0b1111_0000) >> 4)?;
+                    if ty != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: ty,
+                            expected: ValueTy::String,
+                        });
+                    }
                     let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 69d96a4c8bc27485f10cdc017dd01f71277bd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 02/26] fix: keep the number of items when a huffman tree has
 only one symbol

A tree that is a single leaf encoded every item as zero bits, so text using one
distinct character came back empty, and decoding any bits with it panicked.
---
 crates/sourisdb/src/utilities/huffman.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..71db78e 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,12 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                let mut bits = bits_so_far;
+                if bits.is_empty() {
+                    //the tree is just this leaf - it still needs one bit per item for the number of items to be recoverable
+                    bits.push(true);
+                }
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +426,11 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(t) => {
+                    //only possible if the root is a leaf: every bit is one item
+                    result.push(t.clone());
+                    new_node = &self.root;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From 1e4ce3b709928f99a5af5885bd3a538b60e33f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 03/26] fix: compute the byte length of serialised bits exactly

An f32 cannot represent bit counts above 2^24, so long bit strings were read
with the wrong number of bytes.
---
 crates/sourisdb/src/utilities/bits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..1b8e173 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -161,7 +161,7 @@ impl Bits {
     )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From 54daed62a435180d562cc9c94738fdd23b56a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 04/26] fix: reject malformed serialised huffman trees instead
 of overflowing

A run of zero bytes recursed once per byte until the stack overflowed, and a
leaf spelt as a multi-byte zero underflowed.
---
 crates/sourisdb/src/utilities/huffman.rs | 36 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 71db78e..b709135 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -152,14 +152,22 @@ impl Node<u8> {
     }
 
     pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_with_depth(cursor, 0)
+    }
+
+    fn deser_with_depth(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_NODE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser_with_depth(cursor, depth + 1)?);
+                let right = Box::new(Self::deser_with_depth(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -187,19 +195,29 @@ impl Node<char> {
     }
 
     fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_with_depth(cursor, 0)
+    }
+
+    fn deser_with_depth(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_NODE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
+
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser_with_depth(cursor, depth + 1)?);
+            let right = Box::new(Self::deser_with_depth(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            //a zero could still be spelt with more than one byte
+            let ch = ch.checked_sub(1).ok_or(HuffmanSerError::InvalidCharacter(ch))?;
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
@@ -224,6 +242,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///The serialised node tree is deeper than any tree that could have been serialised
+    TreeTooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -257,6 +277,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TreeTooDeep => write!(f, "Serialised node tree is too deep"),
         }
     }
 }
@@ -271,6 +292,9 @@ impl std::error::Error for HuffmanSerError {
     }
 }
 
+///The deepest node tree that will be deserialised. Building a deeper one would need more than [`usize::MAX`] items as every level at least follows the fibonacci sequence.
+const MAX_NODE_DEPTH: usize = 128;
+
 ///An internal min-heap structure which implements [`Iterator`] and is designed to always return the next smallest element based on the weight provided.
 struct MinHeap<T> {
     ///NB: this list does **not** need to be ordered
-- 
2.43.0


From 073b387bc7e285ae8e5a79f67dcc9eb295f9bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 05/26] fix: do not allocate for lengths that the input only
 claims

Array, map, run and LZ lengths were allocated before looking at the input, so a
few bytes could abort the process.
---
 crates/sourisdb/src/types/binary/huffman.rs | 7 ++++++-
 crates/sourisdb/src/types/binary/lz.rs      | 5 +++++
 crates/sourisdb/src/utilities/huffman.rs    | 3 +++
 crates/sourisdb/src/values.rs               | 5 +++--
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..79515a6 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            let mut output = vec![];
+            output
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::NotEnoughMemory)?;
+            output.resize(count, element);
+            output
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..91ba45c 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -40,6 +40,11 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //one compressed byte never stands for more than 255 bytes, so don't allocate for any length that claims otherwise
+    if input_len > compressed.len().saturating_mul(255) {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index b709135..31b42c1 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -244,6 +244,8 @@ pub enum HuffmanSerError {
     UnableToCreateNodeTree,
     ///The serialised node tree is deeper than any tree that could have been serialised
     TreeTooDeep,
+    ///The serialised data claims to be longer than the available memory
+    NotEnoughMemory,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -278,6 +280,7 @@ impl Display for HuffmanSerError {
                 write!(f, "Unable to create node tree with empty input")
             }
             HuffmanSerError::TreeTooDeep => write!(f, "Serialised node tree is too deep"),
+            HuffmanSerError::NotEnoughMemory => write!(f, "Not enough memory to decode"),
         }
     }
 }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 2bc5331..8af6418 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1287,8 +1287,9 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        //every element takes at least one byte, so don't trust any length that is longer than the input
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len.min(bytes.items_remaining())), len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len.min(bytes.items_remaining())), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From aab02dbbf8441337541c8161411daf756e4eeef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 06/26] fix: refuse values nested too deeply to be used without
 overflowing the stack

Serialising, cloning and dropping values recurse, so one request with a deeply
nested array aborted the whole daemon. The limit is the one serde_json has.
---
 crates/sourisdb/src/values.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 8af6418..77acad4 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -483,9 +483,14 @@ pub enum ValueSerError {
         cause: InvalidSourisTypeError,
     },
     ///We encountered a logic error whilst deserialising - this likely means an invalid input shape, even if there were some valid types present
-    InvalidDeserialisation(InvalidDeserialisationStateError)
+    InvalidDeserialisation(InvalidDeserialisationStateError),
+    ///We found maps and arrays nested inside each other more than 128 levels deep, which could overflow the stack when they are used
+    TooDeeplyNested,
 }
 
+///The deepest nesting of [`Value::Map`]s and [`Value::Array`]s that will be deserialised - the same as the limit which [`serde_json`] has.
+const MAX_NESTING_DEPTH: usize = 128;
+
 #[derive(Copy, Clone, Debug)]
 enum InvalidDeserialisationStateError {
     ///We encountered an invalid stack after finding a value there
@@ -541,7 +546,8 @@ impl Display for ValueSerError {
                 f,
                 "Error with JSON `souris_type` - was deserialising a {found:?}, but {cause:?}"
             ),
-            ValueSerError::InvalidDeserialisation(e) => write!(f, "Error deserialising value: {e:?}")
+            ValueSerError::InvalidDeserialisation(e) => write!(f, "Error deserialising value: {e:?}"),
+            ValueSerError::TooDeeplyNested => write!(f, "Maps and arrays are nested too deeply")
         }
     }
 }
@@ -1278,6 +1284,8 @@ impl Value {
             }))
         }
 
+        //the maps and arrays which are currently being deserialised
+        let mut depth = 0_usize;
         let mut stack: Vec<DeserialisationState> = vec![DeserialisationState::ValueNeeded];
 
         while let Some(state) = stack.pop() {
@@ -1299,6 +1307,12 @@ impl Value {
                             DeserialisationState::ValueNeeded
                         }
                     };
+                    if let DeserialisationState::Array(..) | DeserialisationState::Map(..) = &to_be_added_to_stack {
+                        depth += 1;
+                        if depth > MAX_NESTING_DEPTH {
+                            return Err(ValueSerError::TooDeeplyNested);
+                        }
+                    }
                     stack.push(to_be_added_to_stack);
                 },
                 DeserialisationState::FoundValue(val) => {
@@ -1315,6 +1329,7 @@ impl Value {
                                 DeserialisationState::Array(mut so_far, left) => {
                                     so_far.push(val);
                                     if left <= 1 {
+                                        depth -= 1;
                                         stack.push(DeserialisationState::FoundValue(Value::Array(so_far)));
                                     } else {
                                         stack.push(DeserialisationState::Array(so_far, left - 1));
@@ -1367,6 +1382,7 @@ impl Value {
                     if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
+                            depth -= 1;
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
                             stack.push(DeserialisationState::Map(so_far, left - 1));
-- 
2.43.0


From c8b19f9c456474d96fa1e117b551c92b489bc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 07/26] fix: report whether add_db_with_content created the
 database

The status codes were swapped: CREATED was returned for existing databases.
---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 43839dc83ca712c254837c8a4df69a920bf86005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 08/26] fix: check the database name on every endpoint that can
 create one

Only add_db checked names. A database called `meta` replaced the list of
databases, and names with path separators were written outside of the base
location (or never saved at all, like non-file-name ones).
---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 39 +++++++++++++++++++--------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..c16797b 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta`, at most 251 characters long and without path separators or null bytes"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..02d20ee 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -7,7 +7,7 @@ use std::{
     collections::{HashMap, hash_map::Entry as SEntry},
     env::var,
     fmt::Debug,
-    path::{Path, PathBuf},
+    path::{is_separator, Path, PathBuf},
     sync::Arc,
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
@@ -32,6 +32,22 @@ use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
+///The longest name where `{name}.sdb` still fits into a file name
+const MAX_DB_NAME_LEN: usize = 255 - ".sdb".len();
+
+///Checks that a new database could be called this: every database is saved in the base location using its name.
+fn check_db_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta"
+        || !name.is_ascii()
+        || name.len() > MAX_DB_NAME_LEN
+        || name.chars().any(|ch| ch == '\0' || is_separator(ch))
+    {
+        Err(SourisError::InvalidDatabaseName)
+    } else {
+        Ok(())
+    }
+}
+
 #[derive(Clone, Debug)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourisState {
@@ -48,16 +64,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta`, or the name cannot be used for a file.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_db_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +99,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_db_name(&name)?;
+
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
@@ -100,9 +116,9 @@ impl SourisState {
         }
 
         if created_new {
-            StatusCode::CREATED
+            Ok(StatusCode::CREATED)
         } else {
-            StatusCode::OK
+            Ok(StatusCode::OK)
         }
     }
 
@@ -169,11 +185,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         self.db_cache.invalidate(&db_name).await;
 
         let mut dbs = self.dbs.lock().await;
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -193,6 +209,7 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_db_name(vac.key())?;
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -200,7 +217,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From f9676b7522c52c9801489c90d00a4c371b6d1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 09/26] fix: never leave an old version of a database in the
 cache

The cache was invalidated before waiting for the lock, so a concurrent get_db
could cache the version from before the change. new_db could be dropped
between its change and the invalidation.
---
 crates/sourisd/src/v1_routes/state.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 02d20ee..e36f817 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -55,6 +55,9 @@ pub struct SourisState {
     base_location: PathBuf,
     ///A map of all databases and their names
     dbs: Arc<Mutex<HashMap<String, Store>>>,
+    ///The serialised versions of recently requested databases.
+    ///
+    ///Only changed whilst `dbs` is locked, and always invalidated before a database is changed: otherwise a concurrent request could put an old version back.
     db_cache: Cache<String, Bytes>,
 }
 
@@ -74,7 +77,8 @@ impl SourisState {
         check_db_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
-        
+        self.db_cache.invalidate(&name).await;
+
         let sc = match dbs.entry(name.clone()) {
             SEntry::Occupied(mut occ) => {
                 if overwrite_existing {
@@ -87,8 +91,6 @@ impl SourisState {
                 StatusCode::CREATED
             }
         };
-        
-        self.db_cache.invalidate(&name).await;
 
         Ok(sc)
     }
@@ -102,8 +104,8 @@ impl SourisState {
     ) -> Result<StatusCode, SourisError> {
         check_db_name(&name)?;
 
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -125,9 +127,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -141,9 +142,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -186,9 +186,8 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> Result<CreationResult, SourisError> {
-        self.db_cache.invalidate(&db_name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
         Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -237,8 +236,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 8b0357fac42cae31014ab8ee60f8286d6c3ede7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 10/26] fix: keep databases locked until the file of a removed
 one is gone

The file was removed after the lock was released, or even after the request was
cancelled, and could be the file of a new database with the same name.
---
 crates/sourisd/src/v1_routes/state.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index e36f817..b47d3be 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -13,8 +13,9 @@ use std::{
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
     fs::{create_dir_all, File},
-    io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
+    io::{AsyncReadExt, AsyncWriteExt, Error as IOError, ErrorKind},
     sync::Mutex,
+    task::spawn_blocking,
 };
 
 fn running_with_superuser() -> bool {
@@ -142,7 +143,7 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        let mut dbs = self.dbs.lock().await;
+        let mut dbs = Arc::clone(&self.dbs).lock_owned().await;
         self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
@@ -150,11 +151,17 @@ impl SourisState {
         }
 
         dbs.remove(&name);
-        drop(dbs);
 
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
-        if let Err(e) = tokio::fs::remove_file(file_name).await {
+        //the lock is kept until the file is gone even if this request is cancelled, as otherwise this could remove the file of a new database with the same name
+        let removed = spawn_blocking(move || {
+            let removed = std::fs::remove_file(file_name);
+            drop(dbs);
+            removed
+        });
+
+        if let Err(e) = removed.await.map_err(IOError::from).and_then(|res| res) {
             if e.kind() != ErrorKind::NotFound {
                 return Err(e.into());
             }
-- 
2.43.0


From a9b35b89d9ea69bad578d47924eac3698d1ba977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 11/26] fix: never destroy the saved version of a database
 whilst saving it

Files were truncated and then written without waiting for (or checking) the
actual write, so a crash, power loss or full disk lost the database.
---
 crates/sourisd/src/v1_routes/state.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b47d3be..0fa23d8 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, Error as IOError, ErrorKind},
     sync::Mutex,
     task::spawn_blocking,
@@ -25,11 +25,13 @@ fn running_with_superuser() -> bool {
 mod meta {
     ///File name for the database that stores the meta information
     pub const META_DB_FILE_NAME: &str = "meta.sdb";
+    ///File name for the new version of a file before it replaces the old one
+    pub const TMP_FILE_NAME: &str = "save.tmp";
     ///Name of the key inside the meta information database that stores the array of databases
     pub const DB_FILE_NAMES_KEY: &str = "existing_dbs";
 }
 use crate::{error::SourisError, v1_routes::value::KeyAndDb};
-use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
+use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME, TMP_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
@@ -378,12 +380,16 @@ impl SourisState {
     }
 }
 
+///Replaces the file at the given path: whatever happens, there is always either the old version or the new version.
 async fn write_to_file(
     bytes: &[u8],
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    //never clashes with a database as they all end with `.sdb`
+    let tmp_path = base_location.as_ref().join(TMP_FILE_NAME);
+
+    let mut file = match File::create(&tmp_path).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -391,7 +397,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&tmp_path).await?
             } else {
                 return Err(e.into());
             }
@@ -399,6 +405,12 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.sync_all().await?;
+    drop(file);
+
+    rename(&tmp_path, &path).await?;
+    //the new name is only certain to be there once the folder is synced
+    File::open(&base_location).await?.sync_all().await?;
 
     Ok(())
 }
-- 
2.43.0


From fb7f745951e65acdd68d0eb55ae0da5b748036e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 12/26] fix: do not forget a saved database when saving it
 again fails

A database whose write failed was left out of the list of databases, so the
version that was saved before could not be found by the next start.
---
 crates/sourisd/src/v1_routes/state.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 0fa23d8..4de4c39 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -4,7 +4,7 @@ use dirs::data_dir;
 use moka::future::Cache;
 use sourisdb::{store::Store, values::Value};
 use std::{
-    collections::{HashMap, hash_map::Entry as SEntry},
+    collections::{HashMap, HashSet, hash_map::Entry as SEntry},
     env::var,
     fmt::Debug,
     path::{is_separator, Path, PathBuf},
@@ -62,6 +62,8 @@ pub struct SourisState {
     ///
     ///Only changed whilst `dbs` is locked, and always invalidated before a database is changed: otherwise a concurrent request could put an old version back.
     db_cache: Cache<String, Bytes>,
+    ///The names of the databases that were saved the last time
+    saved: Arc<Mutex<HashSet<String>>>,
 }
 
 impl SourisState {
@@ -350,6 +352,7 @@ impl SourisState {
 
         let s = Self {
             base_location,
+            saved: Arc::new(Mutex::new(dbs.keys().cloned().collect())),
             dbs: Arc::new(Mutex::new(dbs)),
             db_cache: Cache::new(200),
         };
@@ -358,7 +361,8 @@ impl SourisState {
     }
 
     pub async fn save(&self) -> color_eyre::Result<()> {
-        let mut names = vec![];
+        let mut saved = self.saved.lock().await;
+        let mut names = HashSet::new();
 
         for (name, db) in self.dbs.lock().await.iter() {
             let file_name = self.base_location.join(format!("{name}.sdb"));
@@ -366,17 +370,26 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
+                if !saved.contains(name) {
+                    continue;
+                }
+                //the version from the last time is still there
             }
+            names.insert(name.to_string());
         }
 
         let mut meta = Store::default();
-        meta.insert(DB_FILE_NAMES_KEY.into(), Value::Array(names));
+        meta.insert(
+            DB_FILE_NAMES_KEY.into(),
+            Value::Array(names.iter().cloned().map(Value::String).collect()),
+        );
 
         let location = self.base_location.join(META_DB_FILE_NAME);
         let meta = meta.ser();
-        write_to_file(&meta, location, &self.base_location).await
+        write_to_file(&meta, location, &self.base_location).await?;
+
+        *saved = names;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 73bbc7e1c04184cf7496898e7624cc0f4cad67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 13/26] fix: do not bring back removed databases or drop
 unreadable ones on start

A listed database without a file was loaded as an empty one, and one that could
not be read at the moment was ignored and then forgotten by the next save.
---
 crates/sourisd/src/v1_routes/state.rs | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 4de4c39..a1e5e9a 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -268,13 +268,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> Result<Option<Store>, SourisError> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found.");
+                        Ok(None)
                     } else {
                         Err(e.into())
                     };
@@ -293,17 +293,17 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
         async fn get_internal_stores(
             meta: &Store,
             base: PathBuf,
-        ) -> Option<HashMap<String, Store>> {
+        ) -> Result<Option<HashMap<String, Store>>, SourisError> {
             let Some(Value::Array(values)) = meta.get(DB_FILE_NAMES_KEY) else {
                 trace!("Unable to find existing databases.");
-                return None;
+                return Ok(None);
             };
 
             let mut dbs = HashMap::new();
@@ -315,9 +315,15 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
+                    Ok(None) => {
+                        trace!(?file_name, "Database was removed after the last save");
+                        continue;
+                    }
+                    //the database might be fine, and would be forgotten by the next save
+                    Err(e @ SourisError::IO(_)) => return Err(e),
                     Err(e) => {
                         trace!(?e, ?file_name, "Error getting database");
                         continue;
@@ -325,7 +331,7 @@ impl SourisState {
                 }
             }
 
-            Some(dbs)
+            Ok(Some(dbs))
         }
 
         let base_location = if let Ok(loc) = var("BASE_LOCATION") {
@@ -341,9 +347,11 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
-        let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
+        let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await? {
             dbs
         } else {
             meta.insert(DB_FILE_NAMES_KEY.into(), Value::Array(vec![]));
-- 
2.43.0


From d2a919f7839e830b49d3883f42bda525cd20cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 14/26] fix: save after the last request of a graceful shutdown

The saver finishes before the server stops accepting requests, so changes that
were acknowledged after that were lost.
---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..15160eb 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests were still answered whilst the saver did its last save
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From e422d0e8e5d54c51e387f42aafaf2051330e84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 15/26] fix: send the database name in AsyncClient::get_store

A list of plain strings is not a valid query, so every call returned an error.
---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From bbc5a20d52cf4a7800cb16cda4bbb6c89ea6c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 16/26] fix: do not fail to remove entries that are already not
 there in the clients

remove_entry_from_db is documented to only ensure that the key doesn't exist.
---
 crates/sourisdb/src/client/async_client.rs | 15 +++++++++++----
 crates/sourisdb/src/client/sync_client.rs  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..394379e 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -349,13 +349,20 @@ impl AsyncClient {
         database_name: &str,
         key: &str,
     ) -> Result<(), ClientError> {
-        self.client
+        let rsp = self.client
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query(&[("db_name", database_name), ("key", key)])
             .send()
-            .await?
-            .error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
-        Ok(())
+            .await?;
+
+        match rsp.status() {
+            //the database or the key are not there, which is what was wanted
+            StatusCode::GONE | StatusCode::BAD_REQUEST => Ok(()),
+            _ => {
+                rsp.error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
+                Ok(())
+            }
+        }
     }
 
     ///Removes a given database. Returns whether we actually removed anything
diff --git a/crates/sourisdb/src/client/sync_client.rs b/crates/sourisdb/src/client/sync_client.rs
index b02f49e..ffcdde9 100644
--- a/crates/sourisdb/src/client/sync_client.rs
+++ b/crates/sourisdb/src/client/sync_client.rs
@@ -128,12 +128,20 @@ impl SyncClient {
 
     #[allow(clippy::result_large_err)]
     pub fn remove_entry_from_db(&self, database_name: &str, key: &str) -> Result<(), ClientError> {
-        self.agent
+        let rsp = self.agent
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query("db_name", database_name)
             .query("key", key) //TODO: fixme as to whether anything happened
-            .call()?;
-        Ok(())
+            .call();
+
+        match rsp {
+            //the database or the key are not there, which is what was wanted
+            Err(ureq::Error::Status(400 | 410, _)) => Ok(()),
+            rsp => {
+                rsp?;
+                Ok(())
+            }
+        }
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From 8fe44f7291cd544f4e0ebe27d4e26f2f439f2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 17/26] Guarded entry point for simulation (cfg souris_sim, off
 by default)

---
 crates/sourisd/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index 15160eb..557926a 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -1,5 +1,6 @@
 #![warn(clippy::all, clippy::pedantic)]
 #![allow(clippy::module_name_repetitions)]
+#![allow(unexpected_cfgs)] //`souris_sim` is only ever set by hand
 
 #[macro_use]
 extern crate tracing;
@@ -154,3 +155,9 @@ async fn main() {
         error!(?e, "Error saving state");
     }
 }
+
+///Lets a simulator which links this file as a library run the whole daemon.
+#[cfg(souris_sim)]
+pub fn sim_main() {
+    main();
+}
-- 
2.43.0


From c167726f9ec1f6f6686afc3578d83e16729c5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 18/26] fix: notice that writing a database to disk failed

---
 crates/sourisd/src/v1_routes/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index a1e5e9a..a4d8cee 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -426,6 +426,8 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    //the last write happens in the background, and only a flush reports its failure
+    file.flush().await?;
     file.sync_all().await?;
     drop(file);
 
-- 
2.43.0


From 32e544632e73f33211d9e2ae06b3d3ce25c38ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 19/26] fix: do not forget a saved database when only saving
 the metadata failed

---
 crates/sourisd/src/v1_routes/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index a4d8cee..3c490a8 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -62,7 +62,7 @@ pub struct SourisState {
     ///
     ///Only changed whilst `dbs` is locked, and always invalidated before a database is changed: otherwise a concurrent request could put an old version back.
     db_cache: Cache<String, Bytes>,
-    ///The names of the databases that were saved the last time
+    ///The names of the databases that have been saved already
     saved: Arc<Mutex<HashSet<String>>>,
 }
 
@@ -382,6 +382,8 @@ impl SourisState {
                     continue;
                 }
                 //the version from the last time is still there
+            } else {
+                saved.insert(name.to_string());
             }
             names.insert(name.to_string());
         }
-- 
2.43.0


From c217eda277bcd0acadfdc4af0354946fad11a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 20/26] fix: take the port before the saver starts, as it would
 save when that fails

---
 crates/sourisd/src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index 557926a..fe80ec8 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -97,6 +97,11 @@ async fn main() {
     let state = SourisState::new().await.expect("unable to create state");
     info!("Found state {state:?}");
 
+    //port chosen as SOUR in T9 code
+    //TODO: option to change port
+    //before the saver starts, as it would save once more if this fails - to a folder which might be in use by whatever has the port
+    let http_listener = TcpListener::bind("0.0.0.0:7687").await.unwrap();
+
     let (stop_tx, stop_rx) = broadcast::channel(1);
     let saver_state = state.clone();
 
@@ -141,10 +146,6 @@ async fn main() {
         .layer(DefaultBodyLimit::disable())
         .with_state(state.clone());
 
-    //port chosen as SOUR in T9 code
-    //TODO: option to change port
-    let http_listener = TcpListener::bind("0.0.0.0:7687").await.unwrap();
-
     axum::serve(http_listener, router)
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
-- 
2.43.0


From fbd1cc680cad348ba806ae219ac62adb7c871d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 21/26] fix: conversion of an Integer to a signed type silently
 changed the sign when every byte was in use

---
 crates/sourisdb/src/types/integer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..a0ca190 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,12 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let n = <$t>::from_le_bytes(out);
+                //all bytes can be in use, with no room left for the sign
+                if n.is_negative() != i.is_negative() {
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+                Ok(n)
             }
         }
         )+
-- 
2.43.0


From aa7e3b5335315541292f07b61916d4317d05f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 22/26] fix: exported timestamps could not be imported from
 JSON again

---
 crates/sourisdb/src/values.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 77acad4..d1c5401 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -816,7 +816,15 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    //`convert_to_json` separates date and time with a space, `from_str` wants a T
+                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp)
+                                        .or_else(|_| {
+                                            NaiveDateTime::parse_from_str(
+                                                timestamp,
+                                                "%Y-%m-%d %H:%M:%S%.f",
+                                            )
+                                        })
+                                    {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From f3796298e894b3270857db9833ccdeaa6aaa0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 23/26] sim: entry point of mouse for a simulator (cfg
 souris_sim)

---
 crates/mouse/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mouse/src/main.rs b/crates/mouse/src/main.rs
index 52980ff..54d8fb4 100644
--- a/crates/mouse/src/main.rs
+++ b/crates/mouse/src/main.rs
@@ -1,4 +1,5 @@
 #![warn(clippy::all, clippy::pedantic)]
+#![allow(unexpected_cfgs)] // souris_sim: only set by the simulator in which this program can be run
 
 use std::{
     fmt::{Display, Formatter},
@@ -59,6 +60,13 @@ fn main() {
     }
 }
 
+///Runs the program inside of a simulator.
+#[cfg(souris_sim)]
+pub fn sim_main(args: Vec<String>) -> Result<(), String> {
+    let args = Arguments::try_parse_from(args).map_err(|e| e.to_string())?;
+    fun_main(args).map_err(|e| format!("{e:?}"))
+}
+
 #[derive(Debug)]
 enum Error {
     IO(IOError),
-- 
2.43.0


From 10b7d0f26eb380639ea1b84d0f2ef47367c9f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 24/26] fix: single floats entered in mouse were stored as
 double floats

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From 267e4103cd9036a3feb8f4767293581af8dc77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 25/26] fix: mouse asked for ever for the file of a binary
 value once its terminal was gone

---
 crates/mouse/src/value_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index e20b66c..606a3cb 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -113,14 +113,10 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
                 }
             }
 
-            let ValidFile(pb) = loop {
-                if let Ok(x) = Input::with_theme(theme)
-                    .with_prompt("Please enter the path to the file with the binary")
-                    .interact()
-                {
-                    break x;
-                }
-            };
+            //asks again by itself for as long as the path isn't a file
+            let ValidFile(pb) = Input::with_theme(theme)
+                .with_prompt("Please enter the path to the file with the binary")
+                .interact()?;
 
             let mut output = vec![];
             let mut file = File::open(pb)?;
-- 
2.43.0


From cc0d7f62c9f252003ac342c2243a091c820ad2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 26/26] fix: mouse cleared or overwrote databases created by
 others while the user chose a new name

---
 crates/mouse/src/main.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/crates/mouse/src/main.rs b/crates/mouse/src/main.rs
index 54d8fb4..23a6759 100644
--- a/crates/mouse/src/main.rs
+++ b/crates/mouse/src/main.rs
@@ -144,9 +144,9 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
 
     match command {
         Commands::CreateNew { db_name } => {
-            let all = client.get_all_dbs()?;
+            let exists = client.get_all_dbs()?.contains(&db_name);
 
-            if all.contains(&db_name) {
+            if exists {
                 if !Confirm::with_theme(&theme)
                     .with_prompt("A database with that name already exists. Clear that database?")
                     .interact()?
@@ -156,10 +156,13 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
                 }
             }
 
-            if client.create_new_db(true, &db_name)? {
+            //only what the user agreed to clear is cleared
+            if client.create_new_db(exists, &db_name)? {
                 println!("Database successfully created");
-            } else {
+            } else if exists {
                 println!("Successfully cleared database");
+            } else {
+                println!("A database with that name was created in the meantime");
             }
         }
         Commands::ViewAll => {
@@ -185,16 +188,19 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
             }
 
             let store = Store::from_json_bytes(&bytes)?;
-            let db_name = pick_db_name(true, &client, &theme)?;
+            let (db_name, exists) = pick_db_name(true, &client, &theme)?;
 
-            if client.add_db_with_contents(true, &db_name, &store)? {
+            //only what the user agreed to overwrite is overwritten
+            if client.add_db_with_contents(exists, &db_name, &store)? {
                 println!("Created new database with JSON.");
-            } else {
+            } else if exists {
                 println!("Overwrote existing database with JSON.");
+            } else {
+                println!("Added the JSON to a database that was created in the meantime.");
             }
         }
         Commands::AddEntry => {
-            let db_name = pick_db_name(true, &client, &theme)?;
+            let (db_name, _) = pick_db_name(true, &client, &theme)?;
 
             let key: String = Input::with_theme(&theme).with_prompt("Key: ").interact()?;
             let value = get_value_from_stdin("Value: ", &theme)?;
@@ -300,7 +306,7 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
             }
         }
         Commands::RemoveDatabase => {
-            let db_name = pick_db_name(false, &client, &theme)?;
+            let (db_name, _) = pick_db_name(false, &client, &theme)?;
             client.remove_db(&db_name)?;
             println!("Successfully removed database");
         }
@@ -310,17 +316,18 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
 }
 
 fn pick_db(client: &SyncClient, theme: &dyn Theme) -> Result<(String, Store), Error> {
-    let chosen_db_name = pick_db_name(false, client, theme)?;
+    let (chosen_db_name, _) = pick_db_name(false, client, theme)?;
     let chosen_store = client.get_store(&chosen_db_name)?;
     Ok((chosen_db_name, chosen_store))
 }
 
+///The name of the database, and whether it is an existing one.
 #[allow(clippy::collapsible_if)]
 fn pick_db_name(
     can_pick_new: bool,
     client: &SyncClient,
     theme: &dyn Theme,
-) -> Result<String, Error> {
+) -> Result<(String, bool), Error> {
     let mut names = client.get_all_dbs()?;
 
     if can_pick_new {
@@ -338,14 +345,14 @@ fn pick_db_name(
                 }
 
                 if !names.contains(&trial) {
-                    break trial;
+                    break (trial, false);
                 }
 
                 if Confirm::with_theme(theme)
                     .with_prompt("This database already exists. Overwrite?")
                     .interact()?
                 {
-                    break trial;
+                    break (trial, true);
                 }
             });
         }
@@ -358,12 +365,12 @@ fn pick_db_name(
         let Some(first) = names.pop() else {
             unreachable!()
         };
-        return Ok(first);
+        return Ok((first, true));
     }
 
     let chosen_index = FuzzySelect::with_theme(theme)
         .items(&names)
         .with_prompt("Which database?")
         .interact()?;
-    Ok(names.swap_remove(chosen_index))
+    Ok((names.swap_remove(chosen_index), true))
 }
-- 
2.43.0

