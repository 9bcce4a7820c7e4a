From 60c9aef34714a540ce90eeae39bd23d7bc367cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 01/31] fix: read each map key with its own type byte and
 finish empty maps and arrays

Value::ser writes every map key as a whole Value::String, but deser decoded
keys with the flag bits of the map's own type byte and never consumed the
key's type byte, so no store holding an entry could be read back. Empty
arrays and maps waited for an element that was never written.
---
 crates/sourisdb/src/values.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..7ccc0b5 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1285,8 +1285,10 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1307,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1347,29 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
+                DeserialisationState::Map(so_far, left) => {
+                    //each key is serialised as a full `Value::String`, so it has its own type byte
+                    let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let ty = ValueTy::try_from((byte & 0b1111_0000) >> 4)?;
+                    if ty != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: ty,
+                            expected: ValueTy::String,
+                        });
+                    }
+
                     let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 7292c1711eb7f6e831f107cdbc972a5179fbb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 02/31] fix: give the only symbol of a one-symbol huffman tree
 a bit

Such a tree encoded every occurrence to nothing, so the text (or the number
of repeats) was lost, and decoding any bits with it hit an unreachable!().
---
 crates/sourisdb/src/utilities/huffman.rs | 33 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..e214b5d 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -351,6 +351,20 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         }
     }
 
+    ///Finds the bits for every symbol in the tree.
+    ///
+    /// If there is only one symbol, then it still gets one bit, as otherwise the number of times it occurred would be lost.
+    fn to_bits_table<U: Hash + Eq + Clone>(root: &Node<U>) -> HashMap<U, Bits> {
+        let mut to_bits = HashMap::new();
+        let mut bits_so_far = Bits::default();
+        if root.leaf_contents().is_some() {
+            bits_so_far.push(true);
+        }
+
+        Self::add_node_to_table(root, &mut to_bits, bits_so_far);
+        to_bits
+    }
+
     ///Breadth-first traversal of the node, adding leaf nodes and their paths to the provided [`HashMap`]s.
     ///
     /// For an external call, the `bits_so_far` should be [`Bits::default`].
@@ -382,11 +396,8 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ///Can return `None` if the iterator provided is empty.
     #[must_use]
     pub fn new(data: impl Iterator<Item = T>) -> Result<Self, HuffmanSerError> {
-        let mut to_bits = HashMap::new();
-
         let root = Self::data_to_node_tree(data)?;
-
-        Self::add_node_to_table(&root, &mut to_bits, Bits::default());
+        let to_bits = Self::to_bits_table(&root);
 
         Ok(Self { to_bits, root })
     }
@@ -421,7 +432,11 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                //only the root can be a leaf here - if there's one symbol, then each bit stands for it
+                Node::Leaf(t) => {
+                    result.push(t.clone());
+                    new_node = &self.root;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
@@ -458,9 +473,7 @@ impl Huffman<u8> {
     /// - [`HuffmanSerError::InvalidDiscriminant`] if we find an invalid discriminant in the serialised node tree.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
         let root = Node::<u8>::deser(bytes)?;
-
-        let mut to_bits = HashMap::new();
-        Self::add_node_to_table(&root, &mut to_bits, Bits::default());
+        let to_bits = Self::to_bits_table(&root);
 
         Ok(Self { to_bits, root })
     }
@@ -623,9 +636,7 @@ impl Huffman<char> {
     /// - [`HuffmanSerError::InvalidCharacter`] if we find an invalid character.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
         let root = Node::<char>::deser(bytes)?;
-
-        let mut to_bits = HashMap::new();
-        Self::add_node_to_table(&root, &mut to_bits, Bits::default());
+        let to_bits = Self::to_bits_table(&root);
 
         Ok(Self { to_bits, root })
     }
-- 
2.43.0


From 0e14229788afe4762463df125fc6ebb70a325c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 03/31] fix: refuse to convert integers outside a signed type's
 range

TryFrom<Integer> for the signed types only compared byte counts, so 200 became
-56 as an i8 and -256 became 0.
---
 crates/sourisdb/src/types/integer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..b5522f2 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,12 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let out = <$t>::from_le_bytes(out);
+                if (out < 0) != i.is_negative() {
+                    return Err(IntegerSerError::TooBigToFit); //the top bit was needed for the value, not for the sign
+                }
+
+                Ok(out)
             }
         }
         )+
-- 
2.43.0


From 2e8c86c74edb9dce06f7d80d6b7581f3d1e4457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 04/31] fix: store an unsigned zero like every other zero

It claimed to use one byte where signed, parsed and deserialised zeroes use
none, so equal zeroes compared and hashed as different.
---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index b5522f2..ea99b86 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -302,14 +302,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From b6c92b4fde940cbb81948b5fb394100c519a1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 05/31] fix: deserialise padded integers canonically and refuse
 signed ones that don't fit

Zero-padded bytes gave integers unequal to the same number, and signed ones
beyond the range of an i128 panicked when converted to a float.
---
 crates/sourisdb/src/types/integer.rs | 34 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index ea99b86..a388b5c 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -743,14 +743,7 @@ impl Integer {
                 [0; INTEGER_MAX_SIZE]
             };
             content[0] = first_byte;
-            let number_of_bytes_used =
-                usize::from(signed_state == SignedState::SignedNegative || content[0] != 0);
-
-            return Ok(Self {
-                signed_state,
-                content,
-                number_of_bytes_used,
-            });
+            return Self::from_content(signed_state, content);
         }
 
         let number_of_bytes_used = (first_byte - ONE_BYTE_MAX_SIZE) as usize;
@@ -767,11 +760,30 @@ impl Integer {
             content[i] = b;
         }
 
-        Ok(Self {
+        Self::from_content(signed_state, content)
+    }
+
+    ///Creates an `Integer` from deserialised bytes, ignoring any superfluous leading bytes.
+    fn from_content(
+        signed_state: SignedState,
+        content: [u8; INTEGER_MAX_SIZE],
+    ) -> Result<Self, IntegerSerError> {
+        let is_negative = signed_state == SignedState::SignedNegative;
+        let filler = if is_negative { u8::MAX } else { 0 };
+
+        let int = Self {
             signed_state,
             content,
-            number_of_bytes_used,
-        })
+            number_of_bytes_used: content
+                .iter()
+                .rposition(|b| *b != filler)
+                .map_or(usize::from(is_negative), |i| i + 1),
+        };
+        if signed_state != SignedState::Unsigned {
+            BiggestIntButSigned::try_from(int)?;
+        }
+
+        Ok(int)
     }
 }
 
-- 
2.43.0


From 9870ee5d5c3b7e510a5e700358defb7d575e68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 06/31] fix: convert floats to integers by their value

Negative fractions were accepted and rounded down, tiny negative ones became
-1, f32 refused every positive number and accepted NaN, and -2^127 was refused
though it fits.
---
 crates/sourisdb/src/types/integer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index a388b5c..12467d5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -417,15 +417,15 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        if value.fract().abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
+        let floored = value.trunc();
         if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
+            if floored >= BiggestIntButSigned::MIN as f64 {
                 Ok((floored as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
@@ -449,21 +449,24 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        if value.fract().abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
+        let floored = value.trunc();
         if floored < 0.0 {
-            if floored > i128::MIN as f32 {
+            if floored >= i128::MIN as f32 {
                 Ok((floored as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
+            if floored < u128::MAX as f32 {
                 Ok((floored as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
-- 
2.43.0


From 28289f59c5b2cc4554a7faec2e768a492c973cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 07/31] fix: read back exactly the bytes that bits were written
 in

The byte count went through an f32, so long sequences lost their last bytes,
and leftover bits of the last byte were kept: they could make equal bits
differ and leaked into bits pushed later.
---
 crates/sourisdb/src/utilities/bits.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..81be0bc 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -161,15 +161,18 @@ impl Bits {
     )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut bits = Self {
             backing,
             valid_bits,
-        })
+        };
+        bits.backing = bits.get_proper_bytes(); //`push` relies on the unused bits being zero
+
+        Ok(bits)
     }
 }
 
-- 
2.43.0


From 34db881ec7355b67e99d5b5e9b60107f3306af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 08/31] fix: reject a zero-valued character in a serialised
 huffman tree

It underflowed: a panic in debug builds.
---
 crates/sourisdb/src/utilities/huffman.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index e214b5d..d55655b 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,12 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            //a zero here has to be a padded integer, as the control character has already been dealt with
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From e2df11b0443564e11203d2f66411aea63a402773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 09/31] fix: don't allocate for an array or map length before
 finding its items

The length is read from the input, so a few bytes could ask for any amount of
memory and end the process.
---
 crates/sourisdb/src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 7ccc0b5..bea65a4 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1287,8 +1287,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::new(), len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::new(), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 1a7c1d55d2fafa2adb9e08c1259fe28d43571a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 10/31] fix: return an error for compressed lengths that cannot
 be allocated

Both lengths are read from the input without being limited by its size, so a
few bytes could panic or end the process.
---
 crates/sourisdb/src/types/binary/huffman.rs |  9 +++++++--
 crates/sourisdb/src/types/binary/lz.rs      | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..f80ab89 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -1,5 +1,5 @@
 use crate::{
-    types::integer::{Integer, SignedState},
+    types::integer::{Integer, IntegerSerError, SignedState},
     utilities::{
         bits::Bits,
         cursor::Cursor,
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            //the count isn't limited by how many bytes there are, so it might not fit in memory
+            let mut out = Vec::new();
+            out.try_reserve_exact(count)
+                .map_err(|_| IntegerSerError::TooBigToFit)?;
+            out.resize(count, element);
+            out
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..281a3f7 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -6,7 +6,13 @@ use crate::{
     utilities::cursor::Cursor,
 };
 use alloc::{vec, vec::Vec};
-use lz4_flex::{compress, decompress};
+use lz4_flex::{
+    block::DecompressError,
+    {compress, decompress},
+};
+
+///The most bytes that one byte of LZ4-compressed data can stand for
+const MAX_LZ_EXPANSION: usize = 255;
 
 #[must_use]
 pub fn lz(input: &[u8]) -> Vec<u8> {
@@ -40,6 +46,16 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //LZ4 can't expand further than this, so don't allocate for a length that cannot be right
+    let max_len = compressed.len().saturating_mul(MAX_LZ_EXPANSION);
+    if input_len > max_len {
+        return Err(DecompressError::OutputTooSmall {
+            expected: input_len,
+            actual: max_len,
+        }
+        .into());
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
-- 
2.43.0


From 653c10a07bce279b2043e4b48e28d0acfdf2c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 11/31] fix: limit the depth of serialised huffman trees

They are read recursively, so a long run of zero bytes overflowed the stack
and ended the process.
---
 crates/sourisdb/src/utilities/huffman.rs | 30 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index d55655b..9cf87ee 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -88,6 +88,11 @@ pub struct Huffman<T: Hash + Eq + Clone> {
 }
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
+///How deep a deserialised tree can be, as it's traversed recursively.
+///
+/// A leaf that deep needs its tree to have been made from at least the 128th fibonacci number of items, so no real tree gets there.
+const MAX_TREE_DEPTH: usize = 128;
+
 ///A binary tree structure for use in creating the huffman encoding
 #[derive(Debug, Eq, PartialEq, Hash)]
 enum Node<T> {
@@ -151,15 +156,18 @@ impl Node<u8> {
         }
     }
 
-    pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    pub fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TooDeep);
+        }
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser(cursor, depth + 1)?);
+                let right = Box::new(Self::deser(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -186,14 +194,17 @@ impl Node<char> {
         }
     }
 
-    fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+    fn deser(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TooDeep);
+        }
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser(cursor, depth + 1)?);
+            let right = Box::new(Self::deser(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -228,6 +239,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///The tree was more deeply nested than any tree made by [`Huffman::new`] could be
+    TooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -261,6 +274,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TooDeep => write!(f, "Huffman tree was too deep"),
         }
     }
 }
@@ -476,7 +490,7 @@ impl Huffman<u8> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidDiscriminant`] if we find an invalid discriminant in the serialised node tree.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<u8>::deser(bytes)?;
+        let root = Node::<u8>::deser(bytes, 0)?;
         let to_bits = Self::to_bits_table(&root);
 
         Ok(Self { to_bits, root })
@@ -639,7 +653,7 @@ impl Huffman<char> {
     /// - [`IntegerSerError`] if there is an error deserialising one of the [`Integer`]s.
     /// - [`HuffmanSerError::InvalidCharacter`] if we find an invalid character.
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
-        let root = Node::<char>::deser(bytes)?;
+        let root = Node::<char>::deser(bytes, 0)?;
         let to_bits = Self::to_bits_table(&root);
 
         Ok(Self { to_bits, root })
-- 
2.43.0


From 496a56c2cb0ec3bbefc41e06bb75b3b34f658dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 12/31] fix: limit how deeply serialised arrays and maps can be
 nested

Dropping, comparing, formatting and re-serialising a Value all recurse, so a
few kilobytes of nested arrays overflowed the stack and ended the process.
---
 crates/sourisdb/src/store.rs  |  7 +++++-
 crates/sourisdb/src/values.rs | 41 ++++++++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 46dbac0..99da67c 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -126,7 +126,12 @@ impl Store {
             None
         };
 
-        let val = Value::deser(&mut Cursor::new(&bytes), huffman.as_ref())?;
+        //the store itself is a map, so leave space for whatever values `Value::deser` would've accepted
+        let val = Value::deser_nested(
+            &mut Cursor::new(&bytes),
+            huffman.as_ref(),
+            Value::MAX_NESTING + 1,
+        )?;
         let ty = val.as_ty();
         let Some(map) = val.to_map() else {
             return Err(StoreSerError::ExpectedMap(ty));
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index bea65a4..58919df 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -495,7 +495,9 @@ enum InvalidDeserialisationStateError {
     ///We found a state that should come after a value without a value
     ShouldOnlyComeAfterFoundValue,
     ///The stack was empty at the end of processing rather than yielding a value
-    EmptyStack
+    EmptyStack,
+    ///There were more arrays and maps inside each other than [`Value::MAX_NESTING`]
+    TooDeeplyNested,
 }
 
 impl From<InvalidDeserialisationStateError> for ValueSerError {
@@ -1127,6 +1129,11 @@ impl Value {
         res
     }
 
+    ///The most arrays and maps that can be inside each other for [`Value::deser`] to accept them.
+    ///
+    /// Everything else that traverses a [`Value`] (even dropping it) is recursive, so without a limit a short input could overflow the stack.
+    pub const MAX_NESTING: usize = 128;
+
     ///Deserialises bytes into a [`Value`]. If you don't have a Huffman tree, just pass `None` in.
     ///
     /// # Errors
@@ -1137,10 +1144,20 @@ impl Value {
     /// - [`BinarySerError::NoCompressionTypeFound`] if we cannot find the compression type
     /// - [`BinarySerError`] if we cannot deserialise binary
     /// - [`ValueSerError::UnexpectedValueType`] if we expected to find one type but found another. This can be found in the [`Value::Timezone`] deserialisation where we immediately try to deserialise a [`Value::String`].
-    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    /// - [`ValueSerError::InvalidDeserialisation`] if arrays and maps are nested deeper than [`Value::MAX_NESTING`].
     pub fn deser(
         bytes: &mut Cursor<u8>,
         huffman: Option<&Huffman<char>>,
+    ) -> Result<Self, ValueSerError> {
+        Self::deser_nested(bytes, huffman, Self::MAX_NESTING)
+    }
+
+    ///Deserialises bytes into a [`Value`] with at most `max_nesting` arrays and maps inside each other.
+    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    pub(crate) fn deser_nested(
+        bytes: &mut Cursor<u8>,
+        huffman: Option<&Huffman<char>>,
+        max_nesting: usize,
     ) -> Result<Self, ValueSerError> {
         enum DeserialisationState {
             ValueNeeded,
@@ -1279,16 +1296,28 @@ impl Value {
         }
 
         let mut stack: Vec<DeserialisationState> = vec![DeserialisationState::ValueNeeded];
+        let mut nesting = 0_usize;
 
         while let Some(state) = stack.pop() {
             match state {
                 DeserialisationState::ValueNeeded => {
-                    let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
+                    let parsed = parse_primitive(bytes, huffman)?;
+                    if matches!(parsed, ParseResult::NewArray(_) | ParseResult::NewMap(_)) && nesting >= max_nesting {
+                        return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::TooDeeplyNested));
+                    }
+
+                    let to_be_added_to_stack = match parsed {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(Vec::new())),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::new(), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::new(), len),
+                        ParseResult::NewArray(len) => {
+                            nesting += 1;
+                            DeserialisationState::Array(Vec::new(), len)
+                        }
+                        ParseResult::NewMap(len) => {
+                            nesting += 1;
+                            DeserialisationState::Map(HashMap::new(), len)
+                        }
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1314,6 +1343,7 @@ impl Value {
                                 DeserialisationState::Array(mut so_far, left) => {
                                     so_far.push(val);
                                     if left <= 1 {
+                                        nesting -= 1;
                                         stack.push(DeserialisationState::FoundValue(Value::Array(so_far)));
                                     } else {
                                         stack.push(DeserialisationState::Array(so_far, left - 1));
@@ -1367,6 +1397,7 @@ impl Value {
                     if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
+                            nesting -= 1;
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
                             stack.push(DeserialisationState::Map(so_far, left - 1));
-- 
2.43.0


From 62d113030a59bb501836eca2194d1690dfa1e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 13/31] fix: read back leap seconds wherever chrono allows them

A NaiveTime can hold a leap second on any second (with_nanosecond), and such
timestamps were written but refused when read.
---
 crates/sourisdb/src/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 58919df..7a8c4bd 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1233,7 +1233,9 @@ impl Value {
                     let sec = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
                     let ns = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
 
-                    let time = NaiveTime::from_hms_nano_opt(hour, min, sec, ns)
+                    //not `from_hms_nano_opt`, as that only allows leap seconds on the last second of a minute
+                    let time = NaiveTime::from_hms_opt(hour, min, sec)
+                        .and_then(|time| time.with_nanosecond(ns))
                         .ok_or(ValueSerError::InvalidDateOrTime)?;
 
                     Value::Timestamp(NaiveDateTime::new(date, time))
-- 
2.43.0


From 2990b966f793bc60dd40aa70e9777aa6e9d55859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 14/31] fix: import the timestamps that are exported to JSON

They are exported with a space between date and time, which
NaiveDateTime::from_str refuses.
---
 crates/sourisdb/src/values.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 7a8c4bd..e914cac 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -812,7 +812,8 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    if let Ok(timestamp) = NaiveDateTime::from_str(&timestamp.replacen(' ', "T", 1))
+                                    {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From 1292d3c6410f473c26e5c740c0ef23560ff6debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 15/31] fix: hash equal values equally

Maps were hashed in iteration order, and zeroes (also inside JSON) by their
sign, both of which equality ignores.
---
 crates/sourisdb/src/types/imaginary.rs |  4 ++--
 crates/sourisdb/src/values.rs          | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..69923b8 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -53,7 +53,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                modulus.to_le_bytes().hash(state);
+                (modulus + 0.0).to_le_bytes().hash(state); //-0.0 equals 0.0, so they need the same hash
 
                 match argument.classify() {
                     FpCategory::Nan => 0,
@@ -63,7 +63,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                argument.to_le_bytes().hash(state);
+                (argument + 0.0).to_le_bytes().hash(state);
             }
         }
     }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index e914cac..8fb1277 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -248,13 +248,14 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can be iterated through in different orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
@@ -272,7 +273,7 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                (f + 0.0).to_le_bytes().hash(state); //-0.0 equals 0.0, so they need the same hash
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -293,7 +294,7 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                (f + 0.0).to_le_bytes().hash(state); //-0.0 equals 0.0, so they need the same hash
             }
         }
     }
-- 
2.43.0


From 39aad8e833300eb6d7fa4f17f8169daa8801a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 16/31] fix: give zero a defined argument in polar form

The ratio of two zeroes (or two infinities) is NaN, so the polar form of 0+0i
had a NaN argument.
---
 crates/sourisdb/src/types/imaginary.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index 69923b8..428831d 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -4,7 +4,6 @@
 
 use alloc::vec::Vec;
 use core::{
-    f64::consts::PI,
     fmt::{Display, Formatter},
     hash::Hash,
     num::FpCategory,
@@ -180,13 +179,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
-        let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
-            (true, true) => -PI + phi,
-            (true, false) => PI - phi,
-            (false, true) => -phi,
-            (false, false) => phi,
-        };
+        let argument = imaginary.atan2(real);
 
         Imaginary::PolarForm { modulus, argument }
     }
-- 
2.43.0


From d1e2bfe56f52990c8a63db7ceeef229814c6b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 17/31] fix: seek a cursor from the start, the end and
 backwards

SeekFrom::Start moved backwards from the current position, SeekFrom::End was
relative to it as well, and negative SeekFrom::Current offsets did nothing.
---
 crates/sourisdb/src/utilities/cursor.rs | 44 ++++++++-----------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..f6e7442 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,38 +208,20 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
-            std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
-            }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        let new_pos = match pos {
+            std::io::SeekFrom::Current(offset) => self.pos as i128 + i128::from(offset),
+            std::io::SeekFrom::End(offset) => self.backing.len() as i128 + i128::from(offset),
+            std::io::SeekFrom::Start(offset) => i128::from(offset),
+        };
+
+        match usize::try_from(new_pos) {
+            Ok(new_pos) if new_pos <= self.backing.len() => self.pos = new_pos,
+            _ => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::NotFound,
+                    "Goes out of bounds".to_string(),
+                ));
             }
         }
 
-- 
2.43.0


From 65682e2fcd552e417e56e459b2d64932c282711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 18/31] fix: keep the key of an object stored under "JSON" on
 export

Only documents which aren't objects are wrapped in that key on import, but
{"JSON": {..}} was exported as its contents.
---
 crates/sourisdb/src/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 99da67c..46aff50 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -168,7 +168,8 @@ impl Store {
     ///fails if integer out of range, or float is NaN or infinite
     #[must_use]
     pub fn to_json(mut self, add_souris_types: bool) -> Option<SJValue> {
-        if self.len() == 1 {
+        //only what `from_json` couldn't use as a map gets put inside this key
+        if self.len() == 1 && !matches!(self.get("JSON"), Some(Value::Map(_))) {
             if let Some(v) = self.0.remove("JSON") {
                 return v.convert_to_json(add_souris_types);
             }
-- 
2.43.0


From 8825232286799ba244b35b6a67ccfce420a628f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 19/31] fix: report a filled database as created only if it is
 new

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 28ad6fbf2e33e36a50f4ae24c53494eccd0abcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 20/31] fix: refuse every database name that cannot be stored
 in a file

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 38 ++++++++++++++++++++-------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..4f5bf02 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, usable as a file name and not equal to `meta`"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..04216ce 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -32,6 +32,22 @@ use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
+///The longest file name that common filesystems can store
+const MAX_FILE_NAME_LEN: usize = 255;
+
+///Checks that a database with this name can be stored in a file of its own inside the base location.
+fn check_db_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta"
+        || !name.is_ascii()
+        || name.contains(|c| std::path::is_separator(c) || c == '\0')
+        || name.len() + ".sdb".len() > MAX_FILE_NAME_LEN
+    {
+        return Err(SourisError::InvalidDatabaseName);
+    }
+
+    Ok(())
+}
+
 #[derive(Clone, Debug)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourisState {
@@ -48,16 +64,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta` or no file can have that name.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_db_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +99,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_db_name(&name)?;
+
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
@@ -100,9 +116,9 @@ impl SourisState {
         }
 
         if created_new {
-            StatusCode::CREATED
+            Ok(StatusCode::CREATED)
         } else {
-            StatusCode::OK
+            Ok(StatusCode::OK)
         }
     }
 
@@ -169,11 +185,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         self.db_cache.invalidate(&db_name).await;
 
         let mut dbs = self.dbs.lock().await;
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -193,6 +209,8 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_db_name(vac.key())?;
+
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -200,7 +218,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From f56ff4bb8653b71ce8ade27fe356b96cd96fed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 21/31] fix: drop cached databases only once they have changed

---
 crates/sourisd/src/v1_routes/state.rs | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 04216ce..289ba3e 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -102,11 +102,10 @@ impl SourisState {
     ) -> Result<StatusCode, SourisError> {
         check_db_name(&name)?;
 
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
         let created_new = !dbs.contains_key(&name);
-        let current = dbs.entry(name).or_default();
+        let current = dbs.entry(name.clone()).or_default();
         if overwrite_existing {
             *current = contents;
         } else {
@@ -115,6 +114,8 @@ impl SourisState {
             }
         }
 
+        self.db_cache.invalidate(&name).await;
+
         if created_new {
             Ok(StatusCode::CREATED)
         } else {
@@ -125,12 +126,11 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
 
-        if let SEntry::Occupied(mut e) = dbs.entry(name) {
+        if let SEntry::Occupied(mut e) = dbs.entry(name.clone()) {
             e.insert(Store::default());
+            self.db_cache.invalidate(&name).await;
             Ok(())
         } else {
             trace!("Unable to find store.");
@@ -141,8 +141,6 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
 
         if !dbs.contains_key(&name) {
@@ -150,6 +148,7 @@ impl SourisState {
         }
 
         dbs.remove(&name);
+        self.db_cache.invalidate(&name).await;
         drop(dbs);
 
         let file_name = self.base_location.join(format!("{name}.sdb"));
@@ -186,10 +185,8 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> Result<CreationResult, SourisError> {
-        self.db_cache.invalidate(&db_name).await;
-
         let mut dbs = self.dbs.lock().await;
-        Ok(match dbs.entry(db_name) {
+        let res = match dbs.entry(db_name.clone()) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -218,7 +215,11 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        })
+        };
+
+        self.db_cache.invalidate(&db_name).await;
+
+        Ok(res)
     }
 
     pub async fn get_value(
@@ -238,14 +239,16 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
         };
 
-        match db.remove(&key) {
+        let removed = db.remove(&key);
+        self.db_cache.invalidate(&db_name).await;
+
+        match removed {
             Some(_) => Ok(()),
             None => Err(SourisError::KeyNotFound),
         }
-- 
2.43.0


From e64eeedb0265940886f079d3cbd514a2b6eb42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 22/31] fix: replace saved files as a whole

---
 crates/sourisd/src/v1_routes/state.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 289ba3e..d6f1567 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -24,11 +24,13 @@ fn running_with_superuser() -> bool {
 mod meta {
     ///File name for the database that stores the meta information
     pub const META_DB_FILE_NAME: &str = "meta.sdb";
+    ///File name that everything is first written to - doesn't end in `.sdb`, so can't be the file of a database
+    pub const TEMP_FILE_NAME: &str = "save.tmp";
     ///Name of the key inside the meta information database that stores the array of databases
     pub const DB_FILE_NAMES_KEY: &str = "existing_dbs";
 }
 use crate::{error::SourisError, v1_routes::value::KeyAndDb};
-use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
+use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME, TEMP_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
@@ -376,12 +378,15 @@ impl SourisState {
     }
 }
 
+///Replaces the file at the path as a whole - if anything goes wrong the existing file is left as it was.
 async fn write_to_file(
     bytes: &[u8],
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    let temp = base_location.as_ref().join(TEMP_FILE_NAME);
+
+    let mut file = match File::create(&temp).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -389,7 +394,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&temp).await?
             } else {
                 return Err(e.into());
             }
@@ -397,6 +402,9 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.sync_all().await?;
+    drop(file);
+    rename(&temp, &path).await?;
 
     Ok(())
 }
-- 
2.43.0


From 1df3568ecaec0a844fb260c6dfe78d7dcd32b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 23/31] fix: keep a database listed when saving it fails

---
 crates/sourisd/src/v1_routes/state.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index d6f1567..2645cb8 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, rename, File},
+    fs::{create_dir_all, rename, try_exists, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -362,11 +362,16 @@ impl SourisState {
             let file_name = self.base_location.join(format!("{name}.sdb"));
             let bytes = db.ser();
 
-            if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
+            if let Err(e) = write_to_file(&bytes, &file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
+
+                //keep what was last saved
+                if matches!(try_exists(&file_name).await, Ok(false)) {
+                    continue;
+                }
             }
+
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From 895c9bcf091b6642c3a5a1546d8f53f18d48f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 24/31] fix: notice when writing to a file fails

---
 crates/sourisd/src/v1_routes/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 2645cb8..71114b2 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -407,6 +407,7 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.flush().await?;
     file.sync_all().await?;
     drop(file);
     rename(&temp, &path).await?;
-- 
2.43.0


From 8df5e9f182146e887d67b5c4d75ce4087a97ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 25/31] fix: don't bring back databases removed since the last
 save as empty ones

---
 crates/sourisd/src/v1_routes/state.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 71114b2..661aa0d 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -264,13 +264,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> color_eyre::Result<Option<Store>> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found.");
+                        return Ok(None);
                     } else {
                         Err(e.into())
                     };
@@ -289,7 +289,7 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
@@ -311,9 +311,13 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
+                    Ok(None) => {
+                        //removed after the last save
+                        continue;
+                    }
                     Err(e) => {
                         trace!(?e, ?file_name, "Error getting database");
                         continue;
@@ -337,7 +341,9 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
         let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
             dbs
-- 
2.43.0


From d7e54ddef496f1270b0deacdcdcd3f009bfa825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 26/31] fix: save what is changed while the daemon is stopping

---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..b18bc04 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests are still answered while the saver is stopping
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From 1b475cd8f5a2aac9a08a7c6c496eb61622713cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 27/31] fix: remove a database's file before another can take
 its name

---
 crates/sourisd/src/v1_routes/state.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 661aa0d..0c570c5 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -149,10 +149,7 @@ impl SourisState {
             return Err(SourisError::DatabaseNotFound);
         }
 
-        dbs.remove(&name);
-        self.db_cache.invalidate(&name).await;
-        drop(dbs);
-
+        //keep the lock, as another database with that name could otherwise be saved before its file is removed
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
@@ -161,6 +158,9 @@ impl SourisState {
             }
         }
 
+        dbs.remove(&name);
+        self.db_cache.invalidate(&name).await;
+
         Ok(())
     }
 
-- 
2.43.0


From 6ea8ff01ca41f460f5f45956bcf4e83b5cc72454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 28/31] fix: ask for a database by name in the async client

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 6ec882d5abb8e4912f5176d1e6b5d4fd3c2662b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 29/31] fix: don't fail to remove an entry that does not exist
 in the async client

---
 crates/sourisdb/src/client/async_client.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..051a103 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -349,13 +349,18 @@ impl AsyncClient {
         database_name: &str,
         key: &str,
     ) -> Result<(), ClientError> {
-        self.client
+        let rsp = self.client
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query(&[("db_name", database_name), ("key", key)])
             .send()
-            .await?
-            .error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
-        Ok(())
+            .await?;
+
+        //TODO: fixme as to whether anything happened
+        match rsp.status() {
+            //the database or the key were not found
+            StatusCode::GONE | StatusCode::BAD_REQUEST => Ok(()),
+            _ => rsp.error_for_status_to_client_error().map(|_| ()),
+        }
     }
 
     ///Removes a given database. Returns whether we actually removed anything
-- 
2.43.0


From 84215e08e1203b92ce9b9fec4c7c96bb4ee56cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 30/31] fix: create a single float when asked for one in mouse

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From e66a26996a394108025f56dd559a6224efbbd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 31/31] fix: refuse compressed data that refers to before its
 start

lz4_flex without its safe decoding gave out uninitialised memory for it.
---
 crates/sourisdb/src/types/binary/lz.rs | 54 ++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index 281a3f7..66fd713 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -13,6 +13,8 @@ use lz4_flex::{
 
 ///The most bytes that one byte of LZ4-compressed data can stand for
 const MAX_LZ_EXPANSION: usize = 255;
+///The length of the shortest match in LZ4-compressed data
+const MIN_MATCH: usize = 4;
 
 #[must_use]
 pub fn lz(input: &[u8]) -> Vec<u8> {
@@ -56,9 +58,61 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .into());
     }
 
+    check_offsets(compressed)?;
     Ok(decompress(compressed, input_len)?)
 }
 
+///Checks that every match in an LZ4 block copies bytes that come before it in the output.
+///
+///[`decompress`] doesn't check all of them, and gives out whatever was in memory for the others.
+fn check_offsets(block: &[u8]) -> Result<(), DecompressError> {
+    fn next_byte(block: &mut &[u8]) -> Result<u8, DecompressError> {
+        let (first, rest) = block
+            .split_first()
+            .ok_or(DecompressError::ExpectedAnotherByte)?;
+        *block = rest;
+        Ok(*first)
+    }
+    fn length(nibble: u8, block: &mut &[u8]) -> Result<usize, DecompressError> {
+        let mut length = usize::from(nibble);
+        if nibble == 15 {
+            loop {
+                let extra = next_byte(block)?;
+                length = length.saturating_add(usize::from(extra));
+                if extra != u8::MAX {
+                    break;
+                }
+            }
+        }
+        Ok(length)
+    }
+
+    let mut block = block;
+    let mut written: usize = 0;
+    loop {
+        let token = next_byte(&mut block)?;
+
+        let literals = length(token >> 4, &mut block)?;
+        block = block
+            .get(literals..)
+            .ok_or(DecompressError::LiteralOutOfBounds)?;
+        written = written.saturating_add(literals);
+
+        //the last sequence only has literals
+        if block.is_empty() {
+            return Ok(());
+        }
+
+        let offset = u16::from_le_bytes([next_byte(&mut block)?, next_byte(&mut block)?]);
+        if offset == 0 || usize::from(offset) > written {
+            return Err(DecompressError::OffsetOutOfBounds);
+        }
+        written = written
+            .saturating_add(MIN_MATCH)
+            .saturating_add(length(token & 0b0000_1111, &mut block)?);
+    }
+}
+
 //leftover from when I tried to actually implement lz, but was very slow
 //I used this: //LZ77, not LZSS from https://go-compression.github.io/algorithms/lz/
 /*#[derive(Copy, Clone, Debug)]
-- 
2.43.0

