From cde94821790b302201d5a64aca24bbddefe220c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 01/16] fix: reject out-of-range offsets of dynamic fixed-size
 arrays when decoding

The offset of a fixed-size array of dynamic elements was used to slice the data
without a bounds check, so malformed data made decode panic.
---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..a4c2aa8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From c0397a3ef4d04737eee403c5f0a7426881b231b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 02/16] fix: reject bool words other than 0 and 1 when decoding

Words 2..=255 were silently decoded as false.
---
 ethabi/src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index a4c2aa8..53b6197 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -34,7 +34,11 @@ fn as_bool(slice: &Word) -> Result<bool, Error> {
 		return Err(Error::InvalidData);
 	}
 
-	Ok(slice[31] == 1)
+	match slice[31] {
+		0 => Ok(false),
+		1 => Ok(true),
+		_ => Err(Error::InvalidData),
+	}
 }
 
 /// Decodes ABI compliant vector of bytes into vector of tokens described by types param.
-- 
2.43.0


From 20d8b6b541168942c3a58d01a1bac872997ce4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 03/16] fix: check the number of members when type checking a
 tuple

A tuple with missing members was accepted, one with too many made type_check panic.
---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..2c34e79 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					Token::types_check(tokens, param_type)
 				} else {
 					false
 				}
-- 
2.43.0


From b9849b7ff554cdb354b4d7270409b2c39d355178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 04/16] fix: encode an empty fixed bytes value as one zero word

An empty value type checks against bytesN but was encoded as no word at all,
which shifted every argument after it.
---
 ethabi/src/encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethabi/src/encoder.rs b/ethabi/src/encoder.rs
index 5a28fa8..3074443 100644
--- a/ethabi/src/encoder.rs
+++ b/ethabi/src/encoder.rs
@@ -136,6 +136,8 @@ fn encode_token(token: &Token) -> Mediate {
 		}
 		Token::Bytes(ref bytes) => Mediate::Prefixed(pad_bytes(bytes)),
 		Token::String(ref s) => Mediate::Prefixed(pad_bytes(s.as_bytes())),
+		// bytesN always takes up a whole word, even if the value is empty
+		Token::FixedBytes(ref bytes) if bytes.is_empty() => Mediate::Raw(vec![[0u8; 32]]),
 		Token::FixedBytes(ref bytes) => Mediate::Raw(pad_fixed_bytes(bytes)),
 		Token::Int(int) => Mediate::Raw(vec![int.into()]),
 		Token::Uint(uint) => Mediate::Raw(vec![uint.into()]),
-- 
2.43.0


From 47e11dcce813c2927b4330d28594c24bf24afd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 05/16] fix: match decoded log params by position instead of by
 name

Parameters with an empty or repeated name overwrote each other, so parse_log
reported the value of one parameter for another.
---
 ethabi/src/event.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..5746697 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -151,21 +150,23 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// names may be empty or repeated, so params are matched by position
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
 			.params_names()
 			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.zip(&self.inputs)
+			.map(|(name, param)| {
+				let value = if param.indexed { topic_tokens.next() } else { data_tokens.next() };
+				value.map(|value| LogParam { name, value }).ok_or(Error::InvalidData)
+			})
+			.collect::<Result<_>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From f17219046bfea246759e257a677e4886f40c0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:44 +0000
Subject: [PATCH 06/16] fix: build the topics of indexed dynamic params as the
 ABI specification defines

Filters on indexed strings, bytes, arrays and tuples hashed the ordinary ABI
encoding (offset and length included), so they never matched an emitted log.
Single-word static arrays and tuples were not hashed at all.
---
 ethabi/src/event.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index 5746697..0c6500f 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -55,13 +55,38 @@ impl Event {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
-				let mut data = [0u8; 32];
-				data.copy_from_slice(&encoded);
-				Ok(data.into())
-			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+			match kind {
+				ParamType::String
+				| ParamType::Bytes
+				| ParamType::Array(_)
+				| ParamType::FixedArray(_, _)
+				| ParamType::Tuple(_) => {
+					let mut encoded = vec![];
+					encode_in_place(&token, false, &mut encoded);
+					Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+				}
+				_ => Ok(Hash::from_slice(&encode(&[token]))),
+			}
+		}
+
+		// Encodes a value whose hash is the topic of an indexed param, see
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: &Token, nested: bool, out: &mut Vec<u8>) {
+			let bytes = match token {
+				Token::Bytes(bytes) => bytes.as_slice(),
+				Token::String(s) => s.as_bytes(),
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					tokens.iter().for_each(|token| encode_in_place(token, true, out));
+					return;
+				}
+				_ => {
+					out.extend(encode(&[token.clone()]));
+					return;
+				}
+			};
+			out.extend_from_slice(bytes);
+			if nested {
+				out.resize((out.len() + 31) / 32 * 32, 0);
 			}
 		}
 
-- 
2.43.0


From a66e9f23c89e0042550c40a9b016e4bebd8edfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 07/16] fix: split array and tuple values on their own
 delimiters only

Character positions were used as byte offsets, so values with non-ASCII text
panicked or were cut in the wrong place. Arrays inside tuples and tuples inside
arrays were split at their inner commas, unbalanced lists such as [[1] and lists
followed by other text were accepted, and a tuple with too few values was too.
---
 ethabi/src/token/mod.rs | 159 +++++++++++++++-------------------------
 1 file changed, 60 insertions(+), 99 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..33db992 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -12,7 +12,7 @@ mod lenient;
 mod strict;
 mod token;
 
-use std::cmp::Ordering::{Equal, Less};
+use std::slice;
 
 pub use self::{lenient::LenientTokenizer, strict::StrictTokenizer, token::Token};
 use crate::{Error, ParamType};
@@ -46,112 +46,21 @@ pub trait Tokenizer {
 
 	/// Tried to parse a struct as a vector of tokens
 	fn tokenize_struct(value: &str, param: &[ParamType]) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('(') || !value.ends_with(')') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
-			match ch {
-				'(' if !ignore => {
-					nested += 1;
-				}
-				')' if !ignore => {
-					nested -= 1;
-
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..pos];
-							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-							result.push(token);
-							last_item = pos + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..pos];
-					let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-					result.push(token);
-					last_item = pos + 1;
-				}
-				_ => (),
-			}
-		}
+		let items = split_list(value, '(', ')', param)?;
 
-		if ignore {
+		if items.len() != param.len() {
 			return Err(Error::InvalidData);
 		}
 
-		Ok(result)
+		param.iter().zip(items).map(|(param, item)| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as a vector of tokens.
 	fn tokenize_array(value: &str, param: &ParamType) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('[') || !value.ends_with(']') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
-			return Ok(vec![]);
-		}
-
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
-			match ch {
-				'[' if !ignore => {
-					nested += 1;
-				}
-				']' if !ignore => {
-					nested -= 1;
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..i];
-							let token = Self::tokenize(param, sub)?;
-							result.push(token);
-							last_item = i + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..i];
-					let token = Self::tokenize(param, sub)?;
-					result.push(token);
-					last_item = i + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
-			return Err(Error::InvalidData);
-		}
-
-		Ok(result)
+		split_list(value, '[', ']', slice::from_ref(param))?
+			.into_iter()
+			.map(|item| Self::tokenize(param, item))
+			.collect()
 	}
 
 	/// Tries to parse a value as an address.
@@ -188,3 +97,55 @@ mod test {
 		assert!(LenientTokenizer::tokenize_array("[1,0]", &ParamType::Bool).is_ok());
 	}
 }
+
+/// Splits a list enclosed in `open` and `close` into its comma separated items. Brackets and
+/// parentheses are delimiters only if they enclose this list or a value of one of the item types.
+fn split_list<'a>(value: &'a str, open: char, close: char, params: &[ParamType]) -> Result<Vec<&'a str>, Error> {
+	let inner = value.strip_prefix(open).and_then(|value| value.strip_suffix(close)).ok_or(Error::InvalidData)?;
+
+	if inner.is_empty() && (open == '[' || params.is_empty()) {
+		return Ok(vec![]);
+	}
+
+	let brackets = open == '[' || params.iter().any(|param| contains(param, true));
+	let parens = open == '(' || params.iter().any(|param| contains(param, false));
+
+	let mut items = vec![];
+	let mut nested = vec![];
+	let mut ignore = false;
+	let mut last_item = 0;
+	for (pos, ch) in inner.char_indices() {
+		match ch {
+			'"' => ignore = !ignore,
+			_ if ignore => (),
+			'[' if brackets => nested.push(']'),
+			'(' if parens => nested.push(')'),
+			']' | ')' if (ch == ']' && brackets) || (ch == ')' && parens) => {
+				if nested.pop() != Some(ch) {
+					return Err(Error::InvalidData);
+				}
+			}
+			',' if nested.is_empty() => {
+				items.push(&inner[last_item..pos]);
+				last_item = pos + 1;
+			}
+			_ => (),
+		}
+	}
+
+	if ignore || !nested.is_empty() {
+		return Err(Error::InvalidData);
+	}
+
+	items.push(&inner[last_item..]);
+	Ok(items)
+}
+
+/// Checks if values of the type contain an array or, if `array` is false, a tuple.
+fn contains(param: &ParamType, array: bool) -> bool {
+	match param {
+		ParamType::Array(param) | ParamType::FixedArray(param, _) => array || contains(param, array),
+		ParamType::Tuple(params) => !array || params.iter().any(|param| contains(param, array)),
+		_ => false,
+	}
+}
-- 
2.43.0


From 743019a9394f92ec6700e7c4664c302162188b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:11 +0000
Subject: [PATCH 08/16] fix: accept a single minus sign only in lenient
 integers

Any number of leading minus signs was dropped, so --5 was read as -5.
---
 ethabi/src/token/lenient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..7b406a5 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -56,7 +56,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = Uint::from_dec_str(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From 4afab6ca7c47cb8faac6dd6e86a2d4a75414dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:13 +0000
Subject: [PATCH 09/16] fix: skip the value of unknown keys in parameter
 specifications

The value was left unread, so a parameter with an unknown key could not be
deserialized directly from JSON text.
---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..ae2f16d 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..9d4dff5 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..5f8f716 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From 89e68669d0895657f9ee483b1ae7cc26d7faf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:31 +0000
Subject: [PATCH 10/16] fix: read nested tuple types and reject malformed type
 names

Tuples nested three levels deep, or followed by further members, were read as a
different type or not at all. Names such as ] or 3] and names with non-ASCII
characters made the reader panic, and empty tuple members were dropped.
---
 ethabi/src/param_type/reader.rs | 118 +++++++-------------------------
 1 file changed, 24 insertions(+), 94 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..02b4992 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -17,120 +17,50 @@ impl Reader {
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
-				if !name.starts_with('(') {
-					return Err(Error::InvalidName(name.to_owned()));
-				};
+				let invalid_name = || Error::InvalidName(name.to_owned());
+				let inner = name.strip_prefix('(').and_then(|name| name.strip_suffix(')')).ok_or_else(invalid_name)?;
 
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
-				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
-				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
-
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
-					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
-						')' => {
-							nested -= 1;
-
-							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
-								return Err(Error::InvalidName(name.to_owned()));
-							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
+				if inner.is_empty() {
+					return Ok(ParamType::Tuple(subtypes));
+				}
 
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
+				let mut nested = 0usize;
+				let mut last_item = 0;
 
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
-						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
+				// Split the members at the commas that are not part of a nested tuple
+				for (pos, c) in inner.char_indices() {
+					match c {
+						'(' => nested += 1,
+						// return an error if parentheses aren't symmetrical
+						')' => nested = nested.checked_sub(1).ok_or_else(invalid_name)?,
+						',' if nested == 0 => {
+							subtypes.push(Reader::read(&inner[last_item..pos])?);
+							last_item = pos + 1;
 						}
 						_ => (),
 					}
 				}
+				if nested != 0 {
+					return Err(invalid_name());
+				}
+				subtypes.push(Reader::read(&inner[last_item..])?);
+
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let open = name.rfind('[').ok_or_else(|| Error::InvalidName(name.to_owned()))?;
+				let num = &name[open + 1..name.len() - 1];
 
-				let count = name.chars().count();
+				let subtype = Reader::read(&name[..open])?;
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From a96ba25aff255a0af234fb543c1c5e13a279038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 11/16] fix: refuse surplus params instead of dropping them
 when encoding a call

---
 cli/src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..5dfdc94 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,15 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if values.len() != function.inputs.len() {
+		return Err(anyhow!(
+			"function `{}` takes {} params, but {} were given",
+			function.name,
+			function.inputs.len(),
+			values.len()
+		));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 64593ebb88c1ca9da2d528c3ecd6b68e82cf53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 12/16] fix: accept negative numbers as params of a function
 call

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5dfdc94..3fe3875 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -25,7 +25,7 @@ enum Encode {
 	Function {
 		abi_path: String,
 		function_name_or_signature: String,
-		#[structopt(short, number_of_values = 1)]
+		#[structopt(short, number_of_values = 1, allow_hyphen_values = true)]
 		params: Vec<String>,
 		/// Allow short representation of input params.
 		#[structopt(short, long)]
-- 
2.43.0


From 37e78a107f8c6115d37d94d10deb388d6773ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:52 +0000
Subject: [PATCH 13/16] fix: generate bindings that compile for fixed-size
 arrays and nested array items

---
 derive/src/lib.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..8c4b0ee 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -183,14 +183,26 @@ fn template_param_type(input: &ParamType, index: usize) -> proc_macro2::TokenStr
 
 fn from_template_param(input: &ParamType, name: &syn::Ident) -> proc_macro2::TokenStream {
 	match *input {
-		ParamType::Array(_) => quote! { #name.into_iter().map(Into::into).collect::<Vec<_>>() },
-		ParamType::FixedArray(_, _) => {
-			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<_>>() }
+		ParamType::Array(ref kind) => {
+			let t = template_item_type(kind);
+			quote! { #name.into_iter().map(Into::into).collect::<Vec<#t>>() }
+		}
+		ParamType::FixedArray(ref kind, _) => {
+			let t = template_item_type(kind);
+			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<#t>>() }
 		}
 		_ => quote! {#name.into() },
 	}
 }
 
+/// Type of collected array items. It can't be inferred if a method is called on the items.
+fn template_item_type(kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedBytes(_) | ParamType::Array(_) | ParamType::FixedArray(_, _) => rust_type(kind),
+		_ => quote! { _ },
+	}
+}
+
 fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { ethabi::Token::Address(#name) },
@@ -202,7 +214,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&owned_items(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -213,7 +225,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		}
 		ParamType::FixedArray(ref kind, _) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&owned_items(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -228,6 +240,17 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 	}
 }
 
+/// Turns a fixed-size array into a vector, as arrays iterate by reference before edition 2021.
+fn owned_items(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(ref kind, _) => {
+			let t = rust_type(kind);
+			quote! { (Box::new(#name) as Box<[#t]>).into_vec() }
+		}
+		_ => quote! { #name },
+	}
+}
+
 fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { #token.into_address().expect(INTERNAL_ERR) },
@@ -267,10 +290,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From aec769785c0791893f5d9d7b264a3b44b11535ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 14/16] fix: give fields of indexed dynamic event params the
 type of their topic

---
 derive/src/event.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..f6a8b41 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,11 +6,12 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{from_token, get_template_names, owned_items, rust_type, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -43,13 +44,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		let log_kinds: Vec<_> = e.inputs.iter().map(log_kind).collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
@@ -96,7 +98,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&owned_items(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
@@ -134,6 +136,16 @@ impl<'a> From<&'a ethabi::Event> for Event {
 	}
 }
 
+/// Kind of an event param in a log. Indexed params that don't fit into a topic are only present as hashes.
+fn log_kind(param: &ethabi::EventParam) -> ParamType {
+	match param.kind {
+		ParamType::String | ParamType::Bytes | ParamType::Array(_) | ParamType::FixedArray(_, _) if param.indexed => {
+			ParamType::FixedBytes(32)
+		}
+		ref kind => kind.clone(),
+	}
+}
+
 impl Event {
 	/// Generates event log struct.
 	pub fn generate_log(&self) -> TokenStream {
-- 
2.43.0


From 19d1fe6800e3c3622d4e4d7d369b34a6ad685b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:40 +0000
Subject: [PATCH 15/16] fix: refuse type names nested so deeply that reading
 them overflows the stack

---
 ethabi/src/param_type/reader.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 02b4992..7d0d71f 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -8,12 +8,21 @@
 
 use crate::{Error, ParamType};
 
+/// Types nested deeper than this are not read, as the recursion could overflow the stack.
+const MAX_DEPTH: usize = 256;
+
 /// Used to convert param type represented as a string to rust structure.
 pub struct Reader;
 
 impl Reader {
 	/// Converts string to param type.
 	pub fn read(name: &str) -> Result<ParamType, Error> {
+		Reader::read_nested(name, MAX_DEPTH)
+	}
+
+	fn read_nested(name: &str, depth: usize) -> Result<ParamType, Error> {
+		let inner_depth = || depth.checked_sub(1).ok_or_else(|| Error::InvalidName(name.to_owned()));
+
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
@@ -35,7 +44,7 @@ impl Reader {
 						// return an error if parentheses aren't symmetrical
 						')' => nested = nested.checked_sub(1).ok_or_else(invalid_name)?,
 						',' if nested == 0 => {
-							subtypes.push(Reader::read(&inner[last_item..pos])?);
+							subtypes.push(Reader::read_nested(&inner[last_item..pos], inner_depth()?)?);
 							last_item = pos + 1;
 						}
 						_ => (),
@@ -44,7 +53,7 @@ impl Reader {
 				if nested != 0 {
 					return Err(invalid_name());
 				}
-				subtypes.push(Reader::read(&inner[last_item..])?);
+				subtypes.push(Reader::read_nested(&inner[last_item..], inner_depth()?)?);
 
 				return Ok(ParamType::Tuple(subtypes));
 			}
@@ -54,7 +63,7 @@ impl Reader {
 				let open = name.rfind('[').ok_or_else(|| Error::InvalidName(name.to_owned()))?;
 				let num = &name[open + 1..name.len() - 1];
 
-				let subtype = Reader::read(&name[..open])?;
+				let subtype = Reader::read_nested(&name[..open], inner_depth()?)?;
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
 					Ok(ParamType::Array(Box::new(subtype)))
-- 
2.43.0


From e15191177f3d2113ae34df2586c4d5238373fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:40 +0000
Subject: [PATCH 16/16] fix: report an argument that is not valid UTF-8 instead
 of panicking

---
 cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 3fe3875..24c7070 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -65,7 +65,11 @@ enum Decode {
 }
 
 fn main() -> anyhow::Result<()> {
-	println!("{}", execute(std::env::args())?);
+	let args = std::env::args_os()
+		.map(|arg| arg.into_string().map_err(|arg| anyhow!("argument `{}` is not valid UTF-8", arg.to_string_lossy())))
+		.collect::<anyhow::Result<Vec<_>>>()?;
+
+	println!("{}", execute(args)?);
 
 	Ok(())
 }
-- 
2.43.0

