From 51dc1066cdfe8455b358dd4d43a5ed779854786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/19] fix: retry interrupted reads when reading a UTF-8
 character

The bytes after the first are read with read_exact, which retries, but an
ErrorKind::Interrupted on the first byte was returned as an error.
---
 core/src/text_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..2d364a2 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -190,8 +190,13 @@ impl std::fmt::Display for LineColumnPosition {
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
     let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
+    loop {
+        match r.read(std::slice::from_mut(&mut x)) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
     }
     if x < 0b10000000 {
         return Ok(Some(x.into()));
-- 
2.43.0


From bd417acdf46cd127c2f9abb9eb56778227c8c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 02/19] fix: return an error for invalid UTF-8 instead of
 panicking or misdecoding

read_utf8 promises an error for an invalid character, but reached todo!() for
some invalid encodings and decoded others (stray or missing continuation
bytes, overlong forms) to characters that are not in the input.
---
 core/src/text_reader.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2d364a2..86d3668 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -201,38 +201,39 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
+    let ch = if x < 0b11000000 {
+        // Unexpected continuation byte
+        None
+    } else if x < 0b11100000 {
         let mut buf = [0u8; 1];
         r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00011111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
+        decode_utf8(&[x, buf[0]])
     } else if x < 0b11110000 {
         let mut buf = [0u8; 2];
         r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00001111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
+        decode_utf8(&[x, buf[0], buf[1]])
     } else if x < 0b11111000 {
         let mut buf = [0u8; 3];
         r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00000111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
+        decode_utf8(&[x, buf[0], buf[1], buf[2]])
     } else {
         None
     };
     if let Some(ch) = ch {
         Ok(Some(ch))
     } else {
-        // Error
-        todo!();
+        Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "stream did not contain valid UTF-8",
+        ))
     }
 }
 
+/// Decodes a single UTF-8 encoded [`char`], or returns [`None`] if the encoding is invalid.
+fn decode_utf8(bytes: &[u8]) -> Option<char> {
+    std::str::from_utf8(bytes).ok()?.chars().next()
+}
+
 #[test]
 fn test_read_utf8() {
     let str = "ab\u{0014}\u{0162}\u{0651}\u{1485}\u{0482}\u{95832}";
-- 
2.43.0


From 50ced9985e44305a78a461be7cf4581e7880381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/19] fix: report source errors instead of panicking in
 Utf8Reader

A failing source ends the stream; the error is kept in the reader and is
returned by from_reader and TextDeserializer::close.
---
 core/src/text_reader.rs      | 29 +++++++++++++++++++++++------
 json/src/deserialize/mod.rs  |  3 ++-
 json/src/deserialize/text.rs | 14 +++++++++++++-
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 86d3668..0ed3294 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -3,15 +3,20 @@ use std::borrow::Cow;
 
 /// An interface for reading characters from a stream.
 pub trait TextReader {
-    // TODO: Pass IO errors up
-
     /// Returns the next character in the stream and advances by one character, or [`None`] if the
-    /// end of the stream has been reached.
+    /// end of the stream has been reached. A stream also ends when its source fails, in which case
+    /// [`TextReader::take_error`] returns the error.
     fn next(&mut self) -> Option<char>;
 
     /// Gets the next character in the stream without advancing.
     fn peek(&self) -> Option<char>;
 
+    /// Takes the error due to which the stream ended, or returns [`None`] if the stream has not
+    /// ended or ended normally.
+    fn take_error(&mut self) -> Option<io::Error> {
+        None
+    }
+
     /// Identifies a position in the input stream.
     type Position: Ord + Clone + std::fmt::Debug + std::fmt::Display;
 
@@ -125,7 +130,8 @@ impl std::fmt::Display for StrPosition<'_> {
 pub struct Utf8Reader<R: std::io::Read> {
     source: R,
     pos: LineColumnPosition,
-    peek: Option<char>
+    peek: Option<char>,
+    error: Option<io::Error>,
 }
 
 /// A position in an input source recorded using lines and columns.
@@ -145,7 +151,8 @@ impl<R: std::io::Read> Utf8Reader<R> {
         Ok(Self {
             source,
             pos: LineColumnPosition::default(),
-            peek
+            peek,
+            error: None,
         })
     }
 }
@@ -166,7 +173,13 @@ impl<R: std::io::Read> TextReader for Utf8Reader<R> {
 
         // Peek next character
         let old = self.peek;
-        self.peek = read_utf8(&mut self.source).unwrap(); // TODO: Bubble up error
+        self.peek = match read_utf8(&mut self.source) {
+            Ok(ch) => ch,
+            Err(err) => {
+                self.error = Some(err);
+                None
+            }
+        };
         old
     }
 
@@ -174,6 +187,10 @@ impl<R: std::io::Read> TextReader for Utf8Reader<R> {
         self.peek
     }
 
+    fn take_error(&mut self) -> Option<io::Error> {
+        self.error.take()
+    }
+
     type Position = LineColumnPosition;
     fn position(&self) -> Self::Position {
         self.pos
diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..1e30a86 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -208,7 +208,8 @@ pub fn from_reader_using<
     context: &mut Ctx,
 ) -> Result<T, DeserializeError<Reader::Position>> {
     let mut d = TextDeserializer::new(TextDeserializerConfig::default(), reader)?;
-    let res = Value::with(&mut d, |value| T::deserialize(value, context))?;
+    let res = Value::with(&mut d, |value| T::deserialize(value, context))
+        .map_err(|err| d.take_source_error().unwrap_or(err))?;
     d.close()?;
     Ok(res)
 }
diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..e96e232 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -319,7 +319,19 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
         assert!(self.outline.stack_items.is_empty());
         self.reader.skip_whitespace(self.config.allow_comments)?;
         self.reader.read_eof()?;
-        Ok(())
+        match self.take_source_error() {
+            Some(err) => Err(err),
+            None => Ok(()),
+        }
+    }
+
+    /// If the underlying [`TextReader`] ended due to an error, returns that error.
+    pub(super) fn take_source_error(&mut self) -> Option<DeserializeError<Reader::Position>> {
+        let err = self.reader.take_error()?;
+        Some(DeserializeError::new(
+            self.reader.position(),
+            Custom(Box::new(err)),
+        ))
     }
 
     /// Constructs an error in response to an attempt to read a virtual `null` as anything other
-- 
2.43.0


From 05082e1cb2c80c8f165e3349d4a524ce6e6f2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/19] fix: read \u escape sequences in JSON strings

---
 json/src/deserialize/text.rs | 45 +++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index e96e232..92e7bca 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1668,12 +1668,55 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => return self.read_unicode_escape(pos),
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the character for a `\u` escape sequence (or a surrogate pair of them), following the
+    /// first `u`. `pos` is the position reported for a malformed sequence.
+    fn read_unicode_escape(
+        &mut self,
+        pos: Self::Position,
+    ) -> Result<char, DeserializeError<Self::Position>> {
+        let mut code = self.read_hex_escape(&pos)?;
+        if let 0xD800..=0xDBFF = code {
+            // The other half of the surrogate pair must follow immediately
+            for exp_ch in ['\\', 'u'] {
+                match self.next() {
+                    Some(ch) if ch == exp_ch => (),
+                    Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
+                }
+            }
+            let low = self.read_hex_escape(&pos)?;
+            if !matches!(low, 0xDC00..=0xDFFF) {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        }
+        char::from_u32(code).ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))
+    }
+
+    /// Reads the four hexadecimal digits of a `\u` escape sequence.
+    fn read_hex_escape(
+        &mut self,
+        pos: &Self::Position,
+    ) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            let Some(ch) = self.next() else {
+                return Err(DeserializeError::new(self.position(), UnexpectedEof));
+            };
+            let Some(digit) = ch.to_digit(16) else {
+                return Err(DeserializeError::new(pos.clone(), UnrecognizedEscape));
+            };
+            code = (code << 4) | digit;
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From 8859d4b8692a0453c54c3033419bfa544cd1c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/19] fix: escape control characters in written JSON strings

---
 json/src/serialize/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..4030734 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,12 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                const HEX_DIGITS: &[u8; 16] = b"0123456789abcdef";
+                self.writer.write_str("\\u00")?;
+                self.writer.write_char(HEX_DIGITS[value as usize >> 4].into())?;
+                self.writer.write_char(HEX_DIGITS[value as usize & 0xF].into())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 700acc4f8a34fd8bc1077142802b45e8505c7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/19] fix: reject unescaped control characters in JSON
 strings

---
 json/src/deserialize/text.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 92e7bca..6ee74e1 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -694,6 +694,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
+        let pos = self.reader.position();
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next() {
                 Some('"') => {
@@ -711,6 +712,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                     Ok(None)
                 }
                 Some('\\') => Ok(Some(self.reader.read_escape_sequence()?)),
+                Some('\0'..='\x1F') => Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => Ok(Some(ch)),
                 None => Err(DeserializeError::new(self.reader.position(), UnexpectedEof)),
             },
@@ -1728,6 +1730,7 @@ trait TextReaderExt: TextReader {
         let mut suffix = expected;
         loop {
             if let Some(exp_ch) = suffix.peek() {
+                let pos = self.position();
                 let act_ch = match self.next() {
                     Some('"') => {
                         // Actual key is shorter than expected key
@@ -1735,6 +1738,7 @@ trait TextReaderExt: TextReader {
                         return Ok(false);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1747,12 +1751,14 @@ trait TextReaderExt: TextReader {
                     suffix.next();
                 }
             } else {
+                let pos = self.position();
                 let extra_ch = match self.next() {
                     Some('"') => {
                         // Keys match
                         return Ok(true);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1776,9 +1782,11 @@ trait TextReaderExt: TextReader {
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
@@ -1791,9 +1799,11 @@ trait TextReaderExt: TextReader {
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
-- 
2.43.0


From 3d932a9e7b543a72cb6a36dc0c255761d6e557a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/19] fix: skip comments before a value that is read into
 lookback

---
 json/src/deserialize/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 6ee74e1..19b60d9 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1855,6 +1855,11 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 10698ddc50e75336e1dbd172e93543c6c71c3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 08/19] fix: keep the full exponent of a number that is read
 into lookback

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 19b60d9..59de17f 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1881,12 +1880,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From 0256ee42a7b7b57f5692569bbae1a95a18885322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/19] fix: implement TextDeserializer::get_char

---
 json/src/deserialize/text.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 59de17f..9cced22 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -689,7 +689,15 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        let first = self.next_char()?;
+        if let Some(ch) = first {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+            self.skip_str()?;
+        }
+        Err(self.error("expected a string with exactly one character".into()))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From 13294f99c3c18329ca3d69336a4560f228d1b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 10/19] fix: implement TextDeserializer::close_str

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 9cced22..7066fd6 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -464,7 +464,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error("expected the end of the string".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From e745eed4bd97cb12861b1c57baf0838b547201d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 11/19] fix: report errors about strings and absent fields at
 their own position

---
 json/src/deserialize/text.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 7066fd6..5f32906 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -407,7 +407,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 streaming_depth,
                 ..
             } => {
-                // TODO: Update `error_pos`
+                self.error_pos = self.outline.stack_items.last().unwrap().pos.clone();
                 self.state = DeserializerState::Collection {
                     at_start,
                     streaming_depth,
@@ -424,6 +424,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 let pos = self.reader.position();
                 match self.reader.next() {
                     Some('"') => {
+                        self.error_pos = pos;
                         self.state = DeserializerState::StreamingString { is_key: false };
                         Ok(())
                     }
@@ -440,6 +441,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
@@ -709,7 +711,6 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next() {
                 Some('"') => {
-                    // TODO: Update `error_pos`
                     if *is_key {
                         self.reader.skip_past_colon(self.config.allow_comments)?;
                         self.reader.skip_whitespace(self.config.allow_comments)?;
@@ -1107,6 +1108,7 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
             item.key_len_active &= !1;
 
             // Return key and value
+            self.error_pos = item.pos.clone();
             let key_data = key_data.as_ptr_range();
             let base_ptr = self.outline.lookback_data.as_ptr();
             self.state = DeserializerState::LookbackString {
@@ -1127,7 +1129,8 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
             } else {
                 self.reader.skip_to_next_entry(self.config.allow_comments)?
             };
-            if key_pos.is_some() {
+            if let Some(key_pos) = key_pos {
+                self.error_pos = key_pos;
                 self.state = DeserializerState::StreamingString { is_key: true };
                 return Ok(true);
             } else {
-- 
2.43.0


From d74d2bb53d7b886dc0b571c3373527646b3f53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 12/19] fix: skip nested values without recursion

---
 json/src/deserialize/mod.rs | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index 1e30a86..3cb74f1 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,53 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // Opened collections are counted, rather than recursed into, so that skipping a deeply
+        // nested value does not exhaust the call stack.
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Go to the next value within the opened collections
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_value = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_entry = self.next_entry()?;
+                        if has_entry {
+                            self.skip_str()?;
+                        }
+                        has_entry
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_value {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 166a42fe5741ec38d6e94da9310253bfe9dc3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 13/19] fix: block use of an Object after its inlined content
 was abandoned or failed

---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..218b338 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -409,6 +409,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(res)
     }
 
+    /// Indicates whether the struct can be used further, i.e. whether the value of every field
+    /// that was gotten from it has been consumed.
+    pub fn is_ready(&self) -> bool {
+        self.ready_flag
+    }
+
     /// Gets the value of a named field in the struct. Note that fields must be accessed in the
     /// order they are defined.
     pub fn field(&mut self, name: &'static str) -> Result<Value<O>, O::Error> {
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..01363d2 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -157,10 +157,13 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         context: &mut Ctx,
     ) -> Result<T, D::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+        self.ready_flag = false;
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context)?;
+        assert!(st.is_ready(), "{}", INVALID_STATE_ERROR);
+        self.ready_flag = true;
+        Ok(res)
     }
 }
 
-- 
2.43.0


From c7aa2f19f37050e611df677296bb3cec0ba6995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 14/19] fix: panic when a serialized value is abandoned in
 to_writer

---
 json/src/serialize/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/src/serialize/mod.rs b/json/src/serialize/mod.rs
index cae5d35..fb5e807 100644
--- a/json/src/serialize/mod.rs
+++ b/json/src/serialize/mod.rs
@@ -49,9 +49,7 @@ pub fn to_writer_using<
     context: &mut Ctx,
 ) -> Result<(), Writer::Error> {
     let mut s = TextSerializer::new(TextSerializerConfig::default(), writer);
-    let mut done_flag = false;
-    value.serialize(Value::new(&mut s, &mut done_flag), context)?;
-    Ok(())
+    Value::with(&mut s, |target| value.serialize(target, context))
 }
 
 /// Serializes a value of type `T` as a JSON string.
-- 
2.43.0


From 4bec77c6250901640a7b93e2e2acd59ad77451dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 15/19] fix: do not return a number that was cut off by a
 failing source

---
 json/src/deserialize/text.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 5f32906..20cc029 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -254,7 +254,13 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                     streaming_depth: self.outline.top_depth(),
                 };
                 self.error_pos = self.reader.position();
-                self.reader.read_number()
+                let res = self.reader.read_number();
+
+                // If the source failed, the number may have been cut off
+                match self.take_source_error() {
+                    Some(err) => Err(err),
+                    None => res,
+                }
             }
             DeserializerState::LookbackValue {
                 index,
-- 
2.43.0


From 09870f278bd53f9cf49ca10fd9ad8d57115290b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 16/19] fix: List::next counts the items of a list of known
 length

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 218b338..2923bfb 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -588,6 +588,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From e5e8a9b47af02ea85b564d4d2668cefe9322a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 17/19] fix: Value::get_tag refuses a value which was already
 consumed

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 2923bfb..b8e3ba6 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
-- 
2.43.0


From 1385c3542e1f744614447a0d182cc3154dd5853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:39 +0000
Subject: [PATCH 18/19] fix: report an error about a virtual null that has no
 key

---
 json/src/deserialize/text.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 20cc029..7c58450 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -306,7 +306,7 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                 }
             }
             DeserializerState::NullValue { key, .. } => {
-                Err(self.error_unexpected_virtual_null(key))
+                Err(self.error_unexpected_virtual_null(key, &[ValueType::Number]))
             }
             _ => panic!("{}", NOT_VALUE),
         }
@@ -344,15 +344,16 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
     fn error_unexpected_virtual_null(
         &self,
         key: Option<&'static str>,
+        expected: &'static [ValueType],
     ) -> DeserializeError<Reader::Position> {
-        if let Some(key) = key {
-            DeserializeError::new(
-                self.outline.stack_items.last().unwrap().pos.clone(),
-                DeserializeErrorMessage::MissingKey(key.to_owned()),
-            )
-        } else {
-            todo!()
-        }
+        DeserializeError::new(
+            self.outline.stack_items.last().unwrap().pos.clone(),
+            if let Some(key) = key {
+                DeserializeErrorMessage::MissingKey(key.to_owned())
+            } else {
+                DeserializeErrorMessage::Expected(expected)
+            },
+        )
     }
 }
 
@@ -465,7 +466,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 }
             }
             DeserializerState::NullValue { key, .. } => {
-                Err(self.error_unexpected_virtual_null(key))
+                Err(self.error_unexpected_virtual_null(key, &[ValueType::String]))
             }
             _ => panic!("{}", NOT_VALUE),
         }
@@ -597,7 +598,7 @@ impl<Reader: TextReader> JsonOutliner for TextDeserializer<Reader> {
                 }
             }
             DeserializerState::NullValue { key, .. } => {
-                Err(self.error_unexpected_virtual_null(key))
+                Err(self.error_unexpected_virtual_null(key, &[ValueType::Object]))
             }
             _ => panic!("{}", NOT_VALUE),
         }
@@ -654,7 +655,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                 }
             }
             DeserializerState::NullValue { key, .. } => {
-                Err(self.error_unexpected_virtual_null(key))
+                Err(self.error_unexpected_virtual_null(key, &[ValueType::Bool]))
             }
             _ => panic!("{}", NOT_VALUE),
         }
@@ -838,7 +839,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                 }
             }
             DeserializerState::NullValue { key, .. } => {
-                Err(self.error_unexpected_virtual_null(key))
+                Err(self.error_unexpected_virtual_null(key, &[ValueType::Array]))
             }
             _ => panic!("{}", NOT_VALUE),
         }
@@ -1158,7 +1159,7 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
                     self.outline.lookback_items[index].pos.clone()
                 }
                 DeserializerState::NullValue { key, .. } => {
-                    return self.error_unexpected_virtual_null(key)
+                    return self.error_unexpected_virtual_null(key, expected)
                 }
                 _ => panic!("{}", NOT_VALUE),
             },
-- 
2.43.0


From 08bac1238136e4601ac00dfff7c3d3e4f16feeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:45 +0000
Subject: [PATCH 19/19] fix: derive names of raw identifiers without their r#
 prefix

---
 derive/src/deserialize.rs | 2 +-
 derive/src/lib.rs         | 6 ++++--
 derive/src/serialize.rs   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 78ec71f..36da5ed 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -7,7 +7,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream> {
     Ok(match &input.data {
         syn::Data::Struct(st) => {
             let fields = deserialize_fields(&mut ctx, &st.fields)?;
-            let name = input.ident.to_string();
+            let name = input.ident.unraw().to_string();
             let body = quote! { Self #fields };
             ctx.generate_struct(&name, body)
         }
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fe5a54b..09b7706 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -3,6 +3,7 @@ mod serialize;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::DeriveInput;
 use syn::spanned::Spanned;
 
@@ -137,7 +138,7 @@ impl EnumRepr {
             EnumRepr::Tag
         } else {
             EnumRepr::Struct {
-                name: rename.unwrap_or_else(|| ident.to_string()),
+                name: rename.unwrap_or_else(|| ident.unraw().to_string()),
                 tag: tag.unwrap_or_else(|| DEFAULT_TAG.to_string()),
             }
         })
@@ -194,7 +195,7 @@ impl VariantRepr {
 
         // Construct representation
         Ok(VariantRepr {
-            name: rename.unwrap_or_else(|| variant.ident.to_string()),
+            name: rename.unwrap_or_else(|| variant.ident.unraw().to_string()),
             index: reindex.unwrap_or(*index),
             is_transparent,
         })
@@ -243,6 +244,7 @@ impl FieldRepr {
                             .ident
                             .as_ref()
                             .expect("field name required for serialization")
+                            .unraw()
                             .to_string()
                     }),
                     use_default
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..26ba4ad 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -7,7 +7,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream> {
     Ok(match &input.data {
         syn::Data::Struct(st) => {
             let (fields, body) = serialize_fields(&mut ctx, &st.fields)?;
-            let name = input.ident.to_string();
+            let name = input.ident.unraw().to_string();
             ctx.generate_struct(
                 &name,
                 quote! {
-- 
2.43.0

