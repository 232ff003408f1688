From f0aafa8bc793d8c8dcc9e5fa59d47b5031305455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 01/20] fix: treat user info without a colon as having no
 password

The range of the password to hide was computed as an empty range at the end
of the user info when it had no colon.  Removing "the password" in-place
then ate the last character of the user name or a slash of the `//`, and
replacing it inserted the replacement into the user name.
---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..6ae9064 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // No colon means no password at all (not an empty password).
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From a0ad61ec5a33c11496879bfe76993f9148cb2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 02/20] fix: do not panic on replacing the host of an IRI with
 a fragment

The debug assertion in RiString checked the result against the grammar of an
absolute IRI, which has no fragment.
---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From 76b2546488581055fcca38c5e8537bdd4479f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 03/20] fix: decode percent-encoded strings correctly when
 split into pieces or malformed

---
 src/parser/str/maybe_pct_encoded.rs | 142 ++++++++++++++++------------
 1 file changed, 82 insertions(+), 60 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..da76112 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -140,28 +140,23 @@ where
     fn write_str(&mut self, s: &str) -> fmt::Result {
         self.result_continue_or_err()?;
         let mut rest = s;
-        while !rest.is_empty() {
-            let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
-
+        loop {
+            if self.decoder.is_empty() {
                 // Write plain string prefix (if found).
                 let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
-                debug_assert!(
-                    !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
-                );
-                self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
-                self.result_continue_or_err()?;
-                rest = suffix;
-                continue;
+                if !plain_prefix.is_empty() {
+                    self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
+                    self.result_continue_or_err()?;
+                    rest = suffix;
+                }
+                if rest.is_empty() {
+                    return Ok(());
+                }
             }
 
+            let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
+            rest = &rest[len_consumed..];
+
             // Process decoding result.
             match result {
                 PushResult::Decoded(len_written, c) => {
@@ -176,11 +171,11 @@ where
                 }
                 PushResult::NeedMoreBytes => {
                     // Nothing to write at this time.
+                    debug_assert!(rest.is_empty(), "the input should be completely consumed");
+                    return Ok(());
                 }
             }
-            rest = &rest[len_consumed..];
         }
-        Ok(())
     }
 }
 
@@ -254,6 +249,57 @@ impl DecoderBuffer {
         }
     }
 
+    /// Attempts to decode the complete percent-encoded triplets in the buffer.
+    ///
+    /// Returns `None` if more triplets are necessary to decode a character.
+    ///
+    /// # Preconditions
+    ///
+    /// * The buffer should have only complete triplets, and at least one.
+    #[must_use]
+    fn try_decode(&mut self, buf: &mut [u8]) -> Option<PushResult> {
+        debug_assert!(
+            self.len_encoded != 0 && self.len_encoded % 3 == 0,
+            "[precondition] the buffer should have only complete triplets"
+        );
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded.
+                let c = decoded_str
+                    .chars()
+                    .next()
+                    .expect("`decoded` buffer is nonempty");
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("[precondition] `encoded` buffer is nonempty");
+                self.write_and_pop(buf, len_result.get());
+                Some(PushResult::Decoded(len_result, c))
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                // `None`: Unexpected EOF. Wait for remaining input.
+                // `Some(_)`: Skip invalid bytes.
+                let skip_len_decoded = e.error_len()?;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                let len_result = skip_len_decoded as u8 * 3;
+                self.write_and_pop(buf, len_result);
+                Some(PushResult::Undecodable(len_result))
+            }
+        }
+    }
+
+    /// Returns true if the buffer has no data.
+    #[inline]
+    #[must_use]
+    fn is_empty(&self) -> bool {
+        self.len_encoded == 0
+    }
+
     /// Pushes the (possibly) encoded string to the buffer.
     ///
     /// When the push result is not `PctTripletPushResult::NeedMoreBytes`, the
@@ -268,6 +314,14 @@ impl DecoderBuffer {
             buf.len() >= 12,
             "[precondition] destination buffer should be at least 12 bytes"
         );
+        if self.len_encoded != 0 && self.len_encoded % 3 == 0 {
+            // The triplet following an undecodable fragment is left in the
+            // buffer, and it is not yet examined on its own.
+            if let Some(result) = self.try_decode(buf) {
+                return (0, result);
+            }
+        }
+
         let mut chars = s.chars();
         let mut len_triplet_incomplete = self.len_encoded % 3;
         for c in &mut chars {
@@ -275,8 +329,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +343,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
@@ -307,42 +361,10 @@ impl DecoderBuffer {
 
             // Now a new percent-encoded triplet is read.
             // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            if let Some(result) = self.try_decode(buf) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
-- 
2.43.0


From e0a0c4b952d2b767d5bb60077456451b341b4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 04/20] fix: count characters, not bytes, for prefix modifiers
 of URI templates

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From 7d2ac9284fcfe05bc8f3b76602b5f4983318a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 05/20] fix: write variable names as they are and honor empty
 values in exploded template variables

---
 src/template/expand.rs | 91 ++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..565aa2e 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -444,6 +444,22 @@ fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Escapes the given value of a named item, and writes it with the leading `=`.
+///
+/// If the value is empty, writes the string for empty values instead.
+fn escape_write_named_value<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, _, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// Truncates the given value as a string, escapes the value, and writes it.
 fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     writer: &mut PrefixOnceWriter<'_, W>,
@@ -770,27 +786,22 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
             } else {
                 self.visitor.writer.write_str(self.oppr.sep)?;
             }
-            if self.oppr.named {
-                self.visitor
-                    .writer
-                    .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
-            }
         } else {
             // Write prefix for the non-first item.
-            match (self.oppr.named, is_explode) {
-                (_, false) => self.visitor.writer.write_char(',')?,
-                (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
-                (true, true) => {
-                    self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
-                    self.visitor.writer.write_char('=')?;
-                }
+            let sep = if is_explode { self.oppr.sep } else { "," };
+            self.visitor.writer.write_str(sep)?;
+        }
+
+        if self.oppr.named && (is_explode || self.num_elems == 0) {
+            // Use "the same encoding process as for literals", i.e. write it as is.
+            self.visitor
+                .writer
+                .write_str(self.visitor.varspec.name().as_str())?;
+            if is_explode {
+                self.num_elems += 1;
+                return escape_write_named_value::<S, _, _>(self.visitor.writer, item, self.oppr);
             }
+            self.visitor.writer.write_char('=')?;
         }
 
         escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
@@ -865,42 +876,26 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             } else {
                 self.visitor.writer.write_str(self.oppr.sep)?;
             }
-            if is_explode {
-                escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
+            if self.oppr.named && !is_explode {
+                // Use "the same encoding process as for literals", i.e. write it as is.
+                self.visitor
+                    .writer
+                    .write_str(self.visitor.varspec.name().as_str())?;
                 self.visitor.writer.write_char('=')?;
-            } else {
-                if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
-                    self.visitor.writer.write_char('=')?;
-                }
-                escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char(',')?;
             }
         } else {
             // Write prefix for the non-first item.
-            match (self.oppr.named, is_explode) {
-                (_, false) => {
-                    self.visitor.writer.write_char(',')?;
-                    escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char(',')?;
-                }
-                (false, true) => {
-                    self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
-                }
-                (true, true) => {
-                    self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
-                }
-            }
+            let sep = if is_explode { self.oppr.sep } else { "," };
+            self.visitor.writer.write_str(sep)?;
         }
 
+        escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
+        if is_explode && self.oppr.named {
+            self.num_elems += 1;
+            return escape_write_named_value::<S, _, _>(self.visitor.writer, value, self.oppr);
+        }
+        let key_value_sep = if is_explode { '=' } else { ',' };
+        self.visitor.writer.write_char(key_value_sep)?;
         escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
 
         self.num_elems += 1;
-- 
2.43.0


From a96c3acb461c3c7b5d4907a72931cb939c951604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 06/20] fix: do not panic on validating a template with broken
 percent-encoding

---
 src/template/parser/validate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..eaec1e8 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -118,20 +118,20 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                if !xdigits2_and_rest.as_bytes()[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2_and_rest.as_bytes()[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                // Two ASCII characters have been found, so `2` is on the char boundary.
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From 1fa370dfd597be01544485467c7718f227110a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 07/20] fix: reject prefix modifiers with an invalid max-length
 in URI templates

---
 src/template/parser/validate.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index eaec1e8..5fb9617 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,7 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            if !(1..=4).contains(&maybe_len.len()) {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
@@ -38,6 +38,15 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
                     offset + maybe_varname.len() + 2 + pos,
                 ));
             }
+            // > max-length    =  %x31-39 0*3DIGIT   ; positive integer < 10000
+            //
+            // --- [RFC 6570 Section 2.4.1. Prefix](https://www.rfc-editor.org/rfc/rfc6570.html#section-2.4.1)
+            if maybe_len.starts_with('0') {
+                return Err(Error::new(
+                    ErrorKind::InvalidExpression,
+                    offset + maybe_varname.len() + 2,
+                ));
+            }
         }
         Some((maybe_varname, b'*', extra)) => {
             validate_varname(maybe_varname, offset)?;
-- 
2.43.0


From b46cdbb7e3606645ba2ac4169cceb3283466672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 08/20] fix: reject variable names with misplaced periods in
 URI templates

---
 src/template/parser/validate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 5fb9617..1caf59f 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -70,7 +70,12 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // > varname       =  varchar *( ["."] varchar )
+    //
+    // --- [RFC 6570 Section 2.3. Variables](https://www.rfc-editor.org/rfc/rfc6570.html#section-2.3)
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.ends_with('.')
+        && !rest.contains("..");
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From 09d8ede302c5a3f189af077c7df7a3eab3762a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 09/20] fix: accept non-ASCII literals in URI templates

---
 src/template/expand.rs          | 16 +++++++++++++---
 src/template/parser/validate.rs | 21 ++++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 565aa2e..e996d50 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -138,7 +138,7 @@ impl<S: Spec, C: Context> fmt::Display for Expanded<'_, S, C> {
         for chunk in Chunks::new(self.template) {
             let expr = match chunk {
                 Chunk::Literal(lit) => {
-                    f.write_str(lit)?;
+                    write_literal::<S, _>(f, lit)?;
                     continue;
                 }
                 Chunk::Expr(body) => body,
@@ -206,8 +206,7 @@ fn expand_whole_dynamic_impl<S: Spec, W: fmt::Write, C: DynamicContext>(
     for chunk in Chunks::new(template) {
         let expr = match chunk {
             Chunk::Literal(lit) => {
-                writer
-                    .write_str(lit)
+                write_literal::<S, _>(writer, lit)
                     .map_err(|_| Error::new(ErrorKind::WriteFailed, pos))?;
                 pos += lit.len();
                 continue;
@@ -396,6 +395,17 @@ fn expand<S: Spec, C: Context>(
     Ok(())
 }
 
+/// Writes the literal, with percent-encoding the characters not allowed by the spec.
+///
+/// See [RFC 6570 Section 3.1](https://www.rfc-editor.org/rfc/rfc6570.html#section-3.1).
+fn write_literal<S: Spec, W: fmt::Write>(f: &mut W, lit: &str) -> fmt::Result {
+    if lit.is_ascii() {
+        f.write_str(lit)
+    } else {
+        escape_write::<S, _, _>(f, lit, true)
+    }
+}
+
 /// Escapes the given value and writes it.
 #[inline]
 fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 1caf59f..a62dfda 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -1,8 +1,10 @@
 //! Validating parsers.
 
+use crate::parser::char::is_nonascii_query;
 use crate::parser::str::{
     find_split2_hole, find_split_hole, satisfy_chars_with_pct_encoded, starts_with_double_hexdigits,
 };
+use crate::spec::IriSpec;
 use crate::template::components::MaybeOperator;
 use crate::template::error::{Error, ErrorKind};
 
@@ -10,13 +12,22 @@ use crate::template::parser::char::{
     is_ascii_literal_char, is_ascii_varchar_continue, is_ascii_varchar_start,
 };
 
+/// Returns true if the given character is allowed in a literal string.
+///
+/// Note that this does not return true for `%` character.
+fn is_literal_char(c: char) -> bool {
+    if c.is_ascii() {
+        is_ascii_literal_char(c as u8)
+    } else {
+        // `ucschar` or `iprivate`.
+        is_nonascii_query::<IriSpec>(c)
+    }
+}
+
 /// Returns `Ok(())` if the given string is a valid literal.
 fn validate_literal(s: &str, offset: usize) -> Result<(), Error> {
-    match s
-        .chars()
-        .position(|c| !c.is_ascii() || !is_ascii_literal_char(c as u8))
-    {
-        Some(pos) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
+    match s.char_indices().find(|&(_, c)| !is_literal_char(c)) {
+        Some((pos, _)) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
         None => Ok(()),
     }
 }
-- 
2.43.0


From b913fda7637d4f2b3f348fa6dc910655294acc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 10/20] fix: reject empty fragments in absolute URIs and IRIs

---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..c6d425d 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((query, fragment)) => (query, Some(fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // Note that an empty fragment is also a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(fragment) => validate_fragment::<S>(fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 8fc623aa369c31a964ff8aec1e811f4616bb36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 11/20] fix: do not drop stray percent characters on decoding
 bytes

---
 src/percent_encode/decode.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..14ac2a8 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -165,9 +165,17 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
                 break;
             };
 
-            let decoded;
-            (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            match strip_decode_xdigits2(after_pct) {
+                (Some(decoded), after_triplet) => {
+                    result.push(decoded);
+                    rest = after_triplet;
+                }
+                (None, _) => {
+                    // Stray percent character. Leave it as is.
+                    result.push(b'%');
+                    rest = after_pct;
+                }
+            }
         }
 
         Cow::Owned(result)
-- 
2.43.0


From c28bd5c35b5ab2dc412fcea890e0623496701f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 12/20] fix: do not treat IRIs with an empty port as normalized

---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..1afdde4 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -378,6 +378,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
             return false;
         }
 
+        // Check `port`. Empty port (and its delimiter) should be omitted.
+        if authority_components.port() == Some("") {
+            return false;
+        }
+
         // Check pencent encodings in `userinfo`.
         if let Some(userinfo) = authority_components.userinfo() {
             if !is_pct_case_normalized::<S>(userinfo) {
-- 
2.43.0


From 219e38351d4d836e99da847323c40111d836af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 13/20] fix: check normalizability of the path inherited from
 the base IRI

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..dcc96da 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,10 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // The path is written as is if the normalization is not enabled.
+            Path::Done(_) if !self.op.mode.case_pct_normalization() => Ok(()),
+            Path::Done(path) => PathToNormalize::from_single_path(path)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From a0860c46cdc2684284b9f13d62697896d1491e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 14/20] fix: reject invalid characters in the path on building
 an IRI

---
 src/build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..7c23102 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,8 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
+
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From 57796b9dce05a2692036d1a3baece46e64b95e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 15/20] fix: normalize dot segments of a relative reference
 when only the root remains

---
 src/normalize/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..f5e2da5 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,7 +582,9 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
-            // Empty path.
+            // Only a slash.
+            Ok(_) if writer.is_absolute == Some(true) => PathCharacteristic::CommonAbsolute,
+            // Empty path, or a relative path with a single segment.
             Ok(_) => PathCharacteristic::CommonRelative,
             Err(_) => writer
                 .result
-- 
2.43.0


From 4e4a6ab544e1aac6103605318143afb2c41ebdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 16/20] fix: report allocation failure on masking an IRI
 without passwords

---
 src/mask_password.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 6ae9064..b525318 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -201,12 +201,11 @@ macro_rules! impl_mask {
             type Target = $owned<S>;
 
             fn try_to_dedicated_string(&self) -> Result<Self::Target, TryReserveError> {
-                let pw_range = match password_range_to_hide(self.iri_ref.as_ref()) {
-                    Some(pw_range) => pw_range,
-                    None => return Ok(self.iri_ref.to_owned()),
-                };
-                let mut s = String::new();
                 let iri_ref = self.iri_ref.as_str();
+                // No bytes to remove if the password is absent.
+                let pw_range = password_range_to_hide(self.iri_ref.as_ref())
+                    .unwrap_or(iri_ref.len()..iri_ref.len());
+                let mut s = String::new();
                 s.try_reserve(iri_ref.len() - (pw_range.end - pw_range.start))?;
                 s.push_str(&iri_ref[..pw_range.start]);
                 s.push_str(&iri_ref[pw_range.end..]);
-- 
2.43.0


From ebb21d4067ab596354cde7f610d4b904acbc1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 17/20] fix: keep everything before the first triplet on
 decoding bytes

---
 src/percent_encode/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 14ac2a8..a3a3295 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,12 +92,13 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
             if let Some(decoded) = decoded {
+                // Count also the stray percent characters skipped so far.
+                let len_before_pct = self.not_yet_decoded.len() - after_pct.len() - 1;
                 return Some((len_before_pct, decoded, rest));
             }
             rest = after_pct;
-- 
2.43.0


From cc46930847f125af5f740327fcb2ba5f1917e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 18/20] fix: ignore formatting width and precision inside a
 built IRI

---
 src/build.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 7c23102..8fed95a 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -189,7 +189,7 @@ impl AuthorityBuilder<'_> {
                 if normalize {
                     PctCaseNormalized::<S>::new(userinfo).fmt(f)?;
                 } else {
-                    userinfo.fmt(f)?;
+                    f.write_str(userinfo)?;
                 }
                 f.write_char('@')?;
             }
@@ -204,7 +204,7 @@ impl AuthorityBuilder<'_> {
                     if normalize {
                         PctCaseNormalized::<S>::new(password).fmt(f)?;
                     } else {
-                        password.fmt(f)?;
+                        f.write_str(password)?;
                     }
                 }
                 f.write_char('@')?;
@@ -221,7 +221,7 @@ impl AuthorityBuilder<'_> {
             }
             #[cfg(feature = "std")]
             HostRepr::IpAddr(ipaddr) => match ipaddr {
-                std::net::IpAddr::V4(v) => v.fmt(f)?,
+                std::net::IpAddr::V4(v) => write!(f, "{v}")?,
                 std::net::IpAddr::V6(v) => write!(f, "[{v}]")?,
             },
         }
-- 
2.43.0


From 730f11e13b99c715a9199ea34a2274f893e5b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 19/20] fix: ignore formatting width and precision inside a
 masked IRI

---
 src/mask_password.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index b525318..645fb50 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -54,7 +54,7 @@ where
     );
 
     f.write_str(&s[..pw_range.start])?;
-    alt.fmt(f)?;
+    write!(f, "{alt}")?;
     f.write_str(&s[pw_range.end..])?;
     Ok(())
 }
-- 
2.43.0


From 48aa269a91d035d344ac6734b0fa9c9ab151d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 20/20] fix: drop an import which masking no longer needs

---
 src/mask_password.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 645fb50..3f78f4c 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -3,8 +3,6 @@
 use core::fmt::{self, Write as _};
 use core::ops::Range;
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
-use alloc::borrow::ToOwned;
 #[cfg(feature = "alloc")]
 use alloc::collections::TryReserveError;
 #[cfg(all(feature = "alloc", not(feature = "std")))]
-- 
2.43.0

