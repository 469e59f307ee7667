From 044e8788d42e793878057e8c574417fcb9739afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 01/11] fix: encode the MODSEQ fetch item with parentheses

RFC 7162 requires "MODSEQ" SP "(" permsg-modsequence ")", and this is the only
form the decoder accepts. Encoded MODSEQ data items could not be decoded again.
---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From e94df6679b02b51d3b4d319971df59e9d0ffe93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 02/11] fix: recognize SCRAM-SHA3-512 and SCRAM-SHA3-512-PLUS

Both were parsed as AuthMechanism::Other although the type guarantees that Other
never represents a known mechanism; the mechanisms did not survive a round trip.
---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From ed9ba6525908abec417326a8f1712577da869c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 03/11] fix: recognize the NAMESPACE capability

It was parsed as Capability::Other and did not survive a round trip.
---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From 3162ebad98cb739c5d024fbf2fc8be5047e1cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 04/11] fix: keep the resource name of a QUOTA=RES- capability

The resource name was lowercased, and "RES-" was searched for anywhere in the
capability, so that QUOTA=RES-Foo and QUOTA=xRES-Foo both became QUOTA=RES-foo.
---
 imap-types/src/response.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..b1929ed 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,12 +1254,12 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
+                            if let (Some(prefix), Some(right)) = (right.get(..4), right.get(4..)) {
                                 // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                                if prefix.eq_ignore_ascii_case("res-") {
+                                    if let Ok(resource) = Resource::try_from(right.to_owned()) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 987794d61f2abb84f5d235c8ff9b8b3022c9d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:55 +0000
Subject: [PATCH 05/11] fix: apply the recursion limit to nested message bodies

---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From c550a960668b84c14425f1ae647d77721959d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:39 +0000
Subject: [PATCH 06/11] fix: keep 4294967295 and * apart when normalizing
 sequence sets

---
 imap-types/src/sequence.rs | 94 ++++++++++++++------------------------
 1 file changed, 35 insertions(+), 59 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..573d13b 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -1,6 +1,6 @@
 use std::{
     cmp::{Ordering, max},
-    collections::{HashSet, VecDeque},
+    collections::VecDeque,
     fmt::Debug,
     iter::Rev,
     mem,
@@ -37,70 +37,46 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
-        let mut singles = HashSet::with_capacity(self.0.0.len());
-        let mut ranges = Vec::with_capacity(self.0.0.len());
-
-        // First, normalize all sequences
-        for seq in &mut self.0.0 {
-            match seq.normalize() {
-                Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
-                    // Push a 1-lenth range so they can merge nicely
-                    // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
-                }
-                Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
-                }
+        // The position of `*` is behind, and not adjacent to, the largest number, because `*` must
+        // be kept apart from `4294967295`.
+        const ASTERISK: u64 = u64::MAX - 1;
+
+        fn position(id: SeqOrUid) -> u64 {
+            match id {
+                SeqOrUid::Value(value) => u64::from(value.get()),
+                SeqOrUid::Asterisk => ASTERISK,
             }
         }
 
-        // TODO: Improve this loop, for eg. with a .retain().
-        for single in singles.clone() {
-            for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
-                    singles.remove(&single);
-                    range.start = single;
-                } else if single.get() == range.end.get() {
-                    singles.remove(&single);
-                    range.end = single;
-                } else if range.contains(&single) {
-                    singles.remove(&single);
-                }
+        fn id(position: u64) -> SeqOrUid {
+            match position {
+                ASTERISK => SeqOrUid::Asterisk,
+                // Safety: Every other position was obtained from a `NonZeroU32`.
+                value => SeqOrUid::try_from(value).unwrap(),
             }
         }
 
-        // Rebuild the inner sequence set with merged ranges
-        self.0.0.clear();
-        for range in merge_ranges(ranges) {
-            singles.retain(|single| !range.contains(single));
-
-            match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
-                }
-                (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
-                }
-            }
-        }
-
-        // Add remaining singles that don't belong to any range to the
-        // sequence set
-        for single in singles {
-            self.0.0.push(single.into());
-        }
-
-        // Sort the merged sequence set
-        self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
-        });
+        // First, normalize all sequences
+        let ranges = self
+            .0
+            .0
+            .iter_mut()
+            .map(|seq| match seq.normalize() {
+                // Push a 1-length range so they can merge nicely
+                // later on
+                Sequence::Single(a) => position(*a)..position(*a) + 1,
+                Sequence::Range(a, b) => position(*a)..position(*b) + 1,
+            })
+            .collect();
+
+        // Rebuild the inner sequence set with merged (and sorted) ranges
+        self.0.0 = merge_ranges(ranges)
+            .into_iter()
+            .map(|range| match (id(range.start), id(range.end - 1)) {
+                (a, b) if a == b => Sequence::Single(a),
+                (a, b) => Sequence::Range(a, b),
+            })
+            .collect();
 
         self
     }
-- 
2.43.0


From aab35d86bb42ab32ed5fcb2f6c631ae5318029df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:52 +0000
Subject: [PATCH 07/11] fix: respect the start of a NonZeroU32 range

---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 573d13b..a38fa5c 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -570,7 +570,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From 403057841099090bccfbc99584ee9c99e6c52abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:04 +0000
Subject: [PATCH 08/11] fix: convert 4294967295 to a number and not to *

---
 imap-types/src/sequence.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index a38fa5c..421d9a6 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -328,11 +328,7 @@ impl PartialOrd for SeqOrUid {
 
 impl From<NonZeroU32> for SeqOrUid {
     fn from(value: NonZeroU32) -> Self {
-        if value == NonZeroU32::MAX {
-            Self::Asterisk
-        } else {
-            Self::Value(value)
-        }
+        Self::Value(value)
     }
 }
 
-- 
2.43.0


From 15a9dc4d64835ecaaf812ab4a85319847698ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:16 +0000
Subject: [PATCH 09/11] fix: reject an empty range as sequence

---
 imap-types/src/sequence.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 421d9a6..80d62b5 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -504,6 +504,10 @@ macro_rules! impl_try_from_num_range {
             type Error = ValidationError;
 
             fn try_from(range: Range<$num>) -> Result<Self, Self::Error> {
+                if range.is_empty() {
+                    return Err(ValidationError::new(ValidationErrorKind::Empty));
+                }
+
                 Ok(Self::Range(
                     SeqOrUid::try_from(range.start)?,
                     SeqOrUid::try_from(range.end.saturating_sub(1))?,
@@ -565,6 +569,10 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
     type Error = ValidationError;
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
+        if range.is_empty() {
+            return Err(ValidationError::new(ValidationErrorKind::Empty));
+        }
+
         Ok(Self::Range(
             SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
-- 
2.43.0


From acce6b7959c06ed6f2e07af913d43cccd3a75fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:45 +0000
Subject: [PATCH 10/11] fix: reject a sequence number that starts with +

---
 imap-types/src/sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 80d62b5..ed8b790 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -410,7 +410,8 @@ impl FromStr for SeqOrUid {
             // This is to align parsing here with the IMAP grammar:
             // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
             // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            // The same is true for numbers that start with +.
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From 768d2e07a7842066a107a202312bed74c4e99f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:37 +0000
Subject: [PATCH 11/11] fix: reject CR and LF in UTF-8 quoted strings

---
 imap-codec/src/extensions/utf8.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..923e4b1 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,7 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                take_while1(is_uquoted_char_except_quoted_specials),
                 '\\',
                 one_of("\\\""),
             ),
@@ -54,6 +54,11 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
     Ok((remaining, QuotedUtf8(unescape_quoted(quoted_utf8))))
 }
 
+/// A quoted string must not contain a line break.
+fn is_uquoted_char_except_quoted_specials(byte: u8) -> bool {
+    byte != b'\r' && byte != b'\n' && !is_quoted_specials(byte)
+}
+
 #[cfg(test)]
 mod test {
     use imap_types::extensions::utf8::QuotedUtf8;
-- 
2.43.0

