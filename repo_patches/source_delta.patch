From 8f16e64db36c0e9a05fe30b29d3f1042dc497778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 01/41] fix: advance past whole characters when scanning
 scalars and comments

Plain, flow and block scalars, and comments, were consumed one byte at a
time, panicking on any character wider than a byte
---
 src/scanner/mod.rs          |  3 ++-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  9 ++++++---
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..8d48dff 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -998,9 +998,10 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         {
             advance!(buffer, :stats, @line);
         }
+        // Comments may contain characters wider than a byte
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..d026971 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..01ecd0b 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(&buffer.as_bytes()[..width])
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..336854f 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,14 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            // Non whitespace characters may be wider than a byte
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +340,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From e260db0dc4a927f26d1d0cfa0490cf059e392cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 02/41] fix: handle block scalars without any content

Empty block scalars ('key: |') panicked, as the start of the content was
recorded without an end, and kept (+) leading lines were lost
---
 src/scanner/scalar/block.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index d026971..d571a27 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -161,11 +161,24 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Leading line breaks are separated from the content (if
+    // there is any) by the indentation, and thus must be copied
+    if lines > 0
+    {
+        can_borrow = false;
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+
+            // The scalar may not have any content
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
-- 
2.43.0


From aa25e584df1f72b7ebc8993f397a61a752130f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 03/41] fix: normalize the final line break of a borrowed block
 scalar

Clip and Keep assumed a one byte break, splitting \r\n and panicking on
NEL, LS and PS
---
 src/scanner/scalar/block.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index d571a27..b70b431 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -521,6 +521,18 @@ fn scan_chomp<'de>(
         mut lines,
     } = params;
 
+    // Line breaks are normalized to a \n, so we can only borrow
+    // the scalar's break if that is what follows the content
+    let keeps_break = lines > 0 && !matches!(style, ChompStyle::Strip);
+
+    if *can_borrow && keeps_break && !check!(~base, end => b'\n')
+    {
+        scratch.extend_from_slice(base[start..end].as_bytes());
+
+        end = scratch.len();
+        *can_borrow = false;
+    }
+
     if *can_borrow
     {
         match style
@@ -532,7 +544,7 @@ fn scan_chomp<'de>(
                 // include the first
                 if lines > 0
                 {
-                    end += widthOf!(~base[end..], 1);
+                    end += 1;
                 }
 
                 scalar = cow!(&base[start..end])
-- 
2.43.0


From 9373a3f73591a6c5c8c5dbc4b3ef713ae35d458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 04/41] fix: reject escapes which are not unicode code points

Surrogates and values above U+10FFFF panicked
---
 src/scanner/scalar/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..f473354 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,6 +176,13 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Surrogates and values past the end of the unicode range
+    // cannot be encoded
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From d55a2540881bbfd79e42ec45ba994c49b04976f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 05/41] fix: slice lazy plain scalars at a character boundary

The break following the terminating indicator may be wider than a byte
---
 src/scanner/scalar/plain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 336854f..c95529d 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -330,7 +330,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
-                    true => 2,
+                    true => 1 + widthOf!(~buffer, 1),
                     false => 1,
                 };
 
-- 
2.43.0


From 46100f497a277ebd24a08817b598a41ec901a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 06/41] fix: don't treat a quote following an escaped backslash
 as escaped

Lazily scanned double quoted scalars ending in '\\\\' swallowed their
closing quote
---
 src/scanner/scalar/flow.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 01ecd0b..b8da899 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -281,7 +281,8 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
 
     loop
     {
-        // Longest sequence we can hit is 2 characters ('' or \")
+        // Longest sequence we can hit is 2 characters ('' or \" or
+        // \\)
         cache!(~buffer, 2, opts)?;
 
         if buffer.is_empty()
@@ -290,9 +291,11 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
         }
 
         // Check for either of the quote escapes, skipping them if
-        // found
+        // found. Note that an escaped backslash must also be
+        // skipped, as it cannot escape a following quote
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From 72909279b752f71ced8a282f9038560654951503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 07/41] fix: report a missing entry after a flow sequence pair
 instead of asserting

---
 src/event/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..bcfb7f5 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -771,7 +771,12 @@ impl Parser
     {
         let (start, end, token) = peek!(tokens)?;
 
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        // The pair's value must be followed by the next entry or the
+        // end of the parent sequence
+        if !matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd)
+        {
+            return Err(Error::MissingFlowSequenceEntryOrEnd);
+        }
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From c69aa6288db6063b4f37714958b421c5ff6dad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 08/41] fix: keep characters split between two reads of a
 stream intact

---
 src/reader/owned.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..001f167 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -161,6 +161,10 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
+    /// Trailing bytes of the last read that do not (yet) form
+    /// a complete UTF8 character
+    partial: Vec<u8>,
+
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
 }
@@ -177,6 +181,8 @@ impl Impl
             head: String::new(),
             tail: Vec::new(),
 
+            partial: Vec::new(),
+
             source,
             exhausted: false,
         }
@@ -201,9 +207,21 @@ impl Impl
             new.extend_from_slice(&self.head.as_bytes()[mark..]);
         }
 
+        // Add the start of the character that was split by the
+        // previous read, if any
+        new.extend_from_slice(&self.partial);
+
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // If the read stopped in the middle of a character, leave
+        // the incomplete bytes for the next read
+        self.partial = match std::str::from_utf8(&new)
+        {
+            Err(e) if e.error_len().is_none() && !self.exhausted => new.split_off(e.valid_up_to()),
+            _ => Vec::new(),
+        };
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
-- 
2.43.0


From ababab25ce994e1359bf7a0ebe8579fa51a3bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/41] fix: end event production after an error instead of
 repeating or resuming

---
 src/event/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index bcfb7f5..6d397df 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,13 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = self.state_transition(tokens).map_err(|e| {
+                // Neither we nor the .tokens can resume after an error, so
+                // this must be the last item we produce
+                self.done = true;
+
+                e
+            })?;
         }
 
         Ok(event)
-- 
2.43.0


From b432985476719fd22fb1087b346d8939429db19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 10/41] fix: error when a stream is given to more than one
 event producer

---
 src/event/error.rs  |  1 +
 src/reader/error.rs |  5 +++++
 src/reader/owned.rs | 20 +++++++++++++++++++-
 src/scanner/mod.rs  |  6 ++++++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/event/error.rs b/src/event/error.rs
index 22c2587..ddf170e 100644
--- a/src/event/error.rs
+++ b/src/event/error.rs
@@ -209,6 +209,7 @@ impl From<ReaderError> for ParseError
             ReaderError::UTF8(e) => Self::UTF8(e),
             ReaderError::IO(e) => Self::IO(e),
             ReaderError::Scanner(e) => Self::Scanner(e),
+            ReaderError::Bound => Self::CorruptStream,
         }
     }
 }
diff --git a/src/reader/error.rs b/src/reader/error.rs
index 8ef18b1..98cd5ae 100644
--- a/src/reader/error.rs
+++ b/src/reader/error.rs
@@ -28,6 +28,9 @@ pub(crate) enum ReaderError
     /// reported to us
     IO(io::Error),
     Scanner(ScanError),
+    /// The byte stream is already being read by something
+    /// else
+    Bound,
 }
 
 impl fmt::Display for ReaderError
@@ -47,6 +50,7 @@ impl StdError for ReaderError
             ReaderError::UTF8(ref e) => Some(e),
             ReaderError::IO(ref e) => Some(e),
             ReaderError::Scanner(ref e) => Some(e),
+            ReaderError::Bound => None,
         }
     }
 }
@@ -84,6 +88,7 @@ impl From<ReaderError> for ErrorKind
             ReaderError::UTF8(e) => SourceError::UTF8(e).into(),
             ReaderError::IO(e) => SourceError::IO(e).into(),
             ReaderError::Scanner(e) => ErrorCode::from(e).into(),
+            ReaderError::Bound => ErrorCode::CorruptStream.into(),
         }
     }
 }
diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 001f167..9da6f91 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -10,7 +10,7 @@
 use std::{cell::UnsafeCell, fmt, io};
 
 use super::{
-    error::{ReadError, ReaderResult},
+    error::{ReadError, ReaderError, ReaderResult},
     private::Sealed,
     Read, ReadContext, Reader,
 };
@@ -59,6 +59,13 @@ impl OwnedReader
         mut opts: Flags,
     ) -> ReaderResult<()>
     {
+        // The byte stream can only be read once, thus it belongs to
+        // the first scanner which starts on it
+        if scanner.is_start() && !self.inner.bind()
+        {
+            return Err(ReaderError::Bound);
+        }
+
         loop
         {
             match self.inner.is_exhausted()
@@ -148,6 +155,14 @@ impl ReadHolder
         inner.data()
     }
 
+    /// Bind this stream, returning false if it already was
+    fn bind(&self) -> bool
+    {
+        let inner: &mut Impl = unsafe { &mut *self.inner.get() };
+
+        !std::mem::replace(&mut inner.bound, true)
+    }
+
     fn is_exhausted(&self) -> bool
     {
         let inner: &Impl = unsafe { &*self.inner.get() };
@@ -167,6 +182,7 @@ struct Impl
 
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
+    bound:     bool,
 }
 
 impl Impl
@@ -185,6 +201,7 @@ impl Impl
 
             source,
             exhausted: false,
+            bound: false,
         }
     }
 
@@ -243,6 +260,7 @@ impl fmt::Debug for Impl
             .field("tail", &self.tail)
             .field("source", &"dyn <std::io::Read>")
             .field("exhausted", &self.exhausted)
+            .field("bound", &self.bound)
             .finish()
     }
 }
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8d48dff..1baf62d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -107,6 +107,12 @@ impl Scanner
         Ok(num_tokens)
     }
 
+    /// Has this scanner yet to produce any tokens?
+    pub fn is_start(&self) -> bool
+    {
+        self.state == StreamState::Start
+    }
+
     pub fn offset(&self) -> usize
     {
         self.offset
-- 
2.43.0


From 2b54fbfc339f1a80b211a0c6626972f3ed88ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 11/41] fix: don't extend the byte stream while evaluating a
 lazy block scalar

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b70b431..6bccc35 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -402,7 +402,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // end of this scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 654c0348cd5e4d847de605de0453dde9775b134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 12/41] fix: only read block scalar headers from the header
 line

---
 src/scanner/scalar/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 6bccc35..e262979 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -436,7 +436,7 @@ fn scan_headers(
     // than erroring
     match buffer.as_bytes()
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
+        [i @ b'0'..=b'9', ..] | [b'+', i @ b'0'..=b'9', ..] | [b'-', i @ b'0'..=b'9', ..] =>
         {
             indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
             skip += 1;
@@ -448,12 +448,12 @@ fn scan_headers(
     // Set the chomping behavior of the scalar, if required
     match buffer.as_bytes()
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        [b'+', ..] | [b'0'..=b'9', b'+', ..] =>
         {
             chomp = ChompStyle::Keep;
             skip += 1;
         },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        [b'-', ..] | [b'0'..=b'9', b'-', ..] =>
         {
             chomp = ChompStyle::Strip;
             skip += 1;
-- 
2.43.0


From 52e7c9400d596ba9fec4350904101f634269dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 13/41] fix: start each document without the previous
 document's indentation

---
 src/scanner/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 1baf62d..2571071 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -289,6 +289,9 @@ impl Scanner
         // Reset saved key
         self.remove_saved_key()?;
 
+        // The next document has not started any block collections
+        self.context.reset();
+
         // A key cannot follow a document marker
         self.simple_key_allowed = false;
 
-- 
2.43.0


From b25e6d8dd64515683321a034b6a4c4a003932bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 14/41] fix: skip the first line's indentation of explicitly
 indented block scalars

---
 src/scanner/scalar/block.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index e262979..ba1250a 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,19 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -353,7 +365,19 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From 176f15f14c3e90005ecc619388b7663d2b7b9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 15/41] fix: reject tag escapes that aren't unicode code points

---
 src/scanner/scalar/escape.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f473354..def00e9 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -99,6 +99,7 @@ pub(in crate::scanner) fn tag_uri_unescape(
 {
     let mut buffer = base;
     let mut codepoint_len: i8 = 0;
+    let start = scratch.len();
 
     while {
         cache!(~buffer, 3, opts)?;
@@ -149,6 +150,13 @@ pub(in crate::scanner) fn tag_uri_unescape(
     }
     {}
 
+    // Overlong sequences, surrogates and values past the end of
+    // the unicode range are not code points
+    if std::str::from_utf8(&scratch[start..]).is_err()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     Ok(base.len() - buffer.len())
 }
 
-- 
2.43.0


From b070a0b5c835f09a0d686e98e7b9eec5315c4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 16/41] fix: accept verbatim tags

---
 src/scanner/tag.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..894894c 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From 648acaa98a6c8962546ff3392968bc18b51e6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 17/41] fix: allow any whitespace or the end of the stream
 after an anchor

---
 src/scanner/anchor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..5e6594c 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -42,10 +42,13 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // also check against a list of valid starting
     // tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From 90a1896b6e4739e64535fdd59a5f748b1bce523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 18/41] fix: don't require a tag directive for verbatim tags

---
 src/event/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 6d397df..dfa85b0 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1276,6 +1276,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // A verbatim tag is used as is, it has no handle to resolve
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
-- 
2.43.0


From e7427f5391751e4071e457c54768605723fe6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 19/41] fix: accept every uri character in tag directive
 prefixes

---
 src/scanner/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 894894c..8abf32a 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -115,7 +115,7 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
-    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
+    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
@@ -293,7 +293,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 }
                 advance!(buffer, :stats, 1);
             },
-            // Further characters are allowed in verbatim tags
+            // Further characters are allowed in verbatim tags and tag directive prefixes
             [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
             {
                 if !*can_borrow
-- 
2.43.0


From 8eb40f7acfa5539828f7ad3c280933b4227046ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 20/41] fix: let tag directives override the default handles

---
 src/event/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index dfa85b0..bf07b33 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1123,7 +1123,7 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 6ea94fce718e0cea803334bcf93212e872b90fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 21/41] sim: add a guarded seam over stream refill sizes (cfg
 yary_sim, off by default)

---
 src/lib.rs          |  5 +++++
 src/reader/owned.rs |  2 ++
 src/sim.rs          | 39 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0d61a4a..a436783 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,8 @@
 
 #![allow(dead_code)]
 #![allow(clippy::suspicious_else_formatting)]
+// 'yary_sim' is only set by the deterministic simulator
+#![allow(unknown_lints, unexpected_cfgs)]
 #![warn(missing_docs)]
 
 pub use error::Error;
@@ -25,6 +27,9 @@ pub mod error;
 pub mod event;
 pub mod reader;
 
+#[cfg(yary_sim)]
+pub mod sim;
+
 mod queue;
 mod scanner;
 mod token;
diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 9da6f91..b674462 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -215,6 +215,8 @@ impl Impl
         // Calculate next allocation chunk
         let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
             .next_power_of_two();
+        #[cfg(yary_sim)]
+        let cap = crate::sim::chunk(cap);
         let mut new = Vec::new();
 
         // Copy any data that is marked as unread into the next
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..93c534a
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,39 @@
+/*
+ * This Source Code Form is subject to the terms of the
+ * Mozilla Public License, v. 2.0. If a copy of the MPL
+ * was not distributed with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
+ */
+
+//! Simulation seam, only compiled with `--cfg yary_sim`.
+//!
+//! Allows a deterministic simulator to decide how much of a
+//! byte stream each refill of an
+//! [`OwnedReader`](crate::reader::owned::OwnedReader)
+//! requests, instead of the fixed (and large) defaults.
+
+use std::cell::RefCell;
+
+/// Decides the size of the next refill, given the size that
+/// would be used without a simulator
+pub type ChunkFn = Box<dyn FnMut(usize) -> usize>;
+
+thread_local! {
+    static CHUNK: RefCell<Option<ChunkFn>> = RefCell::new(None);
+}
+
+/// Install (or remove) this thread's refill size decider
+pub fn set_chunk(f: Option<ChunkFn>)
+{
+    CHUNK.with(|c| *c.borrow_mut() = f);
+}
+
+/// Size of the next refill. A refill must be able to make
+/// progress, thus this is never 0
+pub(crate) fn chunk(default: usize) -> usize
+{
+    CHUNK.with(|c| match *c.borrow_mut()
+    {
+        Some(ref mut f) => f(default).max(1),
+        None => default,
+    })
+}
-- 
2.43.0


From c87ecc8b20eb311876f2455f90bb8d384a0dfffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 22/41] fix: treat lines of exactly a block scalar's
 indentation as blank

---
 src/scanner/scalar/block.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index ba1250a..ecdb1ae 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -508,10 +508,18 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    // A line which ends at (or before) the indentation is blank
+    while (stats.column < indent && isWhiteSpace!(~buffer))
+        || (stats.column == indent && isBreak!(~buffer))
     {
+        // Line break, chomp; increment lines
+        if isBreak!(~buffer)
+        {
+            *lines += 1;
+            advance!(*buffer, :stats, @line);
+        }
         // Indentation space, chomp
-        if check!(~buffer => b' ')
+        else if check!(~buffer => b' ')
         {
             advance!(*buffer, :stats, 1);
         }
@@ -520,12 +528,6 @@ fn scan_indent(
         {
             return Err(ScanError::InvalidTab);
         }
-        // Line break, chomp; increment lines
-        else if isBreak!(~buffer)
-        {
-            *lines += 1;
-            advance!(*buffer, :stats, @line);
-        }
 
         cache!(~buffer, 1, opts)?;
     }
-- 
2.43.0


From c7e8240856bee8989e239882e5db800b51f1aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 23/41] fix: let plain root scalars continue in the first
 column

---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..3989258 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -315,7 +315,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // The starting indent is one less than any column
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From e4d93632de902c0ffb4d8ee1cf2ea1d2c77c91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 24/41] fix: only leave zero indented sequences at their own
 indentation

---
 src/scanner/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 2571071..ffea81a 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -839,11 +839,15 @@ impl Scanner
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. We are in the block context, and at the
+             *    sequence's indentation
              */
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && self.context.is_block()
+                && self.context.indent() == self.stats.column
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From f38ee351b877abd8dab554728fcd73e35bda6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 25/41] fix: allow node tags at the end of the stream

---
 src/scanner/tag.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 8abf32a..166c23f 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -315,8 +315,8 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
+            // EOF before the end of a verbatim tag or a tag directive is an error
+            [] if verbatim => return Err(ScanError::UnexpectedEOF),
             // Otherwise we've finished the tag, exit the loop
             _ => break,
         }
@@ -379,7 +379,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -389,8 +389,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0


From 42ea502ee6dffc8f3fa3904baa84b69d0bece840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 26/41] fix: borrow plain scalars which are followed by a line
 break

---
 src/scanner/scalar/plain.rs | 85 +++++++++++++++----------------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index c95529d..f6423cc 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -128,6 +128,40 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
             break 'scalar;
         }
 
+        // Handle line joins as needed, now that we know the scalar
+        // continues
+        if lines > 0
+        {
+            match can_borrow
+            {
+                // We can no longer borrow, copy everything up to the last
+                // non whitespace character
+                true =>
+                {
+                    scratch.extend_from_slice(base[..scalar_stats.read - stats.read].as_bytes());
+
+                    can_borrow = false;
+                },
+                // Remove any whitespace surrounding the line breaks
+                false => scratch.truncate(scratch.len() - whitespace),
+            }
+
+            match lines
+            {
+                // If a single line was recorded, we _cannot_ have seen a line wholly made of
+                // whitespace, therefore join via a space
+                1 => scratch.push(SPACE),
+                // Else we need to append (n - 1) newlines, as we skip the origin line's break
+                _ =>
+                {
+                    for _ in 1..lines
+                    {
+                        scratch.push(NEWLINE)
+                    }
+                },
+            }
+        }
+
         // Reset whitespace counters for next char / whitespace
         // sequence. We do this here after all possible terminations
         // that could leave trailing whitespace, so we can
@@ -181,8 +215,6 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 // Handle line breaks
                 (false, _) =>
                 {
-                    set_no_borrow(&mut can_borrow, base, buffer, &mut scratch);
-
                     lines += 1;
                     advance!(buffer, :local_stats, @line);
                 },
@@ -192,49 +224,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // If the whitespace ended at a lower indent, then we're
         // done, and should exit on the next loop
         outdent = block_context && local_stats.column < indent;
-
-        // Handle line joins as needed
-        match lines
-        {
-            // No join needed, we're done
-            0 =>
-            {},
-            // If a single line was recorded, we _cannot_ have seen a line wholly made of
-            // whitespace, therefore join via a space
-            1 =>
-            {
-                // Note that we reset whitespace to zero here, so that the
-                // post loop truncate doesn't remove characters we've
-                // already removed here
-                scratch.truncate(scratch.len() - whitespace);
-                whitespace = 0;
-
-                scratch.push(SPACE);
-            },
-            // Else we need to append (n - 1) newlines, as we skip the origin line's break
-            _ =>
-            {
-                // Similarly, we reset whitespace here, but we _also_ set
-                // lines to the amount of lines we actually add to the
-                // scratch space.
-                scratch.truncate(scratch.len() - whitespace);
-                whitespace = 0;
-                lines -= 1;
-
-                // Safety: we can only reach this branch if lines > 1
-                for _ in 0..lines
-                {
-                    scratch.push(NEWLINE)
-                }
-            },
-        }
     }
 
     // Trim any trailing whitespace that might be left after
     // exiting the loop
     if !can_borrow
     {
-        scratch.truncate(scratch.len() - (whitespace + lines));
+        scratch.truncate(scratch.len() - whitespace);
     }
     // Note we use the stats which point at the last word read
     let advance = scalar_stats.read - stats.read;
@@ -409,17 +405,6 @@ fn flow_indicator(buffer: &str, offset: usize) -> bool
     check!(~buffer, offset => b',' | b'[' | b']' | b'{' | b'}')
 }
 
-/// Handles the trap door from borrowing to copying
-fn set_no_borrow(can_borrow: &mut bool, base: &str, buffer: &str, scratch: &mut Vec<u8>)
-{
-    if *can_borrow
-    {
-        scratch.extend_from_slice(base[0..base.len() - buffer.len()].as_bytes());
-    }
-
-    *can_borrow = false
-}
-
 #[derive(Debug, Clone)]
 pub(in crate::scanner) struct Deferred<'de>
 {
-- 
2.43.0


From b0162ccc8df6b3162eeb3c915fe060ac44e7d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 27/41] fix: skip extra document end markers after an
 explicitly ended document

---
 src/event/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index bf07b33..85352c4 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -233,9 +233,9 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
+        // If this isn't the first document we need to skip any extra
         // DocumentEnd tokens ('...')
-        if !implicit
+        if !first
         {
             while peek!(~tokens)? == Marker::DocumentEnd
             {
-- 
2.43.0


From a24ce06d02a882c3a01ef44223355a6271acf9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 28/41] fix: keep the line breaks around more indented lines of
 folded scalars

---
 src/scanner/scalar/block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index ecdb1ae..ff115ef 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,10 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Did the previous line start with a blank, i.e was it more
+    // indented than the scalar?
+    let mut more_indented = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -224,8 +228,15 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        // Line breaks surrounding more indented lines are not
+        // folded
+        cache!(~buffer, 1, opts)?;
+        let blank = isBlank!(~buffer);
+        let keep_breaks = blank || more_indented;
+        more_indented = blank;
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !keep_breaks
         {
             // Handle line joins as needed
             match lines
-- 
2.43.0


From cafb95557131565900a4dfb38ece9751bdcf243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 29/41] fix: grow the buffer with an unfinished token

---
 src/reader/owned.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index b674462..2910133 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -212,8 +212,12 @@ impl Impl
 
     fn refresh_buffer(&mut self, copy_from: Option<usize>) -> ReaderResult<()>
     {
-        // Calculate next allocation chunk
-        let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
+        // Calculate next allocation chunk, which must keep up with
+        // the unread data copied each time, lest the copies of a long
+        // token add up to (much) more than the token
+        let read = copy_from.unwrap_or(0);
+        let unread = self.head.len() - read;
+        let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + usize::max(read, unread))
             .next_power_of_two();
         #[cfg(yary_sim)]
         let cap = crate::sim::chunk(cap);
-- 
2.43.0


From aaa978a89f36f2f12181923eba3939e9ff3a4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 30/41] fix: end a plain flow scalar at a ':' in front of a
 flow indicator

---
 src/scanner/scalar/plain.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index f6423cc..fa76dfe 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -122,7 +122,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         //
         // ': '                         -> anywhere
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ':' followed by one of them  -> flow context
+        if (check!(~buffer => b':')
+            && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1)))
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -175,7 +177,8 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if (check!(~buffer => b':')
+                && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1)))
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -310,7 +313,9 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         //
         // ': '                         -> anywhere
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ':' followed by one of them  -> flow context
+        if (check!(~buffer => b':')
+            && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1)))
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -321,7 +326,8 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if (check!(~buffer => b':')
+                && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1)))
                 || flow_context && flow_indicator(buffer, 0)
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
-- 
2.43.0


From 26fd66157789dc360961de5b54c2e4fce6508ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 31/41] fix: accept flow entries without a key anywhere

---
 src/event/parser/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 85352c4..aaec3f3 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -643,9 +643,16 @@ impl Parser
                  *  See:
                  *      yaml.org/spec/1.2.2/#example-flow-mapping-adjacent-values
                  */
-                Marker::Key =>
+                Marker::Key | Marker::Value =>
                 {
-                    pop!(tokens)?;
+                    // A value without a key implies an empty one, e.g:
+                    //
+                    // [ : value ]
+                    //  ^ key is implied here
+                    if matches!(token, Marker::Key)
+                    {
+                        pop!(tokens)?;
+                    }
 
                     event =
                         initEvent!(@event FlowMappingStart => (start, end, (NO_ANCHOR, NO_TAG, NodeKind::Entry)))
@@ -876,6 +883,13 @@ impl Parser
                         event = self.empty_scalar(start, kind).map(Some)?;
                     }
                 },
+                // A value without a key implies an empty one
+                Marker::Value =>
+                {
+                    state!(~self, -> State::FlowMappingValue(O_NIL));
+
+                    event = self.empty_scalar(start, kind).map(Some)?;
+                },
                 /*
                  * Here we catch a strange edge case in (flow contexts) YAML:
                  *
-- 
2.43.0


From cbeb86eeb05eb5d548842f872cfcb8dbb8e1464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 32/41] fix: name the underlying error as an error's source

---
 src/error.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index fbe4785..452ac00 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -591,7 +591,17 @@ pub(crate) mod internal
         }
     }
 
-    impl StdError for ErrorKind {}
+    impl StdError for ErrorKind
+    {
+        fn source(&self) -> Option<&(dyn StdError + 'static)>
+        {
+            match self
+            {
+                ErrorKind::Code(_) => None,
+                ErrorKind::Source(e) => StdError::source(e),
+            }
+        }
+    }
 
     impl From<ErrorCode> for ErrorKind
     {
-- 
2.43.0


From cdb92bcd2498587293b4cc8c04324bbdaf08e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:15 +0000
Subject: [PATCH 33/41] fix: do not complete a key saved outside of a flow
 collection inside it

---
 src/scanner/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ffea81a..dc223cc 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -672,7 +672,8 @@ impl Scanner
 
         enqueue!(token, :self.stats => tokens);
 
-        self.save_key(!REQUIRED)?;
+        // A key saved outside must not be completed by a ':' inside
+        self.remove_saved_key()?;
 
         // A simple key may start after '[' or '{'
         self.simple_key_allowed = true;
-- 
2.43.0


From d4576077011a50c9452f19e266e1b0e0904b2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 34/41] fix: a new line does not start a key in the flow
 context

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index dc223cc..bbb277d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -949,10 +949,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0


From de20e2f11f7b4e98fb6299fb32a5fa4b5a3e2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 35/41] fix: report a ']' or '}' that closes nothing as a
 syntax error

---
 src/scanner/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 3989258..1bbdbe9 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -80,7 +80,11 @@ impl Context
 
     pub fn flow_decrement(&mut self) -> Result<usize>
     {
-        let new = self.flow.checked_sub(1).ok_or(ScanError::IntOverflow)?;
+        // A closing ']' or '}' without an opening one
+        let new = self
+            .flow
+            .checked_sub(1)
+            .ok_or(ScanError::UnknownDelimiter)?;
         self.flow = new;
 
         Ok(new)
-- 
2.43.0


From b12d00b02fd0459830576178165a5efa44da2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 36/41] fix: allow '-' and '_' in anchor and alias names

Names like '&base_image' or '*some-node' were rejected as invalid.
---
 src/scanner/anchor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 5e6594c..4841ce1 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -25,12 +25,12 @@ pub(in crate::scanner) fn scan_anchor<'de>(
 
     // *anchor 'rest of the line'
     //  ^^^^^^
-    let anchor = take_while(opts, buffer.as_bytes(), u8::is_ascii_alphanumeric)?;
+    let anchor = take_while(opts, buffer.as_bytes(), is_anchor_char)?;
 
     let anchor = advance!(<- *buffer, :stats, anchor.len());
 
     // anchor name cannot be empty, must contain >= 1
-    // alphanumeric character
+    // alphanumeric, '-' or '_' character
     if anchor.is_empty()
     {
         return Err(ScanError::InvalidAnchorName);
@@ -85,6 +85,12 @@ impl AnchorKind
     }
 }
 
+/// Characters an anchor or alias name is made of
+fn is_anchor_char(b: &u8) -> bool
+{
+    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_')
+}
+
 fn take_while<F>(opts: Flags, base: &[u8], f: F) -> Result<&[u8]>
 where
     F: Fn(&u8) -> bool,
-- 
2.43.0


From 1f8e7d74708716ce9ffddbc434ed3c93fb65c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 37/41] fix: limit implicit keys to 1024 characters, not bytes

---
 src/scanner/key.rs | 23 ++++++++++++++++++++++-
 src/scanner/mod.rs | 16 +++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/scanner/key.rs b/src/scanner/key.rs
index e518402..e7c1f1b 100644
--- a/src/scanner/key.rs
+++ b/src/scanner/key.rs
@@ -135,6 +135,10 @@ pub(in crate::scanner) struct KeySave
 {
     possible: KeyPossible,
     stats:    MStats,
+
+    /// Bytes read since .stats which are not the first of
+    /// their character
+    trailing: usize,
 }
 
 impl KeySave
@@ -147,7 +151,11 @@ impl KeySave
             false => KeyPossible::Yes,
         };
 
-        Self { possible, stats }
+        Self {
+            possible,
+            stats,
+            trailing: 0,
+        }
     }
 
     /// Access the state of the saved key immutably
@@ -168,6 +176,19 @@ impl KeySave
     {
         &self.stats
     }
+
+    /// Add some .text to this key
+    pub fn extend(&mut self, text: &str)
+    {
+        self.trailing += text.len() - text.chars().count();
+    }
+
+    /// Amount of characters this key has, if it ends where
+    /// the Scanner's .stats are
+    pub fn length(&self, stats: &MStats) -> usize
+    {
+        stats.read - self.stats.read - self.trailing
+    }
 }
 
 /// State map tracking whether a key token is currently
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index bbb277d..ebd7561 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -373,6 +373,7 @@ impl Scanner
         advance!(buffer, amt);
 
         self.save_key(!REQUIRED)?;
+        self.extend_key(&base[..amt]);
 
         // A key may not start after a tag (only before)
         self.simple_key_allowed = false;
@@ -414,6 +415,7 @@ impl Scanner
 
         // An anchor / alias may start a simple key
         self.save_key(!REQUIRED)?;
+        self.extend_key(&base[..base.len() - buffer.len()]);
 
         // A key may not start after an anchor (only before)
         self.simple_key_allowed = false;
@@ -448,6 +450,7 @@ impl Scanner
         let (token, amt) = scan_flow_scalar(opts, buffer, &mut stats, single)?;
 
         self.save_key(!REQUIRED)?;
+        self.extend_key(&base[..amt]);
 
         // A key cannot follow a flow scalar, as we're either
         // currently in a key (which should be followed by a
@@ -476,6 +479,7 @@ impl Scanner
         let (token, amt) = scan_plain_scalar(opts, buffer, &mut stats, &self.context)?;
 
         self.save_key(!REQUIRED)?;
+        self.extend_key(&base[..amt]);
 
         // A simple key cannot follow a plain scalar, there must be
         // an indicator or new line before a key is valid
@@ -808,7 +812,7 @@ impl Scanner
              * https://yaml.org/spec/1.2/spec.html#ns-s-implicit-yaml-key(c)
              */
             if key.allowed()
-                && (key_stats.lines < self.stats.lines || key_stats.read + 1024 < self.stats.read)
+                && (key_stats.lines < self.stats.lines || saved.length(&self.stats) > 1024)
             {
                 // If the key was required, it is an error for us not to
                 // have found it before the cutoff
@@ -881,6 +885,16 @@ impl Scanner
         Ok(())
     }
 
+    /// Add the .text of a token to the currently saved key
+    /// (if it exists)
+    fn extend_key(&mut self, text: &str)
+    {
+        if let Some(saved) = self.key.saved()
+        {
+            saved.extend(text)
+        }
+    }
+
     fn remove_saved_key(&mut self) -> Result<()>
     {
         if let Some(saved) = self.key.saved().take()
-- 
2.43.0


From 792d7414c32a4ed3393298ebe158e4ed2645eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:08 +0000
Subject: [PATCH 38/41] fix: skip the byte order mark a stream may start with

---
 src/scanner/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ebd7561..2334cb2 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -960,6 +960,21 @@ impl Scanner
     {
         let mut stats = MStats::new();
 
+        // A byte order mark may start the stream, it is neither
+        // content, nor does it indent any
+        if self.stats.read == 0
+        {
+            cache!(~buffer, 1, opts)?;
+
+            if buffer.starts_with(BYTE_ORDER_MARK)
+            {
+                let amt = BYTE_ORDER_MARK.len_utf8();
+
+                advance!(*buffer, amt);
+                self.stats.update(amt, 0, 0);
+            }
+        }
+
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
@@ -1143,6 +1158,7 @@ const FOLDED: u8 = b'>';
 const COMMENT: u8 = b'#';
 const RESERVED_1: u8 = b'@';
 const RESERVED_2: u8 = b'`';
+const BYTE_ORDER_MARK: char = '\u{FEFF}';
 
 const COMMENTS: bool = true;
 const REQUIRED: bool = true;
-- 
2.43.0


From 6c08fffbd1dfb3b1ca584eff624cf69c63e41cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:05 +0000
Subject: [PATCH 39/41] fix: skip document end markers a stream may start with

---
 src/event/parser/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index aaec3f3..aaf0d98 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -233,14 +233,11 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If this isn't the first document we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !first
+        // Skip any DocumentEnd tokens ('...') which do not end a
+        // document, either extra ones or those at the stream's start
+        while peek!(~tokens)? == Marker::DocumentEnd
         {
-            while peek!(~tokens)? == Marker::DocumentEnd
-            {
-                pop!(tokens)?;
-            }
+            pop!(tokens)?;
         }
 
         let token = peek!(~tokens)?;
-- 
2.43.0


From 26456e93a1e354eac1f5280023a174dfb6b64003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:40 +0000
Subject: [PATCH 40/41] fix: report text behind a document end marker on its
 line

---
 src/scanner/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 2334cb2..ddf3d24 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -53,6 +53,10 @@ pub(crate) struct Scanner
     /// at the current position?
     simple_key_allowed: bool,
 
+    /// Line of the last document end marker ('...'), which
+    /// only whitespace and comments can share
+    document_end: Option<usize>,
+
     // Subsystems
     stats:   MStats,
     key:     Key,
@@ -67,6 +71,7 @@ impl Scanner
         Self {
             offset:             0,
             simple_key_allowed: false,
+            document_end:       None,
             stats:              MStats::new(),
             state:              StreamState::Start,
             key:                Key::default(),
@@ -160,6 +165,12 @@ impl Scanner
         //  - '... '
         cache!(~base, 4, opts)?;
 
+        // Nothing may follow a document end marker on its line
+        if self.document_end == Some(self.stats.lines)
+        {
+            return Err(ScanError::UnknownDelimiter);
+        }
+
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -295,6 +306,9 @@ impl Scanner
         // A key cannot follow a document marker
         self.simple_key_allowed = false;
 
+        // Nor can anything else follow the end of a document
+        self.document_end = (!start).then(|| self.stats.lines);
+
         advance!(*buffer, :self.stats, 3);
 
         enqueue!(token, :self.stats => tokens);
-- 
2.43.0


From f7b88b4986af5b21bce36ac1ebb86e5cdff66787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:20 +0000
Subject: [PATCH 41/41] fix: accept block mapping values without a key

---
 src/event/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index aaf0d98..8b9b2ed 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -508,6 +508,12 @@ impl Parser
                     event = self.empty_scalar(start, kind).map(Some)?;
                 }
             },
+            // Found a value without a key, so the key is implied
+            Marker::Value =>
+            {
+                state!(~self, -> State::BlockMappingValue);
+                event = self.empty_scalar(start, kind).map(Some)?;
+            },
             // End of this mapping, pop the state stack
             Marker::BlockEnd =>
             {
-- 
2.43.0

