From 8772393250d57d6161b1b84875e0b5e6d868edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 01/35] fix: reject variable-length integers which do not fit
 the decoded type

---
 crates/musli/src/int/continuation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..947423c 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,15 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 1d0fbe3ffc3bec91aa68881564e9600c0e6fa2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 02/35] fix: tag fixed-width wire lengths with the number of
 bytes they occupy

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 199be64d8fa6d5e8bad1c67c8173322a68a51cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 03/35] fix: do not overflow when skipping over hostile lengths

---
 crates/musli/src/descriptive/de.rs | 12 +++++++-----
 crates/musli/src/wire/de.rs        |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..7fd1efa 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,7 +63,9 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        // NB: Every item occupies at least one byte, so a saturated count can never
+        // be exhausted before the reader is.
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
@@ -74,10 +76,10 @@ where
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        remaining = remaining.saturating_add(2);
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        remaining = remaining.saturating_add(1);
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -95,11 +97,11 @@ where
                 }
                 Kind::Sequence => {
                     let len = self.decode_len(tag)?;
-                    remaining += len;
+                    remaining = remaining.saturating_add(len);
                 }
                 Kind::Map => {
                     let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    remaining = remaining.saturating_add(len.saturating_mul(2));
                 }
                 kind => {
                     return Err(self
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..078c707 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,9 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        // NB: Every item occupies at least one byte, so a saturated count can never
+        // be exhausted before the reader is.
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +89,7 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    remaining = remaining.saturating_add(len);
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From 24551b368d4688bf48eedca7a6e70ed6bbfa0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 04/35] fix: skip all remaining sequence elements in the
 descriptive format

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 7fd1efa..59447c9 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -200,7 +200,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From d724c2ae5f88ab25dc7fed391277f00119df9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 05/35] fix: report overflow instead of overflowing when
 parsing JSON integers

---
 crates/musli/src/json/parser/integer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..cd879a2 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -126,7 +126,7 @@ where
     /// Compute as float with a negative exponent.
     #[inline]
     fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
+        self.value.pow10(e.saturating_sub(self.exp))
     }
 }
 
@@ -198,7 +198,7 @@ where
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
@@ -525,7 +525,11 @@ where
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    let Some(out) = out.checked_add(T::from_byte(p.read_byte(cx)? - b'0')) else {
+        return Err(cx.message_at(start, IntegerError::IntegerOverflow));
+    };
+
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From e884477dc4ca81876ba18c2cd172884e6edcbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 06/35] fix: only use the bitwise fast path for the native byte
 order

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..d7c872b 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            byteorder::<OPT>(),
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>()
+        ),
+        (
+            ByteOrder::NATIVE,
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From e5da5b494b4a9c90b5fe5877e2591728949d13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 07/35] fix: look up every key stored in a phf map or set

---
 crates/musli-zerocopy/src/phf/factory.rs   | 19 +++++++++----------
 crates/musli-zerocopy/src/phf/generator.rs | 14 +++++++++-----
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..3596146 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -177,18 +177,17 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
-        loop {
-            let to = *buf.as_mut_buf().load(a)?;
+    // Permute the entries in place, so that position `to` holds the entry which
+    // has been mapped to it. A source position prior to the one being populated
+    // has already been swapped away, so follow where it went.
+    for (to, a) in map.iter().enumerate() {
+        let mut from = *buf.as_mut_buf().load(a)?;
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
-            }
-
-            break;
+        while from < to {
+            from = *buf.as_mut_buf().load(map.at(from))?;
         }
+
+        buf.swap(entries.at(to), entries.at(from))?;
     }
 
     // Free up temporary memory we needed to build the map.
diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..ace5a5e 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -84,14 +85,17 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    let mut buckets = (0..displacements.len())
+        .map(|index| (index, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Sort descending, so that the largest buckets are placed first.
+    buckets.sort_by_key(|(_, bucket)| Reverse(bucket.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +115,7 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (bucket_index, bucket) in &buckets {
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
@@ -131,7 +135,7 @@ where
                 }
 
                 // We've picked a good set of displacements
-                *buf.load_mut(d_ref)? = Entry::new(d1, d2);
+                *buf.load_mut(displacements.at(*bucket_index))? = Entry::new(d1, d2);
 
                 for &(i, key) in &values_to_add {
                     let m = buf.load_mut(map.at(i))?;
-- 
2.43.0


From 3ed3e775910f23c0084f80b561e347b3e0b76055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 08/35] fix: honor the byte order of usize-sized references

---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..dca25d9 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From ff53fa5b824822a3658a588f058e177c50be31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 09/35] fix: do not swap the bytes of the offset twice in
 array_into_slice

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..e92b331 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -806,7 +806,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 634411d9b7ada906c95a274625eac330c7ae448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 10/35] fix: honor the byte order of reference metadata when
 coercing

---
 crates/musli-zerocopy/src/pointer/ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index e92b331..7e60b99 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -693,7 +693,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -765,7 +765,7 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata(self.metadata.swap_bytes::<E>())?.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From 168ba825fa43692ef14759faab3f1f9f61d843d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 11/35] fix: do not overflow when loading or swapping values at
 hostile offsets

---
 crates/musli-zerocopy/src/buf/buf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..de1dff5 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = offset.saturating_add(size_of::<T>());
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = offset.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
-- 
2.43.0


From d7d9c2b7d3d752a14881194e9d6f33759e0275bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 12/35] fix: do not overflow when loading uninitialized memory
 out of bounds

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 2 +-
 crates/musli-zerocopy/src/buf/slice_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..9ee3a20 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -566,7 +566,7 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(at.saturating_add(size_of::<T>()) <= self.len, "Length overflow");
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
diff --git a/crates/musli-zerocopy/src/buf/slice_mut.rs b/crates/musli-zerocopy/src/buf/slice_mut.rs
index a8357b9..54d8fbb 100644
--- a/crates/musli-zerocopy/src/buf/slice_mut.rs
+++ b/crates/musli-zerocopy/src/buf/slice_mut.rs
@@ -452,7 +452,7 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(at.saturating_add(size_of::<T>()) <= self.len, "Length overflow");
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
-- 
2.43.0


From d3adf01948c22b32ee9e724de83cd11751b3cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 13/35] fix: report the number of entries stored in a swiss
 table

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From 9faf9a4d283aa8366adc935a7adbd5133b39eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 14/35] fix: unlink headers from the free list when reusing
 them in the slice allocator

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..e06cf4d 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -635,9 +635,10 @@ impl Internal {
     /// The caller msut ensure that there is enough space for the region and
     /// that the end pointer has been aligned to the requirements of `Header`.
     unsafe fn alloc_header(&mut self, end: *mut MaybeUninit<u8>) -> Option<Region> {
-        if let Some(region) = self.free_head.take() {
+        if let Some(region) = self.free_head {
             let mut region = self.region(region);
 
+            self.free_head = region.next.take();
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From 0d2660966e809301304b2a0c39ffadd3ac20a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 15/35] fix: do not place headers inside of allocated regions
 in the slice allocator

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index e06cf4d..87b475a 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -653,7 +653,8 @@ impl Internal {
 
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        // The header must not overlap with the region it describes.
+        if ptr.cast() < end || ptr >= self.free.end.cast() {
             return None;
         }
 
-- 
2.43.0


From bdcc78ae271207f1ae147d90a7179c32d4736cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 16/35] fix: only merge with the region being merged in the
 slice allocator

---
 crates/musli/src/alloc/slice.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 87b475a..fd96bee 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -416,12 +416,18 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // Empty regions share their address with the region which follows
+            // them, so make sure that `next` is the region being merged.
+            if other_len == 0 || next.capacity() == 0 {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From ef9f7bcc5a4f3bf1dd18c0a2b3644d057dbe17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 17/35] fix: report capacity in elements and overflows in the
 slice allocator

---
 crates/musli/src/alloc/slice.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index fd96bee..0ac422e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
@@ -317,7 +317,10 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        if len
+            .checked_add(additional)
+            .is_some_and(|required| required <= self.cap)
+        {
             return Ok(());
         }
 
-- 
2.43.0


From 43c0de4aa7fe96be692985f4be5958f863b301ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 18/35] fix: do not drop zero-sized values when moving them
 into allocations

---
 crates/musli-core/src/alloc/system.rs | 5 ++++-
 crates/musli-core/src/alloc/vec.rs    | 5 ++++-
 crates/musli/src/alloc/slice.rs       | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..da50a21 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -1,6 +1,6 @@
 use core::alloc::Layout;
 use core::cmp;
-use core::mem::{align_of, size_of};
+use core::mem::{align_of, forget, size_of};
 use core::ptr::NonNull;
 
 use rust_alloc::alloc;
@@ -77,6 +77,9 @@ unsafe impl Allocator for System {
             unsafe {
                 raw.as_mut_ptr().write(value);
             }
+        } else {
+            // The allocation takes ownership of the zero-sized value.
+            forget(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..a515263 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::ManuallyDrop;
+use core::mem::{forget, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -249,6 +249,9 @@ where
             unsafe {
                 self.buf.as_mut_ptr().add(self.len).write(item);
             }
+        } else {
+            // The vector takes ownership of the zero-sized item.
+            forget(item);
         }
 
         self.len += 1;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 0ac422e..0084674 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The allocation takes ownership of the zero-sized value.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 79b886a10e3bdb3acec5a49c6278cad3b6f0043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 19/35] fix: refuse option markers other than zero and one in
 the storage format

---
 crates/musli/src/storage/de.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..fbabcb3 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -295,8 +295,13 @@ where
                 Ok(Some(self))
             }
         } else {
-            let b = self.reader.read_byte(self.cx)?;
-            Ok(if b == 1 { Some(self) } else { None })
+            let mark = self.cx.mark();
+
+            match self.reader.read_byte(self.cx)? {
+                0 => Ok(None),
+                1 => Ok(Some(self)),
+                b => Err(self.cx.message_at(&mark, BadOption { actual: b })),
+            }
         }
     }
 
@@ -729,6 +734,18 @@ impl fmt::Display for BadBoolean {
     }
 }
 
+struct BadOption {
+    actual: u8,
+}
+
+impl fmt::Display for BadOption {
+    #[inline]
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let Self { actual } = *self;
+        write!(f, "Bad option byte 0x{actual:02x}")
+    }
+}
+
 struct BadCharacter {
     actual: u32,
 }
-- 
2.43.0


From aae15b5eb84cc92a9058243ace6646acf645b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 20/35] fix: decode signed numbers as any unsigned type they
 fit in the descriptive format

---
 .../musli/src/descriptive/integer_encoding.rs | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..c044fd2 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,25 +21,27 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
+    let kind = decode_number_kind(cx, reader.borrow_mut())?;
 
     match kind {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // The zig-zag image of a number which fits in the requested type
+            // might not, so it's decoded as the widest type.
+            let value = zig::decode::<u128>(c::decode(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
-                return Err(cx.message(format_args!("Unsigned value outside of signed range")));
+                return Err(cx.message(format_args!("Signed value outside of unsigned range")));
             };
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned | NumberKind::Float => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -64,6 +66,16 @@ where
     C: Context,
     R: Reader<'de>,
     T: Unsigned,
+{
+    let kind = decode_number_kind(cx, reader.borrow_mut())?;
+    Ok((c::decode(cx, reader)?, kind))
+}
+
+#[inline]
+fn decode_number_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +83,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
-- 
2.43.0


From 2b13fa61ddca5f0a0f17c4ce8ebf6d23f87a1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 21/35] fix: do not consume the tag twice when decoding a
 number in the descriptive format

---
 crates/musli/src/descriptive/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 59447c9..88e0cd3 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -374,7 +374,10 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 7a039808ae63cf499f007f7ab0d7d29b4fa4605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 22/35] Let verification harnesses implement Reader (cfg
 musli_verif)

---
 crates/musli/src/reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..6bf1c89 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -10,6 +10,7 @@ use core::slice;
 use crate::de::UnsizedVisitor;
 use crate::Context;
 
+#[cfg_attr(musli_verif, allow(missing_docs))]
 mod sealed {
     use super::{Limit, Reader};
 
@@ -21,6 +22,12 @@ mod sealed {
     impl<'de, R> Sealed for &mut R where R: ?Sized + Reader<'de> {}
 }
 
+// Lets verification harnesses decode from the contract of a reader.
+#[cfg(musli_verif)]
+#[allow(unexpected_cfgs)]
+#[doc(hidden)]
+pub use self::sealed::Sealed as VerifSealed;
+
 /// Coerce a type into a [`Reader`].
 pub trait IntoReader<'de>: self::sealed::Sealed {
     /// The reader type.
-- 
2.43.0


From a32f9b37cbe7bc2305843703b458ff09cdb829fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 23/35] Let verification harnesses name decoders (cfg
 musli_verif)

---
 crates/musli/src/descriptive/mod.rs | 4 ++++
 crates/musli/src/wire/mod.rs        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/musli/src/descriptive/mod.rs b/crates/musli/src/descriptive/mod.rs
index c66f553..fb78c15 100644
--- a/crates/musli/src/descriptive/mod.rs
+++ b/crates/musli/src/descriptive/mod.rs
@@ -125,6 +125,10 @@ pub use self::encoding::{Encoding, OPTIONS};
 #[doc(inline)]
 pub use self::error::Error;
 
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::de::SelfDecoder as VerifDecoder;
+
 /// The maximum length that can be inlined in the tag without adding additional
 /// data to the wire format.
 #[cfg(test)]
diff --git a/crates/musli/src/wire/mod.rs b/crates/musli/src/wire/mod.rs
index 05d36b4..44d678d 100644
--- a/crates/musli/src/wire/mod.rs
+++ b/crates/musli/src/wire/mod.rs
@@ -123,6 +123,10 @@ pub use self::encoding::{Encoding, OPTIONS};
 #[doc(inline)]
 pub use self::error::Error;
 
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::de::WireDecoder as VerifDecoder;
+
 /// The maximum length that can be inlined in the tag without adding additional
 /// data to the wire format.
 #[cfg(test)]
-- 
2.43.0


From d5aab8f8499aeaf1e056cc79d293bf33bc290dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 24/35] fix: convert optional non-zero numbers without
 transmuting them

---
 crates/musli-zerocopy/src/traits.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/crates/musli-zerocopy/src/traits.rs b/crates/musli-zerocopy/src/traits.rs
index bbcc758..33c3953 100644
--- a/crates/musli-zerocopy/src/traits.rs
+++ b/crates/musli-zerocopy/src/traits.rs
@@ -18,7 +18,7 @@
 
 use core::array;
 use core::marker::PhantomData;
-use core::mem::{align_of, size_of, transmute};
+use core::mem::{align_of, size_of};
 use core::num::Wrapping;
 use core::ptr::NonNull;
 use core::slice;
@@ -1077,14 +1077,7 @@ macro_rules! impl_nonzero_number {
             where
                 E: ByteOrder,
             {
-                // SAFETY: All bit-patterns are habitable, zero we can rely on
-                // byte-order conversion from the inner type.
-                unsafe {
-                    transmute(<$inner as ZeroCopy>::swap_bytes::<E>(transmute::<
-                        Self,
-                        $inner,
-                    >(self)))
-                }
+                self.map(ZeroCopy::swap_bytes::<E>)
             }
         }
 
-- 
2.43.0


From 532014febda0800430179b2395e61ccc392d8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 25/35] fix: validate fields relative to the value they are
 part of

---
 .../src/zero_copy/mod.rs                      |  2 +-
 crates/musli-zerocopy/src/buf/validator.rs    | 42 ++++++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..7ed356d 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,12 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
 pub struct Validator<'a, T: ?Sized> {
+    /// The start of the value being validated.
     data: NonNull<u8>,
+    /// The offset into the value. Fields are aligned relative to the start of
+    /// the value they are part of, which might itself be unaligned.
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +40,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -97,8 +102,9 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         // appropriately above.
         unsafe {
             self.align_with(align_of::<F>());
-            F::validate(&mut Validator::new(self.data))?;
-            let output = self.data.cast::<F>().as_ref();
+            let data = self.current();
+            F::validate(&mut Validator::new(data))?;
+            let output = data.cast::<F>().as_ref();
             self.advance::<F>();
             Ok(output)
         }
@@ -113,8 +119,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// walk out of bounds.
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
-        let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        let b = ptr::read(self.current().as_ptr());
+        self.offset += 1;
         b
     }
 
@@ -134,7 +140,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         // sized
         // appropriately above.
         unsafe {
-            let output = ptr::read_unaligned(self.data.cast::<F>().as_ptr());
+            let output = ptr::read_unaligned(self.current().cast::<F>().as_ptr());
             self.advance::<F>();
             Ok(output)
         }
@@ -233,8 +239,9 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
-        F::validate(&mut Validator::new(self.data))?;
+        // A packed struct only lowers the alignment of its fields.
+        self.align_with(align.min(align_of::<F>()));
+        F::validate(&mut Validator::new(self.current()))?;
         self.advance::<F>();
         Ok(())
     }
@@ -254,28 +261,33 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     {
         // SAFETY: We've ensured that the provided buffer is aligned and sized
         // appropriately above.
-        F::validate(&mut Validator::new(self.data))?;
+        F::validate(&mut Validator::new(self.current()))?;
         self.advance::<F>();
         Ok(())
     }
 
-    /// Align the current pointer by `F`.
+    /// The current pointer.
+    #[inline]
+    unsafe fn current(&self) -> NonNull<u8> {
+        NonNull::new_unchecked(self.data.as_ptr().add(self.offset))
+    }
+
+    /// Align the current offset by `align`.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        self.offset += buf::padding_to(self.offset, align);
     }
 
-    /// Advance the current pointer by `F`.
+    /// Advance the current offset by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.offset += size_of::<F>();
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
     #[inline]
     pub(crate) fn range<F>(&self) -> Range<usize> {
-        let end = self.data.as_ptr() as usize;
+        let end = (self.data.as_ptr() as usize).wrapping_add(self.offset);
         let start = end.wrapping_sub(size_of::<F>());
         start..end
     }
-- 
2.43.0


From a73c61ca5178859b351d06c9de1f638b3c07fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:44 +0000
Subject: [PATCH 26/35] fix: do not overwrite fields of packed structs with
 padding

---
 crates/musli-zerocopy/src/buf/padder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..4176dbd 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,8 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // A packed struct only lowers the alignment of its fields.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
-- 
2.43.0


From 1a9b963c917e856b93903048fb54702f9ae2c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:34 +0000
Subject: [PATCH 27/35] Let verification drop what zero-copy errors say (cfg
 musli_verif)

---
 crates/musli-zerocopy/src/error.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crates/musli-zerocopy/src/error.rs b/crates/musli-zerocopy/src/error.rs
index add9187..f92586e 100644
--- a/crates/musli-zerocopy/src/error.rs
+++ b/crates/musli-zerocopy/src/error.rs
@@ -105,15 +105,32 @@ impl fmt::Display for Repr {
 #[derive(Debug)]
 #[cfg_attr(test, derive(PartialEq))]
 pub struct Error {
+    #[cfg(not(musli_verif))]
     kind: ErrorKind,
 }
 
 impl Error {
+    #[cfg(not(musli_verif))]
     #[inline]
     pub(crate) const fn new(kind: ErrorKind) -> Self {
         Self { kind }
     }
 
+    // What an error says takes no part in verification, and is costly to move.
+    #[cfg(musli_verif)]
+    #[inline(always)]
+    pub(crate) const fn new(_: ErrorKind) -> Self {
+        Self {}
+    }
+
+    #[cfg(musli_verif)]
+    #[inline(always)]
+    #[doc(hidden)]
+    pub fn __illegal_enum_discriminant<T>(_: impl IntoRepr) -> Self {
+        Self {}
+    }
+
+    #[cfg(not(musli_verif))]
     #[inline(always)]
     #[doc(hidden)]
     pub fn __illegal_enum_discriminant<T>(discriminant: impl IntoRepr) -> Self {
@@ -124,6 +141,7 @@ impl Error {
     }
 }
 
+#[cfg(not(musli_verif))]
 impl fmt::Display for Error {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -131,6 +149,17 @@ impl fmt::Display for Error {
     }
 }
 
+#[cfg(musli_verif)]
+impl fmt::Display for Error {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("Error")
+    }
+}
+
+#[cfg(musli_verif)]
+impl core::error::Error for Error {}
+
+#[cfg(not(musli_verif))]
 impl core::error::Error for Error {
     fn source(&self) -> Option<&(dyn core::error::Error + 'static)> {
         match &self.kind {
-- 
2.43.0


From d12cad05a71e8752834a1dae7b371140ebcbbbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 28/35] fix: do not let zeros decide whether a JSON number is
 an integer

---
 crates/musli/src/json/parser/integer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index cd879a2..00554b3 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -180,13 +180,18 @@ where
         }
 
         if e >= 0 {
-            // Decoding the specified mantissa would result in a fractional number.
-            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
-
             if !base.is_zero() {
                 base = check!(base.checked_pow10(e as u32), IntegerOverflow);
             }
 
+            // Zeros behind the decimal point have no bearing on the value.
+            if m.value.is_zero() {
+                return Ok(base);
+            }
+
+            // Decoding the specified mantissa would result in a fractional number.
+            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
+
             let base = check! {
                 m.value
                     .checked_pow10(mantissa_exp)
@@ -197,6 +202,8 @@ where
             Ok(base)
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
+        } else if base.is_zero() {
+            Ok(base)
         } else {
             Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
-- 
2.43.0


From 1303499676ec5fc9f6a4e16cc00970fba408fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 29/35] fix: refuse object keys with characters after a number
 in JSON

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 9 ++++++++-
 crates/musli/src/json/de/key_unsigned_visitor.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index 446acf3..7decb1f 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -36,6 +36,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_signed(cx, &mut SliceParser::new(bytes))
+        let mut p = SliceParser::new(bytes);
+        let value = parse_signed(cx, &mut p)?;
+
+        if p.index != bytes.len() {
+            return Err(cx.message("Unexpected characters after number in object key"));
+        }
+
+        Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index e50fc0e..46237a4 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -35,6 +35,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_unsigned(cx, &mut SliceParser::new(bytes))
+        let mut p = SliceParser::new(bytes);
+        let value = parse_unsigned(cx, &mut p)?;
+
+        if p.index != bytes.len() {
+            return Err(cx.message("Unexpected characters after number in object key"));
+        }
+
+        Ok(value)
     }
 }
-- 
2.43.0


From 43874e391d13e5d5e3a7a30bfa834fdd49d2d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:31 +0000
Subject: [PATCH 30/35] Let verification name JSON numbers, allocator states
 and hash functions (cfg musli_verif)

---
 crates/musli-zerocopy/src/lib.rs        |   6 +
 crates/musli-zerocopy/src/sip_verif.rs  |  67 +++++++++++
 crates/musli/src/alloc/mod.rs           |   3 +
 crates/musli/src/alloc/slice.rs         | 141 ++++++++++++++++++++++++
 crates/musli/src/json/mod.rs            |   7 ++
 crates/musli/src/json/parser/integer.rs |  41 +++++++
 crates/musli/src/json/parser/mod.rs     |   6 +
 crates/musli/src/json/parser/parser.rs  |   6 +
 8 files changed, 277 insertions(+)
 create mode 100644 crates/musli-zerocopy/src/sip_verif.rs

diff --git a/crates/musli-zerocopy/src/lib.rs b/crates/musli-zerocopy/src/lib.rs
index 9dd7d3b..e75a0b1 100644
--- a/crates/musli-zerocopy/src/lib.rs
+++ b/crates/musli-zerocopy/src/lib.rs
@@ -563,7 +563,13 @@ pub type Result<T, E = Error> = core::result::Result<T, E>;
 pub use self::traits::{UnsizedZeroCopy, ZeroCopy, ZeroSized};
 mod traits;
 
+#[cfg(not(musli_verif))]
 pub(crate) mod sip;
+#[cfg(musli_verif)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+#[path = "sip_verif.rs"]
+pub mod sip;
 
 pub mod phf;
 pub mod swiss;
diff --git a/crates/musli-zerocopy/src/sip_verif.rs b/crates/musli-zerocopy/src/sip_verif.rs
new file mode 100644
index 0000000..76f767f
--- /dev/null
+++ b/crates/musli-zerocopy/src/sip_verif.rs
@@ -0,0 +1,67 @@
+// Stands in for the hash function when verifying (cfg musli_verif): what is
+// stored and looked up must not depend on which function it is, so harnesses
+// get to choose it.
+
+use core::hash;
+
+#[derive(Debug, Clone, Copy, Default)]
+pub struct Hash128 {
+    pub h1: u64,
+    pub h2: u64,
+}
+
+#[derive(Debug, Clone, Copy)]
+pub struct SipHasher13 {
+    seed: u64,
+    value: u64,
+}
+
+/// The hash function used: of the seed and the last number written.
+pub static mut HASH: fn(u64, u64) -> (u64, u64) = |_, value| (value, value);
+
+/// Call the hash function.
+pub fn verif_hash(seed: u64, value: u64) -> (u64, u64) {
+    // SAFETY: only ever written by harnesses, which are single-threaded.
+    unsafe { HASH(seed, value) }
+}
+
+pub(crate) trait Hasher128 {
+    fn finish128(&self) -> Hash128;
+}
+
+impl SipHasher13 {
+    pub(crate) fn new_with_keys(_: u64, seed: u64) -> Self {
+        Self { seed, value: 0 }
+    }
+}
+
+impl Hasher128 for SipHasher13 {
+    fn finish128(&self) -> Hash128 {
+        let (h1, h2) = verif_hash(self.seed, self.value);
+        Hash128 { h1, h2 }
+    }
+}
+
+impl hash::Hasher for SipHasher13 {
+    fn write(&mut self, bytes: &[u8]) {
+        for b in bytes {
+            self.value = self.value << 8 | *b as u64;
+        }
+    }
+
+    fn finish(&self) -> u64 {
+        verif_hash(self.seed, self.value).0
+    }
+
+    fn write_u8(&mut self, value: u8) {
+        self.value = value as u64;
+    }
+
+    fn write_u32(&mut self, value: u32) {
+        self.value = value as u64;
+    }
+
+    fn write_u64(&mut self, value: u64) {
+        self.value = value;
+    }
+}
diff --git a/crates/musli/src/alloc/mod.rs b/crates/musli/src/alloc/mod.rs
index 43b5589..d0c3b73 100644
--- a/crates/musli/src/alloc/mod.rs
+++ b/crates/musli/src/alloc/mod.rs
@@ -94,6 +94,9 @@ pub use musli_core::alloc::{System, SystemAlloc};
 
 mod slice;
 #[doc(inline)]
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::slice::verif as verif_slice;
 pub use self::slice::{Slice, SliceAlloc};
 
 mod array_buffer;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 0084674..a067d18 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -899,3 +899,144 @@ impl Header {
         self.range.start.align_offset(align) == 0
     }
 }
+
+/// Lets verification harnesses start from any state of the allocator, rather
+/// than only from those a bounded number of calls leads to.
+#[cfg(musli_verif)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod verif {
+    use core::cell::UnsafeCell;
+    use core::marker::PhantomData;
+    use core::mem::{size_of, MaybeUninit};
+    use core::num::NonZeroU16;
+
+    use super::{Header, HeaderId, Internal, Range, Slice, SliceAlloc};
+
+    /// The size of a header.
+    pub const HEADER: usize = size_of::<Header>();
+
+    /// The state outside of headers. Zero stands for no header.
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub struct State {
+        pub free_head: u16,
+        pub tail: u16,
+        pub occupied: u16,
+        pub full: (*mut u8, *mut u8),
+        pub free: (*mut u8, *mut u8),
+    }
+
+    /// The state of a header.
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub struct Region {
+        pub range: (*mut u8, *mut u8),
+        pub prev: u16,
+        pub next: u16,
+    }
+
+    fn id(id: u16) -> Option<HeaderId> {
+        Some(HeaderId(NonZeroU16::new(id)?))
+    }
+
+    fn get(id: Option<HeaderId>) -> u16 {
+        id.map_or(0, |id| id.0.get())
+    }
+
+    fn range((start, end): (*mut u8, *mut u8)) -> Range {
+        Range {
+            start: start.cast::<MaybeUninit<u8>>(),
+            end: end.cast::<MaybeUninit<u8>>(),
+        }
+    }
+
+    fn pair(range: Range) -> (*mut u8, *mut u8) {
+        (range.start.cast(), range.end.cast())
+    }
+
+    impl Slice<'_> {
+        pub fn verif_state(&self) -> State {
+            let i = unsafe { &*self.internal.get() };
+
+            State {
+                free_head: get(i.free_head),
+                tail: get(i.tail),
+                occupied: get(i.occupied),
+                full: pair(i.full),
+                free: pair(i.free),
+            }
+        }
+
+        /// # Safety
+        ///
+        /// The state has to be one which the allocator gets into.
+        pub unsafe fn verif_set_state(&self, state: State) {
+            *self.internal.get() = Internal {
+                free_head: id(state.free_head),
+                tail: id(state.tail),
+                occupied: id(state.occupied),
+                full: range(state.full),
+                free: range(state.free),
+            };
+        }
+
+        /// # Safety
+        ///
+        /// The header has to exist.
+        pub unsafe fn verif_region(&self, at: u16) -> Region {
+            let h = &*(*self.internal.get())
+                .full
+                .end
+                .cast::<Header>()
+                .wrapping_sub(at as usize);
+
+            Region {
+                range: pair(h.range),
+                prev: get(h.prev),
+                next: get(h.next),
+            }
+        }
+
+        /// # Safety
+        ///
+        /// The header has to exist.
+        pub unsafe fn verif_set_region(&self, at: u16, region: Region) {
+            let h = (*self.internal.get())
+                .full
+                .end
+                .cast::<Header>()
+                .wrapping_sub(at as usize);
+
+            h.write(Header {
+                range: range(region.range),
+                prev: id(region.prev),
+                next: id(region.next),
+            });
+        }
+
+        /// # Safety
+        ///
+        /// The region has to exist, and be owned by no one else.
+        pub unsafe fn verif_alloc<T>(&self, at: u16, cap: usize) -> SliceAlloc<'_, T> {
+            let internal: &UnsafeCell<Internal> = &self.internal;
+
+            SliceAlloc {
+                region: id(at),
+                internal: Some(internal),
+                cap,
+                _marker: PhantomData,
+            }
+        }
+    }
+
+    impl<T> SliceAlloc<'_, T> {
+        /// The region this owns.
+        pub fn verif_id(&self) -> u16 {
+            get(self.region)
+        }
+
+        /// The locally known capacity.
+        pub fn verif_cap(&self) -> usize {
+            self.cap
+        }
+    }
+}
diff --git a/crates/musli/src/json/mod.rs b/crates/musli/src/json/mod.rs
index a26531c..2062fcc 100644
--- a/crates/musli/src/json/mod.rs
+++ b/crates/musli/src/json/mod.rs
@@ -72,3 +72,10 @@ pub use self::encoding::{to_string, to_vec};
 #[doc(inline)]
 pub use self::error::Error;
 pub use self::parser::Parser;
+
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::parser::integer::verif as verif_integer;
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::parser::{VerifSealed, VerifStringReference, VerifToken};
diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 00554b3..51cae97 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -951,3 +951,44 @@ mod traits {
         powf!(f64, powf64);
     }
 }
+
+/// Lets verification harnesses name what computes the value of a number.
+#[cfg(musli_verif)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod verif {
+    use super::{traits, Mantissa, Parts, SignedPartsFull};
+
+    /// The value of `base.m * 10 ** e`, where `m` has `exp` digits.
+    #[allow(private_bounds)]
+    pub fn unsigned<T>(base: T, m: T, exp: i32, e: i32) -> Option<T>
+    where
+        T: traits::Unsigned,
+    {
+        let m = Mantissa { value: m, exp };
+        Parts { base, m, e }.compute().ok()
+    }
+
+    /// As [`unsigned`], with a sign.
+    #[allow(private_bounds)]
+    pub fn signed<T>(
+        is_negative: bool,
+        base: T::Unsigned,
+        m: T::Unsigned,
+        exp: i32,
+        e: i32,
+    ) -> Option<T>
+    where
+        T: traits::Signed,
+    {
+        let m = Mantissa { value: m, exp };
+        let unsigned = Parts { base, m, e };
+
+        let parts = SignedPartsFull {
+            is_negative,
+            unsigned,
+        };
+
+        parts.compute().ok()
+    }
+}
diff --git a/crates/musli/src/json/parser/mod.rs b/crates/musli/src/json/parser/mod.rs
index 6180620..d4bef47 100644
--- a/crates/musli/src/json/parser/mod.rs
+++ b/crates/musli/src/json/parser/mod.rs
@@ -12,6 +12,8 @@ pub use self::into_parser::IntoParser;
 
 mod parser;
 pub use self::parser::Parser;
+#[cfg(musli_verif)]
+pub use self::parser::VerifSealed;
 
 mod slice_parser;
 pub(crate) use self::slice_parser::SliceParser;
@@ -21,6 +23,10 @@ pub(crate) use self::mut_slice_parser::MutSliceParser;
 
 pub(crate) mod string;
 pub(crate) use self::string::StringReference;
+#[cfg(musli_verif)]
+pub use self::string::StringReference as VerifStringReference;
 
 mod token;
 pub(crate) use self::token::Token;
+#[cfg(musli_verif)]
+pub use self::token::Token as VerifToken;
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..01e25e8 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -4,6 +4,7 @@ use crate::json::parser::integer::decode_signed_full;
 use crate::json::parser::{StringReference, Token};
 use crate::Context;
 
+#[cfg_attr(musli_verif, allow(missing_docs))]
 mod private {
     pub trait Sealed {}
     impl Sealed for crate::json::parser::SliceParser<'_> {}
@@ -11,6 +12,11 @@ mod private {
     impl<'de, R> Sealed for &mut R where R: ?Sized + super::Parser<'de> {}
 }
 
+// Lets verification harnesses parse from the contract of a parser.
+#[cfg(musli_verif)]
+#[doc(hidden)]
+pub use self::private::Sealed as VerifSealed;
+
 /// Trait governing how JSON is parsed depending on the kind of buffer provided.
 pub trait Parser<'de>: private::Sealed {
     /// Reborrowed type.
-- 
2.43.0


From 18a90befd18f135d871600dbeca8ceec43262fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 31/35] Let verification name JSON escapes and allocator memory
 (cfg musli_verif)

---
 crates/musli/src/alloc/slice.rs         | 32 +++++++++++++++++++
 crates/musli/src/json/mod.rs            |  3 ++
 crates/musli/src/json/parser/integer.rs | 11 ++-----
 crates/musli/src/json/parser/string.rs  | 41 +++++++++++++++++++++++++
 4 files changed, 79 insertions(+), 8 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index a067d18..4aee4e0 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -913,6 +913,38 @@ pub mod verif {
 
     use super::{Header, HeaderId, Internal, Range, Slice, SliceAlloc};
 
+    /// Memory with room for headers at its end, and around it what pointers
+    /// outside of it point to.
+    #[repr(C, align(16))]
+    pub struct Memory<const D: usize, const H: usize, const B: usize> {
+        front: MaybeUninit<[u8; 32]>,
+        data: [u8; D],
+        headers: MaybeUninit<[Header; H]>,
+        back: MaybeUninit<[u8; B]>,
+    }
+
+    impl<const D: usize, const H: usize, const B: usize> Memory<D, H, B> {
+        pub fn new(data: [u8; D]) -> Self {
+            Self {
+                front: MaybeUninit::uninit(),
+                data,
+                headers: MaybeUninit::uninit(),
+                back: MaybeUninit::uninit(),
+            }
+        }
+
+        /// Where the data begins.
+        pub fn base(&mut self) -> *mut u8 {
+            let this: *mut Self = self;
+            unsafe { core::ptr::addr_of_mut!((*this).data).cast() }
+        }
+
+        /// All of it but the headers.
+        pub fn data(&mut self) -> &mut [u8] {
+            &mut self.data
+        }
+    }
+
     /// The size of a header.
     pub const HEADER: usize = size_of::<Header>();
 
diff --git a/crates/musli/src/json/mod.rs b/crates/musli/src/json/mod.rs
index 2062fcc..2ee11bd 100644
--- a/crates/musli/src/json/mod.rs
+++ b/crates/musli/src/json/mod.rs
@@ -78,4 +78,7 @@ pub use self::parser::Parser;
 pub use self::parser::integer::verif as verif_integer;
 #[cfg(musli_verif)]
 #[doc(hidden)]
+pub use self::parser::string::verif as verif_string;
+#[cfg(musli_verif)]
+#[doc(hidden)]
 pub use self::parser::{VerifSealed, VerifStringReference, VerifToken};
diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 51cae97..0070908 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -971,15 +971,10 @@ pub mod verif {
 
     /// As [`unsigned`], with a sign.
     #[allow(private_bounds)]
-    pub fn signed<T>(
-        is_negative: bool,
-        base: T::Unsigned,
-        m: T::Unsigned,
-        exp: i32,
-        e: i32,
-    ) -> Option<T>
+    pub fn signed<T, U>(is_negative: bool, base: U, m: U, exp: i32, e: i32) -> Option<T>
     where
-        T: traits::Signed,
+        T: traits::Signed<Unsigned = U>,
+        U: traits::Unsigned,
     {
         let m = Mantissa { value: m, exp };
         let unsigned = Parts { base, m, e };
diff --git a/crates/musli/src/json/parser/string.rs b/crates/musli/src/json/parser/string.rs
index 16b3c86..da8eb72 100644
--- a/crates/musli/src/json/parser/string.rs
+++ b/crates/musli/src/json/parser/string.rs
@@ -445,3 +445,44 @@ pub(crate) fn decode_hex_val(val: u8) -> Option<u16> {
         Some(n)
     }
 }
+
+/// Lets verification harnesses name how escapes are parsed.
+#[cfg(musli_verif)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod verif {
+    use super::SliceAccess;
+    use crate::alloc::Vec;
+    use crate::Context;
+
+    /// The escape in `slice` at `index`, and where it ends.
+    pub fn parse_escape<C>(
+        cx: C,
+        slice: &[u8],
+        index: usize,
+        validate: bool,
+        scratch: &mut Vec<u8, C::Allocator>,
+    ) -> (Result<bool, C::Error>, usize)
+    where
+        C: Context,
+    {
+        let mut access = SliceAccess::new(cx, slice, index);
+        let out = access.parse_escape(validate, scratch);
+        (out, access.index)
+    }
+
+    /// As [`parse_escape`], without what it stands for.
+    pub fn skip_escape<C>(
+        cx: C,
+        slice: &[u8],
+        index: usize,
+        validate: bool,
+    ) -> (Result<(), C::Error>, usize)
+    where
+        C: Context,
+    {
+        let mut access = SliceAccess::new(cx, slice, index);
+        let out = access.skip_escape(validate);
+        (out, access.index)
+    }
+}
-- 
2.43.0


From 80e1485210734e63eed5f9601e82eea5dbf81130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 32/35] fix: refuse JSON arrays longer than the byte array
 being decoded instead of panicking

---
 crates/musli/src/json/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..c23585b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
+                if index < N {
                     bytes[index] = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From 75622073124026915e4caaf9912bef44ee7123c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:54 +0000
Subject: [PATCH 33/35] Let verification name how JSON strings are parsed (cfg
 musli_verif)

---
 crates/musli/src/json/parser/string.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/parser/string.rs b/crates/musli/src/json/parser/string.rs
index da8eb72..dcae6d6 100644
--- a/crates/musli/src/json/parser/string.rs
+++ b/crates/musli/src/json/parser/string.rs
@@ -451,7 +451,7 @@ pub(crate) fn decode_hex_val(val: u8) -> Option<u16> {
 #[allow(missing_docs)]
 #[doc(hidden)]
 pub mod verif {
-    use super::SliceAccess;
+    use super::{SliceAccess, StringReference};
     use crate::alloc::Vec;
     use crate::Context;
 
@@ -471,6 +471,23 @@ pub mod verif {
         (out, access.index)
     }
 
+    /// The string in `slice` behind its quote at `index`, and where it ends.
+    pub fn parse_string<'de, 'scratch, C>(
+        cx: C,
+        slice: &'de [u8],
+        index: usize,
+        validate: bool,
+        scratch: &'scratch mut Vec<u8, C::Allocator>,
+    ) -> (Result<StringReference<'de, 'scratch>, C::Error>, usize)
+    where
+        C: Context,
+    {
+        let start = cx.mark();
+        let mut access = SliceAccess::new(cx, slice, index);
+        let out = access.parse_string(validate, &start, scratch);
+        (out, access.index)
+    }
+
     /// As [`parse_escape`], without what it stands for.
     pub fn skip_escape<C>(
         cx: C,
-- 
2.43.0


From 7c61fef8bbe65f539d3785cdf98ae071974411cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:33 +0000
Subject: [PATCH 34/35] fix: keep empty values when encoding into a dynamic
 value

---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From 47662d93b557b19351646a3112e570a974fc4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:45 +0000
Subject: [PATCH 35/35] Let verification encode dynamic values with its own
 context (cfg musli_verif)

---
 crates/musli/src/value/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/musli/src/value/mod.rs b/crates/musli/src/value/mod.rs
index 7b1e50e..acc61c8 100644
--- a/crates/musli/src/value/mod.rs
+++ b/crates/musli/src/value/mod.rs
@@ -53,6 +53,21 @@ where
     Ok(output)
 }
 
+/// Encode into a [Value] with a custom context.
+#[cfg(all(musli_verif, feature = "alloc"))]
+#[doc(hidden)]
+pub fn verif_encode_with<C, T>(cx: C, value: T) -> Result<Value<C::Allocator>, C::Error>
+where
+    C: crate::Context,
+    T: Encode<Binary>,
+{
+    use crate::en::Encoder;
+
+    let mut output = Value::Unit;
+    ValueEncoder::<OPTIONS, _, _, Binary>::new(cx, &mut output).encode(value)?;
+    Ok(output)
+}
+
 /// Decode a [Value] into a type which implements [Decode] in the [`Binary`]
 /// mode.
 #[cfg(feature = "alloc")]
-- 
2.43.0

