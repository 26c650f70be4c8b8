From 5eedc945742ef0e988e88ce90052e825bf457318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 1/9] verif hook: mid-stream hasher states and forced platform,
 behind cfg flags

---
 src/lib.rs      | 64 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/platform.rs | 11 +++++++++
 2 files changed, 75 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 10a3798..a594321 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1001,3 +1001,67 @@ impl std::io::Write for Hasher {
         Ok(())
     }
 }
+
+// Mid-stream states for the external verification tooling. Not part of the
+// crate unless it's built with `--cfg baokeshed_verif`.
+#[cfg(baokeshed_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    pub struct Parts {
+        pub subtree_hashes: [[u8; OUT_LEN]; MAX_DEPTH],
+        pub num_subtrees: usize,
+        pub key: [Word; 8],
+        pub cv: [Word; 8],
+        pub offset: u64,
+        pub count: u64,
+        pub buf: [u8; BLOCK_LEN],
+        pub buf_len: u8,
+        pub flags: u8,
+    }
+
+    pub fn hasher_from_parts(
+        subtree_hashes: &[[u8; OUT_LEN]],
+        key: &[Word; 8],
+        cv: &[Word; 8],
+        offset: u64,
+        count: u64,
+        buf: &[u8; BLOCK_LEN],
+        buf_len: u8,
+        flags: u8,
+    ) -> Hasher {
+        let mut hasher = Hasher::new_internal(key, Flags::from_bits_truncate(flags));
+        for hash in subtree_hashes {
+            hasher.subtree_hashes.push(*hash);
+        }
+        hasher.chunk.cv = *cv;
+        hasher.chunk.offset = offset;
+        hasher.chunk.count = count as _;
+        hasher.chunk.buf = *buf;
+        hasher.chunk.buf_len = buf_len;
+        hasher
+    }
+
+    pub fn hasher_parts(hasher: &Hasher) -> Parts {
+        let mut parts = Parts {
+            subtree_hashes: [[0; OUT_LEN]; MAX_DEPTH],
+            num_subtrees: hasher.subtree_hashes.len(),
+            key: hasher.chunk.key,
+            cv: hasher.chunk.cv,
+            offset: hasher.chunk.offset,
+            count: hasher.chunk.count as u64,
+            buf: hasher.chunk.buf,
+            buf_len: hasher.chunk.buf_len,
+            flags: hasher.chunk.flags.bits(),
+        };
+        for (i, hash) in hasher.subtree_hashes.iter().enumerate() {
+            parts.subtree_hashes[i] = *hash;
+        }
+        parts
+    }
+
+    pub fn output_seek(output: &mut Output, offset: u64) {
+        output.offset = offset;
+    }
+}
diff --git a/src/platform.rs b/src/platform.rs
index 3409a7e..d7aaa7a 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -28,6 +28,17 @@ pub enum Platform {
 
 impl Platform {
     pub fn detect() -> Self {
+        // For the external verification tooling only: replaying a finding on a
+        // platform less capable than the machine at hand.
+        #[cfg(baokeshed_verif_native)]
+        {
+            match std::env::var("BAOKESHED_VERIF_PLATFORM").as_deref() {
+                Ok("0") => return Platform::Portable,
+                #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+                Ok("1") => return Platform::SSE41,
+                _ => {}
+            }
+        }
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
             if is_x86_feature_detected!("avx2") {
-- 
2.43.0


From f5268b9be05899eb5de6a5232f9177fc0da6fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 2/9] verif hook: do not depend on the width of buf_len

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a594321..6d79888 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1039,7 +1039,7 @@ pub mod verif {
         hasher.chunk.offset = offset;
         hasher.chunk.count = count as _;
         hasher.chunk.buf = *buf;
-        hasher.chunk.buf_len = buf_len;
+        hasher.chunk.buf_len = buf_len as _;
         hasher
     }
 
@@ -1052,7 +1052,7 @@ pub mod verif {
             offset: hasher.chunk.offset,
             count: hasher.chunk.count as u64,
             buf: hasher.chunk.buf,
-            buf_len: hasher.chunk.buf_len,
+            buf_len: hasher.chunk.buf_len as u8,
             flags: hasher.chunk.flags.bits(),
         };
         for (i, hash) in hasher.subtree_hashes.iter().enumerate() {
-- 
2.43.0


From a59af229a577e4fec3fe6122b168e4f815e9e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 3/9] fix: C hasher aborts on inputs over 2^63 bytes

The subtree stack can hold MAX_DEPTH hashes before the lazy merges, so
asserting that there's room has to come after them.
---
 c/baokeshed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..c68e20c 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,11 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  // The stack can be full before these merges, at 2^63 bytes and above.
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0


From 76057214def2e94d98045f9c217c62ff5be42d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 4/9] hook: field positions of the C bindings

---
 src/c.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/c.rs b/src/c.rs
index 23cda5b..481f02d 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -28,6 +28,37 @@ pub struct Hasher {
     subtree_hashes: [u8; 1664usize],
 }
 
+/// The position and size of each field, for comparing with the C side.
+#[cfg(baokeshed_verif)]
+pub fn verif_layout() -> [u64; 20] {
+    use std::mem::offset_of;
+    fn size<T, F>(_: fn(&T) -> &F) -> u64 {
+        std::mem::size_of::<F>() as u64
+    }
+    [
+        offset_of!(Hasher, chunk) as u64,
+        size(|h: &Hasher| &h.chunk),
+        offset_of!(Hasher, subtree_hashes_len) as u64,
+        size(|h: &Hasher| &h.subtree_hashes_len),
+        offset_of!(Hasher, subtree_hashes) as u64,
+        size(|h: &Hasher| &h.subtree_hashes),
+        offset_of!(ChunkState, state) as u64,
+        size(|c: &ChunkState| &c.state),
+        offset_of!(ChunkState, key) as u64,
+        size(|c: &ChunkState| &c.key),
+        offset_of!(ChunkState, offset) as u64,
+        size(|c: &ChunkState| &c.offset),
+        offset_of!(ChunkState, count) as u64,
+        size(|c: &ChunkState| &c.count),
+        offset_of!(ChunkState, buf) as u64,
+        size(|c: &ChunkState| &c.buf),
+        offset_of!(ChunkState, buf_len) as u64,
+        size(|c: &ChunkState| &c.buf_len),
+        offset_of!(ChunkState, flags) as u64,
+        size(|c: &ChunkState| &c.flags),
+    ]
+}
+
 impl Hasher {
     pub fn new(key: &[u8; KEY_LEN], flags: u8) -> Hasher {
         let mut hasher: MaybeUninit<Hasher> = MaybeUninit::uninit();
-- 
2.43.0


From 0b31cf6e27ce1592891d1bbcac5a25023fdacf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 5/9] fix: Rust binding of the C hasher is 32 bytes too small

The C struct holds MAX_DEPTH * OUT_LEN = 53 * 32 = 1696 bytes of subtree
hashes; the binding declared 52 * 32, so the C code wrote past the object
at the deepest stack.
---
 src/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.rs b/src/c.rs
index 481f02d..57322e7 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -25,7 +25,7 @@ pub struct ChunkState {
 pub struct Hasher {
     chunk: ChunkState,
     subtree_hashes_len: u8,
-    subtree_hashes: [u8; 1664usize],
+    subtree_hashes: [u8; 1696usize],
 }
 
 /// The position and size of each field, for comparing with the C side.
-- 
2.43.0


From 7a9e313619cf9825903bc00944ba8c8d0047a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 6/9] verif hook: reference implementation state (cfg
 baokeshed_verif only)

---
 reference_impl/reference_impl.rs | 56 ++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/reference_impl/reference_impl.rs b/reference_impl/reference_impl.rs
index c0b72d3..108109d 100644
--- a/reference_impl/reference_impl.rs
+++ b/reference_impl/reference_impl.rs
@@ -327,3 +327,59 @@ impl Hasher {
         output.root_output_bytes(out_slice);
     }
 }
+
+// Mid-stream states for the external verification tooling. Not part of the
+// crate unless it's built with `--cfg baokeshed_verif`.
+#[cfg(baokeshed_verif)]
+#[doc(hidden)]
+impl Hasher {
+    pub fn verif_new(
+        subtree_stack: &[[u32; 8]; 53],
+        subtree_stack_len: u64,
+        key: &[u32; 8],
+        chaining_value: &[u32; 8],
+        offset: u64,
+        blocks_compressed: u64,
+        block: &[u8; BLOCK_LEN],
+        block_len: u64,
+        flags: u32,
+    ) -> Self {
+        let mut hasher = Self::new_internal(key, flags);
+        hasher.subtree_stack = *subtree_stack;
+        hasher.subtree_stack_len = subtree_stack_len as _;
+        hasher.chunk_state.chaining_value = *chaining_value;
+        hasher.chunk_state.offset = offset;
+        hasher.chunk_state.blocks_compressed = blocks_compressed as _;
+        hasher.chunk_state.block = *block;
+        hasher.chunk_state.block_len = block_len as _;
+        hasher
+    }
+
+    pub fn verif_stack(&self) -> &[[u32; 8]; 53] {
+        &self.subtree_stack
+    }
+
+    pub fn verif_rest(
+        &self,
+    ) -> (
+        u64,
+        [u32; 8],
+        [u32; 8],
+        u64,
+        u64,
+        [u8; BLOCK_LEN],
+        u64,
+        u32,
+    ) {
+        (
+            self.subtree_stack_len as u64,
+            self.key,
+            self.chunk_state.chaining_value,
+            self.chunk_state.offset,
+            self.chunk_state.blocks_compressed as u64,
+            self.chunk_state.block,
+            self.chunk_state.block_len as u64,
+            self.chunk_state.flags,
+        )
+    }
+}
-- 
2.43.0


From 1aa9ed9fbf6a3c34520ca29f1fb78535f066a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 7/9] verif hook: any stack size

---
 reference_impl/reference_impl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reference_impl/reference_impl.rs b/reference_impl/reference_impl.rs
index 108109d..9beffc0 100644
--- a/reference_impl/reference_impl.rs
+++ b/reference_impl/reference_impl.rs
@@ -334,7 +334,7 @@ impl Hasher {
 #[doc(hidden)]
 impl Hasher {
     pub fn verif_new(
-        subtree_stack: &[[u32; 8]; 53],
+        subtree_stack: &[[u32; 8]],
         subtree_stack_len: u64,
         key: &[u32; 8],
         chaining_value: &[u32; 8],
@@ -345,7 +345,9 @@ impl Hasher {
         flags: u32,
     ) -> Self {
         let mut hasher = Self::new_internal(key, flags);
-        hasher.subtree_stack = *subtree_stack;
+        for (to, from) in hasher.subtree_stack.iter_mut().zip(subtree_stack) {
+            *to = *from;
+        }
         hasher.subtree_stack_len = subtree_stack_len as _;
         hasher.chunk_state.chaining_value = *chaining_value;
         hasher.chunk_state.offset = offset;
@@ -355,7 +357,7 @@ impl Hasher {
         hasher
     }
 
-    pub fn verif_stack(&self) -> &[[u32; 8]; 53] {
+    pub fn verif_stack(&self) -> &[[u32; 8]] {
         &self.subtree_stack
     }
 
-- 
2.43.0


From 163367ad413faa84f9ad2bd9c5ee1b745399f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 8/9] fix: print the right number of bytes for lengths of 2^63
 and more

print_hex counted hex digits, and twice the requested length overflows.
---
 baokeshed_bin/src/main.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..c1fc74c 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,18 +71,19 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
-    while hex_bytes_remaining > 0 {
+    // Count bytes rather than hex digits. Twice the length can overflow.
+    let mut bytes_remaining = byte_length;
+    while bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
-        print!("{}", &hex1[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, hash1.len() as u64);
+        print!("{}", &hex1[..2 * take as usize]);
+        bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
-        print!("{}", &hex2[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, hash2.len() as u64);
+        print!("{}", &hex2[..2 * take as usize]);
+        bytes_remaining -= take;
     }
 }
 
-- 
2.43.0


From 77c11545aff56bdfdf807d749f869bbdda85fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 9/9] fix: read input files that can't be mapped

A regular file with a nonzero length might not support mapping (sysfs, for
example). Fall back to reading rather than failing.
---
 baokeshed_bin/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index c1fc74c..db24b17 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -197,8 +197,9 @@ fn maybe_memmap_input(input: &Input) -> Result<Option<memmap::Mmap>> {
         let map = unsafe {
             memmap::MmapOptions::new()
                 .len(metadata.len() as usize)
-                .map(&in_file)?
+                .map(&in_file)
         };
-        Some(map)
+        // Some filesystems (like sysfs) don't support mapping. Fall back to reading.
+        map.ok()
     })
 }
-- 
2.43.0

