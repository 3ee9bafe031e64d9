From 14d19c99c97b21dace0f60452db63e3c50a4cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 1/3] sim: hook letting a simulator hide CPU features (cfg
 baokeshed_sim, off by default)

---
 src/lib.rs |  7 +++++++
 src/sim.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 10a3798..8af0ea7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,12 +25,19 @@
 //!
 //! - [GitHub repo](https://github.com/oconnor663/baokeshed)
 
+// For cfg(baokeshed_sim), which isn't a Cargo feature. See sim.rs.
+#![allow(unknown_lints, unexpected_cfgs)]
+
 use arrayref::{array_mut_ref, array_ref, array_refs, mut_array_refs};
 use arrayvec::{ArrayString, ArrayVec};
 use core::cmp;
 use core::fmt;
 use platform::{Platform, MAX_SIMD_DEGREE_OR_2};
 
+#[cfg(baokeshed_sim)]
+#[macro_use]
+mod sim;
+
 pub mod copy;
 mod platform;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..a1c2d43
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,30 @@
+//! Simulation hook, compiled only with `--cfg baokeshed_sim`. Regular builds
+//! don't contain this module.
+//!
+//! The simulator decides which CPU features run-time detection can see, so
+//! that every implementation the CPU is able to run can be exercised on one
+//! machine. Features the CPU doesn't have are never reported.
+
+extern "C" {
+    // Provided by the simulator: 0 hides every SIMD feature, 1 shows up to
+    // SSE4.2, 2 shows up to AVX2, anything else hides nothing.
+    fn baokeshed_sim_cpu_level() -> u8;
+}
+
+pub(crate) fn feature_visible(feature: &str) -> bool {
+    let needed_level = if feature.starts_with("avx512") {
+        3
+    } else if feature.starts_with("avx") || feature == "fma" {
+        2
+    } else {
+        1
+    };
+    unsafe { baokeshed_sim_cpu_level() >= needed_level }
+}
+
+// Shadows the standard macro in the rest of the crate.
+macro_rules! is_x86_feature_detected {
+    ($feature:tt) => {
+        crate::sim::feature_visible($feature) && std::is_x86_feature_detected!($feature)
+    };
+}
-- 
2.43.0


From 2438e5430e93c83bb9a720eede54544ba40c3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 2/3] fix: don't overflow when --length is 2^63 or more

print_hex counted hex digits, and doubling the requested number of bytes
overflowed: release builds printed a truncated digest (nothing at all for
2^63) and exited successfully, debug builds panicked. Count bytes instead.
---
 baokeshed_bin/src/main.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..e38de5a 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,18 +71,19 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
-    while hex_bytes_remaining > 0 {
+    // Count in bytes. Twice a u64 number of bytes could overflow.
+    let mut bytes_remaining = byte_length;
+    while bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
-        print!("{}", &hex1[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex1[..2 * take as usize]);
+        bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
-        print!("{}", &hex2[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex2[..2 * take as usize]);
+        bytes_remaining -= take;
     }
 }
 
-- 
2.43.0


From 2891f4a4bfebb817dda6a978cb976fb5f9c30a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 3/3] fix: make room in the Rust view of the C hasher for its
 whole subtree stack

The C hasher has space for MAX_DEPTH (53) subtree hashes, but the Rust
struct that callers allocate for it only had space for 52.
---
 src/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.rs b/src/c.rs
index 23cda5b..a1ce9d8 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -25,7 +25,7 @@ pub struct ChunkState {
 pub struct Hasher {
     chunk: ChunkState,
     subtree_hashes_len: u8,
-    subtree_hashes: [u8; 1664usize],
+    subtree_hashes: [u8; 1696usize],
 }
 
 impl Hasher {
-- 
2.43.0

