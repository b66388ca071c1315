From 869fea3197ac89cb63b79e2dc7f8b36289c12145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 1/9] fix: SoCVendorAttributesIter walks sub-leafs 4..=count
 and ends

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..98bd4f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5892,11 +5892,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From 2ee936d5c1dd1d6de4f3dd33002d6eccda66176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 2/9] fix: CacheParameter::sets does not overflow when all 32
 bits are set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98bd4f0..8832525 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2833,7 +2833,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 7025467b3078a9372555ea98d4b6ee556da253ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 3/9] fix: keep the MAWAU bits of leaf 7 so that mawau_value
 can report them

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8832525..86368dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4131,7 +4131,8 @@ bitflags! {
         /// Bit 16: Supports 57-bit linear addresses and five-level paging if 1.
         const LA57 = 1 << 16;
 
-        // Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        /// Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        const MAWAU = 0b1_1111 << 17;
 
         /// Bit 22: RDPID. RDPID and IA32_TSC_AUX are available if 1.
         const RDPID = 1 << 22;
-- 
2.43.0


From 2f0d92ab4e328835a25558e74a1ba2d5eabc30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 4/9] fix: raw dump includes the last basic, hypervisor and
 extended leaf

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..e108d67 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From 9ecb18002ea2b62910afe6327cb3a9403dfa8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 5/9] fix: markdown reports AMX_INT8 from its own feature bit

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index e108d67..e2795c5 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From 89f105b3ace01e57139f9d0655dd7905087decee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 6/9] fix: CacheInfoIter skips unknown descriptors and invalid
 registers instead of ending or reporting them

---
 src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 86368dc..d7b7837 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1234,19 +1234,19 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        if byte == 0 {
-            self.current += 1;
-            return self.next();
-        }
+        self.current += 1;
 
-        for cache_info in CACHE_INFO_TABLE.iter() {
-            if cache_info.num == byte {
-                self.current += 1;
-                return Some(*cache_info);
+        // Bit 31 of a register is set if it holds no valid descriptors.
+        if byte != 0 && reg & (1 << 31) == 0 {
+            for cache_info in CACHE_INFO_TABLE.iter() {
+                if cache_info.num == byte {
+                    return Some(*cache_info);
+                }
             }
         }
 
-        None
+        // Skip null descriptors and those we do not know.
+        self.next()
     }
 }
 
-- 
2.43.0


From 7d09f3c7b363983c8442b679c1abfb60caedca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 7/9] fix: CACHE_INFO_TABLE lists descriptors 1D, 64, A0 and C4

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d7b7837..bc2bb5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1427,7 +1427,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1484,6 +1484,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1636,6 +1640,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1736,6 +1744,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1780,6 +1792,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From c261a2737e0ef6dbdc9cc469b0dc94a784bb19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 8/9] fix: ExtendedTopologyLevel::level_type does not panic on
 unknown level types

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bc2bb5b..62098fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4450,7 +4450,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // Reserved, or a level type this library does not know.
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From 80ae7adbc93dcbb05da8a75199ef54c01064e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 9/9] fix: display: cache size of the largest leaf 4 entry no
 longer overflows

The product of ways, partitions, line size and sets reaches 2^64, which overflowed
usize: a panic in debug builds and 0 in release builds.
---
 src/display.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index e2795c5..428a798 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -156,6 +156,12 @@ impl RowGen for bool {
     }
 }
 
+impl RowGen for u128 {
+    fn fmt(attr: &Self) -> String {
+        format!("{}", attr)
+    }
+}
+
 impl RowGen for u64 {
     fn fmt(attr: &Self) -> String {
         format!("{}", attr)
@@ -372,10 +378,11 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            // up to 2^64, which is one more than fits in 64 bits
+            let size = cache.associativity() as u128
+                * cache.physical_line_partitions() as u128
+                * cache.coherency_line_size() as u128
+                * cache.sets() as u128;
 
             table2(
                 &skin,
-- 
2.43.0

