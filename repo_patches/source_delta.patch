From a70ae56b8716e066d3b5230eea31973a4bb82311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 01/32] fix: wrap program counter, stack and address arithmetic
 at 16 bits

Executing at 0xffff, pushing at the bottom of the address space, or
adding a register and an offset past 0xffff panicked in debug builds.
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..a7c626f 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -473,7 +473,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = self.cpu.program_counter.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -491,7 +491,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -500,7 +500,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -515,24 +515,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From 02af76f2b1c1cf1d1e73f6c917c0cb029dda87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 02/32] fix: shift by the operand width or more no longer
 panics

The amount is taken modulo the operand width, which is what release
builds already did.
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 587fb72d65077f3f6441414a773b91d2b878eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 03/32] fix: set the dirty flag on the page table entry it
 belongs to

When only the second level entry was clean, its flag byte was written
over the first level entry instead.
---
 src/blf4/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index a7c626f..9c4ae21 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
+            let dirty_iter = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
 
             for (addr, undirty_byte) in dirty_iter {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From aa4fb50488b543458f13f9f849ad3d63df8a59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 04/32] fix: deliver traps raised while fetching the opcode to
 the trap handler

A page fault on the first byte of an instruction was returned to the
caller even though a trap handler was installed.
---
 src/blf4/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 9c4ae21..4cfea3f 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,10 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
-
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match ctx
+            .fetch()
+            .and_then(|opcode| OP_HANDLERS[opcode as usize](&mut ctx))
+        {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 4172a863d1d0c9691ca7568edcb0c26e19b4531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 05/32] fix: save the interrupted flags and program counter on
 a trap

The flags were pushed after the processor had already switched to
supervisor mode and the program counter was not pushed at all, so reth
stayed in supervisor mode and could not continue the interrupted program.
---
 src/blf4/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 4cfea3f..3bd5dd4 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -240,12 +240,13 @@ impl Cpu for Blf4 {
         {
             Ok(()) => (),
             Err(tm) => {
+                let interrupted_flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(interrupted_flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -538,8 +539,9 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(flags.into())?;
+        self.pushw(self.cpu.program_counter)?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
@@ -553,6 +555,7 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
+        self.cpu.program_counter = self.popw()?;
         self.cpu.flags = self.popw()?.into();
 
         Ok(())
-- 
2.43.0


From 608b688808005368afac6b15af43ac958fddb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 06/32] fix: align_end no longer overflows on aligned addresses
 in the last block

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4a1b64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr & !mask) + alignment
     }
 }
 
-- 
2.43.0


From b684e0368bae2f0ce3ac4a2ab29045b085a420f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 07/32] fix: ROM images smaller than the ROM no longer panic

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From f489d9868be5babdef7de4d0d7adc54bfdd3344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 08/32] hook: expose the emulated kernel under --cfg telsym

---
 src/blf4/mod.rs | 4 ++++
 src/lib.rs      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 3bd5dd4..e7ca694 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -11,7 +11,11 @@ use crate::{
 pub mod isa;
 
 mod register_type;
+#[cfg(not(telsym))]
 mod std_kernel;
+/// Public only for the verification harness (`--cfg telsym`)
+#[cfg(telsym)]
+pub mod std_kernel;
 
 pub use self::register_type::*;
 use isa::OP_HANDLERS;
diff --git a/src/lib.rs b/src/lib.rs
index 4a1b64e..90c1559 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod aalv;
 pub mod blf4;
 pub mod disassemble;
-- 
2.43.0


From 786053e6d6a567a768defad8307ab6486598390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 09/32] fix: map the whole heap when its segment has contents

---
 src/blf4/std_kernel/load_user_binary.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..386411c 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                // the heap starts with the segment's bytes
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = heap_size.saturating_add(offset - heap);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From d56ab5132d2e3716ab841e82491a991f99a0add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 10/32] fix: load segments that end at the end of the address
 space

---
 src/blf4/std_kernel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..361bd34 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,10 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        let range = start_vpage as u32..offset as u32 + bytes.len() as u32;
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            // nothing to map beyond the address space
+            let Ok(vaddr) = u16::try_from(vaddr) else { break };
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From 8f604e5495e0833d035b91c46eabe9681ccca16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 11/32] fix: reject instructions with too many operands

---
 src/source/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..26afed9 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -963,6 +963,7 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
@@ -975,6 +976,7 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
@@ -986,6 +988,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -998,6 +1001,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
@@ -1012,6 +1016,7 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmByte(reg1, imm, reg2))
     }
     fn parse_wide_imm_wide<'a>(
@@ -1022,47 +1027,56 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmWide(reg1, imm, reg2))
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1071,7 +1085,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1086,7 +1100,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From 654d810fe5b73c8492af9557886fe45fce299705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 12/32] fix: reject incomplete and malformed \x escapes

---
 src/source/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 26afed9..717ae94 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -315,11 +315,17 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\\' => (b'\\', &s[2..]),
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
-            b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
-                &s[4..],
-            ),
+            b'x' => {
+                let hex = s.get(2..4).ok_or(InvalidEscapeSequence)?;
+                if !hex.iter().all(u8::is_ascii_hexdigit) {
+                    return Err(InvalidEscapeSequence);
+                }
+                (
+                    u8::from_str_radix(String::from_utf8_lossy(hex).as_ref(), 16)
+                        .map_err(|_| InvalidEscapeSequence)?,
+                    &s[4..],
+                )
+            }
             c => return Err(InvalidEscapeCharacter(*c)),
         },
         &c => (c, &s[1..]),
-- 
2.43.0


From 2eccd3057d2726d65b890f80dbe9bdc9cce3d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 13/32] fix: give labels in empty segments an address and
 reject them outside segments

---
 src/source/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 717ae94..b6afa6d 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -379,8 +379,9 @@ impl ProcessState {
             entry: None,
         }
     }
-    fn get_size(&self, st: SegmentType) -> u16 {
-        self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
+    fn get_size(&mut self, st: SegmentType) -> u16 {
+        // an empty segment has to exist too for its labels to have an address
+        self.dls.entry(st).or_default().size
     }
     fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
         let dls = self.dls.entry(st).or_default();
-- 
2.43.0


From 678b4bdbd31943ef3856e5f6dccd4d23537a5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 14/32] fix: report programs too big for memory instead of
 overflowing

---
 src/source/mod.rs | 49 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index b6afa6d..2a5b08a 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -9,7 +9,6 @@ use std::{
 use crate::{
     aalv::obj::Entry,
     aalv::obj::SegmentType,
-    align_end,
     blf4::{ByteRegister as BReg, WideRegister as WReg, *},
     PAGE_SIZE, U4,
 };
@@ -383,10 +382,17 @@ impl ProcessState {
         // an empty segment has to exist too for its labels to have an address
         self.dls.entry(st).or_default().size
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
         let dls = self.dls.entry(st).or_default();
+        dls.size = u16::try_from(dls.size as usize + size)
+            .map_err(|_| ErrorType::Other(format!("segment {st} is too big").into_boxed_str()))?;
         dls.lines.push(line);
-        dls.size += size;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -403,10 +409,22 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let ProcessState { mut dls, entry } = state;
 
-    let mut last_end = PAGE_SIZE;
+    let mut last_end = PAGE_SIZE as u32;
     for s in dls.values_mut() {
-        s.start = align_end(last_end, PAGE_SIZE);
-        last_end = s.start + s.size;
+        let start = (last_end + PAGE_SIZE as u32 - 1) & !(PAGE_SIZE as u32 - 1);
+        last_end = start + s.size as u32;
+        if last_end > u16::MAX as u32 {
+            add_error_opt(
+                &mut errors,
+                Error::new(
+                    src.clone(),
+                    0,
+                    ErrorType::Other("program does not fit in memory".into()),
+                ),
+            );
+            break;
+        }
+        s.start = start as u16;
     }
 
     let mut labels = Vec::with_capacity(symbols.size());
@@ -528,22 +546,29 @@ fn inner_process<B: BufRead>(
                 state.add_line(
                     *current_segment,
                     DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                    1 + dat_op.size() as usize,
+                )
+                .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From c1fd2e4f70fe34f054dcb28cb39107a8b3e15e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 15/32] fix: stop files including themselves from overflowing
 the stack

---
 src/source/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 2a5b08a..7295eb2 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -366,9 +366,15 @@ pub struct DataLineSegment {
     pub start: u16,
 }
 
+/// How deeply includes may be nested
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 struct ProcessState {
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
+    include_depth: usize,
+    /// Set once a file includes itself, no further files are included then
+    include_too_deep: bool,
 }
 
 impl ProcessState {
@@ -376,6 +382,8 @@ impl ProcessState {
         Self {
             dls: BTreeMap::new(),
             entry: None,
+            include_depth: 0,
+            include_too_deep: false,
         }
     }
     fn get_size(&mut self, st: SegmentType) -> u16 {
@@ -407,7 +415,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE as u32;
     for s in dls.values_mut() {
@@ -580,8 +588,20 @@ fn inner_process<B: BufRead>(
                     &pth_buf
                 };
 
+                state.include_too_deep |= state.include_depth >= MAX_INCLUDE_DEPTH;
+                if state.include_too_deep {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other("includes are nested too deeply".into()),
+                    ));
+                }
+
                 let lines = SourceLines::new(path)?;
-                if let Some(e) = inner_process(lines, state, symbols) {
+                state.include_depth += 1;
+                let errors = inner_process(lines, state, symbols);
+                state.include_depth -= 1;
+                if let Some(e) = errors {
                     return Err(e);
                 }
             }
-- 
2.43.0


From 5e1665bb09fa66a1185c6d09a3a20c2062881672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 16/32] fix: put relocations of wide label directives at the
 reference

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From a53bdb318fd12a247a78a727d78e3e723b7098fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 17/32] fix: give the stack size section its own name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 089a6203f2577a5eacfb010d6a90e9b56bd1f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 18/32] fix: report unexpected and duplicate sections instead
 of panicking

---
 src/aalv/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..e15942c 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
-- 
2.43.0


From a444b25f0624c86c012bc0250f26b10b4185fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 19/32] fix: read symbols with an empty name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From 340ff421b9eec854b5c39c41918b5ea48d83e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 20/32] fix: report symbol names which are not UTF-8 instead of
 changing them

---
 src/aalv/obj/sec_impl.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 7efa1b7..9c972c6 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -119,11 +119,12 @@ impl Section for SymbolTable {
             let segment_type = segment_type_from_u8(stype)?;
 
             let is_global = namebuf.first() != Some(&b' ');
-            let name = if is_global {
-                String::from_utf8_lossy(&namebuf).into()
-            } else {
-                String::from_utf8_lossy(&namebuf[1..]).into()
-            };
+            if !is_global {
+                namebuf.remove(0);
+            }
+            let name = String::from_utf8(namebuf)
+                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?
+                .into();
 
             let def = SymbolDefinition {
                 name,
-- 
2.43.0


From 6fcb6789a22a1b4dc427820a404b8f6b0ffe5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 21/32] fix: find the object magic right after a partial match

---
 src/aalv/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..a50b0f0 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -78,20 +78,20 @@ impl<F: BufRead + Seek> AalvReader<F> {
 
     fn read_magic(&mut self) -> Result<()> {
         // Find magic
-        loop {
-            let first_magic_byte = AALV_MAGIC.as_bytes()[0];
-            let mut magic_buf = [0; AALV_MAGIC.len()];
-
-            while first_magic_byte != magic_buf[0] {
-                self.file.read_exact(&mut magic_buf[..1])?;
-            }
-            self.file_offset = self.file.stream_position()? - 1;
-
-            self.file.read_exact(&mut magic_buf[1..])?;
-            if magic_buf == AALV_MAGIC.as_bytes() {
-                break;
+        let magic = AALV_MAGIC.as_bytes();
+        let mut matched = 0;
+        while matched < magic.len() {
+            let mut byte = [0];
+            self.file.read_exact(&mut byte)?;
+
+            if byte[0] == magic[matched] {
+                matched += 1;
+            } else {
+                // the first byte of the magic does not occur again in it
+                matched = (byte[0] == magic[0]) as usize;
             }
         }
+        self.file_offset = self.file.stream_position()? - magic.len() as u64;
 
         Ok(())
     }
-- 
2.43.0


From 6b0b125858d21f9e2372fde2b41bc82c894aa4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 22/32] fix: report malformed sections with bytes left over

---
 src/aalv/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index a50b0f0..febedfa 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -66,11 +66,18 @@ impl<F: BufRead + Seek> AalvReader<F> {
             Err(e) => return Some(Err(e)),
         }
 
-        let read_window = ReadWindow {
+        let mut read_window = ReadWindow {
             reader: &mut self.file,
             length: size as usize,
         };
-        Some(S::read(read_window))
+        let section = S::read(&mut read_window);
+        if section.is_ok() && read_window.length != 0 {
+            return Some(Err(io::Error::new(
+                ErrorKind::InvalidData,
+                format!("section {} is too long", S::NAME),
+            )));
+        }
+        Some(section)
     }
     pub fn remaing_sections(&self) -> impl Iterator<Item = &str> {
         self.sections.iter().map(|(s, _, _)| &**s)
-- 
2.43.0


From f7f50ac721d6e16543a1488ce3497ce2a19aa717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 23/32] fix: refuse to write objects which cannot be
 represented

---
 src/aalv/mod.rs          |  6 ++++++
 src/aalv/obj.rs          | 14 +++++++++-----
 src/aalv/obj/sec_impl.rs |  6 ++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index febedfa..ce5f959 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -214,6 +214,12 @@ impl<F: Write + Seek> AalvWriter<F> {
 
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
+        if length > u16::MAX as usize {
+            return Err(io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too big", S::NAME),
+            ));
+        }
 
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
         self.file.write_all(&(length as u16).to_le_bytes())?;
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index e15942c..1142bf0 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -1,11 +1,11 @@
 use std::{
     collections::BTreeMap,
     fmt::{self, Display},
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, Cursor, Seek, Write},
     path::Path,
 };
 
-use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, Section};
+use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, AalvWriter, Section};
 
 mod sec_impl;
 
@@ -82,8 +82,14 @@ impl Object {
         }
     }
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
+        // Leave the file alone if the object cannot be represented
+        self.write_sections(&mut AalvWriter::new(Cursor::new(Vec::new()), 0)?)?;
+
+        self.write_sections(&mut write_aalv_file_with_offset(path, self.file_offset)?)
+    }
+    fn write_sections<F: Write + Seek>(&self, aalvur: &mut AalvWriter<F>) -> io::Result<()> {
         let Object {
-            file_offset,
+            file_offset: _,
             entry,
             flags,
             stack_size,
@@ -93,8 +99,6 @@ impl Object {
             relocation_table,
         } = self;
 
-        let mut aalvur = write_aalv_file_with_offset(path, *file_offset)?;
-
         if let Some(entry) = entry {
             aalvur.write_section(entry)?;
         }
diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 9c972c6..2059171 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -145,6 +145,12 @@ impl Section for SymbolTable {
             location,
         } in &self.0
         {
+            if name.contains('\0') || is_global && name.starts_with(' ') {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("symbol name {name:?} cannot be represented"),
+                ));
+            }
             write!(writer, "{}{name}\0", if is_global { "" } else { " " })?;
             writer.write_all(&[segment_type as u8])?;
             writer.write_all(&location.to_le_bytes())?;
-- 
2.43.0


From 2fb3b00f5af515bb12994f6bf076c8490078c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 24/32] fix: refuse an undefined symbol as the entry point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..ba9790c 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -296,8 +296,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 2f4b836f9aeea4d499a8ce43d0945e4ce1d6a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 25/32] fix: report linked output too big for memory instead of
 overflowing

---
 src/bin/tl.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index ba9790c..418d81e 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    PAGE_SIZE,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::TooBig => eprintln!("the output does not fit in memory"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +97,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    TooBig,
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,16 +134,20 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                *lengths.entry(stype).or_insert(0) += v.len() as u32;
             }
         }
         let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
-        last_end = last_end.max(PAGE_SIZE);
+        last_end = last_end.max(PAGE_SIZE as u32);
 
+        let alignment = segment_alignment as u32;
         for (st, size) in lengths {
-            let start = align_end(last_end, segment_alignment);
-            segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
+            let start = (last_end + alignment - 1) & !(alignment - 1);
             last_end = start + size;
+            if last_end > u16::MAX as u32 {
+                return Err(Error::TooBig);
+            }
+            segs_out.insert(st, (start as u16, Vec::with_capacity(size as usize)));
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
-- 
2.43.0


From babe5c337cb1fc776e6a6cd0b347d35c85913c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 26/32] fix: report failure of the object dump in its exit code

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..3330db2 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From c640162b6a4fe4b776606a1bf5c36dc3900c6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:52 +0000
Subject: [PATCH 27/32] fix: disassemble all four registers of mul and div

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..c286db7 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -198,10 +198,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => quadop("div", ByteRegister, &mut c, f)?,
+        DIV_W => quadop("div", WideRegister, &mut c, f)?,
+        MUL_B => quadop("mul", ByteRegister, &mut c, f)?,
+        MUL_W => quadop("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -262,6 +262,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn quadop<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From ba6024e24244a3fcacb9c1c83c0a651b93c0f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:52 +0000
Subject: [PATCH 28/32] fix: disassemble instructions which wrap around the
 address space

---
 src/disassemble.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index c286db7..7e544ee 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -214,13 +214,14 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    let length = next_instruction_location.wrapping_sub(addr);
+    for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
     // restore rpc
     c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From b1f4cdff17ddb0e60c84ab0802196a51d197d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:53 +0000
Subject: [PATCH 29/32] fix: disassemble immediates unambiguously

---
 src/disassemble.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 7e544ee..ec4f5a5 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -299,8 +299,9 @@ impl<'a> Operand<'a> {
 impl Display for Operand<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Self::Byte(b) => write!(f, "0x{b:02x}"),
-            Self::Wide(w) => write!(f, "0x{w:03x}"),
+            // without a suffix a final digit b would be read as one
+            Self::Byte(b) => write!(f, "0x{b:02x}b"),
+            Self::Wide(w) => write!(f, "0x{w:03x}w"),
             Self::Label(l) => l.fmt(f),
         }
     }
-- 
2.43.0


From cd62bd2943eb0fd3ebdc5d9b9f8503e09d5ba6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 30/32] fix: leave the program counter alone when disassembling
 fails

---
 src/disassemble.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index ec4f5a5..b9b1305 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -40,6 +40,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let res = disassemble_at_rpc(machine, label_lookup);
+    // restore rpc
+    machine.cpu.program_counter = addr;
+    res
+}
+
+fn disassemble_at_rpc<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
@@ -218,8 +229,6 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
 
     for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
-- 
2.43.0


From a9a1625011bd521b75620135e3eb6fce704c1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 31/32] fix: keep chained errors in a list so many errors do
 not overflow the stack

---
 src/source/err.rs | 34 ++++++++++++++--------------------
 src/source/mod.rs |  4 ++--
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..29bd5df 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -1,5 +1,6 @@
 use std::error::Error as ErrorTrait;
 use std::fmt::{self, Display};
+use std::{iter, mem};
 pub(super) use std::io::Error as IoError;
 pub(super) use std::result::Result as StdResult;
 
@@ -28,7 +29,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    /// The errors after this one
+    next: Vec<Self>,
 }
 
 impl Error {
@@ -37,18 +39,17 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            next: Vec::new(),
         }
     }
     pub fn chain(mut self, second: Self) -> Self {
         self.chain_mut(second);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
+    fn chain_mut(&mut self, mut second: Self) {
+        let rest = mem::take(&mut second.next);
+        self.next.push(second);
+        self.next.extend(rest);
     }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
@@ -69,16 +70,14 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
-
-        while let Some(e) = cur {
+        for (i, e) in iter::once(self).chain(&self.next).enumerate() {
             let Self {
-                source,
-                ln,
-                error,
-                next,
+                source, ln, error, ..
             } = e;
 
+            if i > 0 {
+                writeln!(f)?;
+            }
             if *ln == 0 {
                 write!(f, "{source}: ")?;
             } else {
@@ -100,11 +99,6 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
-                writeln!(f)?;
-            }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +111,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            next: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 7295eb2..2303c79 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -474,11 +474,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                     Internal => {
                         let e = e
                             .into_iter()
+                            .rev()
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From 3dc040f1b373070ae2bf5a531a4f8f7af5aedd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 32/32] fix: dumping relocations of an instruction at the end
 of the address space panicked

---
 src/bin/tobjdump.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 3330db2..3d6868f 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -250,8 +250,13 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
-                    println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
+                // the instruction may end at or wrap around the end of the address space
+                let length = next_instruction_location.wrapping_sub(location);
+                for i in 0..length {
+                    let loc = location.wrapping_add(i);
+                    if let Some(&sym) = relocs.get(&loc) {
+                        println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
+                    }
                 }
             }
             println!("{}", annotated_source);
-- 
2.43.0

