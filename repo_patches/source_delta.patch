From 9547c0d9859e19ed1fedba3b7c929acbafeaa3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 01/17] fix: remember the last written page in the assembly
 engine only once it is writable

CHECK_WRITE stored the page number before the bounds and permission checks, so
running a machine again after a failed store let a second store to the same
page skip both checks (host memory corruption, W^X bypass).
---
 src/machine/asm/execute_aarch64.S | 2 +-
 src/machine/asm/execute_x64.S     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..627a119 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -234,7 +234,6 @@
   cmp TEMP1, TEMP2 SEP \
   beq 2f SEP \
 3: \
-  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   ldr TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE] SEP \
   cmp TEMP1, TEMP2 SEP \
   bhs .exit_out_of_bound SEP \
@@ -246,6 +245,7 @@
   bne .exit_invalid_permission SEP \
   orr TEMP2, TEMP2, CKB_VM_ASM_MEMORY_FLAG_DIRTY SEP \
   strb TEMP2w, [TEMP5, TEMP1] SEP \
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   mov TEMP2, TEMP1 SEP \
   lsr TEMP1, TEMP1, CKB_VM_ASM_MEMORY_FRAME_PAGE_SHIFTS SEP \
   ldr TEMP4, =CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FRAMES_PTR SEP \
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..29cdcca 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -272,7 +272,6 @@
   je 2f;\
 3:; \
   movq address_reg, TEMP3; \
-  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE(MACHINE), TEMP2; \
   cmp TEMP2, TEMP1; \
   jae .exit_out_of_bound; \
@@ -284,6 +283,7 @@
   jne .exit_invalid_permission; \
   or $CKB_VM_ASM_MEMORY_FLAG_DIRTY, TEMP2b; \
   movb TEMP2b, (TEMP3, TEMP1); \
+  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq TEMP1, TEMP2; \
   shr $CKB_VM_ASM_MEMORY_FRAME_PAGE_SHIFTS, TEMP1; \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FRAMES_PTR(MACHINE), TEMP3; \
-- 
2.43.0


From de8da42c1732a15cfd9d8924bd34492711d48a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 02/17] fix: decode the RV64-only B instructions (OP-32,
 OP-IMM-32) on RV64 only

A 32-bit machine executed add.uw, rolw, clzw, slli.uw and the like, which are
reserved encodings on RV32.
---
 src/instructions/b.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instructions/b.rs b/src/instructions/b.rs
index 7410c02..8e770c4 100644
--- a/src/instructions/b.rs
+++ b/src/instructions/b.rs
@@ -13,7 +13,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
     }
     let rv64 = bit_length == 64;
     let inst = match opcode(instruction_bits) {
-        0b_0111011 => {
+        0b_0111011 if rv64 => {
             let funct3_value = funct3(instruction_bits);
             let funct7_value = funct7(instruction_bits);
             let inst_opt = match (funct3_value, funct7_value) {
@@ -21,7 +21,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
                 (0b_001, 0b_0110000) => Some(insts::OP_ROLW),
                 (0b_010, 0b_0010000) => Some(insts::OP_SH1ADDUW),
                 (0b_100, 0b_0000100) => {
-                    if rv64 && rs2(instruction_bits) == 0 {
+                    if rs2(instruction_bits) == 0 {
                         Some(insts::OP_ZEXTH)
                     } else {
                         None
@@ -121,7 +121,7 @@ pub fn factory<R: Register>(instruction_bits: u32, _: u32) -> Option<Instruction
                 })
             }
         }
-        0b_0011011 => {
+        0b_0011011 if rv64 => {
             let funct3_value = funct3(instruction_bits);
             let funct7_value = funct7(instruction_bits);
             let rs2_value = rs2(instruction_bits);
-- 
2.43.0


From 0ad4e9051591cdf8b49fda7882fd11d24e1f9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 03/17] fix: check all pages before WXorXMemory::init_pages
 changes any flag

A request covering a frozen page failed after the flags of the pages before it
had been replaced, so a rejected init_pages could change permissions; the
assembly engine already checks first.
---
 src/memory/wxorx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/wxorx.rs b/src/memory/wxorx.rs
index 8d77385..283ed51 100644
--- a/src/memory/wxorx.rs
+++ b/src/memory/wxorx.rs
@@ -68,7 +68,9 @@ impl<M: Memory> Memory for WXorXMemory<M> {
             if self.fetch_flag(page)? & FLAG_FREEZED != 0 {
                 return Err(Error::MemWriteOnFreezedPage(page));
             }
-            self.set_flag(page, flags)?;
+        }
+        for page_addr in (addr..addr + size).step_by(RISCV_PAGESIZE) {
+            self.set_flag(page_addr / RISCV_PAGESIZE as u64, flags)?;
         }
         self.inner
             .init_pages(addr, size, flags, source, offset_from_addr)
-- 
2.43.0


From 4d41baae5eec5277997332d8205c91124d3fe836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 04/17] fix: copy the bytes returned by load_bytes of the
 assembly engine

The returned Bytes was a 'static view of guest memory: it changed with later
stores, dangled once the machine was dropped, and storing it back to an
overlapping range copied overlapping memory.
---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..547009c 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -518,7 +518,7 @@ impl Memory for Box<AsmCoreMachine> {
             let memory_from = memory.add(addr as usize);
             std::slice::from_raw_parts(memory_from, size as usize)
         };
-        Ok(Bytes::from(slice))
+        Ok(Bytes::copy_from_slice(slice))
     }
 
     fn execute_load16(&mut self, addr: u64) -> Result<u16, Error> {
-- 
2.43.0


From 650ac4dab8b1de464cdb473ef08de3bd32490ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 05/17] fix: fuse SBB only when the borrow compare reads the
 subtracted register

The check compared next_inst.rs2() with itself, so a sltu of another register
was fused (and its result replaced by the borrow).
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..00a4849 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,7 +445,7 @@ impl Decoder {
                         if next_inst.rd() == head_inst.rs1()
                             || next_inst.rd() == head_inst.rs2()
                             || next_inst.rs1() != head_inst.rs1()
-                            || next_inst.rs2() != next_inst.rs2()
+                            || next_inst.rs2() != head_inst.rs2()
                         {
                             return Ok(None);
                         }
-- 
2.43.0


From b82757862670c60d901517f9b3457a633fce954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 06/17] fix: report overflow when the cycles of a decoded trace
 do not fit 64 bits

---
 src/machine/asm/traces.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..addf7d9 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -57,7 +57,10 @@ pub fn decode_fixed_trace<D: InstDecoder>(
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
+        trace.cycles = trace
+            .cycles
+            .checked_add(machine.instruction_cycle_func()(instruction))
+            .ok_or(Error::CyclesOverflow)?;
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +314,10 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            builder
+                .cycles
+                .checked_add(cycles)
+                .ok_or(Error::CyclesOverflow)?;
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From d84718549317e4229d2696594b919bdb3d7fb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 07/17] fix: a single step of the assembly engine executes one
 instruction even if it jumps to itself

---
 src/machine/asm/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 547009c..e47f5c0 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -742,17 +742,20 @@ impl AsmMachine {
     pub fn step<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<(), Error> {
         // Decode only one instruction into a trace
         let (trace, _) = decode_fixed_trace(decoder, &mut self.machine, Some(1))?;
+        // The pause flag is polled only after jumps: being always set, it ends
+        // the step even if the instruction jumps to itself.
+        let mut pause: u8 = 1;
 
         let result = unsafe {
             let data = InvokeData {
-                pause: self.machine.pause.get_raw_ptr(),
+                pause: &mut pause,
                 fixed_traces: &trace as *const FixedTrace,
                 fixed_trace_mask: 0,
             };
             ckb_vm_x64_execute(&mut **self.machine.inner_mut(), &data as *const _)
         };
         match result {
-            RET_DECODE_TRACE => (),
+            RET_DECODE_TRACE | RET_PAUSE => (),
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
-- 
2.43.0


From 2a0550f1dc40372e9c9e5514d2f3919c325992b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 08/17] fix: report cycles overflow from a single step of the
 assembly engine

---
 src/machine/asm/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index e47f5c0..e906ae1 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -759,6 +759,7 @@ impl AsmMachine {
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
-- 
2.43.0


From 20106901886be4b4a4b018e1731d137bf3a2a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 09/17] fix: initialize the rest of a frame when an assembly
 engine write ends in its last page

---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index e906ae1..6fb4f28 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -229,7 +229,7 @@ impl<'a> FastMemory<'a> {
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
+            if end < frame_next_start {
                 check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
             }
         }
-- 
2.43.0


From 339d320a2fa594731473cab75c8cca17dd2054c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 10/17] fix: snapshots of 32-bit machines keep the upper half
 of every 8 bytes

---
 src/snapshot.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..33e07a6 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -49,25 +49,12 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
     for i in 0..machine.memory().memory_pages() {
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
-            let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            // A word read may be narrower than 64 bits, so the page is read as bytes.
+            let addr_from = (i as u64) << RISCV_PAGE_SHIFTS;
+            let page = machine
+                .memory_mut()
+                .load_bytes(addr_from, RISCV_PAGESIZE as u64)?
+                .to_vec();
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-- 
2.43.0


From 450e5372e06a980ff42fc55d899786cde01e7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 11/17] fix: refuse a snapshot whose page lists differ in
 length

---
 src/snapshot.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 33e07a6..811a833 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -68,6 +68,11 @@ pub fn resume<T: CoreMachine>(machine: &mut T, snapshot: &Snapshot) -> Result<()
     if machine.version() != snapshot.version {
         return Err(Error::InvalidVersion);
     }
+    if snapshot.page_flags.len() != snapshot.page_indices.len()
+        || snapshot.pages.len() != snapshot.page_indices.len()
+    {
+        return Err(Error::SnapshotDataLoadError);
+    }
     for (i, v) in snapshot.registers.iter().enumerate() {
         machine.set_register(i, T::REG::from_u64(*v));
     }
-- 
2.43.0


From 4a6f69be1c97f570d6a866c3bdeb3f917ac8c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 12/17] fix: resuming is refused when the data source has
 become too short

---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f06d25e..eb00eda 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -71,6 +71,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
                 return Err(Error::MemPageUnalignedAccess(*address));
             }
             let (data, _) = self.load_data(id, *offset, *length)?;
+            if (data.len() as u64) < *length {
+                return Err(Error::SnapshotDataLoadError);
+            }
             if data.len() as u64 % PAGE_SIZE != 0 {
                 return Err(Error::MemPageUnalignedAccess(
                     address.wrapping_add(data.len() as u64),
-- 
2.43.0


From dffef0f5021ba0fefa837d491afae2390bfe47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 13/17] fix: marking a program with overlapping segments
 forgets what the later ones overwrite

---
 src/snapshot2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index eb00eda..a89776f 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -232,6 +232,8 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         id: &I,
         offset: u64,
     ) -> Result<(), Error> {
+        // Pages of an earlier, overlapping action no longer have their old content
+        self.untrack_pages(machine, action.addr, action.size)?;
         let start = action.addr + action.offset_from_addr;
         let length = min(
             action.source.end - action.source.start,
-- 
2.43.0


From 0c76395c1d798399aaab335d524e17fa329fcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 14/17] fix: no arithmetic overflow for ranges that end at the
 top of the address space

---
 src/memory/mod.rs | 2 +-
 src/snapshot2.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/mod.rs b/src/memory/mod.rs
index fb5f5f4..e3a6c8a 100644
--- a/src/memory/mod.rs
+++ b/src/memory/mod.rs
@@ -118,7 +118,7 @@ pub fn get_page_indices(addr: u64, size: u64) -> (u64, u64) {
     debug_assert!(size > 0);
     let addr_end = addr.wrapping_add(size);
     let page = addr >> RISCV_PAGE_SHIFTS;
-    let page_end = (addr_end - 1) >> RISCV_PAGE_SHIFTS;
+    let page_end = addr_end.wrapping_sub(1) >> RISCV_PAGE_SHIFTS;
     (page, page_end)
 }
 
diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index a89776f..8fef40a 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -253,7 +253,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         mut offset: u64,
     ) -> Result<(), Error> {
         let mut aligned_start = roundup(start, PAGE_SIZE);
-        let aligned_bytes = aligned_start - start;
+        let aligned_bytes = aligned_start.wrapping_sub(start);
         if length < aligned_bytes {
             return Ok(());
         }
-- 
2.43.0


From 4421af6418ea7620fa4d839d29700241436dbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 15/17] fix: release dynamic traces with the layout they were
 allocated with

---
 src/machine/asm/traces.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index addf7d9..5bca603 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,7 +17,7 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, Layout};
+use std::alloc::{alloc_zeroed, Layout};
 use std::collections::HashMap;
 
 pub trait TraceDecoder: InstDecoder {
@@ -207,13 +207,13 @@ impl<D: InstDecoder> InstDecoder for MemoizedFixedTraceDecoder<D> {
 /// The individual fields in this data structure, albeit similar to FixedTrace,
 /// are marked as privates so one cannot directly instantiate a struct of
 /// DynamicTrace. Instead, all constructions of DynamicTrace are done via
-/// DynamicTraceBuilder, which builds `Box<DynamicTrace>`. This is due to the
+/// DynamicTraceBuilder, which builds `DynamicTraceBox`. This is due to the
 /// reasons that we might have a variable number of `threads` allocated at the
 /// end of this data structure. So on the surface, it might appear that a
 /// struct of DynamicTrace is 24 bytes. In reality it is bigger than this:
 /// a struct of DynamicTrace containing 30 opcodes could be
 /// 24 + 30 * 16 + 16 = 520 bytes long(the final 16 bytes are for OP_CUSTOM_TRACE_END).
-/// Using `Box<DynamicTrace>`, together with `DynamicTraceBuilder`, helps us to
+/// Using `DynamicTraceBox`, together with `DynamicTraceBuilder`, helps us to
 /// abstract this details away when we are constructing the types. The underlying
 /// assembly code cannot tell the difference between DynamicTrace and FixedTrace.
 #[repr(C)]
@@ -223,6 +223,16 @@ pub struct DynamicTrace {
     cycles: u64,
 }
 
+/// Owns a DynamicTrace together with its `threads`. A `Box<DynamicTrace>` would
+/// release only the memory of the fixed fields.
+pub struct DynamicTraceBox(Box<[u64]>);
+
+impl AsRef<DynamicTrace> for DynamicTraceBox {
+    fn as_ref(&self) -> &DynamicTrace {
+        unsafe { &*(self.0.as_ptr() as *const DynamicTrace) }
+    }
+}
+
 pub struct DynamicTraceBuilder {
     start_address: u64,
     length: u32,
@@ -254,29 +264,22 @@ impl DynamicTraceBuilder {
         self.insts.push((inst, label));
     }
 
-    pub fn build(mut self) -> Box<DynamicTrace> {
+    pub fn build(mut self) -> DynamicTraceBox {
         self.insts.push((
             blank_instruction(OP_CUSTOM_TRACE_END),
             label_from_fastpath_opcode(OP_CUSTOM_TRACE_END),
         ));
-        let fixed_size = std::mem::size_of::<DynamicTrace>();
-        let total_size = fixed_size + self.insts.len() * 16;
-        let p = unsafe {
-            let layout = Layout::array::<u8>(total_size).unwrap();
-            alloc(layout)
-        };
-        let threads = unsafe { p.add(fixed_size) } as *mut u64;
+        let fixed_length = std::mem::size_of::<DynamicTrace>() / 8;
+        let mut memory = vec![0u64; fixed_length + self.insts.len() * 2].into_boxed_slice();
         for (i, (inst, label)) in self.insts.iter().enumerate() {
-            unsafe {
-                threads.offset(i as isize * 2).write(*label);
-                threads.offset(i as isize * 2 + 1).write(*inst);
-            }
+            memory[fixed_length + i * 2] = *label;
+            memory[fixed_length + i * 2 + 1] = *inst;
         }
-        let mut trace = unsafe { Box::from_raw(p as *mut DynamicTrace) };
+        let trace = unsafe { &mut *(memory.as_mut_ptr() as *mut DynamicTrace) };
         trace.address = self.start_address;
         trace.length = self.length;
         trace.cycles = self.cycles;
-        trace
+        DynamicTraceBox(memory)
     }
 }
 
@@ -285,7 +288,7 @@ impl DynamicTraceBuilder {
 pub struct MemoizedDynamicTraceDecoder<D: InstDecoder> {
     inner: SimpleFixedTraceDecoder<D>,
     fixed_cache: HashMap<u64, FixedTrace>,
-    dynamic_cache: HashMap<u64, Box<DynamicTrace>>,
+    dynamic_cache: HashMap<u64, DynamicTraceBox>,
 }
 
 impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
-- 
2.43.0


From d2058b18871090a7595df8d2acd39a2cd0d1709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/17] fix: the trace machine refuses macro-op fusion for
 version 0 like the other engines

---
 src/machine/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..f76381b 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -8,8 +8,9 @@ use super::{
         },
         Error,
     },
-    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION2,
+    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION0, VERSION2,
 };
+use crate::ISA_MOP;
 use bytes::Bytes;
 
 // The number of trace items to keep
@@ -137,6 +138,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
+            return Err(Error::InvalidVersion);
+        }
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0


From b09dcb2283b2dc8cf8bcd2ea1f3fc077550562ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 17/17] fix: sparse memory keeps apart more than 65535 pages

---
 src/memory/sparse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..846314a 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,16 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = u32::MAX;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +34,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0

