From 6b475a81a40aa0cbeb90c78a9af73ba8049f7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:13 +0000
Subject: [PATCH 01/12] fix: drop the closure when no executable memory can be
 allocated for it

The fallible constructors boxed the closure and then returned early on an
allocator error, leaking the box and everything the closure captured.
---
 src/bare_closure.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index 5cd6772..fa2acca 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -602,7 +602,12 @@ macro_rules! bare_closure_impl {
                         <(CC, F)>::$thunk_template,
                         storage as *const _, size_of::<F>(),
                         jit_alloc
-                    )?
+                    )
+                    // the closure is still ours if no thunk was created for it
+                    .map_err(|err| {
+                        drop(Box::from_raw(storage));
+                        err
+                    })?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
@@ -675,7 +680,12 @@ macro_rules! bare_closure_impl {
                         T::$thunk_template,
                         storage as *const _, size_of::<T>(),
                         jit_alloc
-                    )?
+                    )
+                    // the closure is still ours if no thunk was created for it
+                    .map_err(|err| {
+                        drop(Box::from_raw(storage));
+                        err
+                    })?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
-- 
2.43.0


From 7f00bce62c2ce17989e82f1b7c8b8f1e5d81f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:32 +0000
Subject: [PATCH 02/12] fix: sign-extend all 21 bits of the AArch64 ADR/ADRP
 immediate

The immediate is 19 + 2 bits wide. Extending from 20 bits gave a wrong
address for ADR beyond +-512 KiB and ADRP beyond +-2 GiB.
---
 src/safe_jit/arm_util/encoding_aarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 167531e..0d6541d 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -104,7 +104,7 @@ impl Adr {
 
     pub fn target_pc(&self, pc: usize) -> usize {
         let unsigned_imm = self.imm_hi() << 2 | self.imm_lo();
-        let signed_imm = ((unsigned_imm << 12) as i32 >> 12) as isize;
+        let signed_imm = ((unsigned_imm << 11) as i32 >> 11) as isize;
 
         if self.is_adrp() {
             (pc & !0xFFF).wrapping_add_signed(signed_imm * 0x1000)
-- 
2.43.0


From cc26a6ad0f89c563fd54126f5088ca9a595fe61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:32 +0000
Subject: [PATCH 03/12] fix: refuse AArch64 SIMD literal loads and BC.cond in
 thunk prologues

Both are PC-relative and were copied verbatim, so the moved prologue
loaded from or jumped to the wrong address.
---
 src/safe_jit/aarch64.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/aarch64.rs b/src/safe_jit/aarch64.rs
index 3c60a6e..101dd0b 100644
--- a/src/safe_jit/aarch64.rs
+++ b/src/safe_jit/aarch64.rs
@@ -74,7 +74,12 @@ pub fn try_reloc_thunk_template<'a>(
                 return Err(JitError::UnsupportedInstruction);
             }
         }
-        else if has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups()) {
+        // LDR (literal, SIMD&FP) and BC.cond are PC-relative too, but not part of any of the groups
+        // below
+        else if instr_u32 & 0x3F00_0000 == 0x1C00_0000
+            || instr_u32 & 0xFF00_0010 == 0x5400_0010
+            || has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups())
+        {
             return Err(JitError::UnsupportedInstruction);
         }
     }
-- 
2.43.0


From 21978f526b849a4b44f3ed4254ef8823df9ecb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:31 +0000
Subject: [PATCH 04/12] fix: refuse A32 loads with a PC base and a register
 offset

Such a load was rewritten as if its offset were an immediate, so the
relocated thunk read from the wrong address.
---
 src/safe_jit/arm_util/encoding_arm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_arm.rs b/src/safe_jit/arm_util/encoding_arm.rs
index 44822cb..e9757a4 100644
--- a/src/safe_jit/arm_util/encoding_arm.rs
+++ b/src/safe_jit/arm_util/encoding_arm.rs
@@ -91,11 +91,17 @@ impl LoadImm {
 
         let raw = u32::from_ne_bytes(bytes.try_into().ok()?);
         match instr_id {
-            ARM_INS_LDR | ARM_INS_LDRT | ARM_INS_LDRB | ARM_INS_LDRBT => {
+            // bit 25 is set when the offset is a register
+            ARM_INS_LDR | ARM_INS_LDRT | ARM_INS_LDRB | ARM_INS_LDRBT if raw >> 25 & 1 == 0 => {
                 Some(Self::WB(LoadWBImm::from_raw(raw)))
             }
+            // bit 22 is clear when the offset is a register
             ARM_INS_LDRH | ARM_INS_LDRD | ARM_INS_LDRSB | ARM_INS_LDRSH | ARM_INS_LDRHT
-            | ARM_INS_LDRSBT | ARM_INS_LDRSHT => Some(Self::Ex(LoadExImm::from_raw(raw))),
+            | ARM_INS_LDRSBT | ARM_INS_LDRSHT
+                if raw >> 22 & 1 == 1 =>
+            {
+                Some(Self::Ex(LoadExImm::from_raw(raw)))
+            }
             _ => None,
         }
     }
-- 
2.43.0


From 299ffab074291846a94fe88b90e9fad221612ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:22 +0000
Subject: [PATCH 05/12] fix: only follow unconditional forward branches in ARM
 thunk prologues

A conditional branch was followed as if always taken, so the code on the
other path was copied without being checked. A branch to itself or to an
earlier instruction made the relocation loop forever. In Thumb mode a
branch leaving the template was copied unchanged.
---
 src/safe_jit/arm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 8e3e2d4..66f9e50 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -51,13 +51,18 @@ pub fn try_reloc_thunk_template<'a>(
                 unreachable!()
             };
             let target = target as usize;
-            if (pc..thunk_template_end).contains(&target) {
+            // Only unconditional forward branches that stay in the template can be followed:
+            // with a condition both paths matter, and going backward may never end.
+            if arm_detail.cc() == ArmCC::ARM_CC_AL
+                && (instr_pc + instr.len()..thunk_template_end).contains(&target)
+            {
                 disasm_iter.reset(&thunk_template[target - pc..], target as u64);
                 continue;
             }
+            return Err(JitError::UnsupportedControlFlow);
         }
         // error on other instruction writing to PC or from unsupported groups
-        else if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
             || has_unsupported_insn_group(detail.groups())
         {
             return Err(JitError::UnsupportedInstruction);
-- 
2.43.0


From 8015b52393b66918ca4de610389b7e757e0e6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:51 +0000
Subject: [PATCH 06/12] fix: relocate the 16-bit Thumb ADR instruction

The disassembler does not list the PC among the registers it reads, so it
was copied unchanged and produced the wrong address.
---
 src/safe_jit/arm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 66f9e50..44b22dc 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -68,8 +68,10 @@ pub fn try_reloc_thunk_template<'a>(
             return Err(JitError::UnsupportedInstruction);
         }
         // if the instruction doesn't read the PC, we don't care about it at this point.
-        // it's OK to relocate it.
-        if !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
+        // it's OK to relocate it. capstone doesn't report the PC as read by the Thumb ADR.
+        if instr_id != ArmInsn::ARM_INS_ADR
+            && !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        {
             continue;
         }
         // We don't support relocating instructions that conditionally read the PC.
-- 
2.43.0


From bc836e54e13e0344206b139dec0b01b282c25359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:31 +0000
Subject: [PATCH 07/12] fix: keep Thumb literals aligned when relocation grows
 the thunk by a halfword

The thunk is placed so that its closure slot stays aligned. The offsets of
the new literal loads were computed from the alignment of the original
start, so they were off by two when the code before the slot grew by two
bytes.
---
 src/safe_jit/arm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 44b22dc..0476fba 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -133,9 +133,11 @@ pub fn try_reloc_thunk_template<'a>(
 
         // write the absolute addresses to the literal pool and emit LDR instructions
         // referring to them.
+        // in Thumb mode the start of the thunk may move relative to the aligned magic offset.
+        let new_pc = pc + magic_offset - new_magic_offset;
         for (instr_offset, reg, addr) in extra_ldrs {
-            let addr_pc = pc + new_bytes.len();
-            let ldr = LdrImm::new_lit(pc + instr_offset, reg, addr_pc)?;
+            let addr_pc = new_pc + new_bytes.len();
+            let ldr = LdrImm::new_lit(new_pc + instr_offset, reg, addr_pc)?;
 
             new_bytes.extend_from_slice(&addr.to_ne_bytes());
             new_bytes[instr_offset..instr_offset + 4].copy_from_slice(&ldr.bytes());
-- 
2.43.0


From e062480fdfe60cc79d265918056dc046fd792cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:19 +0000
Subject: [PATCH 08/12] fix: use the right sign for Thumb literal load offsets

LDRD subtracted positive offsets and added negative ones, and the wide
LDR family ignored the bit that makes the offset negative. Relocated
thunks then read from the wrong address.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index ed9cfb6..e87042f 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -166,11 +166,16 @@ impl LoadImm {
         let pc = effective_pc(instr_pc);
         match self {
             Self::LdrLitT1(ldr) => Some(pc + ldr.imm() as usize * 4),
-            Self::LdrW(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
+            Self::LdrW(ldr) if ldr.rn() == 0b1111 => Some(if ldr.u() == 1 {
+                pc + ldr.imm() as usize
+            }
+            else {
+                pc - ldr.imm() as usize
+            }),
             Self::LdrT(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
             Self::LdrD(ldr) if ldr.rn() == 0b1111 => {
                 let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
-                Some(pc.wrapping_sub_signed(imm * 4))
+                Some(pc.wrapping_add_signed(imm * 4))
             }
             _ => None,
         }
-- 
2.43.0


From 54107c79281ef65297515abe5ab09b2606090609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:13 +0000
Subject: [PATCH 09/12] fix: recognize the 32-bit Thumb ADR instruction

Both of its sign bits are equal. The check was inverted, so thunks
containing it could not be relocated.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index e87042f..7d7ab42 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -252,7 +252,7 @@ impl Adr {
             }
 
             let ins = AdrT23::from_raw(raw);
-            (ins.s1() != ins.s2()).then_some(Self::T23(ins))
+            (ins.s1() == ins.s2()).then_some(Self::T23(ins))
         }
     }
 
-- 
2.43.0


From bcbca2836e2b563efda9b9628547842686e92d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:48 +0000
Subject: [PATCH 10/12] fix: accept negative RIP-relative displacements with
 overflow checks

The distance of a RIP-relative operand from the start of the thunk was computed
with a plain subtraction. An operand located before the thunk made it
underflow, which panics in builds with overflow checks.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index fe9e237..5a65412 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -47,7 +47,7 @@ pub fn try_reloc_thunk_template<'a>(
         let needs_reloc = instruction.is_ip_rel_memory_operand();
         if needs_reloc {
             let closure_ptr_offset = magic_offset.wrapping_add_signed(consts::CLOSURE_ADDR_OFFSET);
-            if (instruction.memory_displacement64() - ip) as usize == closure_ptr_offset {
+            if instruction.memory_displacement64().wrapping_sub(ip) as usize == closure_ptr_offset {
                 thunk_asm_offset = Some(decoder.position() - instruction.len());
                 break;
             }
-- 
2.43.0


From 33b489039a629d3ef1d057cfda1409acf20efec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:48 +0000
Subject: [PATCH 11/12] fix: treat the closure register as free after long
 x86_64 prologues

The write of the closure pointer was recorded at the byte length of the loading
instruction instead of its index in the prologue. RIP-relative instructions
past the seventh were refused for want of a register.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 5a65412..ee61ba0 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -89,7 +89,7 @@ pub fn try_reloc_thunk_template<'a>(
     let cl_read_reg = decoder.decode().op0_register();
 
     let mut gpr_ops = [GprOp::None; 16];
-    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instruction.len());
+    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instructions.len());
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
-- 
2.43.0


From 761605cff6c708f8d0f3a8ae94638fdf192944c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:26 +0000
Subject: [PATCH 12/12] fix: keep conditional jumps intact when moving
 RIP-relative instructions

Instructions with a RIP-relative operand grow when they are moved, but
conditional jumps are copied unchanged. A jump over such an instruction, or
back to one before it, landed in the wrong place. A register was also considered free
when its only later write could be jumped over. Refuse the former and do not
count the latter.
---
 src/safe_jit/x86_64.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index ee61ba0..5f017c7 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -21,6 +21,7 @@ pub fn try_reloc_thunk_template<'a>(
     let mut instruction = Instruction::default();
 
     let mut max_jcc_offset = 0;
+    let mut skippable_ranges = Vec::new();
     let mut num_ip_rel_reloc = 0;
     let mut thunk_asm_offset = None;
 
@@ -40,6 +41,7 @@ pub fn try_reloc_thunk_template<'a>(
             FlowControl::ConditionalBranch if instruction.is_jcc_short_or_near() => {
                 let offset = instruction.near_branch_target().wrapping_sub(ip);
                 max_jcc_offset = max_jcc_offset.max(offset);
+                skippable_ranges.push(instruction.next_ip().wrapping_sub(ip)..offset);
             }
             _ => return Err(JitError::UnsupportedInstruction),
         };
@@ -72,6 +74,17 @@ pub fn try_reloc_thunk_template<'a>(
         });
     }
 
+    // relocated instructions grow and jumps are copied as is, so none may lie between a jump and its
+    // target. backward jumps are refused since the instructions they repeat may use any register
+    let is_skippable = |instr: &Instruction| {
+        skippable_ranges.iter().any(|r| r.contains(&instr.ip().wrapping_sub(ip)))
+    };
+    if skippable_ranges.iter().any(|r| r.end < r.start)
+        || instructions.iter().any(|(instr, needs_reloc)| *needs_reloc && is_skippable(instr))
+    {
+        return Err(JitError::UnsupportedControlFlow);
+    }
+
     // go through the instructions backwards and track the last visible read/write
     // operation on general purpose registers
     //
@@ -100,7 +113,11 @@ pub fn try_reloc_thunk_template<'a>(
             let last_op = &mut gpr_ops[full_register as usize - Register::RAX as usize];
 
             if used_gpr.access() == OpAccess::Write {
-                if used_gpr.register().size() >= 4 && *last_op != GprOp::Read(i) {
+                // a write that may be jumped over does not make the register available
+                if used_gpr.register().size() >= 4
+                    && *last_op != GprOp::Read(i)
+                    && !is_skippable(&instr)
+                {
                     *last_op = GprOp::Write(i);
                 }
             }
-- 
2.43.0

