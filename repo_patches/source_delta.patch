From f846004ce0861061288531924c1fbda7256b43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 01/70] fix: use the instruction bits as trap value of every
 illegal instruction

only_rv64() and several CSR checks passed None, so xtval became the pc, and
check_accessible() re-read the instruction as one 32-bit physical word, which
panicked or read the wrong bytes when it crossed a page or device boundary.
---
 src/cpu.rs                                   | 10 +++++++++-
 src/cpu/decode.rs                            |  1 +
 src/cpu/decode/inst_16.rs                    |  4 ++++
 src/cpu/decode/inst_32.rs                    |  4 ++++
 src/cpu/execution/inst_32/zicsr_extension.rs | 17 +++++++----------
 5 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..105c345 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -116,7 +116,15 @@ impl Cpu {
 
         self.check_interrupt()?;
 
-        fetch(self)?.decode(*self.isa)?.execution(self)
+        let fetched = fetch(self)?;
+        fetched
+            .decode(*self.isa)
+            .and_then(|inst| inst.execution(self))
+            .map_err(|(tval, cause, msg)| match cause {
+                // xtval holds the faulting instruction
+                TrapCause::IllegalInst => (Some(fetched.bits()), cause, msg),
+                _ => (tval, cause, msg),
+            })
     }
 
     fn trans_addr(
diff --git a/src/cpu/decode.rs b/src/cpu/decode.rs
index e50e0fa..72cbf65 100644
--- a/src/cpu/decode.rs
+++ b/src/cpu/decode.rs
@@ -20,6 +20,7 @@ pub fn only_rv64(
 }
 
 pub trait Decode {
+    fn bits(&self) -> u64;
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)>;
     fn parse_opecode(self, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)>;
     fn parse_rd(
diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index 5f3f1ef..ebe1abe 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -6,6 +6,10 @@ use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Isa, TrapCause};
 
 impl Decode for u16 {
+    fn bits(&self) -> u64 {
+        *self as u64
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..cdcf35b 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -10,6 +10,10 @@ use crate::cpu::{Isa, TrapCause};
 
 #[allow(non_snake_case)]
 impl Decode for u32 {
+    fn bits(&self) -> u64 {
+        *self as u64
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc: OpecodeKind = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..4f4008b 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,10 +1,7 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
-use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
+use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
-    let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
-
     if dist >= 4096 {
         return Err((
             None,
@@ -17,7 +14,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::User => {
             if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in User mode but accessed {dist:x}"),
                 ));
@@ -27,7 +24,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -35,7 +32,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
                 if sctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "scounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -45,7 +42,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::Supervisor => {
             if (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in Supervisor mode but accessed {dist:x}"),
                 ));
@@ -55,7 +52,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -69,7 +66,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                     == 1
             {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     "mstatus.TVM == 1 but accessed satp".to_string(),
                 ));
-- 
2.43.0


From 24c612a33415b1cd28141e348630dabdd14fd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 02/70] fix: SRET traps when it is not allowed and does nothing
 else

With mstatus.TSR set, SRET raised the exception with the pc as trap value
and then still performed the return, and it did so even in M-mode, where
TSR does not apply.
---
 src/cpu/execution/inst_32/priv_extension.rs | 26 +++++++--------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..e70673f 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -6,34 +6,24 @@ use crate::log;
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     match inst.opc {
         OpecodeKind::OP_SRET => {
-            let require_priv = if cpu
+            let tsr = cpu
                 .csrs
-                .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR)
-                == 1
+                .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR);
+            if cpu.priv_lv() == PrivilegedLevel::User
+                || (cpu.priv_lv() == PrivilegedLevel::Supervisor && tsr == 1)
             {
-                PrivilegedLevel::Machine
-            } else {
-                PrivilegedLevel::Supervisor
-            };
-            if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
-                    "exec sret but mstatus.TSR == 1".to_string(),
+                    "exec sret in user mode or mstatus.TSR == 1".to_string(),
                 ));
             }
 
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
-- 
2.43.0


From 8c8f5b6f12bb139018a2432a767776f502027ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 03/70] fix: MRET is illegal outside M-mode

---
 src/cpu/execution/inst_32/priv_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index e70673f..a50a71b 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -48,6 +48,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() != PrivilegedLevel::Machine {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec mret outside machine mode".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
-- 
2.43.0


From 20dc22dfe18d83101280026ea1d1bb7fcf6275d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 04/70] fix: SFENCE.VMA is illegal in U-mode, and traps
 precisely under TVM

The TVM check read the instruction through the untranslated pc, so under
paging the trap value was wrong or the fetch raised another fault.
---
 src/cpu/execution/inst_32/priv_extension.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index a50a71b..8aadfcf 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -85,14 +85,17 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
-            if cpu.priv_lv() == PrivilegedLevel::Supervisor
-                && cpu
-                    .csrs
-                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
-                    == 1
+            let tvm = cpu
+                .csrs
+                .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM);
+            if cpu.priv_lv() == PrivilegedLevel::User
+                || (cpu.priv_lv() == PrivilegedLevel::Supervisor && tvm == 1)
             {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma in user mode or mstatus.TVM == 1".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
-- 
2.43.0


From f9cfa0dd8e04cbec897f15ed896fed5ac500f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 05/70] fix: control transfers whose target is their own
 address

exe_inst/exe_cinst took an unchanged pc for 'not a branch' and added the
instruction size, so a jump or taken branch to itself, an xRET to its own
address and a trap whose vector is the trapping instruction went to pc+size.
---
 src/cpu/execution/inst_16.rs             |  5 +----
 src/cpu/execution/inst_16/c_extension.rs |  4 ++++
 src/cpu/execution/inst_32.rs             |  5 +----
 src/cpu/execution/inst_32/base_i.rs      | 25 ++++++++++++++++++++----
 src/cpu/instruction.rs                   | 23 ++++++++++++++++++++++
 5 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..20f03d8 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -9,13 +9,10 @@ pub fn exe_cinst(
 ) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     c_extension::exec(inst, cpu)?;
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if !inst.updates_pc() {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..d26c85a 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -127,11 +127,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_JR => {
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..26b12f9 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -10,9 +10,6 @@ use crate::cpu::{Cpu, TrapCause};
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     match inst.opc_to_extension() {
         Extensions::BaseI => base_i::exec(inst, cpu)?,
         Extensions::A => a_extension::exec(inst, cpu)?,
@@ -23,7 +20,7 @@ pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, T
     }
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if !inst.updates_pc() {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..142958f 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -28,22 +28,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
@@ -51,22 +59,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_LB => {
@@ -269,18 +285,19 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             // nop (pipeline are not yet implemented)
         }
         OpecodeKind::OP_ECALL => {
-            cpu.trap(
-                0,
+            return Err((
+                Some(0),
                 match cpu.priv_lv() {
                     PrivilegedLevel::User => TrapCause::UmodeEcall,
                     PrivilegedLevel::Supervisor => TrapCause::SmodeEcall,
                     PrivilegedLevel::Machine => TrapCause::MmodeEcall,
                     _ => panic!("cannot enviroment call in current privileged mode."),
                 },
-            );
+                "environment call".to_string(),
+            ));
         }
         OpecodeKind::OP_EBREAK => {
-            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+            return Err((Some(cpu.pc()), TrapCause::Breakpoint, "ebreak".to_string()));
         }
         OpecodeKind::OP_LWU => {
             let load_addr = cpu.trans_addr(
diff --git a/src/cpu/instruction.rs b/src/cpu/instruction.rs
index a009ab4..60f5168 100644
--- a/src/cpu/instruction.rs
+++ b/src/cpu/instruction.rs
@@ -170,6 +170,29 @@ pub enum OpecodeKind {
 }
 
 impl Instruction {
+    /// whether the execution of the instruction sets the next pc by itself
+    pub fn updates_pc(&self) -> bool {
+        matches!(
+            self.opc,
+            OpecodeKind::OP_JAL
+                | OpecodeKind::OP_JALR
+                | OpecodeKind::OP_BEQ
+                | OpecodeKind::OP_BNE
+                | OpecodeKind::OP_BLT
+                | OpecodeKind::OP_BGE
+                | OpecodeKind::OP_BLTU
+                | OpecodeKind::OP_BGEU
+                | OpecodeKind::OP_SRET
+                | OpecodeKind::OP_MRET
+                | OpecodeKind::OP_C_J
+                | OpecodeKind::OP_C_JAL
+                | OpecodeKind::OP_C_JR
+                | OpecodeKind::OP_C_JALR
+                | OpecodeKind::OP_C_BEQZ
+                | OpecodeKind::OP_C_BNEZ
+        )
+    }
+
     pub fn print_myself(&self) {
         print!("{:<12}{:>4}", self.opc_to_string(), self.reg_to_string());
         if let Some(v) = self.rs1 {
-- 
2.43.0


From 7371259d945b1f3d9cb0c05ada74917115986349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 06/70] fix: SLT compares all 64 bits on RV64

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 142958f..3936a38 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -243,7 +243,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From 70a2a99b9f259810127da8c200dfa68e4defa1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 07/70] fix: REM uses all 64 bits on RV64

It took the remainder of the low words, and panicked when the low word of
a nonzero divisor is zero.
---
 src/cpu/execution/inst_32/m_extension.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..b01a746 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                )
             }
         }
         OpecodeKind::OP_REMU => {
-- 
2.43.0


From 765c7a564b5952fc4f4e9af283de756236bcaf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 08/70] fix: SLL and SRL use the low five bits of rs2 on RV32

---
 src/cpu/execution/inst_32/base_i.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 3936a38..f4b908a 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -2,6 +2,14 @@ use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, CrossIsaUtil, PrivilegedLevel, TransAlign, TransFor, TrapCause};
 use crate::Isa;
 
+// shift amount of a register shift: the low 5 bits (RV32) or 6 bits (RV64) of rs2
+fn shamt(inst: &Instruction, cpu: &Cpu) -> u64 {
+    match *cpu.isa {
+        Isa::Rv32 => cpu.regs.read(inst.rs2) & 0x1f,
+        Isa::Rv64 => cpu.regs.read(inst.rs2) & 0x3f,
+    }
+}
+
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
@@ -238,7 +246,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_SLL => {
             cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+                .write(inst.rd, cpu.regs.read(inst.rs1) << shamt(inst, cpu));
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -265,7 +273,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_SRL => {
             cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+                .write(inst.rd, cpu.regs.read(inst.rs1) >> shamt(inst, cpu));
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
-- 
2.43.0


From f49747e8f1d2a46bb43318f6d7595cd9375d044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 09/70] fix: undefined OP-32 encodings raise illegal
 instruction

The emulator panicked on an unknown funct7, and decoded any SLLW.
---
 src/cpu/decode/inst_32.rs        | 3 +--
 src/cpu/decode/inst_32/base_i.rs | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index cdcf35b..9100085 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -125,9 +125,8 @@ impl DecodeUtil for u32 {
                 _ => Extensions::BaseI,
             },
             0b0111011 => match funct7 {
-                0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI,
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index f609bc0..c554f3c 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -125,7 +125,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => only_rv64(OpecodeKind::OP_SUBW, isa),
                 _ => illegal_inst_exception(),
             },
-            0b001 => only_rv64(OpecodeKind::OP_SLLW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAW, isa),
-- 
2.43.0


From fc11699784618cd35b5586daeb8f43737e5c8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 10/70] fix: undefined funct fields raise illegal instruction

OP with an unknown funct7, JALR, MISC-MEM and SYSTEM with an unknown funct3,
SLLIW with an unknown funct7, LR with rs2 != 0 and ECALL, EBREAK and
SFENCE.VMA with nonzero operand fields executed as the defined encoding.
---
 src/cpu/decode/inst_32/a_extension.rs    |  5 ++-
 src/cpu/decode/inst_32/base_i.rs         | 53 ++++++++++++------------
 src/cpu/decode/inst_32/priv_extension.rs |  5 ++-
 3 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/cpu/decode/inst_32/a_extension.rs b/src/cpu/decode/inst_32/a_extension.rs
index e39a3cf..4af8ef5 100644
--- a/src/cpu/decode/inst_32/a_extension.rs
+++ b/src/cpu/decode/inst_32/a_extension.rs
@@ -6,6 +6,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
     let funct7: u8 = inst.slice(31, 27) as u8;
+    let rs2: u8 = inst.slice(24, 20) as u8;
     let illegal_inst_exception = || {
         Err((
             Some(u64::from(inst)),
@@ -17,7 +18,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     match opmap {
         0b0101111 => match funct3 {
             0b010 => match funct7 {
-                0b00010 => Ok(OpecodeKind::OP_LR_W),
+                0b00010 if rs2 == 0 => Ok(OpecodeKind::OP_LR_W),
                 0b00011 => Ok(OpecodeKind::OP_SC_W),
                 0b00001 => Ok(OpecodeKind::OP_AMOSWAP_W),
                 0b00000 => Ok(OpecodeKind::OP_AMOADD_W),
@@ -31,7 +32,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 _ => illegal_inst_exception(),
             },
             0b011 => match funct7 {
-                0b00010 => only_rv64(OpecodeKind::OP_LR_D, isa),
+                0b00010 if rs2 == 0 => only_rv64(OpecodeKind::OP_LR_D, isa),
                 0b00011 => only_rv64(OpecodeKind::OP_SC_D, isa),
                 0b00001 => only_rv64(OpecodeKind::OP_AMOSWAP_D, isa),
                 0b00000 => only_rv64(OpecodeKind::OP_AMOADD_D, isa),
diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index c554f3c..8dca5a7 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -5,7 +5,6 @@ use crate::cpu::{Isa, TrapCause};
 pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)> {
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
-    let funct5: u8 = inst.slice(24, 20) as u8;
     let funct6: u8 = inst.slice(31, 26) as u8;
     let funct7: u8 = inst.slice(31, 25) as u8;
     let illegal_inst_exception = || {
@@ -20,7 +19,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
         0b0110111 => Ok(OpecodeKind::OP_LUI),
         0b0010111 => Ok(OpecodeKind::OP_AUIPC),
         0b1101111 => Ok(OpecodeKind::OP_JAL),
-        0b1100111 => Ok(OpecodeKind::OP_JALR),
+        0b1100111 => match funct3 {
+            0b000 => Ok(OpecodeKind::OP_JALR),
+            _ => illegal_inst_exception(),
+        },
         0b1100011 => match funct3 {
             0b000 => Ok(OpecodeKind::OP_BEQ),
             0b001 => Ok(OpecodeKind::OP_BNE),
@@ -78,40 +80,37 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
             0b111 => Ok(OpecodeKind::OP_ANDI),
             _ => illegal_inst_exception(),
         },
-        0b0110011 => match funct3 {
-            0b000 => match funct7 {
-                0b0000000 => Ok(OpecodeKind::OP_ADD),
-                0b0100000 => Ok(OpecodeKind::OP_SUB),
-                _ => illegal_inst_exception(),
-            },
-            0b001 => Ok(OpecodeKind::OP_SLL),
-            0b010 => Ok(OpecodeKind::OP_SLT),
-            0b011 => Ok(OpecodeKind::OP_SLTU),
-            0b100 => Ok(OpecodeKind::OP_XOR),
-            0b101 => match funct7 {
-                0b0000000 => Ok(OpecodeKind::OP_SRL),
-                0b0100000 => Ok(OpecodeKind::OP_SRA),
-                _ => illegal_inst_exception(),
-            },
-            0b110 => Ok(OpecodeKind::OP_OR),
-            0b111 => Ok(OpecodeKind::OP_AND),
+        0b0110011 => match (funct7, funct3) {
+            (0b0000000, 0b000) => Ok(OpecodeKind::OP_ADD),
+            (0b0100000, 0b000) => Ok(OpecodeKind::OP_SUB),
+            (0b0000000, 0b001) => Ok(OpecodeKind::OP_SLL),
+            (0b0000000, 0b010) => Ok(OpecodeKind::OP_SLT),
+            (0b0000000, 0b011) => Ok(OpecodeKind::OP_SLTU),
+            (0b0000000, 0b100) => Ok(OpecodeKind::OP_XOR),
+            (0b0000000, 0b101) => Ok(OpecodeKind::OP_SRL),
+            (0b0100000, 0b101) => Ok(OpecodeKind::OP_SRA),
+            (0b0000000, 0b110) => Ok(OpecodeKind::OP_OR),
+            (0b0000000, 0b111) => Ok(OpecodeKind::OP_AND),
+            _ => illegal_inst_exception(),
+        },
+        0b0001111 => match funct3 {
+            0b000 | 0b001 => Ok(OpecodeKind::OP_FENCE),
             _ => illegal_inst_exception(),
         },
-        0b0001111 => Ok(OpecodeKind::OP_FENCE),
         0b1110011 => match funct3 {
-            0b000 => match funct7 {
-                0b0000000 => match funct5 {
-                    0b00000 => Ok(OpecodeKind::OP_ECALL),
-                    0b00001 => Ok(OpecodeKind::OP_EBREAK),
-                    _ => illegal_inst_exception(),
-                },
+            0b000 => match inst {
+                0x00000073 => Ok(OpecodeKind::OP_ECALL),
+                0x00100073 => Ok(OpecodeKind::OP_EBREAK),
                 _ => illegal_inst_exception(),
             },
             _ => illegal_inst_exception(),
         },
         0b0011011 => match funct3 {
             0b000 => only_rv64(OpecodeKind::OP_ADDIW, isa),
-            0b001 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLIW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAIW, isa),
diff --git a/src/cpu/decode/inst_32/priv_extension.rs b/src/cpu/decode/inst_32/priv_extension.rs
index d433373..e774456 100644
--- a/src/cpu/decode/inst_32/priv_extension.rs
+++ b/src/cpu/decode/inst_32/priv_extension.rs
@@ -6,13 +6,14 @@ pub fn parse_opecode(inst: u32) -> Result<OpecodeKind, (Option<u64>, TrapCause,
     let _opmap: u8 = inst.slice(6, 0) as u8;
     let _funct3: u8 = inst.slice(14, 12) as u8;
     let funct7: u8 = inst.slice(31, 25) as u8;
+    let rd: u8 = inst.slice(11, 7) as u8;
 
     match inst {
         0b00010000001000000000000001110011 => Ok(OpecodeKind::OP_SRET),
         0b00110000001000000000000001110011 => Ok(OpecodeKind::OP_MRET),
         0b00010000010100000000000001110011 => Ok(OpecodeKind::OP_WFI),
-        _ => match funct7 {
-            0b0001001 => Ok(OpecodeKind::OP_SFENCE_VMA),
+        _ => match (funct7, rd) {
+            (0b0001001, 0b00000) => Ok(OpecodeKind::OP_SFENCE_VMA),
             _ => Err((
                 Some(u64::from(inst)),
                 TrapCause::IllegalInst,
-- 
2.43.0


From 84e51234a35d0cf2684a33ba5672b02b87c015da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 11/70] fix: reserved compressed encodings raise illegal
 instruction

---
 src/cpu/decode/inst_16.rs             |  4 +--
 src/cpu/decode/inst_16/c_extension.rs | 52 +++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index ebe1abe..7ee1244 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -66,10 +66,10 @@ impl Decode for u16 {
     fn parse_imm(
         self,
         opkind: &OpecodeKind,
-        _isa: Isa,
+        isa: Isa,
     ) -> Result<Option<i32>, (Option<u64>, TrapCause, String)> {
         match self.extension() {
-            Extensions::C => c_extension::parse_imm(self, opkind),
+            Extensions::C => c_extension::parse_imm(self, opkind, isa),
             _ => panic!("It isn't compressed instruction"),
         }
     }
diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..2c96320 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -173,12 +173,12 @@ pub fn parse_rd(
         OpecodeKind::OP_C_LI => Ok(Some(q1_wide_rd)),
         OpecodeKind::OP_C_LUI => Ok(Some(q1_wide_rd)),
         OpecodeKind::OP_C_ADDI => Ok(Some(q1_wide_rd)),
-        OpecodeKind::OP_C_ADDIW => Ok(Some(q1_wide_rd)),
+        OpecodeKind::OP_C_ADDIW => nonzero_reg(inst, q1_wide_rd),
         // Quadrant 2
         OpecodeKind::OP_C_SLLI => Ok(Some(q2_rd)),
-        OpecodeKind::OP_C_LWSP => Ok(Some(q2_rd)),
-        OpecodeKind::OP_C_LDSP => Ok(Some(q2_rd)),
-        OpecodeKind::OP_C_JR => Ok(Some(q2_rd)),
+        OpecodeKind::OP_C_LWSP => nonzero_reg(inst, q2_rd),
+        OpecodeKind::OP_C_LDSP => nonzero_reg(inst, q2_rd),
+        OpecodeKind::OP_C_JR => nonzero_reg(inst, q2_rd),
         OpecodeKind::OP_C_MV => Ok(Some(q2_rd)),
         OpecodeKind::OP_C_EBREAK => Ok(Some(q2_rd)),
         OpecodeKind::OP_C_JALR => Ok(Some(q2_rd)),
@@ -256,9 +256,41 @@ pub fn parse_rs2(
     }
 }
 
+fn reserved<T>(inst: u16) -> Result<T, (Option<u64>, TrapCause, String)> {
+    Err((
+        Some(u64::from(inst)),
+        TrapCause::IllegalInst,
+        format!("reserved encoding, {inst:b}"),
+    ))
+}
+
+// rd (or rs1 of C.JR) that must not be x0
+fn nonzero_reg(inst: u16, reg: usize) -> Result<Option<usize>, (Option<u64>, TrapCause, String)> {
+    match reg {
+        0 => reserved(inst),
+        _ => Ok(Some(reg)),
+    }
+}
+
+fn nonzero_imm(inst: u16, imm: i32) -> Result<Option<i32>, (Option<u64>, TrapCause, String)> {
+    match imm {
+        0 => reserved(inst),
+        _ => Ok(Some(imm)),
+    }
+}
+
+// shamt[5] must be zero on RV32
+fn shamt(inst: u16, imm: i32, isa: Isa) -> Result<Option<i32>, (Option<u64>, TrapCause, String)> {
+    match isa {
+        Isa::Rv32 if imm > 31 => reserved(inst),
+        _ => Ok(Some(imm)),
+    }
+}
+
 pub fn parse_imm(
     inst: u16,
     opkind: &OpecodeKind,
+    isa: Isa,
 ) -> Result<Option<i32>, (Option<u64>, TrapCause, String)> {
     let q0_uimm = || (inst.slice(12, 10).set(&[5, 4, 3]) | inst.slice(6, 5).set(&[2, 6])) as i32;
     let q0_uimm_64 = || (inst.slice(12, 10).set(&[5, 4, 3]) | inst.slice(6, 5).set(&[7, 6])) as i32;
@@ -301,7 +333,7 @@ pub fn parse_imm(
 
     match opkind {
         // Quadrant0
-        OpecodeKind::OP_C_ADDI4SPN => Ok(Some(q0_nzuimm())),
+        OpecodeKind::OP_C_ADDI4SPN => nonzero_imm(inst, q0_nzuimm()),
         OpecodeKind::OP_C_LW => Ok(Some(q0_uimm())),
         OpecodeKind::OP_C_LD => Ok(Some(q0_uimm_64())),
         OpecodeKind::OP_C_SW => Ok(Some(q0_uimm())),
@@ -312,16 +344,16 @@ pub fn parse_imm(
         OpecodeKind::OP_C_JAL => Ok(Some(q1_j_imm())),
         OpecodeKind::OP_C_ADDIW => Ok(Some(q1_imm())),
         OpecodeKind::OP_C_LI => Ok(Some(q1_imm())),
-        OpecodeKind::OP_C_ADDI16SP => Ok(Some(q1_16sp_nzimm())),
-        OpecodeKind::OP_C_LUI => Ok(Some(q1_lui_imm())),
-        OpecodeKind::OP_C_SRLI => Ok(Some(q1_nzuimm())),
-        OpecodeKind::OP_C_SRAI => Ok(Some(q1_nzuimm())),
+        OpecodeKind::OP_C_ADDI16SP => nonzero_imm(inst, q1_16sp_nzimm()),
+        OpecodeKind::OP_C_LUI => nonzero_imm(inst, q1_lui_imm()),
+        OpecodeKind::OP_C_SRLI => shamt(inst, q1_nzuimm(), isa),
+        OpecodeKind::OP_C_SRAI => shamt(inst, q1_nzuimm(), isa),
         OpecodeKind::OP_C_ANDI => Ok(Some(q1_imm())),
         OpecodeKind::OP_C_J => Ok(Some(q1_j_imm())),
         OpecodeKind::OP_C_BEQZ => Ok(Some(q1_b_imm())),
         OpecodeKind::OP_C_BNEZ => Ok(Some(q1_b_imm())),
         // Quadrant2
-        OpecodeKind::OP_C_SLLI => Ok(Some(q2_imm())),
+        OpecodeKind::OP_C_SLLI => shamt(inst, q2_imm(), isa),
         OpecodeKind::OP_C_LWSP => Ok(Some(q2_lwsp_imm())),
         OpecodeKind::OP_C_LDSP => Ok(Some(q2_ldsp_imm())),
         OpecodeKind::OP_C_SWSP => Ok(Some(q2_swsp_imm())),
-- 
2.43.0


From 5cdb06afb02f9f178be96fc3ccd39cc72530c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 12/70] fix: C.JR clears bit 0 of the target like JALR

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index d26c85a..e82e7ab 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
-- 
2.43.0


From 691020868ca0f9049962b6d8994e815118e7456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 13/70] fix: C.EBREAK raises the breakpoint exception

---
 src/cpu/execution/inst_16/c_extension.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index e82e7ab..9b43c1c 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -144,7 +144,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            return Err((
+                Some(cpu.pc()),
+                TrapCause::Breakpoint,
+                "c.ebreak".to_string(),
+            ));
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 05b15861ccc0aff36f973b78a43a26381cbad73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 14/70] fix: C.SDSP requires doubleword alignment

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 9b43c1c..2cfc659 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -179,7 +179,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From d2a0fde91c895c456267182d293636569d896266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 15/70] fix: vectored traps use the cause of the trap being
 taken

The vector was computed from the trailing zeros of the previous xcause, and
for exceptions too, which always go to the base address.
---
 src/cpu/trap.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..7fcd302 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -145,6 +145,17 @@ impl Cpu {
         }
     }
 
+    // next pc according to xtvec: interrupts in vectored mode go to base + 4 * cause
+    fn trap_vector(xtvec: u64, cause_of_trap: TrapCause) -> u64 {
+        let base = xtvec & !0b11;
+        let is_interrupt = cause_of_trap as u64 >> 31 & 0b1 == 1;
+        if xtvec & 0b11 == 1 && is_interrupt {
+            base + 4 * (cause_of_trap as u64 & 0x7fff_ffff)
+        } else {
+            base
+        }
+    }
+
     pub fn trap(&mut self, tval_addr: u64, cause_of_trap: TrapCause) {
         let prev_priv = self.priv_lv();
 
@@ -154,7 +165,6 @@ impl Cpu {
             && (deleg & 1 << cause_of_trap as u32) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
 
             log::infoln!("delegated");
             self.csrs
@@ -191,14 +201,9 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP, prev_priv as u64); // set prev_priv to SPP
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
-            if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
-            } else {
-                stvec
-            }
+            Self::trap_vector(stvec, cause_of_trap)
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
 
             self.csrs
                 .write(
@@ -234,11 +239,7 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, prev_priv as u64); // set prev_priv to MPP
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
-            if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
-            } else {
-                mtvec
-            }
+            Self::trap_vector(mtvec, cause_of_trap)
         };
 
         self.update_pc(new_pc);
-- 
2.43.0


From 3ef49034b490e12ba62055f114ecf7f0fd1fe1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 16/70] fix: sstatus and ustatus expose only their own fields

The masks were shifted by a bit: sstatus exposed (and let S-mode set) MPP,
hid SUM or MXR, ustatus exposed supervisor fields, and SD of RV64 was bit 62.
UXL is fixed, so sstatus writes must not change it either.
---
 src/cpu/csr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..7af21db 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -53,22 +53,22 @@ impl CSRs {
 
     fn umask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0x11,
+            Isa::Rv64 => 0x11,
         }
     }
 
     fn smask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0x800de133,
+            Isa::Rv64 => 0x80000003000de133,
         }
     }
 
     fn mmask(&self) -> u64 {
         match *self.isa {
             Isa::Rv32 => 0b10000000011111111111100110111011,
-            Isa::Rv64 => 0b100000000000000000000000000111100000000011111111111100110111011,
+            Isa::Rv64 => 0x8000000f007ff9bb,
         }
     }
 
@@ -81,7 +81,7 @@ impl CSRs {
                     mask
                 }
             }
-            MSTATUS => match *self.isa {
+            SSTATUS | MSTATUS => match *self.isa {
                 Isa::Rv32 => mask,
                 Isa::Rv64 => mask & !(0b1111 << 32),
             },
-- 
2.43.0


From dc29b55c865cedcabcde976fbb36126397c7035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 17/70] fix: CSR writes through sstatus, ustatus, sie and sip

A CSRRW to sstatus or ustatus could only set bits, and one to sie or sip
cleared the machine-level bits of mie or mip.
---
 src/cpu/csr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 7af21db..89499d5 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -132,6 +132,11 @@ impl CSRs {
         Ok(())
     }
 
+    // write the bits of a CSR that are visible through a restricted view of it
+    fn write_view(&mut self, dist: usize, mask: u64, src: u64) {
+        self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
+    }
+
     pub fn write(
         &mut self,
         dist: Option<usize>,
@@ -141,10 +146,14 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            USTATUS => self.write_view(MSTATUS, self.umask(), src),
+            SSTATUS => {
+                let mask = self.smask();
+                let mask = self.mask_warl(SSTATUS, mask);
+                self.write_view(MSTATUS, mask, src)
+            }
+            SIE => self.write_view(CSRname::mie as usize, SIESIPMASK, src),
+            SIP => self.write_view(CSRname::mip as usize, SIESIPMASK, src),
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-- 
2.43.0


From bd63d639b656d4c58faa73e3756ba61e381d0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 18/70] fix: mstatus.MPP never holds the reserved privilege
 level

MRET or a load under MPRV panicked after a guest had written MPP = 2.
---
 src/cpu/csr.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 89499d5..c71e082 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -104,6 +104,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
+                MSTATUS => self.write_mstatus(self.csrs[MSTATUS] | mask),
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -125,6 +126,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
+                MSTATUS => self.write_mstatus(self.csrs[MSTATUS] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
         }
@@ -132,6 +134,16 @@ impl CSRs {
         Ok(())
     }
 
+    // MPP is WARL: keep its value instead of the reserved privilege level 2
+    fn write_mstatus(&mut self, src: u64) {
+        const MPP_MASK: u64 = 0b11 << 11;
+        self.csrs[MSTATUS] = if (src & MPP_MASK) >> 11 == PrivilegedLevel::Reserved as u64 {
+            (src & !MPP_MASK) | (self.csrs[MSTATUS] & MPP_MASK)
+        } else {
+            src
+        };
+    }
+
     // write the bits of a CSR that are visible through a restricted view of it
     fn write_view(&mut self, dist: usize, mask: u64, src: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -163,8 +175,8 @@ impl CSRs {
                 }
             }
             MSTATUS => match *self.isa {
-                Isa::Rv32 => self.csrs[dist] = src,
-                Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
+                Isa::Rv32 => self.write_mstatus(src),
+                Isa::Rv64 => self.write_mstatus((src & !(0b1111 << 32)) | 0b1010 << 32),
             },
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
-- 
2.43.0


From 3e83e922eea25abbc71588680ab0524627b5b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 19/70] fix: writing satp with an unsupported MODE has no
 effect

---
 src/cpu/csr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index c71e082..b61b22d 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -10,6 +10,7 @@ const MISA: usize = CSRname::misa as usize;
 const USTATUS: usize = CSRname::ustatus as usize;
 const SSTATUS: usize = CSRname::sstatus as usize;
 const MSTATUS: usize = CSRname::mstatus as usize;
+const SATP: usize = CSRname::satp as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
@@ -105,6 +106,7 @@ impl CSRs {
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
                 MSTATUS => self.write_mstatus(self.csrs[MSTATUS] | mask),
+                SATP => self.write_satp(self.csrs[SATP] | mask),
                 _ => self.csrs[dist] |= mask,
             }
         }
@@ -127,6 +129,7 @@ impl CSRs {
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
                 MSTATUS => self.write_mstatus(self.csrs[MSTATUS] & !mask),
+                SATP => self.write_satp(self.csrs[SATP] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
         }
@@ -144,6 +147,14 @@ impl CSRs {
         };
     }
 
+    // a write of satp with an unsupported MODE has no effect
+    fn write_satp(&mut self, src: u64) {
+        match (*self.isa, src >> 60) {
+            (Isa::Rv32, _) | (Isa::Rv64, 0 | 8) => self.csrs[SATP] = src,
+            _ => (),
+        }
+    }
+
     // write the bits of a CSR that are visible through a restricted view of it
     fn write_view(&mut self, dist: usize, mask: u64, src: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -178,6 +189,7 @@ impl CSRs {
                 Isa::Rv32 => self.write_mstatus(src),
                 Isa::Rv64 => self.write_mstatus((src & !(0b1111 << 32)) | 0b1010 << 32),
             },
+            SATP => self.write_satp(src),
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From 31a0cc5b3648fbbb6ff01b9b86c7cb8073dd6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 20/70] fix: the CSR address decides which privilege levels can
 access it

U-mode could access every supervisor and machine CSR outside 0x100-0x180 and
0x300-0x344, S-mode every machine CSR above 0x344 (pmpcfg, pmpaddr, tselect).
---
 src/cpu/execution/inst_32/zicsr_extension.rs | 25 +++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 4f4008b..75c333a 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -10,16 +10,17 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // csr[9:8] is the lowest privilege level that can access the CSR
+    if (cpu.priv_lv() as usize) < (dist >> 8 & 0x3) {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in User mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -40,14 +41,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in Supervisor mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
-- 
2.43.0


From 9183269b34c5cefcf80b9b8a4fef798d3a35a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 21/70] fix: writing a read-only CSR is an illegal instruction

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 75c333a..bd84630 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -160,6 +160,19 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     check_accessible(cpu, inst.rs2.unwrap())?;
 
+    // csr[11:10] == 0b11 is read only (CSRRS and CSRRC with x0 or zero do not write)
+    let is_write = match inst.opc {
+        OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI => true,
+        _ => inst.rs1.unwrap() != 0,
+    };
+    if is_write && inst.rs2.unwrap() >> 10 & 0x3 == 0x3 {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("writing to a read only CSR: {:x}", inst.rs2.unwrap()),
+        ));
+    }
+
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
             let rs1 = cpu.regs.read(inst.rs1);
-- 
2.43.0


From 0e27bc9919c9433bdf5300270979bf6c83c1a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 22/70] fix: every way of writing the trigger CSRs updates the
 triggers

CSRRS and CSRRC changed only the CSR image, and a tselect beyond the last
trigger panicked.
---
 src/cpu/csr.rs            | 2 ++
 src/cpu/csr/breakpoint.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index b61b22d..4fc38ba 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -109,6 +109,7 @@ impl CSRs {
                 SATP => self.write_satp(self.csrs[SATP] | mask),
                 _ => self.csrs[dist] |= mask,
             }
+            self.update_triggers(dist, self.csrs[dist]);
         }
 
         Ok(())
@@ -132,6 +133,7 @@ impl CSRs {
                 SATP => self.write_satp(self.csrs[SATP] & !mask),
                 _ => self.csrs[dist] &= !mask,
             }
+            self.update_triggers(dist, self.csrs[dist]);
         }
 
         Ok(())
diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..6a37d31 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -14,6 +14,11 @@ impl CSRs {
             0x7a0 => {
                 // tselect
                 let tgr_index = src as usize;
+                if tgr_index >= self.triggers.tdata1.len() {
+                    // tselect is WARL: keep the selection
+                    self.csrs[CSRname::tselect as usize] = self.triggers.tselect as u64;
+                    return;
+                }
                 self.triggers.tselect = tgr_index;
                 self.csrs[CSRname::tdata1 as usize] = self.triggers.tdata1[tgr_index];
                 self.csrs[CSRname::tdata2 as usize] = self.triggers.tdata2[tgr_index];
-- 
2.43.0


From e8b75abf320691a5064180824c4d42a0e3c7d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 23/70] fix: triggers are independent of each other and of
 tselect

Triggers above tselect were ignored, a trigger that is disabled in the current
mode hid the following ones, and unsupported types and match modes panicked.
---
 src/cpu/csr/breakpoint.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 6a37d31..9e8c09d 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -42,7 +42,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..self.csrs.triggers.tdata1.len() {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -50,8 +50,6 @@ impl Cpu {
             };
 
             match trigger_type {
-                0x0 => (),
-                0x1 => panic!("SiFive address match trigger is not implemented."),
                 0x2 => {
                     let tdata2 = self.csrs.triggers.tdata2[trigger_num];
                     let match_mode = tdata1 >> 7 & 0xF;
@@ -64,11 +62,12 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
+                    // only the exact match is supported
                     if match_mode != 0x0 {
-                        panic!("this match mode is not supported");
+                        continue;
                     }
 
                     match purpose {
@@ -104,10 +103,8 @@ impl Cpu {
                         }
                     }
                 }
-                0x3 => panic!("Instruction count trigger is not implemented."),
-                0x4 => panic!("Interrupt trigger is not implemented."),
-                0x5 => panic!("Exception trigger is not implemented."),
-                _ => panic!("this trigger is not supported: {trigger_type}"),
+                // the other trigger types are not implemented
+                _ => (),
             }
         }
 
-- 
2.43.0


From 16ccade974d8141b02b71775fd3f81c73e9048dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 24/70] fix: non-canonical Sv39 addresses raise a page fault

---
 src/cpu/mmu.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..d1cee2d 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -174,6 +174,14 @@ impl Mmu {
                             vec![addr >> 12 & 0x1FF, addr >> 21 & 0x1FF, addr >> 30 & 0x1FF]
                         }
                     };
+
+                    // Sv39: bits 63-39 must be equal to bit 38
+                    if matches!(*self.isa, Isa::Rv64) && ((addr as i64) << 25 >> 25) as u64 != addr
+                    {
+                        log::debugln!("not canonical address: {:x}", addr);
+                        return Err(self.trap_cause(purpose));
+                    }
+
                     let pte_size: u64 = match *self.isa {
                         Isa::Rv32 => 4,
                         Isa::Rv64 => 8,
-- 
2.43.0


From 0f4980e80bb63b0d1921cf601cfdcc5eaf8de547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 25/70] fix: page table outside DRAM raises an access fault

---
 src/cpu/mmu.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index d1cee2d..aa82ece 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,6 +78,14 @@ impl Mmu {
         }
     }
 
+    fn access_fault(&self, purpose: TransFor) -> TrapCause {
+        match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        }
+    }
+
     fn check_leaf_pte(
         &self,
         purpose: TransFor,
@@ -194,6 +202,9 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
+                        if !dram.in_range(pte_addr) {
+                            return Err(self.access_fault(purpose));
+                        }
                         let pte =
                             match *self.isa {
                                 Isa::Rv32 => self
-- 
2.43.0


From 76d4e2cb370d2343e1b0cc8055a4767c8688fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 26/70] fix: a device does not claim the byte after its range

---
 src/bus/clint.rs | 4 ++--
 src/bus/dram.rs  | 2 +-
 src/bus/mrom.rs  | 2 +-
 src/bus/plic.rs  | 2 +-
 src/bus/uart.rs  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..9b5f695 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -16,7 +16,7 @@ impl Default for Clint {
 impl Clint {
     #[allow(arithmetic_overflow)]
     pub fn new() -> Self {
-        const CLINT_SIZE: usize = 0xFFFF;
+        const CLINT_SIZE: usize = 0x1_0000;
 
         Clint {
             clint: vec![0; CLINT_SIZE],
@@ -30,7 +30,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..0d1477a 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -81,7 +81,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..f66677b 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -49,7 +49,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..709c729 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -261,7 +261,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..3668207 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -253,7 +253,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From a7395cdb8cbabc16312919d1a8964528c6f5cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 27/70] fix: keep the 34-bit physical addresses of Sv32

---
 src/cpu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 105c345..c54718e 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -161,7 +161,7 @@ impl Cpu {
         {
             Ok(vaddr) => {
                 if addr % align as u64 == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    Ok(vaddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
-- 
2.43.0


From d1391b96b3e8a2107655c8b5ad54aeb28676ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 28/70] fix: S-mode cannot execute from user pages

---
 src/cpu/mmu.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index aa82ece..388b426 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -117,6 +117,12 @@ impl Mmu {
         // check the PTE field according to translate purpose
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
+                // S-mode never executes from user pages
+                if pte_u == 1 && priv_lv == PrivilegedLevel::Supervisor {
+                    log::debugln!("invalid pte_u: {:x}", pte);
+                    return Err(TrapCause::InstPageFault);
+                }
+
                 if pte_x == 0 {
                     log::debugln!("invalid pte_x: {:x}", pte);
                     return Err(TrapCause::InstPageFault);
-- 
2.43.0


From 22db5d226f1c681651c6455f3ba73f739372a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 29/70] fix: PMP violations raise access faults

---
 src/cpu/mmu/pmp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..d5082b5 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -17,19 +17,19 @@ impl Mmu {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -101,9 +101,9 @@ impl Mmu {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From f2d1fb54807948b906dfcf32ee9f2f1df1fa060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 30/70] fix: PMP entry n is configured by its own 8-bit field

---
 src/cpu/mmu/pmp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index d5082b5..a88ab9d 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
@@ -44,11 +44,14 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            // RV64 has only even-numbered pmpcfg
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)
         };
 
         for index in 0..pmpaddrs.len() {
-- 
2.43.0


From a1b8a91e19ea0a52f0d4c5e2f3d877153c45f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 31/70] fix: a PMP entry that is OFF matches no address

---
 src/cpu/mmu/pmp.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index a88ab9d..6862812 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -44,6 +44,17 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
+        // PMP is not in use as long as all entries are OFF
+        const ADDRESS_MATCHING: u64 = 0x1818_1818_1818_1818;
+        let cfg_step = match *self.isa {
+            Isa::Rv32 => 1,
+            Isa::Rv64 => 2,
+        };
+        let mut pmpcfgs = (0x3A0..=0x3A3).step_by(cfg_step);
+        if pmpcfgs.all(|cfg| csrs.read(Some(cfg)).unwrap() & ADDRESS_MATCHING == 0) {
+            return Ok(addr);
+        }
+
         let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
             // RV64 has only even-numbered pmpcfg
@@ -62,7 +73,7 @@ impl Mmu {
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => continue, // OFF
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
-- 
2.43.0


From 6065cf2b0acbb707795a67a48e9a0d895a3f45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 32/70] fix: unlocked PMP entries do not restrict M-mode

---
 src/cpu/mmu/pmp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 6862812..da1fdc0 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -4,6 +4,7 @@ use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
 use crate::{log, Isa};
 
 impl Mmu {
+    #[allow(clippy::too_many_arguments)]
     fn check_pmp(
         &self,
         purpose: TransFor,
@@ -12,7 +13,13 @@ impl Mmu {
         pmp_r: u64,
         pmp_w: u64,
         pmp_x: u64,
+        priv_lv: PrivilegedLevel,
     ) -> Result<u64, TrapCause> {
+        // unlocked entries do not apply to M-mode
+        if priv_lv == PrivilegedLevel::Machine && pmpcfg >> 7 & 0x1 == 0 {
+            return Ok(addr);
+        }
+
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
@@ -82,14 +89,14 @@ impl Mmu {
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                     {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x, priv_lv);
                     }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
                     if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x, priv_lv);
                     }
                 }
                 0b11 => {
@@ -104,7 +111,7 @@ impl Mmu {
                     addr_aligned >>= 1;
 
                     if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x, priv_lv);
                     }
                 }
                 _ => panic!("pmp_a does not matched"),
-- 
2.43.0


From 5ac9ec0856dc260335f16ffa26450c875de6686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 33/70] fix: PMP also applies to S-mode and U-mode without
 paging

---
 src/cpu/mmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 388b426..b47f8a3 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -178,7 +178,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
-- 
2.43.0


From a5062f5470cea00cea7c02adc7de9b5eb80b23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 34/70] fix: instruction access faults report the virtual
 address

---
 src/cpu/fetch.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/cpu/fetch.rs b/src/cpu/fetch.rs
index 0ad2b9e..042dc52 100644
--- a/src/cpu/fetch.rs
+++ b/src/cpu/fetch.rs
@@ -5,10 +5,11 @@ use crate::{log, Isa};
 
 pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause, String)> {
     let index_pc: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let is_cinst: bool = match cpu.bus.load_u8(index_pc) {
-        Ok(inst_byte) => inst_byte & 0x3 != 0x3,
-        Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+    let inst_lower: u32 = match cpu.bus.load_u16(index_pc) {
+        Ok(inst) => inst as u32,
+        Err((_, _, msg)) => return Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
     };
+    let is_cinst: bool = inst_lower & 0x3 != 0x3;
 
     if is_cinst {
         match *cpu.isa {
@@ -17,19 +18,12 @@ pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause,
                 log::infoln!("pc: 0x{:016x}", cpu.pc());
             }
         };
-        match cpu.bus.load_u16(index_pc) {
-            Ok(new_inst) => Ok(Box::new(new_inst as u16)),
-            Err((inst, _, msg)) => Err((inst, TrapCause::InstAccessFault, msg)),
-        }
+        Ok(Box::new(inst_lower as u16))
     } else {
         let index_pc2: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc() + 2)?;
         let inst_upper: u32 = match cpu.bus.load_u16(index_pc2) {
             Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
-        };
-        let inst_lower: u32 = match cpu.bus.load_u16(index_pc) {
-            Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => return Err((Some(cpu.pc() + 2), TrapCause::InstAccessFault, msg)),
         };
         match *cpu.isa {
             Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
-- 
2.43.0


From 1f064400f9e94cdacaf16133cb4e103cd233ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 35/70] fix: accesses a device does not support raise access
 faults

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 9b5f695..15499e9 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -42,7 +42,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -50,7 +50,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -81,7 +81,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -89,7 +89,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -116,7 +116,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -124,7 +124,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -132,7 +132,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index f66677b..2f7ae23 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -61,7 +61,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -69,7 +69,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -77,7 +77,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -85,7 +85,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3668207..43c38ba 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -269,7 +269,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -277,7 +277,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -285,7 +285,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -298,7 +298,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -306,7 +306,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -314,7 +314,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -327,7 +327,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -335,7 +335,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From 4e26a91a7be8c94ee43c8bd52c1b5ef74e7eb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 36/70] fix: a faulting AMO raises StoreAMOAccessFault and
 keeps rd

---
 src/cpu/execution/inst_32/a_extension.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..745aff8 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -11,11 +11,14 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load32(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -30,11 +33,14 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load64(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From ce7505480f93ff630d6505636a8bc7d8ed3798bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 37/70] fix: a failed SC also invalidates the reservation

---
 src/cpu/execution/inst_32/a_extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 745aff8..583ab7c 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -70,6 +70,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -139,6 +140,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From ca00f7d2c122ec86c2a11665f489e8e5e8d99283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 38/70] fix: load and store access faults report the virtual
 address

---
 src/cpu.rs     | 7 +++++++
 src/cpu/mmu.rs | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/cpu.rs b/src/cpu.rs
index c54718e..61ff6e9 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -123,6 +123,10 @@ impl Cpu {
             .map_err(|(tval, cause, msg)| match cause {
                 // xtval holds the faulting instruction
                 TrapCause::IllegalInst => (Some(fetched.bits()), cause, msg),
+                // xtval holds the faulting virtual address
+                TrapCause::LoadAccessFault | TrapCause::StoreAMOAccessFault => {
+                    (Some(self.mmu.data_vaddr), cause, msg)
+                }
                 _ => (tval, cause, msg),
             })
     }
@@ -134,6 +138,9 @@ impl Cpu {
         addr: u64,
     ) -> Result<u64, (Option<u64>, TrapCause, String)> {
         let addr = addr.fix2regsz(&self.isa);
+        if purpose == TransFor::Load || purpose == TransFor::StoreAMO {
+            self.mmu.data_vaddr = addr;
+        }
         self.check_breakpoint(purpose, addr)?;
 
         let mut trans_priv = self.priv_lv();
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index b47f8a3..bb43923 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -15,6 +15,7 @@ pub enum AddrTransMode {
 
 pub struct Mmu {
     ppn: u64,
+    pub data_vaddr: u64, // virtual address of the last load, store or AMO
     trans_mode: AddrTransMode,
     isa: Rc<Isa>,
 }
@@ -23,6 +24,7 @@ impl Mmu {
     pub fn new(isa: Rc<Isa>) -> Self {
         Mmu {
             ppn: 0,
+            data_vaddr: 0,
             trans_mode: AddrTransMode::Bare,
             isa,
         }
-- 
2.43.0


From a57ff9807182eac321a671212078be90fdeec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 39/70] fix: LBU and LWU access devices like LB and LW

---
 src/cpu/execution/inst_32/base_i.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index f4b908a..8554b4b 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -135,7 +135,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                     Isa::Rv64 => (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
                 },
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u8(load_addr)?);
+            let data = cpu.bus.load8(load_addr)? & 0xff;
+            cpu.regs.write(inst.rd, data);
         }
         OpecodeKind::OP_LHU => {
             let load_addr = cpu.trans_addr(
@@ -320,7 +321,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 TransAlign::Size32,
                 (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
-            cpu.regs.write(inst.rd, cpu.bus.load_u32(load_addr)?);
+            let data = cpu.bus.load32(load_addr)? & 0xffff_ffff;
+            cpu.regs.write(inst.rd, data);
         }
         OpecodeKind::OP_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 0d3de9a3aaab3a565f1d69530b79b638b7d518ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 40/70] fix: LB sign-extends the byte read from the UART

---
 src/bus/uart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 43c38ba..2746244 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -155,7 +155,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
-- 
2.43.0


From 964a3beb57b3e570f56f41d3417dd6fad425cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 41/70] fix: unimplemented PLIC context registers raise access
 faults

---
 src/bus/plic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 709c729..a7ef862 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -313,7 +313,7 @@ impl Device for Plic {
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
-                if cntx < CONTEXT_NUM {
+                if cntx < CONTEXT_NUM && matches!(addr, CONTEXT_THRESHOLD | CONTEXT_CLAIM) {
                     self.context_write(cntx, addr, data as u32);
                     Ok(())
                 } else {
@@ -373,7 +373,7 @@ impl Device for Plic {
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
-                if cntx < CONTEXT_NUM {
+                if cntx < CONTEXT_NUM && matches!(addr, CONTEXT_THRESHOLD | CONTEXT_CLAIM) {
                     Ok(self.context_read(cntx, addr) as u64)
                 } else {
                     Err((
-- 
2.43.0


From 890a011d7beca29aca8bd04ba1d9982a3bea2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 42/70] fix: 64-bit PLIC accesses transfer both registers

---
 src/bus/plic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index a7ef862..b3ed3ba 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -329,8 +329,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32 & 0xffff_ffff)
     }
 
     // load
@@ -388,8 +388,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)? & 0xffff_ffff;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From 6190b2b92ece5488600916e72979ee69b6b36ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 43/70] fix: LW sign-extends the word read from the PLIC

---
 src/bus/plic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index b3ed3ba..9bf8376 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -356,12 +356,12 @@ impl Device for Plic {
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
         let addr = self.addr2index(addr);
         match addr {
-            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as u64),
+            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as i32 as u64),
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
@@ -374,7 +374,7 @@ impl Device for Plic {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM && matches!(addr, CONTEXT_THRESHOLD | CONTEXT_CLAIM) {
-                    Ok(self.context_read(cntx, addr) as u64)
+                    Ok(self.context_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
-- 
2.43.0


From 669c9d1632f22e8e391f083cbc976fb710adbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 44/70] fix: a PLIC source reaches every context that enables
 it

---
 src/bus/plic.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 9bf8376..40a654a 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -251,7 +251,6 @@ impl Plic {
                 }
 
                 self.context_update(c);
-                break;
             }
         }
     }
-- 
2.43.0


From caedc4f3a3047c42e82cd1ac32c5142573a6cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 45/70] fix: PLIC contexts have independent external interrupt
 bits

---
 src/bus/plic.rs | 17 ++++++++---------
 src/cpu/trap.rs |  4 ++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 40a654a..2c38d5d 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -104,20 +104,19 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
-        self.mip_mask = match self.contexts[context_id].context_priv {
+        let context_mip = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value = if best_id == 0 {
-            0
+
+        // the bit of the other context is left as it is
+        self.mip_mask |= context_mip;
+        if best_id == 0 {
+            self.mip_value &= !context_mip;
         } else {
-            match self.contexts[context_id].context_priv {
-                PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                _ => unreachable!(),
-            }
-        };
+            self.mip_value |= context_mip;
+        }
     }
 
     fn context_claim(&mut self, context_id: usize) -> u32 {
diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7fcd302..a119b1a 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -64,7 +64,7 @@ impl Cpu {
 
         if is_interrupt_enabled(MEIP) {
             self.csrs.bitclr(CSRname::mip.wrap(), 1 << MEIP).unwrap();
-            self.bus.plic.mip_value = 0;
+            self.bus.plic.mip_value &= !(1 << MEIP);
             return Err((
                 Some(0),
                 TrapCause::MachineExternalInterrupt,
@@ -90,7 +90,7 @@ impl Cpu {
         }
         if is_interrupt_enabled(SEIP) {
             self.csrs.bitclr(CSRname::mip.wrap(), 1 << SEIP).unwrap();
-            self.bus.plic.mip_value = 0;
+            self.bus.plic.mip_value &= !(1 << SEIP);
             return Err((
                 Some(0),
                 TrapCause::SupervisorExternalInterrupt,
-- 
2.43.0


From 6d5c7de36559ca94652a07ffc93f1412d1d3e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 46/70] fix: PLIC arbitration uses the current priorities, 0
 never interrupts

---
 src/bus/plic.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2c38d5d..abc3a5e 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -21,7 +21,6 @@ pub struct PlicContext {
     priority_thresould: u8,
     enable: Vec<u32>,
     pending: Vec<u32>,
-    pending_priority: Vec<u8>,
     claimed: Vec<u32>,
     context_priv: PrivilegedLevel,
 }
@@ -32,7 +31,6 @@ impl PlicContext {
             priority_thresould: 0,
             enable: vec![0; PLIC_MAX_DEVICES / 32],
             pending: vec![0; PLIC_MAX_DEVICES / 32],
-            pending_priority: vec![0; PLIC_MAX_DEVICES],
             claimed: vec![0; PLIC_MAX_DEVICES / 32],
             context_priv,
         }
@@ -89,10 +87,10 @@ impl Plic {
                     continue;
                 }
 
-                if (best_id == 0) || (best_id_prio < self.contexts[context_id].pending_priority[id])
-                {
+                // priority 0 means never interrupt
+                if best_id_prio < self.priority[id] {
                     best_id = id as u32;
-                    best_id_prio = self.contexts[context_id].pending_priority[id];
+                    best_id_prio = self.priority[id];
                 }
             }
         }
@@ -146,6 +144,9 @@ impl Plic {
         let id = offset >> 2;
         if id > 0 && id < NUM_IDS {
             self.priority[id] = (val & PLIC_PRIO_MASK) as u8;
+            for c in 0..CONTEXT_NUM {
+                self.context_update(c);
+            }
         }
     }
 
@@ -171,9 +172,7 @@ impl Plic {
         self.contexts[context_id].enable[id_word] = new_val;
 
         for i in 0..32 {
-            let id = id_word * 32 + i;
             let id_mask = 1 << i;
-            let id_prio = self.priority[id];
 
             if xor_val & id_mask == 0 {
                 continue;
@@ -181,10 +180,8 @@ impl Plic {
 
             if new_val & id_mask != 0 && self.level[id_word] & id_mask != 0 {
                 self.contexts[context_id].pending[id_word] |= id_mask;
-                self.contexts[context_id].pending_priority[id] = id_prio;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].pending_priority[id] = 0;
                 self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
@@ -228,7 +225,6 @@ impl Plic {
             return;
         }
 
-        let id_prio = self.priority[id as usize];
         let id_word = (id / 32) as usize;
         let id_mask = 1 << (id % 32);
 
@@ -242,10 +238,8 @@ impl Plic {
             if self.contexts[c].enable[id_word] & id_mask != 0 {
                 if level != 0 {
                     self.contexts[c].pending[id_word] |= id_mask;
-                    self.contexts[c].pending_priority[id as usize] = id_prio;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].pending_priority[id as usize] = 0;
                     self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
-- 
2.43.0


From a682a067e7a09c95fa005021cedabb1dfebecb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 47/70] fix: the PLIC threshold masks interrupts

---
 src/bus/plic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index abc3a5e..8a27972 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -110,7 +110,8 @@ impl Plic {
 
         // the bit of the other context is left as it is
         self.mip_mask |= context_mip;
-        if best_id == 0 {
+        let threshold = self.contexts[context_id].priority_thresould;
+        if best_id == 0 || self.priority[best_id as usize] <= threshold {
             self.mip_value &= !context_mip;
         } else {
             self.mip_value |= context_mip;
-- 
2.43.0


From b0a209c429ea9c57c4ae3a33bb8ef67568f0550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 48/70] fix: UART FIFO resets are requested through FCR, not
 LCR

---
 src/bus/uart.rs    | 3 +++
 src/bus/uart/io.rs | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 2746244..17f4446 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -95,6 +95,7 @@ pub struct Uart {
     pub uart: Vec<u8>,
     dll: u8,
     dlm: u8,
+    fcr: u8,
     backoff_counter: u64,
     pub base_addr: u64,
     size: usize,
@@ -128,6 +129,7 @@ impl Uart {
             uart,
             dll: 0x0c,
             dlm: 0,
+            fcr: 0,
             backoff_counter: 0,
             base_addr: 0x1000_0000,
             size: UART_SIZE,
@@ -208,6 +210,7 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => self.fcr = data as u8,
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..61d7290 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -7,14 +7,14 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
+        if self.fcr & FcrMask::CLEAR_RCVR as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_RCVR as u8);
             self.rx_queue.clear();
             self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
         }
 
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
+        if self.fcr & FcrMask::CLEAR_XMIT as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_XMIT as u8);
             self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
         }
 
-- 
2.43.0


From e8ea303a908845ac38ec3e5c4f70c513c6773e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 49/70] fix: the UART transmits bytes as they are

---
 src/bus/uart.rs    | 2 +-
 src/bus/uart/io.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 17f4446..a714270 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -201,7 +201,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 61d7290..f122cd8 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -62,9 +62,11 @@ impl Uart {
         front
     }
 
-    pub fn tx_byte(&mut self, data: char) {
+    pub fn tx_byte(&mut self, data: u8) {
         self.uart[UartRegister::LSR as usize] |= (LsrMask::TEMT as u8) | (LsrMask::THRE as u8);
-        print!("{}", char::from_u32(data as u32).unwrap());
+        io::stdout()
+            .write_all(&[data])
+            .expect("stdout write failed");
         io::stdout().flush().expect("stdout flush failed");
     }
 }
-- 
2.43.0


From 0ccb820abbc977a8add10a583bccb4b7c68aaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 50/70] fix: the UART receives raw bytes and stops at end of
 input

---
 src/bus/uart.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index a714270..e51255a 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -4,6 +4,7 @@ use super::Device;
 use crate::bus::Plic;
 use crate::TrapCause;
 use std::collections::VecDeque;
+use std::io::BufRead;
 use std::sync::mpsc;
 
 const UART_QUEUE_SIZE: usize = 64;
@@ -100,7 +101,7 @@ pub struct Uart {
     pub base_addr: u64,
     size: usize,
     rx_queue: VecDeque<u8>,
-    stdin_channel: mpsc::Receiver<String>,
+    stdin_channel: mpsc::Receiver<Vec<u8>>,
 }
 
 impl Default for Uart {
@@ -118,11 +119,17 @@ impl Uart {
         uart[UartRegister::MSR as usize] = 0xb0; // UART_MSR_DCD | UART_MSR_DSR | UART_MSR_CTS
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
-        let (tx, rx) = mpsc::channel::<String>();
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = String::new();
-            std::io::stdin().read_line(&mut buffer).unwrap();
-            tx.send(buffer).unwrap();
+            let mut buffer = Vec::new();
+            // stop at the end of the input or when nobody receives it
+            match std::io::stdin().lock().read_until(b'\n', &mut buffer) {
+                Ok(len) if len > 0 => (),
+                _ => break,
+            }
+            if tx.send(buffer).is_err() {
+                break;
+            }
         });
 
         Uart {
@@ -239,9 +246,7 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                for c in input.chars() {
-                    self.rx_queue.push_back(c as u8);
-                }
+                self.rx_queue.extend(input);
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
             }
-- 
2.43.0


From d6d727a60533d39ec12fe1c98a7131d109f22db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 51/70] fix: pwrite returns the negated errno

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..b955862 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -138,7 +138,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From a7f9db769807f0e0a8f4d5a862d3a76624983178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 52/70] fix: a failed fstat or fstatat leaves the guest buffer
 alone

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index b955862..8a7a734 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -186,7 +186,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -228,7 +228,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From 841c32d681119f78da76573b9c5b0be1ba9c8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 53/70] fix: layout of uid, gid and blksize in the guest's stat

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 8a7a734..f985072 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -168,11 +168,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
@@ -210,11 +210,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
-- 
2.43.0


From 597337cad9fc567c8a4336bf41e8bb63a3cef40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 54/70] fix: directory descriptors are guest descriptors

---
 src/fesvr.rs         | 8 ++++++++
 src/fesvr/syscall.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index b5c64ef..02b81ad 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -27,6 +27,14 @@ impl FrontendServer {
         self.fd_table[fd as usize] = None;
     }
 
+    pub fn dirfd_lookup(&self, dirfd: u64) -> i32 {
+        if dirfd as i32 == libc::AT_FDCWD {
+            libc::AT_FDCWD
+        } else {
+            self.fd_lookup(dirfd) as i32
+        }
+    }
+
     pub fn fd_lookup(&self, fd: u64) -> i64 {
         if fd >= self.fd_table.len() as u64 {
             -1
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index f985072..1bc2648 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -44,7 +44,7 @@ impl FrontendServer {
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let fd = sysret_errno(unsafe {
             libc::openat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd),
                 name.as_ptr() as *const i8,
                 flags as i32,
                 mode as i32,
@@ -157,7 +157,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd),
                 name.as_ptr() as *const i8,
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From 83640b0061a349753097ac26bf316a7cf7e82fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 55/70] fix: path names of system calls need not be UTF-8

---
 src/fesvr/syscall.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 1bc2648..abc4a1c 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -3,6 +3,7 @@ use crate::fesvr::FrontendServer;
 use crate::log;
 use crate::Arguments;
 use libc::c_void;
+use std::ffi::CString;
 
 fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     let mut buf = Vec::new();
@@ -13,6 +14,14 @@ fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     buf
 }
 
+// path names end at the first NUL and are not necessarily UTF-8
+fn memread_path(cpu: &mut Cpu, addr: u64, len: u64) -> CString {
+    let mut name = memread(cpu, addr, len);
+    let end = name.iter().position(|c| *c == 0).unwrap_or(name.len());
+    name.truncate(end);
+    CString::new(name).unwrap()
+}
+
 fn memwrite(cpu: &mut Cpu, addr: u64, len: usize, data: Vec<u8>) {
     for off in 0..len as u64 {
         cpu.bus
@@ -40,12 +49,11 @@ impl FrontendServer {
         mode: u64,
     ) -> i64 {
         log::infoln!("sys_openat(56)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = memread_path(cpu, name_addr, len);
         let fd = sysret_errno(unsafe {
             libc::openat(
                 self.dirfd_lookup(dirfd),
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 flags as i32,
                 mode as i32,
             ) as i64
@@ -151,14 +159,13 @@ impl FrontendServer {
         flags: u64,
     ) -> i64 {
         log::infoln!("sys_fstatat(79)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name = memread_path(cpu, name_addr, len);
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
                 self.dirfd_lookup(dirfd),
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
             );
-- 
2.43.0


From 569f5d1ae8ca6dfab735bc4a89827ebf3a5c15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 56/70] fix: unimplemented interrupts do not mask delegated
 ones

---
 src/cpu/trap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index a119b1a..cf3d66b 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -36,7 +36,9 @@ impl Cpu {
         let mip = self.csrs.read(CSRname::mip.wrap()).unwrap();
         let mie = self.csrs.read(CSRname::mie.wrap()).unwrap();
 
-        let pending_interrupts = mip & mie;
+        const IMPLEMENTED: u64 =
+            1 << SSIP | 1 << MSIP | 1 << STIP | 1 << MTIP | 1 << SEIP | 1 << MEIP;
+        let pending_interrupts = mip & mie & IMPLEMENTED;
         let mideleg = self.csrs.read(CSRname::mideleg.wrap()).unwrap();
         let mstatus_mie = self
             .csrs
-- 
2.43.0


From 223a89c8adff34558857cf4ac9b71a239df89f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 57/70] fix: ELF header tables larger than 64 KiB

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..7b67d1c 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..17dc80d 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..ceb9271 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 81ba2bf2e513f869e500b972ffd1c4038b6c3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 58/70] verif: hooks for the verification harness (cfg
 carron_verif)

---
 src/bus/uart.rs  |  2 ++
 src/cpu.rs       |  2 ++
 src/cpu/verif.rs | 29 +++++++++++++++++++++++++++++
 src/lib.rs       |  7 +++++++
 src/verif.rs     | 39 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 79 insertions(+)
 create mode 100644 src/cpu/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index e51255a..f4e58ee 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -120,6 +120,8 @@ impl Uart {
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>();
+        #[cfg(carron_verif)]
+        crate::verif::set_console_input(tx.clone());
         std::thread::spawn(move || loop {
             let mut buffer = Vec::new();
             // stop at the end of the input or when nobody receives it
diff --git a/src/cpu.rs b/src/cpu.rs
index 61ff6e9..6d4ed36 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -6,6 +6,8 @@ mod instruction;
 mod mmu;
 mod reg;
 mod trap;
+#[cfg(carron_verif)]
+mod verif;
 
 use crate::{bus, elfload, log, Arguments, Isa};
 use csr::{CSRname, Xstatus};
diff --git a/src/cpu/verif.rs b/src/cpu/verif.rs
new file mode 100644
index 0000000..0f048b0
--- /dev/null
+++ b/src/cpu/verif.rs
@@ -0,0 +1,29 @@
+//! Access to the private state of the hart for the verification harness.
+
+use super::{Cpu, PrivilegedLevel};
+
+impl Cpu {
+    pub fn verif_csr_read(&self, addr: usize) -> u64 {
+        self.csrs.read(Some(addr)).unwrap()
+    }
+
+    pub fn verif_csr_write(&mut self, addr: usize, value: u64) {
+        self.csrs.write(Some(addr), value).unwrap()
+    }
+
+    pub fn verif_priv_lv(&self) -> u64 {
+        self.priv_lv() as u64
+    }
+
+    pub fn verif_set_priv_lv(&mut self, level: u64) {
+        self.set_priv_lv(match level {
+            0 => PrivilegedLevel::User,
+            1 => PrivilegedLevel::Supervisor,
+            _ => PrivilegedLevel::Machine,
+        })
+    }
+
+    pub fn verif_set_pc(&mut self, pc: u64) {
+        self.update_pc(pc)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7ca75c8..1c37b6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,13 @@
+#![allow(unexpected_cfgs)]
+
 pub mod bus;
 pub mod cmdline;
 pub mod cpu;
 pub mod elfload;
 mod fesvr;
 pub mod log;
+#[cfg(carron_verif)]
+pub mod verif;
 
 use cmdline::Arguments;
 use cpu::{Cpu, TrapCause};
@@ -43,6 +47,9 @@ impl Emulator {
     pub fn emulation(&mut self) {
         loop {
             for _ in 0..INTERLEAVE {
+                #[cfg(carron_verif)]
+                verif::before_step(self);
+
                 *crate::log::INST_COUNT.lock().unwrap() += 1;
                 log::diffln!("0x{:016x}", self.cpu.pc());
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6deb6ea
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,39 @@
+//! Hooks of the verification harness (`RUSTFLAGS="--cfg carron_verif"`).
+//! Nothing in here is compiled otherwise.
+
+use crate::Emulator;
+use std::cell::RefCell;
+use std::sync::mpsc::Sender;
+use std::sync::Mutex;
+
+type StepHook = Box<dyn FnMut(&mut Emulator)>;
+
+thread_local! {
+    static STEP_HOOK: RefCell<Option<StepHook>> = RefCell::new(None);
+}
+
+static CONSOLE_INPUT: Mutex<Option<Sender<Vec<u8>>>> = Mutex::new(None);
+
+/// Call `hook` before every instruction executed by `Emulator::emulation`.
+pub fn set_step_hook(hook: StepHook) {
+    STEP_HOOK.with(|slot| *slot.borrow_mut() = Some(hook));
+}
+
+pub(crate) fn before_step(emulator: &mut Emulator) {
+    STEP_HOOK.with(|slot| {
+        if let Some(hook) = slot.borrow_mut().as_mut() {
+            hook(emulator)
+        }
+    });
+}
+
+pub(crate) fn set_console_input(sender: Sender<Vec<u8>>) {
+    *CONSOLE_INPUT.lock().unwrap() = Some(sender);
+}
+
+/// Let `input` arrive at the UART as if it had been read from standard input.
+pub fn send_console_input(input: Vec<u8>) {
+    if let Some(sender) = CONSOLE_INPUT.lock().unwrap().as_ref() {
+        let _ = sender.send(input);
+    }
+}
-- 
2.43.0


From 290d9cbbdc88e718ef9c28b5203ebfad37b9a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 59/70] fix: writing misa at a misaligned pc keeps the C bit
 where it is

---
 src/cpu/csr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 4fc38ba..f145491 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -181,7 +181,7 @@ impl CSRs {
             SIP => self.write_view(CSRname::mip as usize, SIESIPMASK, src),
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
-                    let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
+                    let c_ext_bit = self.csrs[MISA] & 0b100;
                     self.csrs[MISA] = (src & !0b100) | c_ext_bit
                 } else {
                     self.csrs[MISA] = src
-- 
2.43.0


From 16b2dc5233ae894a2c2028cd8045f0751ded8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 60/70] fix: C.ADD with rd=x0 is a HINT, not C.EBREAK

---
 src/cpu/decode/inst_16/c_extension.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 2c96320..a1c2d91 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -98,12 +98,11 @@ fn quadrant2(
                 0b0 => Ok(OpecodeKind::OP_C_JR),
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
-            0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
-                _ => match lo_flag {
-                    0b0 => Ok(OpecodeKind::OP_C_JALR),
-                    _ => Ok(OpecodeKind::OP_C_ADD),
-                },
+            0b1 => match (mi_flag, lo_flag) {
+                (0b0, 0b0) => Ok(OpecodeKind::OP_C_EBREAK),
+                (_, 0b0) => Ok(OpecodeKind::OP_C_JALR),
+                // rd=x0 is a HINT
+                _ => Ok(OpecodeKind::OP_C_ADD),
             },
             _ => Err((
                 Some(u64::from(inst)),
-- 
2.43.0


From 32a78ff46de6e80e994cde24f9f2a424e2c3c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 61/70] fix: DIVUW and REMUW by a divisor whose low word is
 zero do not panic

---
 src/cpu/execution/inst_32/m_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index b01a746..2966e53 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -147,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From 1b31d1fed472c62f0c9291b631d67e39adc4a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 62/70] fix: read p_memsz and p_align of ELF64 program headers
 from their offsets

---
 src/elfload/elf_64/program_header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index ceb9271..8e24340 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
-- 
2.43.0


From 223398d4b487592d237e1a9f2b59653971f10615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 63/70] fix: read sh_entsize of ELF32 section headers from its
 offset

---
 src/elfload/elf_32/section_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 17dc80d..e689aa2 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
-- 
2.43.0


From adfa7ec5dc7a448feb3788cddac4e4faeb444c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 64/70] fix: place the initrd at the end of DRAM wherever DRAM
 begins

---
 src/bus/dram.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 0d1477a..84c253f 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -55,11 +55,10 @@ impl Dram {
             let file = File::open(path).unwrap();
             let mapped_initrd = unsafe { Mmap::map(&file).unwrap() };
 
-            const INITRD_END: usize = 0x8000_0000 + DRAM_SIZE - 0x1000;
-            let initrd_head = INITRD_END - mapped_initrd.len();
-            let initrd_offset = initrd_head - virt_entry as usize;
-            initrd_start = Some(INITRD_END - mapped_initrd.len());
-            initrd_end = Some(INITRD_END);
+            const INITRD_END: usize = DRAM_SIZE - 0x1000; // relative to the DRAM base
+            let initrd_offset = INITRD_END - mapped_initrd.len();
+            initrd_start = Some(virt_entry as usize + initrd_offset);
+            initrd_end = Some(virt_entry as usize + INITRD_END);
             new_dram.splice(
                 initrd_offset..initrd_offset + mapped_initrd.len(),
                 mapped_initrd.iter().cloned(),
-- 
2.43.0


From 09a0d6834ed60754a5c9f13cb6a100194517e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 65/70] fix: write addresses above 4 GiB into the device tree

---
 src/bus/device_tree/dts.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a66f17d..2ac4034 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -1,8 +1,14 @@
 use crate::Isa;
 
+// 64-bit number as two 32-bit cells (an address below 4 GiB has a zero upper cell)
+fn cells(x: u64) -> String {
+    format!("{:#x} {:#x}", x >> 32, x & 0xffff_ffff)
+}
+
 fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
-    let initrd_start = initrd_start.unwrap_or(0);
-    let initrd_end = initrd_end.unwrap_or(0);
+    let initrd_start = cells(initrd_start.unwrap_or(0) as u64);
+    let initrd_end = cells(initrd_end.unwrap_or(0) as u64);
+    let dram_cells = cells(dram_addr);
     format!(
         "/dts-v1/;
             / {{
@@ -40,7 +46,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               }};
               memory@{dram_addr:x} {{
                 device_type = \"memory\";
-                reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+                reg = <{dram_cells} 0x0 0x80000000>;
               }};
               soc {{
                 #address-cells = <2>;
@@ -80,8 +86,9 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
 }
 
 fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
-    let initrd_start = initrd_start.unwrap_or(0);
-    let initrd_end = initrd_end.unwrap_or(0);
+    let initrd_start = cells(initrd_start.unwrap_or(0) as u64);
+    let initrd_end = cells(initrd_end.unwrap_or(0) as u64);
+    let dram_cells = cells(dram_addr);
     format!(
         "/dts-v1/;
 
@@ -120,7 +127,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
           }};
           memory@{dram_addr:x} {{
             device_type = \"memory\";
-            reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+            reg = <{dram_cells} 0x0 0x80000000>;
           }};
           soc {{
             #address-cells = <2>;
-- 
2.43.0


From e7428de38c37599fab4c902c0a4a2aa9f56ff689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 66/70] fix: the device tree names Sv39, the translation mode
 there is

---
 src/bus/device_tree/dts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index 2ac4034..7246ec5 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -113,7 +113,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               status = \"okay\";
               compatible = \"riscv\";
               riscv,isa = \"rv64imac\";
-              mmu-type = \"riscv,sv57\";
+              mmu-type = \"riscv,sv39\";
               riscv,pmpregions = <16>;
               riscv,pmpgranularity = <4>;
               clock-frequency = <1000000000>;
-- 
2.43.0


From 6a0625c2bb45880ef7f3cd3f4c0460cead54c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 67/70] fix: spell mulhsu without a comma

---
 src/cpu/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/instruction.rs b/src/cpu/instruction.rs
index 60f5168..b39b8bb 100644
--- a/src/cpu/instruction.rs
+++ b/src/cpu/instruction.rs
@@ -422,7 +422,7 @@ impl Instruction {
             OpecodeKind::OP_SFENCE_VMA => "sfence.vma",
             OpecodeKind::OP_MUL => "mul",
             OpecodeKind::OP_MULH => "mulh",
-            OpecodeKind::OP_MULHSU => "mulhsu,",
+            OpecodeKind::OP_MULHSU => "mulhsu",
             OpecodeKind::OP_MULHU => "mulhu",
             OpecodeKind::OP_DIV => "div",
             OpecodeKind::OP_DIVU => "divu",
-- 
2.43.0


From 876d214752c5d85d01c11aebabc0b4a7bc1f189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 68/70] fix: dump only the bytes of a segment that are in the
 file

---
 src/elfload/elf_32/program_header.rs | 9 ++++-----
 src/elfload/elf_64/program_header.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 7b67d1c..4cb6af5 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -65,14 +65,13 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let segment = self.p_offset as usize..(self.p_offset + self.p_filesz) as usize;
+        for (block, part) in mmap[segment].chunks(4).enumerate() {
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            let word = part.iter().rev().fold(0, |word, b| word << 8 | *b as u32);
+            print!("{word:08x} ");
         }
     }
 
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 8e24340..a342702 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -65,14 +65,13 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
+        let segment = self.p_offset as usize..(self.p_offset + self.p_filesz) as usize;
+        for (block, part) in mmap[segment].chunks(4).enumerate() {
             if block % 8 == 0 {
                 println!()
             }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
+            let word = part.iter().rev().fold(0, |word, b| word << 8 | *b as u32);
+            print!("{word:08x} ");
         }
     }
 
-- 
2.43.0


From 792dcc2aabec4b22b05b836aa1b4ef487adc9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 69/70] fix: disassemble any section, whatever it holds and
 wherever it ends

---
 src/elfload/elf_32/section_header.rs | 15 +++++++++------
 src/elfload/elf_64/section_header.rs | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index e689aa2..8501bcb 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -112,21 +112,24 @@ impl SectionHeader for SectionHeader32 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
+        let section_end = self.sh_offset + self.sh_size;
+        while dump_head + 2 <= section_end {
+            let inst = if is_cinst(mmap, dump_head as usize) || dump_head + 4 > section_end {
                 let mdump = get_u16(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv32);
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                mdump.decode(Isa::Rv32)
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv32);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                mdump.decode(Isa::Rv32)
+            };
+            match inst {
+                Ok(inst) => inst.print_myself(),
+                Err(_) => print!("unknown"),
             }
             println!();
         }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 876a284..5cb8bfd 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -116,21 +116,24 @@ impl SectionHeader for SectionHeader64 {
 
         println!("--------------------------------");
         let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
+        let section_end = self.sh_offset + self.sh_size;
+        while dump_head + 2 <= section_end {
+            let inst = if is_cinst(mmap, dump_head as usize) || dump_head + 4 > section_end {
                 let mdump = get_u16(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv64);
                 dump_head += 2;
 
                 print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
+                mdump.decode(Isa::Rv64)
             } else {
                 let mdump = get_u32(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv64);
                 dump_head += 4;
 
                 print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
+                mdump.decode(Isa::Rv64)
+            };
+            match inst {
+                Ok(inst) => inst.print_myself(),
+                Err(_) => print!("unknown"),
             }
             println!();
         }
-- 
2.43.0


From d894d628b422ac9fcf6e80284a8e695e62288cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 70/70] fix: wrap the RV32 pc at 32 bits

---
 src/cpu.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 6d4ed36..c342d9b 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -97,11 +97,12 @@ impl Cpu {
     }
 
     fn add2pc(&mut self, addval: i32) {
-        *self.pc.borrow_mut() = (self.pc() as i64 + addval as i64) as u64;
+        let newpc = (self.pc() as i64 + addval as i64) as u64;
+        self.update_pc(newpc);
     }
 
     fn update_pc(&mut self, newpc: u64) {
-        *self.pc.borrow_mut() = newpc;
+        *self.pc.borrow_mut() = newpc.fix2regsz(&self.isa);
     }
 
     fn priv_lv(&self) -> PrivilegedLevel {
-- 
2.43.0

