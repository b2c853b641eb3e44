From 4dae3dd632727a38487c101778e7c35f2fe8f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:43 +0000
Subject: [PATCH 01/31] fix: LR and failing SC repeated the device effects of
 the previous store

---
 diff/ref.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..9d8429f 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1653,6 +1653,10 @@ void RefCpu::store_word(uint32_t addr, uint32_t data) {
 }
 
 void RefCpu::store_data() {
+  // LR and a failing SC write nothing: store_addr/store_data are stale here.
+  if (!state.store) {
+    return;
+  }
 
   uint32_t p_addr = state.store_addr;
   if (state.store && state.reserve_valid && state.reserve_addr == p_addr) {
-- 
2.43.0


From f1c36c995a242bbb3a708f6e8e60ba32f88c553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 02/31] fix: mip/sip writes in the reference model skipped
 masking and aliasing

The register-file index was compared with CSR numbers, so a mip write was
not masked and a sip write was lost at the next timer sync.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 9d8429f..0ac1c5d 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -936,13 +936,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From ab5f21732462cd9aacdc8ddcf9da2789f121c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 03/31] fix: csrrwi with a zero immediate did not write in the
 reference model

---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 0ac1c5d..45d1faf 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -860,8 +860,8 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
+  bool we = (funct3 & 0b11) == 1 || rs1 != 0;
+  bool re = (funct3 & 0b11) != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
   uint32_t wdata;
 
-- 
2.43.0


From 374df966a0c004323e9ceb81d35f1bf24981c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 04/31] fix: fetch page fault used the previous instruction to
 pick its cause

In the reference model a fetch page fault right after an ecall or an
interrupt was recorded with the cause of that earlier trap.
---
 diff/ref.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 45d1faf..8a7f6fa 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -276,6 +276,11 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
+      // Nothing was fetched: do not let the previous instruction or its
+      // interrupt evaluation select the trap cause.
+      Instruction = INST_NOP;
+      M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+      S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
       exception(state.pc);
       return;
     } else {
-- 
2.43.0


From 33a3f023e307129746992a155dad3cb2341c402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 05/31] fix: supervisor interrupt arriving on an ecall was
 recorded with the ecall code

---
 diff/ref.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 8a7f6fa..6d0e4e2 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -414,14 +414,16 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
+    if (S_external_interrupt)
       exception_code = 9;
     else if (S_timer_interrupt)
       exception_code = 5;
-    else if (ecall && privilege == 0 && medeleg_U_ecall)
-      exception_code = 8;
     else if (S_software_interrupt)
       exception_code = 1;
+    else if (ecall && privilege == 1 && medeleg_S_ecall)
+      exception_code = 9;
+    else if (ecall && privilege == 0 && medeleg_U_ecall)
+      exception_code = 8;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0


From 508e7250f0f496fb8af729a570a279c18a5ea8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 06/31] fix: traps taken in machine mode were delegated or lost
 their cause

medeleg only applies to traps taken below machine mode. An M-mode ecall
with medeleg[8] set was recorded with cause 0 and an M-mode data page
fault dropped to supervisor mode.
---
 back-end/Exu/Csr.cpp | 4 +++-
 diff/ref.cpp         | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..18dd482 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // Traps taken in machine mode are never delegated.
+  uint32_t medeleg =
+      (privilege == RISCV_MODE_M) ? 0 : (uint32_t)CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
diff --git a/diff/ref.cpp b/diff/ref.cpp
index 6d0e4e2..a916cda 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -310,7 +310,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps taken in machine mode are never delegated.
+  uint32_t medeleg = (privilege == 3) ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
-- 
2.43.0


From 430b9fa4a8c27e6e770560ec70770463c87223a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 07/31] fix: the reference model ignored delegation of illegal
 instructions

---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index a916cda..6472475 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -324,6 +324,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -335,7 +336,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -343,7 +345,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -431,6 +434,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 87e4b3fda450936829816f5124d8c9213b25b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 08/31] fix: exceptions jumped to a misaligned handler when the
 vector mode bit was set

---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 18dd482..02774ab 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -196,7 +196,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -249,7 +249,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 3dba47ed913a784f3b918ea00d1364fdf7841f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 09/31] fix: committing a CSR write modified current-cycle
 state in combinational code

---
 back-end/Exu/Csr.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 02774ab..6ec1c5f 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -338,10 +338,12 @@ void Csr::comb_csr_write() {
   if (in.rob2csr->commit && csr_we) {
     uint32_t old_val = CSR_RegFile[cvt_number_to_csr(csr_idx)];
 
+    uint32_t wdata = csr_wdata;
+
     if (csr_wcmd == CSR_S) {
-      csr_wdata = (csr_wdata | old_val);
+      wdata = (wdata | old_val);
     } else if (csr_wcmd == CSR_C) {
-      csr_wdata = (~csr_wdata & old_val);
+      wdata = (~wdata & old_val);
     }
 
     if (csr_idx == number_mie || csr_idx == number_sie) {
@@ -350,9 +352,9 @@ void Csr::comb_csr_write() {
 
       if (csr_idx == number_sie) {
         CSR_RegFile_1[csr_mie] =
-            (CSR_RegFile[csr_mie] & ~sie_mask) | (csr_wdata & sie_mask);
+            (CSR_RegFile[csr_mie] & ~sie_mask) | (wdata & sie_mask);
       } else {
-        CSR_RegFile_1[csr_mie] = csr_wdata & mie_mask;
+        CSR_RegFile_1[csr_mie] = wdata & mie_mask;
       }
       CSR_RegFile_1[csr_sie] = CSR_RegFile_1[csr_mie] & sie_mask;
     } else if (csr_idx == number_mip || csr_idx == number_sip) {
@@ -361,9 +363,9 @@ void Csr::comb_csr_write() {
 
       if (csr_idx == number_sip) {
         CSR_RegFile_1[csr_mip] =
-            (CSR_RegFile[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
+            (CSR_RegFile[csr_mip] & ~sip_mask) | (wdata & sip_mask);
       } else {
-        CSR_RegFile_1[csr_mip] = csr_wdata & mip_mask;
+        CSR_RegFile_1[csr_mip] = wdata & mip_mask;
       }
 
       CSR_RegFile_1[csr_sip] = CSR_RegFile_1[csr_mip] & sip_mask;
@@ -374,24 +376,24 @@ void Csr::comb_csr_write() {
 
       if (csr_idx == number_sstatus) {
         CSR_RegFile_1[csr_mstatus] = (CSR_RegFile[csr_mstatus] & ~sstatus_mask) |
-                                     (csr_wdata & sstatus_mask);
+                                     (wdata & sstatus_mask);
       } else {
         CSR_RegFile_1[csr_mstatus] = (CSR_RegFile[csr_mstatus] & ~mstatus_mask) |
-                                     (csr_wdata & mstatus_mask);
+                                     (wdata & mstatus_mask);
       }
 
       CSR_RegFile_1[csr_sstatus] = CSR_RegFile_1[csr_mstatus] & sstatus_mask;
 
     } else if (csr_idx == number_satp) {
       const uint32_t old_satp = CSR_RegFile[csr_satp];
-      CSR_RegFile_1[csr_satp] = csr_wdata;
-      if (old_satp != csr_wdata) {
+      CSR_RegFile_1[csr_satp] = wdata;
+      if (old_satp != wdata) {
         debug_ptw_trace::record_satp_write(
-            old_satp, static_cast<uint32_t>(csr_wdata),
+            old_satp, wdata,
             static_cast<uint8_t>(privilege));
       }
     } else {
-      CSR_RegFile_1[cvt_number_to_csr(csr_idx)] = csr_wdata;
+      CSR_RegFile_1[cvt_number_to_csr(csr_idx)] = wdata;
     }
 
     csr_we_1 = false;
-- 
2.43.0


From 5ccf4f5ce33cda43f06a09957d5a07d5880f1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 10/31] fix: a CSR write squashed by an interrupt was applied
 by the next CSR read

The latched write survived the flush, and committing a later CSR
instruction that does not write performed it.
---
 back-end/Exu/Csr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 6ec1c5f..08b93f5 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -396,6 +396,9 @@ void Csr::comb_csr_write() {
       CSR_RegFile_1[cvt_number_to_csr(csr_idx)] = wdata;
     }
 
+    csr_we_1 = false;
+  } else if (in.rob_bcast->flush) {
+    // The instruction owning the latched write is squashed (interrupt taken).
     csr_we_1 = false;
   }
 }
-- 
2.43.0


From 728485cbbc369d08114f1bd9c3388478c3647afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:03:35 +0000
Subject: [PATCH 11/31] fix: a supervisor interrupt lost to an undelegated
 ecall in the reference model

The pipeline takes a pending interrupt before the instruction, the
reference model executed the ecall instead.
---
 diff/ref.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 6472475..76cb927 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -304,7 +304,11 @@ void RefCpu::exception(uint32_t trap_val) {
   uint32_t next_pc = state.pc + 4;
 
   // 重新获取当前状态（因为exec可能没传进来最新的）
-  bool ecall = (Instruction == INST_ECALL);
+  // An interrupt is taken before the instruction, which then has no effect.
+  bool interrupt = M_software_interrupt || M_timer_interrupt ||
+                   M_external_interrupt || S_software_interrupt ||
+                   S_timer_interrupt || S_external_interrupt;
+  bool ecall = (Instruction == INST_ECALL) && !interrupt;
   bool mret = (Instruction == INST_MRET);
   bool sret = (Instruction == INST_SRET);
 
-- 
2.43.0


From 6be13e3e26694cec6fd712e0d0a56133fd3ad582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:06:09 +0000
Subject: [PATCH 12/31] fix: unsupported floating-point encodings hung or wrote
 rd in the reference model

They set the illegal flag but never took the trap: some returned without
advancing the PC, the others wrote zero to rd.
---
 diff/ref.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 76cb927..6f1ae88 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -640,6 +640,9 @@ void RefCpu::RISCV() {
              opcode == number_16_opcode_fnmadd ||
              opcode == number_14_opcode_fmsub) {
     RV32Zfinx();
+    if (illegal_exception) {
+      exception(Instruction);
+    }
   } else {
     RV32IM();
   }
@@ -857,6 +860,9 @@ void RefCpu::RV32Zfinx() {
   // state.csr[CSR_FCSR] |= softfloat_exceptionFlags;
 
 skip_flags_update:
+  if (illegal_exception) {
+    return;
+  }
   // 5. 写回结果
   if (write_rd && rd != 0) {
     state.gpr[rd] = i_res;
-- 
2.43.0


From 4cf560318c00ea018ed186981aaeb5172c897398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:06:09 +0000
Subject: [PATCH 13/31] fix: the reference model executed unsupported opcodes
 as no-ops

The pipeline raises an illegal-instruction exception for them.
---
 diff/ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 6f1ae88..50aecb3 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1622,7 +1622,9 @@ void RefCpu::RV32IM() {
     break;
   }
   default: {
-    break;
+    illegal_exception = true;
+    exception(Instruction);
+    return;
   }
   }
 
-- 
2.43.0


From ef8957c829e4594814502c3bc3a6abd4edf176f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:00 +0000
Subject: [PATCH 14/31] fix: reference model let S-mode fetch from a user
 superpage when SUM is set

---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 50aecb3..4d231cf 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1792,8 +1792,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指 U-page，或访问 U-page 且 SUM=0 -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 7c9ff04f782094a61d5b036512c9ec43cc8791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:57 +0000
Subject: [PATCH 15/31] fix: a replayed page walk gave up its request while
 still active

After a memory replay the walk client reported ready although its walk was
still running, so a second request replaced the address being walked. In the
packed form the walk also lost its owner and continued for the other client.
---
 MemSubSystem/include/MemPtwBlock.h          | 3 ---
 MemSubSystem/include/PtwCompactCoreKernel.h | 4 ----
 2 files changed, 7 deletions(-)

diff --git a/MemSubSystem/include/MemPtwBlock.h b/MemSubSystem/include/MemPtwBlock.h
index 57d42d1..eb825f6 100644
--- a/MemSubSystem/include/MemPtwBlock.h
+++ b/MemSubSystem/include/MemPtwBlock.h
@@ -1131,9 +1131,6 @@ private:
       return WalkRespResult::IGNORED;
     }
 
-    auto &wc = nxt_.walk_clients[client_idx(nxt_.walk_owner)];
-    wc.req_inflight = false;
-
     static constexpr uint8_t kReplayWaitFill = 2;
     if (replay_reason == kReplayWaitFill) {
       if (nxt_.walk_state == WalkState::L1_WAIT_RESP) {
diff --git a/MemSubSystem/include/PtwCompactCoreKernel.h b/MemSubSystem/include/PtwCompactCoreKernel.h
index 22fba55..c4db3b9 100644
--- a/MemSubSystem/include/PtwCompactCoreKernel.h
+++ b/MemSubSystem/include/PtwCompactCoreKernel.h
@@ -771,10 +771,6 @@ static inline void ptw_kernel_on_walk_mem_replay(PtwCompactKernelState *state,
     return;
   }
 
-  PtwCompactKernelWalkClientState *wc =
-      &state->walk_clients[state->walk_owner];
-  wc->req_inflight = false;
-
   if (replay_reason == 2u) {
     if (state->walk_state == PTW_COMPACT_CORE_KERNEL_WALK_L1_WAIT_RESP) {
       state->walk_state = PTW_COMPACT_CORE_KERNEL_WALK_L1_REQ;
-- 
2.43.0


From f713534c8950e577d444f0be4b43292bf2e52459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:28:15 +0000
Subject: [PATCH 16/31] fix: a pipeline flush left multi-cycle operations
 running

With a branch mask narrower than int the all-ones comparison was done
after integer promotion and never matched, so a multiply, divide or
floating-point operation without an unresolved older branch survived a
flush, completed a recycled ROB entry and wrote a recycled register.
---
 back-end/Exu/include/AbstractFU.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..d29e24b 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,8 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(
+                               ~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +204,8 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(
+                              ~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From dadd52cac0ce34eaa7ead3ebf418a0d4ab1e7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:28:43 +0000
Subject: [PATCH 17/31] fix: a divide and a floating-point result due together
 lost a wake-up

Both units share the wake-up channel of their issue port. When both were
due in the same cycle the later one overwrote the other and its consumers
waited forever. The floating-point wake-up now waits one cycle.
---
 back-end/Isu.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..9a2fbd6 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -242,7 +242,15 @@ void Isu::comb_calc_latency_next() {
     }
   }
 
-  // FP 槽位：与 DIV 相同。
+  // FP 槽位：与 DIV 相同，但唤醒通道被同端口 DIV 占用时保留到下一拍。
+  auto is_announced = [&](uint32_t preg) {
+    for (int i = 0; i < MAX_WAKEUP_PORTS; i++) {
+      if (out.iss_awake->wake[i].valid && out.iss_awake->wake[i].preg == preg) {
+        return true;
+      }
+    }
+    return false;
+  };
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &cur = fp_wake_slots[i];
     auto &nxt = fp_wake_slots_1[i];
@@ -253,6 +261,8 @@ void Isu::comb_calc_latency_next() {
     if (cur.countdown > 0) {
       nxt = cur;
       nxt.countdown = cur.countdown - 1;
+    } else if (!is_announced(cur.dest_preg)) {
+      nxt = cur;
     } else {
       nxt = {};
     }
@@ -404,7 +414,9 @@ void Isu::comb_awake() {
       int port = get_port_for_unit(OP_MASK_FP, i);
       int ch = delayed_ch_map[port];
       Assert(ch != -1);
-      Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
+      if (out.iss_awake->wake[ch].valid) {
+        continue; // 同端口 DIV 同拍唤醒：comb_calc_latency_next 保留到下一拍重试
+      }
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
     }
-- 
2.43.0


From 33acdd39779027a378681c55bb141c5f675a431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:09 +0000
Subject: [PATCH 18/31] fix: a load with destination x0 was bypassed to
 instructions reading x0

The load unit reports every result with its destination enabled, so a load
to x0 appears as a write of physical register 0. The register file ignores
it, but an operand read in the same cycle took the loaded value.
---
 back-end/Prf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..5b7c8e1 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,7 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  if (!src_en || preg == 0) { // x0 恒为 0，不接受旁路
     return 0;
   }
 
-- 
2.43.0


From 19251d76df1f0cf7c7ea931db44a3b0a80acac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:25 +0000
Subject: [PATCH 19/31] fix: fence retired while committed stores were still
 pending

The forward-progress fallback retired the fence that the store gate had
just blocked.
---
 back-end/Rob.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..810fdb6 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -324,7 +324,10 @@ void Rob::comb_commit() {
         }
         const auto &uop = entry[i][deq_ptr].uop;
         const bool ready = rob_is_complete(uop);
-        if (ready && !rob_is_flush_inst(uop)) {
+        const bool fence_blocked = rob_is_fence_inst(uop) &&
+                                   in.lsu2rob != nullptr &&
+                                   in.lsu2rob->committed_store_pending;
+        if (ready && !fence_blocked && !rob_is_flush_inst(uop)) {
           single_commit = true;
           single_idx = i;
           progress_single_commit = true;
-- 
2.43.0


From 758c105773651044de4f219ccd993dfab0288069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:25 +0000
Subject: [PATCH 20/31] fix: store fault of an atomic could report a physical
 address

When the load half of an AMO finished after the store half had faulted,
its physical address replaced the recorded faulting virtual address.
---
 back-end/Rob.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 810fdb6..eddc0cb 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -584,7 +584,10 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
           // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // 已记录缺页的指令保留出错地址（AMO 的 STA 可能先于 LOAD 完成）。
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
@@ -601,7 +604,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_STA_COUNT; k++) {
         if (i == IQ_STA_PORT_BASE + k) {
           // Keep resolved store address in ROB for commit-time policy checks.
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
             entry_1[bank_idx][line_idx].uop.page_fault_load |=
-- 
2.43.0


From 20a8e266b447958a67f351b8967aada648831c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:22:05 +0000
Subject: [PATCH 21/31] fix: pass corrector and loop predictor metadata from
 fetch to the core

The branch predictor build filled the statistical corrector and loop
predictor fields of the fetch bundle but the copy into the back end left
them at zero, so predictor updates always saw empty metadata.  The oracle
path already copies them.
---
 rv_simu_mmu_v2.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..a289308 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -1159,6 +1159,17 @@ void SimCpu::front_cycle() {
       back.in.alt_pred[j] = front.out.alt_pred[j];
       back.in.altpcpn[j] = front.out.altpcpn[j];
       back.in.pcpn[j] = front.out.pcpn[j];
+      back.in.sc_used[j] = front.out.sc_used[j];
+      back.in.sc_pred[j] = front.out.sc_pred[j];
+      back.in.sc_sum[j] = front.out.sc_sum[j];
+      for (int t = 0; t < BPU_SCL_META_NTABLE; ++t) {
+        back.in.sc_idx[j][t] = front.out.sc_idx[j][t];
+      }
+      back.in.loop_used[j] = front.out.loop_used[j];
+      back.in.loop_hit[j] = front.out.loop_hit[j];
+      back.in.loop_pred[j] = front.out.loop_pred[j];
+      back.in.loop_idx[j] = front.out.loop_idx[j];
+      back.in.loop_tag[j] = front.out.loop_tag[j];
       for (int k = 0; k < 4; k++) { // TN_MAX = 4 (分支预测相关索引)
         back.in.tage_idx[j][k] = front.out.tage_idx[j][k];
         back.in.tage_tag[j][k] = front.out.tage_tag[j][k];
-- 
2.43.0


From e60e8f36ab77b2cc7486862272e6866b6da02786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:12 +0000
Subject: [PATCH 22/31] fix: idle data-cache ticks read an uninitialised
 request bundle

The extra ticks of the fast data-cache domain present an empty request
built by value-initialising LsuDcacheIO, whose constructor left the request
ports indeterminate.  Unoptimised builds turned stack contents into
requests.
---
 back-end/include/IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..3b4ae6e 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1378,7 +1378,7 @@ struct LsuMMUIO{
 };
 
 struct LsuDcacheIO {
-  DCacheReqPorts req_ports;
+  DCacheReqPorts req_ports{};
   wire<LSU_LDU_WIDTH+1> icache_req;
 
   LsuDcacheIO() { icache_req = LSU_LDU_COUNT; }
-- 
2.43.0


From b7d6bbb60f8b48153b6692d83bab5d008f71e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:43 +0000
Subject: [PATCH 23/31] fix: loads forwarded from a refill missed stores
 already merged into it

A store that hits a line while the refill waits in stage 2 is merged into
the stage-2 copy and acknowledged.  A load answered from the refill in the
following cycles read the miss-register copy instead and returned the value
before the store.
---
 MemSubSystem/MemSubsystem.cpp     | 10 +++++++++-
 MemSubSystem/include/RealDcache.h |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index e6c390b..f5ccbbf 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -885,6 +885,13 @@ void MemSubsystem::forward_pending_response_from_fill() {
     return;
   }
 
+  // Stores that completed while the line waits in stage 2 are merged into the
+  // stage-2 copy only, so forward from that copy once it exists.
+  const FILLWrite &staged = dcache_.stage2_fill();
+  const AddrFields fill_f = decode(fill.addr);
+  const bool fill_staged = staged.valid && staged.set_idx == fill_f.set_idx &&
+                           staged.tag == fill_f.tag;
+
   for (int i = 0; i < LSU_LDU_COUNT; i++) {
     LoadResp &resp = dcache_resp_pending_.resp_ports.load_resps[i];
     const DcacheRespMeta &meta = dcache_resp_pending_meta_[i];
@@ -894,7 +901,8 @@ void MemSubsystem::forward_pending_response_from_fill() {
       continue;
     }
     const AddrFields f = decode(meta.addr);
-    resp.data = fill.data[f.word_off];
+    resp.data =
+        fill_staged ? staged.data[f.word_off] : fill.data[f.word_off];
     resp.replay = ReplayType::HIT;
 #if !BSD_CONFIG
     if (ctx != nullptr) {
diff --git a/MemSubSystem/include/RealDcache.h b/MemSubSystem/include/RealDcache.h
index de1f14c..98fa36d 100644
--- a/MemSubSystem/include/RealDcache.h
+++ b/MemSubSystem/include/RealDcache.h
@@ -60,6 +60,9 @@ public:
     void stage1_comb();
     void stage2_comb();
 
+    // Line waiting in stage 2 to be written, including stores merged into it.
+    const FILLWrite &stage2_fill() const { return s1s2_cur.fill_write; }
+
     void dump_debug_state(FILE *out) const;
 private:
     struct FillReqMerge {
-- 
2.43.0


From 949c25ca96b3f1f4324b5c56a11ab0b8c340f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:45:20 +0000
Subject: [PATCH 24/31] fix: do not forward a conditional store's data before
 it succeeded

A load younger than an SC was given the SC's data even when the SC failed
or had not been decided yet. It now skips a failed SC and waits for an
undecided one.
---
 back-end/Lsu/RealLsu.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..4d1874d 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -573,11 +573,16 @@ void RealLsu::comb_stlf() {
             entry.load_state = LoadState::CheckStlfRetry;
             break;
           }
+          if (stq_entry.is_lrsc && stq_entry.suppress_write) {
+            check_stlf_num++; // 失败的SC不写内存，不参与转发
+            continue;
+          }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
           if (stlf_result == STLFResult::Overlap) {
-            if (!stq_entry.data_valid) {
-              entry.load_state = LoadState::CheckStlfRetry;
+            if (!stq_entry.data_valid ||
+                (stq_entry.is_lrsc && !stq_entry.sc_pass)) {
+              entry.load_state = LoadState::CheckStlfRetry; // SC结果未知时也需要等待
               break;
             }
             const uint32_t forward_offset = entry.p_addr - stq_entry.paddr;
-- 
2.43.0


From 49454308d7eccb9ac08d2c9f2c5c4f6d48b2e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:45:35 +0000
Subject: [PATCH 25/31] fix: ignore a device response that belongs to a flushed
 access

A flush drops a device load whose request is already on the bus. The late
response was then taken by the next device access even though that one had
not been sent yet, so a load got foreign data and a store was lost.
---
 back-end/Lsu/RealLsu.cpp       | 7 ++++++-
 back-end/Lsu/include/RealLsu.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 4d1874d..775a8c2 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -290,13 +290,16 @@ void RealLsu::comb_mmio_out() {
       out.peripheral_req->mmio_addr = nxt.uncached_unit.addr;
       out.peripheral_req->mmio_wdata = nxt.uncached_unit.wdata;
       out.peripheral_req->mmio_fun3 = nxt.uncached_unit.func3;
+      nxt.uncached_unit.sent = true;
     } else {
       out.peripheral_req->is_mmio = false;
     }
   }
 }
 void RealLsu::comb_mmio_in() {
-  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid) {
+  // 请求尚未发出时收到的响应属于已被冲刷的旧访问，不能使用
+  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid &&
+      cur.uncached_unit.sent) {
     if (cur.uncached_unit.is_load) {
       auto &entry = nxt.ldq[cur.uncached_unit.idx];
       if (nxt.finish_count < LDQ_SIZE) {
@@ -551,6 +554,7 @@ void RealLsu::comb_stlf() {
           lsu_perf::start_mem_inst(ctx, entry);
           nxt.uncached_unit.valid = true;
           nxt.uncached_unit.is_load = true;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
           nxt.uncached_unit.idx = ldq_idx;
@@ -868,6 +872,7 @@ void RealLsu::comb_lsu2dcache_stq() {
         if (i == 0 && !nxt.uncached_unit.valid) {
           nxt.uncached_unit.valid = true;
           nxt.uncached_unit.is_load = false;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.addr = nxt_entry.paddr;
           nxt.uncached_unit.wdata = nxt_entry.data;
           nxt.uncached_unit.func3 = nxt_entry.func3;
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index e32237a..b3e5e48 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -98,6 +98,7 @@ struct LdqEntry {
 
 struct UncachedUnit {
   wire<1> valid;
+  wire<1> sent;
 
   wire<1> is_load;
 
-- 
2.43.0


From fc360831fdf1ff8c1283d6506a3d4bddca3a1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:11 +0000
Subject: [PATCH 26/31] fix: keep earlier waiters when another page-table read
 misses

The wait flags of all page-table clients were overwritten each time one of
them missed in the data cache, so a client already waiting for a refill was
never woken again.
---
 MemSubSystem/MemRouteBlock.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..8855959 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -73,9 +73,9 @@ void MemRouteBlock::comb_response() {
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
         out.wakeup->walk = (owner == Owner::PTW_WALK);
       } else {
-        nxt.ptw_wait.dtlb = (owner == Owner::PTW_DTLB);
-        nxt.ptw_wait.itlb = (owner == Owner::PTW_ITLB);
-        nxt.ptw_wait.walk = (owner == Owner::PTW_WALK);
+        nxt.ptw_wait.dtlb |= (owner == Owner::PTW_DTLB);
+        nxt.ptw_wait.itlb |= (owner == Owner::PTW_ITLB);
+        nxt.ptw_wait.walk |= (owner == Owner::PTW_WALK);
       }
     }
   }
-- 
2.43.0


From 3fce175ef7e127fb093e1c8540445b65f5453dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 27/31] fix: subtract in FSUB instead of adding the negated
 operand

Negating a NaN operand first made the result carry the flipped sign.
---
 back-end/Exu/include/FPU.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..2509f83 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -172,8 +172,7 @@ protected:
             inst.result = f32_add(a,b).v;
             break;
         case FSUB:
-            b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = f32_sub(a,b).v;
             break;
         case FMUL:
             inst.result = f32_mul(a,b).v;
-- 
2.43.0


From 39c6fb5157e82ec97f5ff6659d2bec3174c39f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:16 +0000
Subject: [PATCH 28/31] fix: release the read id when a cancelled fetch is
 answered with its accept pulse

The answer was taken, but the id stayed marked as in flight. After sixteen
such cancellations no fetch could go to memory any more.
---
 front-end/icache/icache_module.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..bee5d44 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1497,9 +1497,12 @@ void ICache::eval_state_machine() {
     io.out.mem_resp_ready = true;
     if (io.in.mem_req_accepted && io.regs.miss_txid_valid_r &&
         ((io.in.mem_req_accepted_id & 0xF) == (io.regs.miss_txid_r & 0xF))) {
+      // The response may arrive together with the accept pulse; it is taken
+      // right here then and no later one will release the txid.
       uint8_t txid = io.regs.miss_txid_r & 0xF;
-      io.reg_write.txid_canceled_r[txid] = true;
-      io.reg_write.txid_inflight_r[txid] = true;
+      const bool resp_taken_now = io.in.mem_resp_valid && resp_id == txid;
+      io.reg_write.txid_canceled_r[txid] = !resp_taken_now;
+      io.reg_write.txid_inflight_r[txid] = !resp_taken_now;
     }
     state_next = IDLE;
     mem_axi_state_next = AXI_IDLE;
-- 
2.43.0


From 3073ee1674d039b33d46b87b508e29da4a9c0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:38 +0000
Subject: [PATCH 29/31] fix: keep rotate shift amounts below the operand width

---
 back-end/Exu/include/Fu.h | 4 ++--
 diff/ref.cpp              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/back-end/Exu/include/Fu.h b/back-end/Exu/include/Fu.h
index 65ef931..7eecb46 100644
--- a/back-end/Exu/include/Fu.h
+++ b/back-end/Exu/include/Fu.h
@@ -52,7 +52,7 @@ protected:
         if (inst.func7 == 0) // sll
           inst.result = operand1 << shift;
         else if (inst.func7 == 0x30 && !inst.src2_is_imm) // rol (Zbb)
-          inst.result = (operand1 << shift) | (operand1 >> (32 - shift));
+          inst.result = (operand1 << shift) | (operand1 >> ((32 - shift) & 0x1F));
         else if (inst.func7 == 0x24) // bclr (Zbs)
           inst.result = operand1 & ~(1u << shift);
         else if (inst.func7 == 0x14) // bset (Zbs)
@@ -140,7 +140,7 @@ protected:
                  (inst.func7 != 0x34) && (inst.func7 != 0x14)) // srai
           inst.result = (int32_t)operand1 >> shift;
         else if (inst.func7 == 0x30) { // ror (Zbb)
-          inst.result = (operand1 >> shift) | (operand1 << (32 - shift));
+          inst.result = (operand1 >> shift) | (operand1 << ((32 - shift) & 0x1F));
         } else if (inst.func7 == 0x24) { // bext (Zbs)
           inst.result = (operand1 >> shift) & 1;
         } else if (inst.func7 == 0x34 && inst.src2_is_imm) { // rev8 (Zbb)
diff --git a/diff/ref.cpp b/diff/ref.cpp
index 4d231cf..750d614 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1383,7 +1383,7 @@ void RefCpu::RV32IM() {
         state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shamt;
       } else if (funct7 == 0x30) { // rori (Zbb)
         state.gpr[reg_d_index] =
-            (reg_rdata1 >> shamt) | (reg_rdata1 << (32 - shamt));
+            (reg_rdata1 >> shamt) | (reg_rdata1 << ((32 - shamt) & 0x1F));
       } else if (funct7 == 0x24) { // bexti (Zbs)
         state.gpr[reg_d_index] = (reg_rdata1 >> shamt) & 1;
       } else if (funct7 == 0x34) { // rev8 (Zbb) - shamt must be 24?
@@ -1503,7 +1503,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = reg_rdata1 << shift;
         } else if (funct7 == 0x30) { // rol (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 << shift) | (reg_rdata1 >> (32 - shift));
+              (reg_rdata1 << shift) | (reg_rdata1 >> ((32 - shift) & 0x1F));
         } else if (funct7 == 0x24) { // bclr (Zbs)
           state.gpr[reg_d_index] = reg_rdata1 & ~(1u << shift);
         } else if (funct7 == 0x14) { // bset (Zbs)
@@ -1575,7 +1575,7 @@ void RefCpu::RV32IM() {
           state.gpr[reg_d_index] = (int32_t)reg_rdata1 >> shift;
         } else if (funct7 == 0x30) { // ror (Zbb)
           state.gpr[reg_d_index] =
-              (reg_rdata1 >> shift) | (reg_rdata1 << (32 - shift));
+              (reg_rdata1 >> shift) | (reg_rdata1 << ((32 - shift) & 0x1F));
         } else if (funct7 == 0x24) { // bext (Zbs)
           state.gpr[reg_d_index] = (reg_rdata1 >> shift) & 1;
         } else if (funct7 == 0x05) { // minu (Zbb)
-- 
2.43.0


From ed4cdab97c85ecf9880f4a50e057859720e375b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:07 +0000
Subject: [PATCH 30/31] fix: validate images and checkpoints in release builds

---
 back-end/BackTop.cpp | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..0da2059 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -412,6 +412,14 @@ void BackTop::seq() {
   lsu->seq();
 }
 
+// 输入文件（镜像/检查点）的校验在 release 构建中也必须生效，因此不使用 Assert。
+static void require_input(bool ok, const char *message) {
+  if (!ok) {
+    std::cerr << message << std::endl;
+    exit(1);
+  }
+}
+
 // --- 辅助函数：简化 zlib 读写 POD 类型 ---
 template <typename T> void gz_write_pod(gzFile file, const T &data) {
   if (gzwrite(file, &data, sizeof(T)) != sizeof(T)) {
@@ -421,7 +429,7 @@ template <typename T> void gz_write_pod(gzFile file, const T &data) {
 
 template <typename T> void gz_read_pod(gzFile file, T &data) {
   if (gzread(file, &data, sizeof(T)) != sizeof(T)) {
-    Assert(0 && "Error reading data from gzip file.");
+    require_input(false, "Error reading data from gzip file.");
   }
 }
 
@@ -458,10 +466,10 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
         remain > kGzChunkSize ? kGzChunkSize : remain);
     const int read_bytes = gzread(file, dst, chunk);
     if (read_bytes < 0) {
-      Assert(0 && "Error: gzread failed during checkpoint restore.");
+      require_input(false, "Error: gzread failed during checkpoint restore.");
     }
     if (read_bytes == 0) {
-      Assert(0 && "Error: Unexpected EOF during checkpoint restore.");
+      require_input(false, "Error: Unexpected EOF during checkpoint restore.");
     }
     dst += read_bytes;
     remain -= static_cast<uint64_t>(read_bytes);
@@ -473,7 +481,7 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
 void BackTop::load_image(const std::string &filename) {
   std::ifstream inst_data(filename, std::ios::binary);
   if (!inst_data.is_open()) {
-    Assert(0 && "Error: Image does not exist");
+    require_input(false, "Error: Image does not exist");
   }
 
   inst_data.seekg(0, std::ios::end);
@@ -481,10 +489,10 @@ void BackTop::load_image(const std::string &filename) {
   inst_data.seekg(0, std::ios::beg);
 
   if (size < 0 || static_cast<uint64_t>(size) > RAM_SIZE) {
-    Assert(0 && "Image too large for configured RAM window.");
+    require_input(false, "Image too large for configured RAM window.");
   }
   if (!inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size)) {
-    Assert(0 && "读取文件失败！");
+    require_input(false, "读取文件失败！");
   }
 
   inst_data.close();
@@ -557,7 +565,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
   }
 
   if (!file) {
-    Assert(0 && "Error: Could not open checkpoint file");
+    require_input(false, "Error: Could not open checkpoint file");
   }
 
   // 与 SimpleSim/save_checkpoint 写入格式保持一致，确保反序列化对齐。
@@ -581,14 +589,14 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 1. 恢复 header + 状态
   gz_read_pod(file, ckpt_header);
-  Assert(ckpt_header.magic == kCkptMagic &&
-         "Error: Invalid checkpoint magic.");
-  Assert(ckpt_header.format_ver == kCkptFormatVersion &&
-         "Error: Unsupported checkpoint version.");
-  Assert(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes) &&
-         "Error: Checkpoint RAM size mismatch.");
-  Assert(ckpt_header.io_range_count == kExpectedIoLayout.size() &&
-         "Error: Checkpoint IO layout count mismatch.");
+  require_input(ckpt_header.magic == kCkptMagic,
+                "Error: Invalid checkpoint magic.");
+  require_input(ckpt_header.format_ver == kCkptFormatVersion,
+                "Error: Unsupported checkpoint version.");
+  require_input(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes),
+                "Error: Checkpoint RAM size mismatch.");
+  require_input(ckpt_header.io_range_count == kExpectedIoLayout.size(),
+                "Error: Checkpoint IO layout count mismatch.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -644,7 +652,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 2. 恢复内存
   if (pmem_ram_ptr() == nullptr) {
-    Assert(0 && "Error: Memory not allocated during checkpoint restore.");
+    require_input(false, "Error: Memory not allocated during checkpoint restore.");
   }
   pmem_clear_all();
 
@@ -662,10 +670,11 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
     const bool is_timer_range = (i == kExpectedIoLayout.size() - 1);
     const bool layout_match =
-        is_timer_range ? (range.base == expected.base)
+        is_timer_range ? (range.base == expected.base &&
+                          range.size <= PMEM_RAM_BASE - range.base)
                        : (range.base == expected.base &&
                           range.size == expected.size);
-    Assert(layout_match && "Error: Checkpoint IO layout mismatch.");
+    require_input(layout_match, "Error: Checkpoint IO layout mismatch.");
 
     std::vector<uint8_t> io_bytes(range.size, 0);
     gz_read_exact(file, io_bytes.data(), io_bytes.size());
-- 
2.43.0


From de541a8b06673ae921763813e28f4200157c7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:40 +0000
Subject: [PATCH 31/31] fix: clear only next-cycle wakeup state in the issue
 stage's flush logic

The combinational flush step also cleared the registered wakeup pipes, so
current state changed before the clock edge. The next-state copies are
cleared in the same step and take effect at the edge.
---
 back-end/Isu.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 9a2fbd6..ecfce6f 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -470,7 +470,7 @@ void Isu::comb_awake() {
  * comb_flush
  * 功能: 通过 IQ 输入 IO 处理 flush/mispred/clear，并同步清理延迟管线。
  * 输入依赖: in.rob_bcast->flush, in.dec_bcast->{mispred, br_mask, clear_mask}, mul/div/fp *_1, iqs[]。
- * 输出更新: iqs[]（经 q.comb_flush）, mul/div/fp 当前态与下一态。
+ * 输出更新: iqs[]（经 q.comb_flush）, mul/div/fp 下一态。
  * 约束: flush 优先级高于 mispred；clear_mask 在 flush/mispred 处理后作用于存活条目。
  */
 void Isu::comb_flush() {
@@ -488,20 +488,12 @@ void Isu::comb_flush() {
   }
 
   if (in.rob_bcast->flush) {
-    for (auto &stage : mul_wake_pipe) {
-      for (auto &e : stage)
-        e = {};
-    }
     for (auto &stage : mul_wake_pipe_1) {
       for (auto &e : stage)
         e = {};
     }
-    for (auto &e : div_wake_slots)
-      e = {};
     for (auto &e : div_wake_slots_1)
       e = {};
-    for (auto &e : fp_wake_slots)
-      e = {};
     for (auto &e : fp_wake_slots_1)
       e = {};
   } else if (in.dec_bcast->mispred) {
-- 
2.43.0

