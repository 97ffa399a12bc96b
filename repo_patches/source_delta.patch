From 519a49cc294c398f26caba0b56695bb182583067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 1/2] fix: execute_with_limit must forget EI executed as an
 interrupt vector

In mode 0 the vector may be EI. execute_with_limit then executed the next
instruction leaving the after-EI latch set, so the cpu reported being
after EI (or halted in that state) where single stepping did not.
---
 src/z80.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..52ef00f 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -581,6 +581,9 @@ impl<Q: Flavour> Z80<Q> {
         let mut pc = Wrapping(self.pc.get16());
         let mut flags = self.get_flags();
 
+        // an interrupt in mode 0 might have just executed EI
+        self.last_ei = false;
+
         loop {
             let reason: LoopExitReason<_,_> = 'main: loop {
                 // can break 'main with Halt, WriteIo, Reti or EnableInt
-- 
2.43.0


From cb1f851822a18a90e160192f09d51623fb7cb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 2/2] fix: a halted cpu must not keep waiting on EI or a prefix

halt() or enable_interrupts() called with a prefix or the after-EI latch
pending left the latch set for as long as the cpu was halted, so no
interrupt was ever accepted and execute_with_limit failed its debug
assertion. The halted cycle now ends both, as any executed NOP does.
---
 src/z80.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/z80.rs b/src/z80.rs
index 52ef00f..69ade74 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -473,6 +473,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         if self.halt {
             tsc.add_m1(self.pc.get16());
             self.inc_r();
+            self.prefix = None;
+            self.last_ei = false;
             Ok(())
         }
         else {
@@ -491,18 +493,18 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         const DEBUG: Option<CpuDebugFn> = None;
 
         if self.halt {
-            debug_assert_eq!(self.prefix, None);
-            debug_assert!(!self.last_ei);
             let pc = self.pc.get16();
             loop {
                 if tsc.is_past_limit(vc_limit) {
                     return Ok(());
                 }
-                if self.iff1 && control.is_irq(tsc.as_timestamp()) {
+                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                     break
                 }
                 tsc.add_m1(pc);
                 self.inc_r();
+                self.prefix = None;
+                self.last_ei = false;
             }
         }
         else if tsc.is_past_limit(vc_limit) {
-- 
2.43.0

