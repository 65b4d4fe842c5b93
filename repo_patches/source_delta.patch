From 4f45500203dc620baeac0c9108401b78836b179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH] fix: forget an EI supplied in interrupt mode 0 once
 execute_with_limit goes on

An EI opcode supplied by the interrupting device left the after-EI state set
while execute_with_limit kept executing the following instructions, so
is_after_ei(), is_irq_allowed(), is_nmi_allowed() and nmi() refused interrupts
afterwards; stepping the same program with execute_next does not.
---
 src/z80.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..6166721 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -548,6 +548,9 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             // self.set_flags(flags);
             // self.pc.set16(pc.0);
             // self.prefix = prefix;
+
+            // an instruction supplied with the accepted interrupt (IM 0) might have been EI
+            self.last_ei = false;
             match self.execute_with_limit_loop(control, tsc, vc_limit) {
             // match reason {
                 LoopExitReason::EnableInt|
-- 
2.43.0

