From 8b87e7935eeac306994ce779856154d949b1ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 001/190] fix: wrap an address just past the end of a memory
 back to its start

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From a58cd6c410f1e15174107241869a6484c3c83b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 002/190] fix: MCS51 MOVC wraps at the end of the code memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..ebc7717 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l + acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From ccbfefbfcc32e1af58db86f218582b15f8d88bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 003/190] fix: MCS51 PSW.P can not be changed by writing PSW

---
 src/sims/s51.src/uc51.cc  | 10 +++++++++-
 src/sims/s51.src/uc51cl.h |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..a9bf7bf 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1990,7 +1990,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  cell_p= register_cell(bas, PSW/*.0*/);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2055,6 +2056,13 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    {
+      // P always reflects parity of ACC, it can not be written
+      *val= (*val & ~bmP) | ptab51[cell_acc->get()];
+    }
+  else if (cell == cell_p)
+    *val= ptab51[cell_acc->get()]?1:0;
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..22044c9 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -296,7 +296,7 @@ enum uc51cpu_cfg {
 class cl_uc51_cpu: public cl_hw
 {
 protected:
-  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
+  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw, *cell_p;
   class cl_memory_cell *acc_bits[8];
 public:
   chars movxri_expr;
-- 
2.43.0


From 5e5e02ccda8347be9e3d9f4aafbc948bcbdf51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 004/190] fix: event breakpoints do not change the value read
 from a peripheral register

An event breakpoint was added after the operators of the peripherals and
its read replaced their value with the content of the cell.
---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..69f1374 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1431,7 +1431,7 @@ cl_memory_cell::set_brk(class cl_uc *uc, class cl_brk *brk)
       break;
     }
   if (op)
-    append_operator(op);
+    prepend_operator(op);
 }
 
 void
-- 
2.43.0


From c7d0d54f34243046ee106757c8ac7e2430131963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 005/190] fix: temporary event breakpoints are deleted when
 they are accepted

Events are also forgotten after they were reported, so they do not stop the
execution again when the CPU is idle.
---
 src/core/sim.src/uc.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..3f52b03 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3835,7 +3835,7 @@ cl_uc::mk_ebrk(enum brk_perm perm, class cl_memory_cell *cell,
 void
 cl_uc::check_events(void)
 {
-  int i;
+  int i, j;
   if (events->count)
     sim->stop(resEVENTBREAK);
   for (i= 0; i < events->count; i++)
@@ -3844,6 +3844,16 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  // accepted temporary breakpoints are removed
+  for (i= 0; i < events->count; i++)
+    for (j= 0; j < ebrk->count; j++)
+      if (ebrk->at(j) == events->at(i))
+	{
+	  if (((class cl_brk *)(ebrk->at(j)))->perm == brkDYNAMIC)
+	    ebrk->del_bp(j, 0);
+	  break;
+	}
+  events->disconn_all();
 }
 
 void
-- 
2.43.0


From c9e4d2b239ae57dfb46f6f0d9ce69041a27c23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 006/190] fix: time of a new timer starts from zero

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 3f52b03..ccdb679 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From d87ad7740e3b52020d6f12065dbac50dcd23f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 007/190] fix: event breakpoints are hit by the executed
 program only

Reading a memory location by a console command (dump for example) decremented
the hit counter of a read event breakpoint.
---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 69f1374..bb27217 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -878,7 +878,7 @@ cl_write_operator::cl_write_operator(class cl_memory_cell *acell,
 t_mem
 cl_write_operator::write(t_mem val)
 {
-  if (bp->do_hit())
+  if (uc->inst_exec && bp->do_hit())
     uc->events->add(bp);
   /*if (cell)
     return(cell->set(val));*/
@@ -900,7 +900,7 @@ cl_read_operator::cl_read_operator(class cl_memory_cell *acell,
 t_mem
 cl_read_operator::read(void)
 {
-  if (bp->do_hit())
+  if (uc->inst_exec && bp->do_hit())
     uc->events->add(bp);
   if (cell)
     return(cell->get());
-- 
2.43.0


From 35578a421a9a3edf1be602921f326a30d13c8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 008/190] fix: mark subroutine calls in disassembler tables so
 next executes the subroutine

i8085, m6800, m68hc11, m68hc12, m6809, rxk
---
 src/core/motorola.src/g11p0.cc  |  2 +-
 src/core/motorola.src/g11p18.cc |  2 +-
 src/core/motorola.src/glob68.cc |  8 ++++----
 src/sims/i8085.src/glob.cc      | 28 ++++++++++++++--------------
 src/sims/m6809.src/glob.cc      |  8 ++++----
 src/sims/m68hc12.src/hcwrap.cc  |  5 +++++
 src/sims/rxk.src/glob.cc        | 14 +++++++-------
 src/sims/rxk.src/gp0m4.cc       |  2 +-
 src/sims/rxk.src/gpddm4.cc      |  2 +-
 src/sims/rxk.src/gpedm3a.cc     |  2 +-
 src/sims/rxk.src/gpedm4.cc      |  6 +++---
 src/sims/rxk.src/rxk.cc         |  7 +++++++
 src/sims/rxk.src/rxkcl.h        |  1 +
 13 files changed, 50 insertions(+), 37 deletions(-)

diff --git a/src/core/motorola.src/g11p0.cc b/src/core/motorola.src/g11p0.cc
index 1f467b2..5b9e1d6 100644
--- a/src/core/motorola.src/g11p0.cc
+++ b/src/core/motorola.src/g11p0.cc
@@ -47,7 +47,7 @@ struct dis_entry disass11p0[]= {
   { 0xa3, 0xff, ' ', 2, "SUB D,%X" },
   { 0xb3, 0xff, ' ', 3, "SUB D,%E" },
   { 0x8f, 0xff, ' ', 1, "XGDX" },
-  { 0x9d, 0xff, 'd', 2, "JSR %d" },
+  { 0x9d, 0xff, 'd', 2, "JSR %d", true },
   { 0xc3, 0xff, ' ', 3, "ADD D,%B" },
   { 0xd3, 0xff, ' ', 2, "ADD D,%D" },
   { 0xe3, 0xff, ' ', 2, "ADD D,%X" },
diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..0ccf632 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -67,7 +67,7 @@ struct dis_entry disass11p18[]= {
   { 0xaa, 0xff, ' ', 3, "ORA A,%x" },
   { 0xab, 0xff, ' ', 3, "ADD A,%x" },
   { 0xac, 0xff, ' ', 3, "CPY %X" },
-  { 0xad, 0xff, '_', 3, "JSR %X" },
+  { 0xad, 0xff, '_', 3, "JSR %X", true },
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..bd2e8fb 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -141,7 +141,7 @@ struct dis_entry disass_m6800[]=
     { 0x8a, 0xff, ' ', 2, "ORA A,%b" },
     { 0x8b, 0xff, ' ', 2, "ADD A,%b" },
     { 0x8c, 0xff, ' ', 3, "CPX %B" },
-    { 0x8d, 0xff, ' ', 2, "BSR %r" },
+    { 0x8d, 0xff, ' ', 2, "BSR %r", true },
     { 0x8e, 0xff, ' ', 3, "LDS %B" },
 
     { 0x90, 0xff, ' ', 2, "SUB A,%d" },
@@ -171,7 +171,7 @@ struct dis_entry disass_m6800[]=
     { 0xaa, 0xff, ' ', 2, "ORA A,%x" },
     { 0xab, 0xff, ' ', 2, "ADD A,%x" },
     { 0xac, 0xff, ' ', 2, "CPX %X" },
-    { 0xad, 0xff, '_', 2, "JSR %X" },
+    { 0xad, 0xff, '_', 2, "JSR %X", true },
     { 0xae, 0xff, ' ', 2, "LDS %X" },
     { 0xaf, 0xff, ' ', 2, "STS %X" },
 
@@ -187,7 +187,7 @@ struct dis_entry disass_m6800[]=
     { 0xba, 0xff, ' ', 3, "ORA A,%e" },
     { 0xbb, 0xff, ' ', 3, "ADD A,%e" },
     { 0xbc, 0xff, ' ', 3, "CPX %E" },
-    { 0xbd, 0xff, 'E', 3, "JSR %e" },
+    { 0xbd, 0xff, 'E', 3, "JSR %e", true },
     { 0xbe, 0xff, ' ', 3, "LDS %E" },
     { 0xbf, 0xff, ' ', 3, "STS %E" },
 
@@ -252,7 +252,7 @@ struct dis_entry disass_m6800[]=
 struct dis_entry disass_m6801[]=
   {
     { 0x21, 0xff, ' ', 2, "BRN %r" },
-    { 0x9d, 0xff, 'd', 2, "JSR %d" },
+    { 0x9d, 0xff, 'd', 2, "JSR %d", true },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
 
diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..5ed5426 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
@@ -151,7 +151,7 @@ struct dis_entry disass_8085[]=
     { 0x08, 0xff, ' ', 1, "DSUB" },
     { 0xdd, 0xff, ' ', 3, "JNX5 'a16'" },
     { 0xfd, 0xff, ' ', 3, "JX5 'a16'" },
-    { 0xcb, 0xff, ' ', 1, "RSTV" },
+    { 0xcb, 0xff, ' ', 1, "RSTV", true },
     { 0x28, 0xff, ' ', 2, "LDHI 'hli8'" },
     { 0x38, 0xff, ' ', 2, "LDSI 'spi8'" },
     { 0xed, 0xff, ' ', 1, "LHLX 'de16'" },
diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..01dbb47 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, 1, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, 1, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 1, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 1, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
diff --git a/src/sims/m68hc12.src/hcwrap.cc b/src/sims/m68hc12.src/hcwrap.cc
index 53a1f2e..63b1a40 100644
--- a/src/sims/m68hc12.src/hcwrap.cc
+++ b/src/sims/m68hc12.src/hcwrap.cc
@@ -25,6 +25,8 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 02111-1307, USA. */
 /*@1@*/
 
+#include <string.h>
+
 #include "glob12.h"
 
 #include "hcwrapcl.h"
@@ -72,6 +74,9 @@ cl_wrap::set_disass(int page, int code, const char *mnemo, char branch, int len)
   tab[code].branch= branch;
   tab[code].length= len;
   tab[code].mnemonic= mnemo;
+  tab[code].is_call= (strncmp(mnemo, "BSR", 3) == 0) ||
+    (strncmp(mnemo, "JSR", 3) == 0) ||
+    (strncmp(mnemo, "CALL", 4) == 0);
 }
 
 void
diff --git a/src/sims/rxk.src/glob.cc b/src/sims/rxk.src/glob.cc
index be161b5..f4e1fe4 100644
--- a/src/sims/rxk.src/glob.cc
+++ b/src/sims/rxk.src/glob.cc
@@ -179,16 +179,16 @@ struct dis_entry disass_rxk[]=
     { 0xc6, 0xff, ' ', 2, "ADD A,%b" },
     { 0xc7, 0xff, ' ', 4, "LJP %l" },
     { 0xcc, 0xff, ' ', 1, "BOOL HL" },
-    { 0xcd, 0xff, ' ', 3, "CALL %w" },
+    { 0xcd, 0xff, ' ', 3, "CALL %w", true },
     { 0xce, 0xff, ' ', 2, "ADC A,%b" },
-    { 0xcf, 0xff, ' ', 4, "LCALL %l" },
+    { 0xcf, 0xff, ' ', 4, "LCALL %l", true },
     { 0xd4, 0xff, ' ', 2, "LD (SP+%b),HL" },
     { 0xd6, 0xff, ' ', 2, "SUB A,%b" },
-    { 0xd7, 0xff, ' ', 1, "RST 10" },
-    { 0xdf, 0xff, ' ', 1, "RST 18" },
-    { 0xe7, 0xff, ' ', 1, "RST 20" },
-    { 0xef, 0xff, ' ', 1, "RST 28" },
-    { 0xff, 0xff, ' ', 1, "RST 38" },
+    { 0xd7, 0xff, ' ', 1, "RST 10", true },
+    { 0xdf, 0xff, ' ', 1, "RST 18", true },
+    { 0xe7, 0xff, ' ', 1, "RST 20", true },
+    { 0xef, 0xff, ' ', 1, "RST 28", true },
+    { 0xff, 0xff, ' ', 1, "RST 38", true },
     { 0xd9, 0xff, ' ', 1, "EXX" },
     { 0xdc, 0xff, ' ', 1, "AND HL,DE" },
     { 0xec, 0xff, ' ', 1, "OR HL,DE" },
diff --git a/src/sims/rxk.src/gp0m4.cc b/src/sims/rxk.src/gp0m4.cc
index 430ae26..7fe900f 100644
--- a/src/sims/rxk.src/gp0m4.cc
+++ b/src/sims/rxk.src/gp0m4.cc
@@ -81,7 +81,7 @@ struct dis_entry disass_p0m4[]=
     { 0x9d, 0xff, ' ', 2, "LD (PX%d),A" },
     { 0xad, 0xff, ' ', 2, "LD (PY%d),A" },
     { 0xbd, 0xff, ' ', 2, "LD (PZ%d),A" },
-    { 0x8f, 0xff, ' ', 5, "LLCALL %w,%w" },
+    { 0x8f, 0xff, ' ', 5, "LLCALL %w,%w", true },
     { 0x97, 0xff, ' ', 1, "LD LXPC,HL" },
     { 0x9f, 0xff, ' ', 1, "LD HL,LXPC" },
     { 0x98, 0xff, ' ', 3, "JRE %R" },
diff --git a/src/sims/rxk.src/gpddm4.cc b/src/sims/rxk.src/gpddm4.cc
index bdc5426..5f3312c 100644
--- a/src/sims/rxk.src/gpddm4.cc
+++ b/src/sims/rxk.src/gpddm4.cc
@@ -107,7 +107,7 @@ struct dis_entry disass_pddm4[]=
     { 0xed, 0xff, ' ', 2, "LD %3,PY" },
     { 0xfd, 0xff, ' ', 2, "LD %3,PZ" },
     { 0xff, 0xff, ' ', 2, "LD (SP+HL),%3" },
-    { 0xea, 0xff, ' ', 2, "CALL (%I)" },
+    { 0xea, 0xff, ' ', 2, "CALL (%I)", true },
     { 0xfe, 0xff, ' ', 2, "LD %3,(SP+HL)" },
 
     { 0, 0, 0, 0, 0, 0, 0 }
diff --git a/src/sims/rxk.src/gpedm3a.cc b/src/sims/rxk.src/gpedm3a.cc
index 190d994..c27ce9d 100644
--- a/src/sims/rxk.src/gpedm3a.cc
+++ b/src/sims/rxk.src/gpedm3a.cc
@@ -34,7 +34,7 @@ struct dis_entry disass_pedm3a[]=
     { 0x6f, 0xff, ' ', 2, "SETUSR" },
     { 0x7d, 0xff, ' ', 2, "SURES" },
     { 0x7f, 0xff, ' ', 2, "RDMODE" },
-    { 0x75, 0xff, ' ', 2, "SYSCALL" },
+    { 0x75, 0xff, ' ', 2, "SYSCALL", true },
     { 0x98, 0xff, ' ', 2, "LDDSR" },
     { 0x90, 0xff, ' ', 2, "LDISR" },
     { 0xd8, 0xff, ' ', 2, "LSDDR" },
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index b82cf9c..37080b9 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -64,16 +64,16 @@ struct dis_entry disass_pedm4[]=
     { 0xb4, 0xff, ' ', 2, "FLAG LT,HL" },
     { 0xac, 0xff, ' ', 2, "FLAG GTU,HL" },
     { 0xbc, 0xff, ' ', 2, "FLAG V,HL" },
-    { 0xea, 0xff, ' ', 2, "CALL (HL)" },
+    { 0xea, 0xff, ' ', 2, "CALL (HL)", true },
     { 0x8b, 0xff, ' ', 2, "LLRET" },
     { 0xd9, 0xff, ' ', 2, "EXP" },
     { 0x40, 0xff, ' ', 2, "LD HTR,A" },
     { 0x50, 0xff, ' ', 2, "LD A,HTR" },
-    { 0x55, 0xff, ' ', 2, "SCALL" },
+    { 0x55, 0xff, ' ', 2, "SCALL", true },
     { 0x83, 0xff, ' ', 2, "SRET" },
     { 0xb5, 0xff, ' ', 4, "SETUSRP %w" },
     { 0xb1, 0xff, ' ', 4, "SETSYSP %w" },
-    { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)" },
+    { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)", true },
     { 0x03, 0xff, ' ', 2, "LDL PW,(SP+%b)" },
     { 0x13, 0xff, ' ', 2, "LDL PX,(SP+%b)" },
     { 0x23, 0xff, ' ', 2, "LDL PY,(SP+%b)" },
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 216df96..3752a19 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -644,6 +644,13 @@ cl_rxk::inst_length(t_addr addr)
   return dt->length;
 }
 
+bool
+cl_rxk::is_call(t_addr addr)
+{
+  struct dis_entry *dt= dis_entry(addr);
+  return dt && dt->mnemonic && dt->is_call;
+}
+
 
 static FILE *log_file= NULL;
 static unsigned int cyc= 0;
diff --git a/src/sims/rxk.src/rxkcl.h b/src/sims/rxk.src/rxkcl.h
index 7783697..f0ea2bd 100644
--- a/src/sims/rxk.src/rxkcl.h
+++ b/src/sims/rxk.src/rxkcl.h
@@ -171,6 +171,7 @@ public:
   virtual char *disassc_cb_6(t_addr addr, chars *comment= NULL);
   virtual char *disassc_dd_cb(t_addr addr, chars *comment= NULL);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   virtual void disass_irr(chars *work, bool dd) {}
   virtual void disass_irrl(chars *work, bool dd) {}
-- 
2.43.0


From 9e89c9ce945f761e0fc39bc3c885d04bfb5916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 009/190] fix: stopping at a breakpoint does not advance the
 clock (i8085, m6809, p1516, p2223)

---
 src/sims/i8085.src/i8080.cc | 4 +++-
 src/sims/m6809.src/m6809.cc | 2 +-
 src/sims/p1516.src/p1516.cc | 2 +-
 src/sims/p1516.src/p2223.cc | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..ef74918 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -467,7 +467,9 @@ cl_i8080::exec_inst(void)
   u16_t *ttab= tick_tab();
 
   tick_shift= 0;
-  if ((res= exec_inst_tab(itab)) != resNOT_DONE)
+  if ((res= exec_inst_tab(itab)) == resBREAKPOINT)
+    return res;
+  if (res != resNOT_DONE)
     {
       u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..74e1056 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2370,9 +2370,9 @@ cl_m6809::exec_inst(void)
   bool fe;
 
   fe= fetch(&code);
-  tick(1);
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (code & 0x80)
     return inst_alu(code);
diff --git a/src/sims/p1516.src/p1516.cc b/src/sims/p1516.src/p1516.cc
index 09cc13d..1758595 100644
--- a/src/sims/p1516.src/p1516.cc
+++ b/src/sims/p1516.src/p1516.cc
@@ -561,10 +561,10 @@ cl_p1516::exec_inst(void)
   PC= R[15];
   instPC= PC;
   fe= fetch(&code);
-  tick(1);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index edd4024..7b44332 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -909,10 +909,10 @@ CLP2::exec_inst(void)
   instPC= PC;
   fe= fetch(&code);
   //if (dbg_reg) fprintf(stderr, "F: %08x %08x %08x\n", instPC, code, F);
-  tick(4);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(4);
 
   if (!cond(code))
     return resGO;
-- 
2.43.0


From 20bd3efdbc48887429b1f8baadcbfabf0e9e7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 010/190] fix: ST7 JP jumps to the effective address, not to
 the byte stored there

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..f80cc1c 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix);
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 3d71d03752a1a6194520f9792192fdacceaa19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 011/190] fix: the report of an event does not hit event
 breakpoints again

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ccdb679..cf0dcf7 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3381,9 +3381,9 @@ cl_uc::post_inst(void)
   tick_hw(inst_ticks);
   if (errors->count)
     check_errors();
+  inst_exec= false;
   if (events->count)
     check_events();
-  inst_exec= false;
 }
 
 void
-- 
2.43.0


From b9436b9ade993818cb4cf2581c6ea1963c3ba546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 012/190] fix: the time limit of step ends when execution is
 stopped

---
 src/core/sim.src/sim.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index f40ffb3..bbb6b5e 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -141,8 +141,7 @@ cl_sim::step(void)
       if (uc->stop_at_time &&
 	  uc->stop_at_time->reached())
 	{
-	  delete uc->stop_at_time;
-	  uc->stop_at_time= NULL;
+	  uc->stop_when(NULL);
 	  stop(resBREAKPOINT);
 	}
     }
@@ -229,6 +228,9 @@ cl_sim::stop(int reason)
 
   state&= ~(SIM_GO|SIM_EMU);
   stop_at= dnow();
+  // time limit of a step is over when execution stops for any reason
+  if (uc)
+    uc->stop_when(NULL);
   if (simif)
     simif->cfg_set(simif_reason, reason);
 
-- 
2.43.0


From 6bbfca6b3e2289d74442b05bad4bcd09e8bec876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 013/190] fix: index of a cell in its memory chip (memory cell
 command)

---
 src/core/sim.src/mem.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index bb27217..b1ae52a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2128,13 +2128,9 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
     return false;
   if (p > &(a[alloc_size-1]))
     return false;
-  t_addr i= p - a;
-  if (width <= 8)
-    /*i*/;
-  if (width <= 16)
-    i= i/2;
-  if (width <= 32)
-    i= i/4;
+  t_addr i= (p - a) / bwidth;
+  if (i >= size)
+    return false;
   if (addr_of)
     *addr_of= i;
   return true;
-- 
2.43.0


From 7b015b558ae274fc0923816564908c87f33b95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 014/190] fix: search of memories whose start address is not
 zero

---
 src/core/sim.src/mem.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index b1ae52a..a770131 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -695,16 +695,18 @@ cl_memory::search_next(bool case_sensitive,
   bool found;
 
   if (addr == NULL)
-    a= 0;
+    a= start_address;
   else
     a= *addr;
+  if (a < start_address)
+    a= start_address;
 
-  if (a+len > size)
+  if (a+len > start_address+size)
     return(false);
 
   found= false;
   while (!found &&
-	 a+len <= size)
+	 a+len <= start_address+size)
     {
       bool match= true;
       for (i= 0; i < len && match; i++)
@@ -714,9 +716,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if ((d1 < 128) && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if ((d2 < 128) && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From a754cb8c818ea7e6bce0501b71558d4820e971a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 015/190] fix: memory create/remove commands stop at wrong
 parameters

---
 src/core/cmd.src/cmd_mem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 619fe7d..79980a8 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -80,7 +80,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_chip_cmd)
     width= params[2]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!memid ||
       !*memid)
@@ -138,7 +138,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressspace_cmd)
     width= params[3]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!memid ||
       !*memid)
@@ -221,7 +221,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
     chip_begin= params[4]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!as->is_address_space())
     con->dd_printf("%s is not an address space\n", as->get_name("unknown"));
@@ -535,7 +535,7 @@ COMMAND_DO_WORK_UC(cl_memory_remove_chip_cmd)
     chip= params[0]->value.memory.memory;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!chip)
     con->dd_printf("Wrong id\n");
-- 
2.43.0


From 98b6ae9d30a002afe555aadb6a1750bb9e768dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 016/190] fix: address decoder can not reach behind the end of
 the chip

---
 src/core/cmd.src/cmd_mem.cc | 2 +-
 src/core/sim.src/mem.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 79980a8..531b33f 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -234,7 +234,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
   else if (as_begin < as->start_address ||
            as_end > as->highest_valid_address())
     con->dd_printf("Specified area is out of address space\n");
-  else if (as_end-as_begin > chip->get_size()-chip_begin)
+  else if (as_end-as_begin >= chip->get_size()-chip_begin)
     con->dd_printf("Specified area is out of chip size\n");
   else
     {
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index a770131..8177036 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2362,7 +2362,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From e1d643a78d9802f4a9d1e7fe4a8b418e5bb5c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 017/190] fix: a bit cell decoded to a memory cell forgets the
 mask of the bit bander

---
 src/core/sim.src/mem.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 8177036..5ce8c7a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1169,6 +1169,7 @@ cl_memory_cell::decode(class cl_memory_chip *chip, t_addr addr)
     }
   else
     flags&= ~(CELL_NON_DECODED);
+  set_width(width);
 }
 
 void
-- 
2.43.0


From 725c80273fa2402189872ff97303ae63bdc6bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 018/190] fix: bankers and banders keep their mapping when they
 are shrunk, split or redefined

---
 src/core/cmd.src/cmd_mem.cc |  10 +++
 src/core/sim.src/mem.cc     | 158 ++++++++++++++++++++++++------------
 src/core/sim.src/memcl.h    |  11 +++
 3 files changed, 127 insertions(+), 52 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 531b33f..de24571 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -293,6 +293,10 @@ COMMAND_DO_WORK_UC(cl_memory_create_banker_cmd)
   else if (ase < banked_as->start_address ||
            ase > banked_as->highest_valid_address())
     con->dd_printf("Specified banked end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
+  else if (mask && (mask/(mask & -mask) > 0xffff))
+    con->dd_printf("Wrong mask\n");
   else
     {
       class cl_banker *d=
@@ -363,6 +367,10 @@ COMMAND_DO_WORK_UC(cl_memory_create_bander_cmd)
   else if (ase < as->start_address ||
            ase > as->highest_valid_address())
     con->dd_printf("Specified end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
+  else if (bpc < 1)
+    con->dd_printf("Wrong number of bits\n");
   else if (cb < chip->start_address ||
            cb > chip->highest_valid_address())
     con->dd_printf("Specified chip address is out of size\n");
@@ -433,6 +441,8 @@ COMMAND_DO_WORK_UC(cl_memory_create_bank_cmd)
 	con->dd_printf("Specified address is not decoded, create a banker first\n");
       else if (!d->is_banker())
 	con->dd_printf("Specified area is not decoded by banker\n");
+      else if (!d->is_bank(bank))
+	con->dd_printf("Wrong bank number\n");
       else
 	{
 	  d->add_bank(bank, chip, chip_begin);
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ce8c7a..8f68241 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2468,14 +2468,34 @@ cl_address_decoder::shrink_out_of(t_addr begin, t_addr end)
     as_end= begin-1;
   if (as_end > end)
     {
-      chip_begin+= (end-as_begin+1);
-      as_begin= end+1;
+      move_begin(end+1);
     }
   if (as_end < as_begin)
     return(true);
   return(false);
 }
 
+/* Cells of remaining area must be mapped to same storage as before */
+
+void
+cl_address_decoder::move_begin(t_addr begin)
+{
+  chip_begin+= begin-as_begin;
+  as_begin= begin;
+}
+
+/* Make a decoder for area begin..as_end of this one */
+
+class cl_address_decoder *
+cl_address_decoder::upper_part(t_addr begin)
+{
+  class cl_address_decoder *nd=
+    new cl_address_decoder(address_space, memchip,
+			   begin, as_end, chip_begin+(begin-as_begin));
+  nd->init();
+  return nd;
+}
+
 class cl_address_decoder *
 cl_address_decoder::split(t_addr begin, t_addr end)
 {
@@ -2483,19 +2503,11 @@ cl_address_decoder::split(t_addr begin, t_addr end)
   if (begin > as_begin)
     {
       if (as_end > end)
-	nd= new cl_address_decoder(address_space, memchip,
-				   end+1, as_end, chip_begin+(end-as_begin)+1);
+	nd= upper_part(end+1);
       shrink_out_of(begin, as_end);
     }
   else if (end < as_end)
-    {
-      if (as_begin < begin)
-	nd= new cl_address_decoder(address_space, memchip,
-				   as_begin, begin-1, chip_begin);
-      shrink_out_of(as_begin, end);
-    }
-  if (nd)
-    nd->init();
+    shrink_out_of(as_begin, end);
   return(nd);
 }
 
@@ -2591,25 +2603,18 @@ cl_banker::cl_banker(class cl_address_space *the_banker_as,
 int
 cl_banker::init()
 {
-  int m= banker_mask;
+  t_mem m= banker_mask;
   int b, b2;
 
   shift_by= 0;
   shift2_by= 0;
   if (m == 0)
-    nuof_banks= 0;
+    nuof_banks= 1;
   else
     {
       while ((m&1) == 0)
 	m>>= 1, shift_by++;
-      b= 1;
-      m>>= 1;
-      while ((m&1) != 0)
-	{
-	  m>>= 1;
-	  b++;
-	}
-      nuof_banks= 1 << b;
+      nuof_banks= m + 1;
     }
   shift2_by= 0;
   if (banker2_as &&
@@ -2685,14 +2690,27 @@ cl_banker::~cl_banker()
     {
       for (i= 0; i < nuof_banks; i++)
 	{
-	  if (banks[i])
-	    delete banks[i];
+	  delete_bank(i);
 	}
       free(banks);
     }
   //if (bank_ptrs) free(bank_ptrs);
 }
 
+/* Bank decoders describe storage of the banks only, cells are decoded
+   by the banker itself */
+
+void
+cl_banker::delete_bank(int bank_nr)
+{
+  if (banks[bank_nr])
+    {
+      banks[bank_nr]->address_space= NULL;
+      delete banks[bank_nr];
+      banks[bank_nr]= NULL;
+    }
+}
+
 void
 cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
 {
@@ -2703,7 +2721,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if ((bank_nr < 0) ||
+      (bank_nr >= nuof_banks))
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
@@ -2711,12 +2730,10 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
 						       as_begin, as_end,
 						       chip_start);
   ad->init();
-  if (banks[bank_nr])
-    {
-      delete banks[bank_nr];
-      banks[bank_nr]= 0;
-    }
+  delete_bank(bank_nr);
   banks[bank_nr]= ad;
+  if (bank_nr == bank)
+    activated= false;
   /*
   t_addr a, s, i;
   s= as_end - as_begin + 1;
@@ -2733,14 +2750,14 @@ t_mem
 cl_banker::actual_bank()
 {
   //t_mem m= banker_mask;
-  t_mem v= banker_as->read(banker_addr) & banker_mask;
+  t_mem v= banker_as->get(banker_addr) & banker_mask;
   t_mem v2;
   
   v= (v >> shift_by);
   if (banker2_as &&
       banker2_mask)
     {
-      v2= banker2_as->read(banker2_addr) & banker2_mask;
+      v2= banker2_as->get(banker2_addr) & banker2_mask;
       v2>>= shift2_by;
       v2= v2 << banker2_shift;
       v= v | v2;
@@ -2752,25 +2769,10 @@ bool
 cl_banker::activate(class cl_console_base *con)
 {
   int b= actual_bank();
-  t_addr i, s;
-  void *data;
-  class cl_memory_cell *c;
 
-  if (b == bank)
-    return true;
-  if (banks[b] == NULL)
-    return true;
-  s= as_end - as_begin + 1;
-  for (i= 0; i < s; i++)
-    {
-      t_addr ca= banks[b]->chip_begin + i;
-      data= banks[b]->memchip->get_slot(ca);
-      c= address_space->get_cell(as_begin+i);
-      c->decode(data);
-    }
-  bank= b;
-
-  return true;
+  if (((b >= nuof_banks) || (banks[b] == NULL)) && !activated)
+    b= bank;
+  return switch_to(b, con);
 }
 
 bool
@@ -2781,7 +2783,9 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
   void *data;
   class cl_memory_cell *c;
 
-  if (b == bank)
+  if ((b == bank) && activated)
+    return true;
+  if ((b < 0) || (b >= nuof_banks))
     return true;
   if (banks[b] == NULL)
     return true;
@@ -2794,10 +2798,37 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
       c->decode(data);
     }
   bank= b;
+  activated= true;
 
   return true;
 }
 
+void
+cl_banker::move_begin(t_addr begin)
+{
+  int i;
+  for (i= 0; i < nuof_banks; i++)
+    if (banks[i])
+      banks[i]->move_begin(begin);
+  as_begin= begin;
+}
+
+class cl_address_decoder *
+cl_banker::upper_part(t_addr begin)
+{
+  int i;
+  class cl_banker *nd=
+    new cl_banker(banker_as, banker_addr, banker_mask,
+		  banker2_as, banker2_addr, banker2_mask, banker2_shift,
+		  address_space, begin, as_end);
+  nd->init();
+  for (i= 0; i < nuof_banks; i++)
+    if (banks[i])
+      nd->banks[i]= banks[i]->upper_part(begin);
+  nd->bank= bank;
+  return nd;
+}
+
 bool
 cl_banker::uses_chip(class cl_memory *chip)
 {
@@ -2892,7 +2923,10 @@ cl_bander::cl_bander(class cl_address_space *the_as,
   cl_address_decoder(the_as, the_chip, the_asb, the_ase, the_cb)
 {
   bpc= the_bpc;
+  if (bpc < 1)
+    bpc= 1;
   distance= the_distance;
+  skip= 0;
 }
 
 bool
@@ -2902,7 +2936,9 @@ cl_bander::activate(class cl_console_base *con)
 
   t_addr asa, ca;
   int b, m;
-  for (asa= as_begin, ca= chip_begin, b= 0, m= 1;
+  b= skip % bpc;
+  m= 1 << b;
+  for (asa= as_begin, ca= chip_begin + (skip/bpc)*distance;
        asa <= as_end;
        asa++)
     {
@@ -2921,6 +2957,24 @@ cl_bander::activate(class cl_console_base *con)
   return activated= true;
 }
 
+void
+cl_bander::move_begin(t_addr begin)
+{
+  skip+= begin-as_begin;
+  as_begin= begin;
+}
+
+class cl_address_decoder *
+cl_bander::upper_part(t_addr begin)
+{
+  class cl_bander *nd=
+    new cl_bander(address_space, begin, as_end,
+		  memchip, chip_begin, bpc, distance);
+  nd->skip= skip + (begin-as_begin);
+  nd->init();
+  return nd;
+}
+
 void
 cl_bander::print_info(const char *pre, class cl_console_base *con)
 {
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 21b12d7..9b5d9a6 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -678,6 +678,8 @@ public:
   virtual bool covers(t_addr begin, t_addr end);
 
   virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual void move_begin(t_addr begin);
+  virtual class cl_address_decoder *upper_part(t_addr begin);
   virtual class cl_address_decoder *split(t_addr begin, t_addr end);
 
   virtual void print_info(const char *pre, class cl_console_base *con);
@@ -724,12 +726,18 @@ class cl_banker: public cl_address_decoder
   virtual int init();
   virtual bool is_banker() { return true; }
 
+  virtual void delete_bank(int bank_nr);
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
+  virtual bool is_bank(int bank_nr)
+  { return (bank_nr >= 0) && (bank_nr < nuof_banks); }
   virtual t_mem actual_bank();
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
   virtual bool uses_chip(class cl_memory *chip);
+
+  virtual void move_begin(t_addr begin);
+  virtual class cl_address_decoder *upper_part(t_addr begin);
   
   virtual void print_info(const char *pre, class cl_console_base *con);
 };
@@ -744,6 +752,7 @@ class cl_bander: public cl_address_decoder
  protected:
   int bpc; // bits_per_chip
   int distance; // distance of next chip location
+  int skip; // number of bits before as_begin
  public:
   cl_bander(class cl_address_space *the_as,
 	    t_addr the_asb,
@@ -756,6 +765,8 @@ class cl_bander: public cl_address_decoder
   virtual bool is_bander() { return true; }
 
   virtual bool activate(class cl_console_base *con);
+  virtual void move_begin(t_addr begin);
+  virtual class cl_address_decoder *upper_part(t_addr begin);
   virtual void print_info(const char *pre, class cl_console_base *con);
 };
 
-- 
2.43.0


From 08949c8cfe190c7be16a784f05bea75cc384b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 019/190] fix: removing a chip deletes its bankers once

---
 src/core/sim.src/uc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index cf0dcf7..c788117 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1399,7 +1399,9 @@ cl_uc::remove_chip(class cl_memory *chip)
 		}
 	      if (ad->is_banker())
 		{
-		  if (ad->uses_chip(chip))
+		  t_index bi;
+		  if (ad->uses_chip(chip) &&
+		      !bankers.index_of(ad, &bi))
 		    {
 		      bankers.add(ad);
 		    }
-- 
2.43.0


From 874ac30453fa7fd66e544a12e7f83e58e6717104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 020/190] fix: files are loaded into and checked against the
 selected address space

---
 src/core/sim.src/uc.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index c788117..800a4a5 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1498,25 +1498,26 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
@@ -1524,7 +1525,7 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
 	  return true;
 	}
       d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From e251b05f8dfcfe98bea6f7ed78565264e4929d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 021/190] fix: loading hex and S19 files into memories wider
 than 8 bits

---
 src/core/sim.src/uc.cc | 174 +++++++++++++++--------------------------
 1 file changed, 62 insertions(+), 112 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 800a4a5..a41cf91 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1534,6 +1534,59 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
   return eq;
 }
 
+/* Collects bytes of a file (low byte first) into memory cells */
+
+class cl_cell_loader
+{
+protected:
+  class cl_uc *uc;
+  class cl_inspec *is;
+  bool check;
+  int bytes; // nuof bytes in a cell
+  bool have; // there is something to write out
+  t_addr cell;
+  t_mem val;
+public:
+  long written;
+  cl_cell_loader(class cl_uc *auc, class cl_inspec *ais, bool acheck)
+  {
+    uc= auc;
+    is= ais;
+    check= acheck;
+    bytes= (is->get_mem()->width + 7) / 8;
+    have= false;
+    cell= 0;
+    val= 0;
+    written= 0;
+  }
+  void flush(void)
+  {
+    if (have)
+      {
+	uc->set_rom(is, cell, val, check);
+	written++;
+      }
+    have= false;
+  }
+  void put(t_addr addr, uchar data)
+  {
+    int sh= (addr % bytes) * 8;
+    if (have && (addr / bytes != cell))
+      flush();
+    if (!have)
+      {
+	class cl_memory *mem= is->get_mem();
+	cell= addr / bytes;
+	val= 0;
+	if ((bytes > 1) && mem->valid_address(cell + is->get_offset()))
+	  val= mem->get(cell + is->get_offset());
+	have= true;
+      }
+    val&= ~((t_mem)0xff << sh);
+    val|= (t_mem)data << sh;
+  }
+};
+
 long
 cl_uc::read_hex_file(const char *nam, bool check)
 {
@@ -1591,8 +1644,6 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   uchar chk ;     // check
   int  i;
   bool ok;
-  int get_low= 0;
-  uchar lows[4]= { 0, 0, 0, 0 };
   class cl_memory *mem= is->get_mem();
   if (!mem)
     {
@@ -1635,58 +1686,11 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
-		      if (mem->width > 8)
-			{
-			  if (mem->width <= 16)
-			    addr/= 2;
-			  else if (mem->width <= 24)
-			    addr/= 3;
-			  else if (mem->width <= 32)
-			    addr/= 4;
-			}
+		      class cl_cell_loader cl(this, is, check);
 		      for (i= 0; i < dnum; i++)
-			{
-			  if (mem->width <= 8)
-			    {
-			      set_rom(is, base+addr, rec[i], check);
-			      addr++;
-			      written++;
-			    }
-			  else if (mem->width <= 16)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
-				  written++;
-				  get_low= 0;
-				  break;
-				}
-			    }
-			  else if (mem->width <= 32)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i]; get_low++; break;
-				case 2: lows[2]= rec[i]; get_low++; break;
-				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
-					  (lows[3]<<24)+
-					  (lows[2]<<16)+
-					  (lows[1]<<8)+
-					  (lows[0]),
-					  check);
-				  get_low= 0;
-				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
-				  written++;
-				  break;
-				}
-			    }
-			}
+			cl.put(base+addr+i, rec[i]);
+		      cl.flush();
+		      written+= cl.written;
 		    }
 		  else if (rtyp == 4)
 		    {
@@ -1708,18 +1712,6 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
-    {
-      for (i= get_low; i<4; i++)
-	lows[i]= 0;
-      set_rom(is, addr,
-	      (lows[3]<<24)+
-	      (lows[2]<<16)+
-	      (lows[1]<<8)+
-	      (lows[0]),
-	      check);
-    }
-  
   return(written);
 }
 
@@ -2075,55 +2067,13 @@ static t_addr a32(const char *s, int p)
 
 static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, int p, int data_bytes, bool check)
 {
-  int b= 0;
-  u8_t d, d0, d1, d2, d3;
-  t_mem v;
+  int b;
   if (data_bytes < 1)
     return 0;
-  if (is->get_mem()->width > 8)
-    {
-      if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
-    }
-  while (b < data_bytes)
-    {
-      if (is->get_mem()->width <= 8)
-	{
-	  d= h2(s, p);
-	  uc->set_rom(is, a, d, check);
-	  a++;
-	  p+= 2;
-	  b++;
-	}
-      else if (is->get_mem()->width <= 16)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  v= (d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 24)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  v= (d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 32)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  d3= h2(s, p); p+= 2; b++;
-	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-    }
+  class cl_cell_loader cl(uc, is, check);
+  for (b= 0; b < data_bytes; b++, p+= 2)
+    cl.put(a+b, h2(s, p));
+  cl.flush();
   return data_bytes;
 }
 
-- 
2.43.0


From c404598a2b672fbad7368cd1990b2534581f615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 022/190] fix: content records of OMF files are loaded to their
 address

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index a41cf91..77a989c 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1729,7 +1729,7 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From b4cfe79c0dea40fb652a9cce3e33a868afc6a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 023/190] fix: hex dump of addresses above 64k and of memories
 wider than 8 bits

---
 src/core/sim.src/mem.cc | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 8f68241..a5a878a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -643,6 +643,8 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   if (bpl > 32)
     bpl= 32;
   t_addr a= ads->start;
+  int bytes= (width + 7) / 8; // of a cell
+  t_addr base= 0; // upper part of addresses
   sum= 0;
   start_line= a;
   while (a <= ads->stop)
@@ -655,24 +657,36 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
 	  if ((a - start_line) > 0)
 	    {
 	      unsigned char c;	      
-	      sum= 0;
-	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, start_line);
-	      sum+= c;
-	      c= int(start_line >> 8) & 0xff;
-	      sum+= c;
-	      c= start_line & 0xff;
-	      sum+= c;
-	      unsigned int i;
-	      for (i= 0; i < a-start_line; i++)
+	      unsigned int i, n= (a-start_line) * bytes;
+	      t_addr fa= start_line * bytes; // address in the file
+	      t_mem d= 0;
+	      for (i= 0; i < n; i++, fa++)
 		{
-		  c= read(start_line + i);
+		  if ((fa >> 16) != base)
+		    {
+		      base= fa >> 16;
+		      sum= 2 + 4 + (base>>8) + (base&0xff);
+		      f->prntf(":02000004%04X%02X\r\n", MU(base & 0xffff),
+			       MU((0x100 - sum) & 0xff));
+		    }
+		  if ((i == 0) || ((fa & 0xffff) == 0))
+		    {
+		      // start of a record
+		      unsigned int len= n-i;
+		      if (len > 0x10000 - (fa & 0xffff))
+			len= 0x10000 - (fa & 0xffff);
+		      f->prntf(":%02X%04X00", len, MU(fa & 0xffff));
+		      sum= len + ((fa >> 8) & 0xff) + (fa & 0xff);
+		    }
+		  if (i % bytes == 0)
+		    d= read(start_line + i/bytes);
+		  c= d & 0xff;
+		  d>>= 8;
 		  f->prntf("%02X", c);
 		  sum+= c;
+		  if ((i == n-1) || ((fa & 0xffff) == 0xffff))
+		    f->prntf("%02X\r\n", MU((0x100 - sum) & 0xff));
 		}
-	      sum&= 0xff;
-	      unsigned char chk= 0x100 - sum;
-	      f->prntf("%02X\r\n", chk);
 	    }
 	  start_line= a;
 	}
-- 
2.43.0


From 8b6241e8ac85cf2b53bea67a5ff481c9b3ea1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 024/190] fix: a banked bit cell forgets the mask of the bit
 bander

---
 src/core/sim.src/mem.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index a5a878a..d37bb60 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1199,6 +1199,7 @@ cl_memory_cell::decode(void *data_ptr)
       data= data_ptr;
       flags&= ~CELL_NON_DECODED;
     }
+  set_width(width);
 }
 
 void
-- 
2.43.0


From 82aecf0a42b2115d7b1d7b22e441861a974cc0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 025/190] fix: load and check of a bank behind the end of an
 address space use the storage of that bank

---
 src/core/sim.src/memcl.h |  2 ++
 src/core/sim.src/uc.cc   | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 9b5d9a6..13f57b3 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -731,6 +731,8 @@ class cl_banker: public cl_address_decoder
 
   virtual bool is_bank(int bank_nr)
   { return (bank_nr >= 0) && (bank_nr < nuof_banks); }
+  virtual class cl_address_decoder *get_bank(t_addr bank_nr)
+  { return (bank_nr < (t_addr)nuof_banks)?(banks[bank_nr]):NULL; }
   virtual t_mem actual_bank();
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 77a989c..17a0e43 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1524,12 +1524,23 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
 	{
 	  return true;
 	}
-      d->switch_to(bank, NULL);
-      as->download(caddr, val);
-      d->activate(NULL);
-    }
-  else
-    {
+      // content of banks is accessed directly in their storage
+      class cl_address_decoder *b= d->get_bank(bank);
+      if (b == NULL)
+	return eq;
+      class cl_memory *chip= b->memchip;
+      caddr= b->chip_begin + (caddr - d->as_begin);
+      if (!chip->valid_address(caddr))
+	return eq;
+      if (check)
+	{
+	  v= chip->get(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	chip->set(caddr, val);
     }
   return eq;
 }
-- 
2.43.0


From 9a193fba410f9072bf139baf25d51b5de6aa9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 026/190] fix: download command crashed on uninitialized memory
 of an empty specifier

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 17a0e43..02e263f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -535,6 +535,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   uc= auc;
   use_min= 0;
   use_max= 0xffffffff;
+  mem= uc?uc->rom:NULL;
 }
 
 int
-- 
2.43.0


From b7fa0f13be48241c7f6d2e9ca82c1c2107a06c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 027/190] fix: continued dump skipped the last location of the
 memory

---
 src/core/sim.src/mem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index d37bb60..279b01a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -513,7 +513,7 @@ cl_memory::dump(int smart,
         break;
     }
 
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return(dump_finished);
@@ -570,7 +570,7 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
     f->write_str("\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -603,7 +603,7 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
     }
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -694,7 +694,7 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   f->write_str(":00000001FF\r\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
-- 
2.43.0


From 3928ecb494ba7546897294c01d2febd143a66d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 028/190] fix: last line of a text file was lost when the file
 was read to its end

---
 src/core/sim.src/uc.cc    | 19 ++++++++++++++-----
 src/core/utils.src/fio.cc |  8 ++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 02e263f..9d7a4b0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1755,13 +1755,16 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
   int c;
   chars line= chars();
-  bool in;
+  bool in, last;
   t_addr addr= 0;
   
   in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  do
     {
+      c= f->eof()?0:f->get_c();
+      last= (c == 0);
+      if (last)
+	c= '\n'; // end of file terminates the last line too
       if (in)
 	{
 	  if ((c=='\n') || (c=='\r'))
@@ -1798,6 +1801,7 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 	    }
 	}
     }
+  while (!last);
   return addr;
 }
 
@@ -1806,10 +1810,14 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
 {
   chars line= chars();
   int c;
+  bool last;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  do
     {
+      c= f->eof()?0:f->get_c();
+      last= (c == 0);
+      if (last)
+	c= '\n'; // end of file terminates the last line too
       if ((c=='\n') || (c=='\r'))
 	{
 	  line.trim();
@@ -1832,6 +1840,7 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
       else
 	line.append(c);
     }
+  while (!last);
   return nr;
 }
 
diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..7d340a7 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -946,16 +946,12 @@ cl_f::get_s(void)
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
+  while ((c != 0) &&
 	 (c != '\n') &&
 	 (c != '\r'))
     {
       s+= c;
-      c= get_c();
+      c= eof()?0:get_c();
     }
   return s;
 }
-- 
2.43.0


From 749856bf08cea4ec8bc09abf8a57caa1da01d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 029/190] fix: reading behind the end of a file never ended

---
 src/core/utils.src/fio.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 7d340a7..d768a42 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -922,7 +922,10 @@ cl_f::get_c(void)
 {
   int c;
   while (!check_dev())
-    ;
+    {
+      if (eof())
+	return 0;
+    }
   int i= read_dev(&c, 1);
   if (i > 0)
     return c;
-- 
2.43.0


From c1c32ab7503c5cc96a4c9e775da8d7626c1157ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 030/190] fix: byte 0xff read from a file or socket was taken
 as missing data

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index d768a42..9d2161e 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(c & 0xff); // 0xff is data, -1 means no data
     }
 
   int l= strlen(line);
-- 
2.43.0


From 20179d4e3db478d058ee0fb6f8b0cd377622ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 031/190] fix: dump of a string did not finish its line when
 the string ended with newline

---
 src/core/sim.src/mem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 279b01a..df946c1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -531,7 +531,7 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
 
   t_addr a= ads->start;
   t_mem d= read(a);
-  char last= '\n';
+  bool printed= false;
   con->dd_printf("%s", con->get_color_ansiseq("dump_char").c_str());
   while ((d != 0) &&
 	 (a <= hva))
@@ -562,11 +562,11 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
 		  f->write(s.c_str(), s.len());
 		}
 	    }
-	  last= c;
+	  printed= true;
 	}
       d= read(++a);
     }
-  if (last != '\n')
+  if (printed)
     f->write_str("\n");
 
   dump_finished= a;
-- 
2.43.0


From f136b5b17597a8df34353482ef68bd7d0b66dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 032/190] fix: loading of a part of a cell in a bank kept no
 other bits of the cell

---
 src/core/sim.src/uc.cc  | 114 ++++++++++++++++++----------------------
 src/core/sim.src/uccl.h |   1 +
 2 files changed, 53 insertions(+), 62 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 9d7a4b0..ccf377b 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1470,13 +1470,43 @@ ReadInt(cl_f *f, bool *ok, int bytes)
  *
  */
 
+/* Find the memory and address in it where location `addr' (which already
+   includes the offset of `is') is stored; addresses behind the end of an
+   address space select the banks one after the other */
+
+class cl_memory *
+cl_uc::rom_place(class cl_inspec *is, t_addr *addr)
+{
+  class cl_memory *mem= is->get_mem();
+  if (mem == NULL)
+    return NULL;
+  if (mem->valid_address(*addr) || mem->is_chip())
+    return mem;
+  // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
+  t_addr size= mem->get_size();
+  t_addr bank= *addr / size;
+  t_addr caddr= *addr % size;
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
+  if (!d || !d->is_banker())
+    return NULL;
+  // content of banks is accessed directly in their storage
+  class cl_address_decoder *b= d->get_bank(bank);
+  if (b == NULL)
+    return NULL;
+  caddr= b->chip_begin + (caddr - d->as_begin);
+  if (!b->memchip->valid_address(caddr))
+    return NULL;
+  *addr= caddr;
+  return b->memchip;
+}
+
 bool
 cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
 {
   bool eq= true;
-  class cl_memory *mem= is->get_mem();
   t_mem v;
-  if (mem == NULL)
+  if (is->get_mem() == NULL)
     return false;
   t_addr mi= is->get_min(), ma= is->get_max();
   if ((mi > 0) && (addr < mi))
@@ -1484,65 +1514,21 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
   if ((ma < 0xffffffff) && (addr > ma))
     return eq;
   addr+= is->offset;
-  t_addr size= mem->get_size();
-  if (mem->is_chip())
-    {
-      if (check)
-	{
-	  v= mem->read(addr);
-	  if (!(eq= val == v))
-	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
-				   AU32(addr), MU32(val), MU32(v));
-	}
-      else
-	mem->set(addr, val);
-      return eq;
-    }
-  // address space
-  class cl_address_space *as= (class cl_address_space *)mem;
-  t_addr la= mem->lowest_valid_address();
-  t_addr ha= mem->highest_valid_address();
-  if ((addr >= la) && (addr <= ha))
-    {
-      if (check)
-	{
-	  v= mem->read(addr);
-	  if (!(eq= val == v))
-	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
-				   AU32(addr), MU32(val), MU32(v));
-	}
-      else
-	as->download(addr, val);
-      return eq;
-    }
-  t_addr bank, caddr;
-  bank= addr / size;
-  caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
-  if (d)
+  t_addr a= addr;
+  class cl_memory *mem= rom_place(is, &a);
+  if (mem == NULL)
+    return eq;
+  if (check)
     {
-      if (!d->is_banker())
-	{
-	  return true;
-	}
-      // content of banks is accessed directly in their storage
-      class cl_address_decoder *b= d->get_bank(bank);
-      if (b == NULL)
-	return eq;
-      class cl_memory *chip= b->memchip;
-      caddr= b->chip_begin + (caddr - d->as_begin);
-      if (!chip->valid_address(caddr))
-	return eq;
-      if (check)
-	{
-	  v= chip->get(caddr);
-	  if (!(eq= val == v))
-	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
-				   AU32(addr), MU32(val), MU32(v));
-	}
-      else
-	chip->set(caddr, val);
+      v= mem->read(a);
+      if (!(eq= val == v))
+	application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+			       AU32(addr), MU32(val), MU32(v));
     }
+  else if (mem->is_chip())
+    mem->set(a, val);
+  else
+    ((class cl_address_space *)mem)->download(a, val);
   return eq;
 }
 
@@ -1587,11 +1573,15 @@ public:
       flush();
     if (!have)
       {
-	class cl_memory *mem= is->get_mem();
 	cell= addr / bytes;
 	val= 0;
-	if ((bytes > 1) && mem->valid_address(cell + is->get_offset()))
-	  val= mem->get(cell + is->get_offset());
+	if (bytes > 1)
+	  {
+	    t_addr a= cell + is->get_offset();
+	    class cl_memory *mem= uc->rom_place(is, &a);
+	    if (mem && mem->valid_address(a))
+	      val= mem->get(a);
+	  }
 	have= true;
       }
     val&= ~((t_mem)0xff << sh);
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..258b0cd 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -399,6 +399,7 @@ public:
   virtual long read_hex_file(cl_console_base *con);
   virtual long read_hex_file(const char *nam, bool check);
   virtual long read_file(chars nam, class cl_console_base *con, bool check= false);
+  virtual class cl_memory *rom_place(class cl_inspec *is, t_addr *addr);
   virtual bool set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check);
   // content loaders
   virtual long read_hex_file(class cl_inspec *is, cl_f *f, bool check);
-- 
2.43.0


From 0c5b0b2bd5bf4b4ae783329e3719d93ddf0007c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 033/190] fix: z80 rotates and shifts set parity flag of their
 result

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..b14fa5c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg)) regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 51a549a497335a518374e34d7d0ce5ba14c1faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 034/190] fix: z80 half carry of adc and sbc lost the incoming
 carry

---
 src/sims/z80.src/z80mac.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index b14fa5c..68a241c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin= (regs.raf.F & BIT_C)?1:0;				\
+    if (cin) { ++oper; ++res; }				\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) + ((oper-cin) & 0x0F) + cin > 0x0F)  regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +97,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin= (regs.raf.F & BIT_C)?1:0;				\
+    if (cin) { ++oper; ++res; }				\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if ((accu & 0x0FFF) + ((oper-cin) & 0x0FFF) + cin > 0x0FFF) regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +130,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin= (regs.raf.F & BIT_C)?1:0;				\
+    if (cin) { ++oper; --res; }				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < ((oper-cin) & 0x0F) + cin)      regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +148,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin= (regs.raf.F & BIT_C)?1:0;				\
+    if (cin) { ++oper; --res; }				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < ((oper-cin) & 0x0FFF) + cin)  regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From 84b0025d41f807c097a30fdd45d08b9138b1b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 035/190] fix: z80 word access at the last address continues at
 the first one

---
 src/sims/z80.src/gb80.cc | 4 ++--
 src/sims/z80.src/z80.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..00bc111 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((addr+1) & 0xffff, val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((addr+1) & 0xffff);
   return (h<<8)|l;
 }
 
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..9d99ad6 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((addr+1) & 0xffff, (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((addr+1) & 0xffff);
   
   return (h << 8) | l;
 }
-- 
2.43.0


From e942ba187833d8768b3ff7d7109cb32700aff452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 036/190] fix: z80 prefixed instructions increment R at both
 opcode fetches

---
 src/sims/z80.src/ez80.cc    | 1 +
 src/sims/z80.src/inst_cb.cc | 1 +
 src/sims/z80.src/inst_ed.cc | 1 +
 src/sims/z80.src/inst_xd.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..57d5431 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -447,6 +447,7 @@ cl_ez80::inst_ed(t_mem prefix)
 
   if (fetch(&code))
     return (resBREAKPOINT);
+  inc_R();
 
   return inst_ed_ez80(code);
 }
diff --git a/src/sims/z80.src/inst_cb.cc b/src/sims/z80.src/inst_cb.cc
index aad9027..0c1cf49 100644
--- a/src/sims/z80.src/inst_cb.cc
+++ b/src/sims/z80.src/inst_cb.cc
@@ -464,6 +464,7 @@ cl_z80::inst_cb(void)
 
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
   //tick(7);
   switch (code)
     {
diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..560556e 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -738,6 +738,7 @@ int  cl_z80::inst_ed(t_mem prefix)
 
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
 
   return inst_ed_(code);
 }
diff --git a/src/sims/z80.src/inst_xd.cc b/src/sims/z80.src/inst_xd.cc
index da0a545..74a1c3c 100644
--- a/src/sims/z80.src/inst_xd.cc
+++ b/src/sims/z80.src/inst_xd.cc
@@ -502,6 +502,7 @@ cl_z80::inst_Xd(t_mem prefix)
   
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
 
   switch (prefix)
     {
-- 
2.43.0


From 61aa3796a5c85e7d9147e4cf04f5d12559e31907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 037/190] fix: z80 IN r,(C) sets S and Z and clears H flag

---
 src/sims/z80.src/inst_ed.cc | 24 ++++++++----------------
 src/sims/z80.src/z80mac.h   | 10 ++++++++++
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 560556e..6eea764 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,8 +86,7 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
+      in_flags(regs.bc.h);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -143,8 +142,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
+      in_flags(regs.bc.l);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -188,8 +186,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.de.h)) regs.raf.F |= BIT_P;
+      in_flags(regs.de.h);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -228,8 +225,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.de.l)) regs.raf.F |= BIT_P;
+      in_flags(regs.de.l);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -274,8 +270,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
+      in_flags(regs.hl.h);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -314,8 +309,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
+      in_flags(regs.hl.l);
       vc.rd++;
       //tick(11);
       return(resGO);
@@ -354,8 +348,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
-        if (parity(x)) regs.raf.F |= BIT_P;
+        in_flags(x);
         vc.rd++;
 	//tick(11);
         return(resGO);
@@ -381,8 +374,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
-      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
+      in_flags(regs.raf.A);
       vc.rd++;
       //tick(11);
       return(resGO);
diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 68a241c..ebdba6d 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -308,6 +308,16 @@
     xy(regs.raf.A);						    \
   }
 
+/* S, Z and P/V flags tell about the value, H and N are cleared, C is kept */
+#define in_flags(val)						    \
+  {								    \
+    regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_P | BIT_N);	    \
+    if ((val) == 0)    regs.raf.F |= BIT_Z;			    \
+    if ((val) & 0x80)  regs.raf.F |= BIT_S;			    \
+    if (parity(val))   regs.raf.F |= BIT_P;			    \
+    xy(val);							    \
+  }
+
 #define xor_A_bytereg(br)					    \
   {								    \
     regs.raf.A ^= (br);						    \
-- 
2.43.0


From 6c5e1277acf3b120408298abd84772e5a2ea1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 038/190] fix: z80 RRD and RLD set flags

---
 src/sims/z80.src/inst_ed.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 6eea764..9437998 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -304,6 +304,7 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      in_flags(regs.raf.A);
       //tick(17);
       return(resGO);
 
@@ -342,6 +343,7 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      in_flags(regs.raf.A);
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From cb3cae119b464fc9545ff864b08b8b97933c4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 039/190] fix: z80 OUTI and OTIR write to the port selected by
 C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9437998..1dc8eda 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -445,7 +445,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -591,7 +591,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From ea1757d646ce04bd85be6683dc59c2bd09cb64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 040/190] fix: z80 LDDR keeps P/V flag set until BC becomes
 zero

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 1dc8eda..64509b7 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -629,6 +629,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From 594f8b3e94e4c8f27d7a7be44f69c0e26282a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 041/190] fix: z80 block compare instructions (flags, and
 address of CPD, CPDR)

---
 src/sims/z80.src/inst_ed.cc | 100 +++++++++---------------------------
 src/sims/z80.src/z80mac.h   |  16 ++++++
 2 files changed, 40 insertions(+), 76 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 64509b7..eabe65b 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -418,15 +418,8 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA1: // CPI
       // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
-        ++regs.HL;
-        --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
-      }
+      cp_block(+1);
+      //tick(15);
       return(resGO);
 
     case 0xA2: // INI
@@ -471,16 +464,7 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
-      }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
-      vc.rd++;
+      cp_block(-1);
       //tick(15);
       return(resGO);
 
@@ -535,34 +519,15 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xB1: // CPIR
       // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
-        ++regs.HL;
-        --regs.BC;
-        vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+      cp_block(+1);
+      //tick(15);
+      //if (regs.BC) //tick(5);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  cond_true= true;
+	  repeating= true;
+	  PC= instPC;
+	}
       return(resGO);
 
     case 0xB2: // INIR
@@ -633,35 +598,18 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
-      {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
-      }
+      // compare acc with mem(HL), if ACC=0 set Z flag.  Decr HL, decr BC.
+      cp_block(-1);
+      //tick(15);
+      //if (regs.BC) //tick(5);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  cond_true= true;
+	  repeating= true;
+	  PC= instPC;
+	}
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index ebdba6d..a075d50 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -175,6 +175,22 @@
     xy(accu);							    \
   }
 
+/* compare with (HL) then step; C is kept, P/V tells if BC is not zero */
+#define cp_block(step)						    \
+  {								    \
+    u8_t oper= get1(regs.HL);					    \
+    u8_t res= regs.raf.A - oper;				    \
+    regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_P);		    \
+    regs.raf.F |= BIT_N;					    \
+    if ((regs.raf.A & 0x0F) < (oper & 0x0F)) regs.raf.F |= BIT_A;   \
+    if (res == 0)      regs.raf.F |= BIT_Z;			    \
+    if (res & 0x80)    regs.raf.F |= BIT_S;			    \
+    regs.HL+= (step);						    \
+    regs.BC--;							    \
+    if (regs.BC != 0)  regs.raf.F |= BIT_P;			    \
+    vc.rd++;							    \
+  }
+
 #define rr_byte(reg)					    \
   {							    \
     if (regs.raf.F & BIT_C) {				    \
-- 
2.43.0


From 61947723ed4b2afbc5b2a7aff86e55660e9650c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 042/190] fix: z80 CALL reads its operand before it stores the
 return address

---
 src/sims/z80.src/inst.cc  | 27 +++++++++------------------
 src/sims/z80.src/z80mac.h |  6 ++++++
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..448522a 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -1395,8 +1395,7 @@ cl_z80::inst_call(t_mem code)
     case 0xC4: // CALL NZ,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_Z)) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1407,8 +1406,7 @@ cl_z80::inst_call(t_mem code)
     case 0xCC: // CALL Z,nnnn
       //tick(9);
       if (regs.raf.F & BIT_Z) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1417,16 +1415,14 @@ cl_z80::inst_call(t_mem code)
       }
       break;
     case 0xCD: // CALL nnnn
-      push2(PC+2);
-      PC = fetch2();
+      call2();
       vc.wr+= 2;
       //tick(16);
       break;
     case 0xD4: // CALL NC,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_C)) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1437,8 +1433,7 @@ cl_z80::inst_call(t_mem code)
     case 0xDC: // CALL C,nnnn
       //tick(9);
       if (regs.raf.F & BIT_C) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1449,8 +1444,7 @@ cl_z80::inst_call(t_mem code)
     case 0xE4: // CALL PO,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_P)) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1461,8 +1455,7 @@ cl_z80::inst_call(t_mem code)
     case 0xEC: // CALL PE,nnnn
       //tick(9);
       if (regs.raf.F & BIT_P) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1473,8 +1466,7 @@ cl_z80::inst_call(t_mem code)
     case 0xF4: // CALL P,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_S)) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1485,8 +1477,7 @@ cl_z80::inst_call(t_mem code)
     case 0xFC: // CALL M,nnnn
       //tick(9);
       if (regs.raf.F & BIT_S) {
-        push2(PC+2);
-        PC = fetch2();
+        call2();
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index a075d50..a808b40 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -18,6 +18,12 @@
     so->init();								\
     stack_write(so);							\
   }
+/* address is fetched before return address is stored */
+#define call2() {							\
+    u16_t ca= fetch2();							\
+    push2(PC);								\
+    PC= ca;								\
+  }
 #define push1(val) {					\
     t_addr sp_before= regs.SP;				\
     regs.SP-=1;						\
-- 
2.43.0


From 5967afa13085622cd016dab73781588ff110954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 043/190] fix: z80 DAA sets carry when high digit is corrected
 after subtraction

---
 src/sims/z80.src/inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 448522a..bb7b2bf 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -828,7 +828,6 @@ cl_z80::inst_daa(t_mem code)
    */
   unsigned char incr;
   unsigned char N = regs.raf.F & BIT_N; /* save N */
-  unsigned char C = regs.raf.F & BIT_C; /* save C */
   if ((regs.raf.F & BIT_A) || ((regs.raf.A & 0x0f) > 9))
        incr = 6;
   else incr = 0;
@@ -841,11 +840,12 @@ cl_z80::inst_daa(t_mem code)
   } else {
     add_A_bytereg(incr);
   }
-  regs.raf.F &= ~(BIT_P | BIT_N);
+  regs.raf.F &= ~(BIT_P | BIT_N | BIT_C);
   if (parity(regs.raf.A))
     regs.raf.F |= BIT_P;
   regs.raf.F |= N; /* restore N */
-  regs.raf.F |= C; /* or with original C */
+  if (incr & 0x60)
+    regs.raf.F |= BIT_C; /* high digit is corrected: carry */
 
   //tick(3);
   return(resGO);
-- 
2.43.0


From f6859bfaa3a902718175155883153bb9e29030d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 044/190] fix: mcs51 level triggered interrupt request follows
 the pin

---
 src/sims/s51.src/interrupt.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..56399a8 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -109,10 +109,21 @@ cl_interrupt::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_interrupt::tick(int cycles)
 {
-  if (!bit_IT0 && !bit_INT0)
-    cell_tcon->set(cell_tcon->get() | bmIE0);
-  if (!bit_IT1 && !bit_INT1)
-    cell_tcon->set(cell_tcon->get() | bmIE1);
+  // level triggered request follows the pin
+  if (!bit_IT0)
+    {
+      if (!bit_INT0)
+	cell_tcon->set(cell_tcon->get() | bmIE0);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE0);
+    }
+  if (!bit_IT1)
+    {
+      if (!bit_INT1)
+	cell_tcon->set(cell_tcon->get() | bmIE1);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE1);
+    }
   return(resGO);
 }
 
-- 
2.43.0


From 0cd92cf8ebb0738a7b4384ee49e30e4d7f7d3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 045/190] fix: mcs51 timers lost the cycles of interrupt
 acceptance, which takes two

---
 src/sims/s51.src/uc51.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index a9bf7bf..3f986ad 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1862,8 +1862,10 @@ cl_51core::accept_it(class it_level *il)
   state= stGO;
   sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
   it_levels->push(il);
-  tick(1);
   int res= inst_lcall(0, il->addr, true);
+  // hardware generated LCALL takes two cycles, timers run meanwhile
+  tick(2);
+  tick_hw(2);
   if (res != resGO)
     return(res);
   else
-- 
2.43.0


From b4086ce2023e7d7dddbd087eff4b873b99683188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 046/190] fix: mcs51 timer 1 is not controlled by TR1 when
 timer 0 is in mode 3

---
 src/sims/s51.src/timer1.cc  | 10 ++++++++++
 src/sims/s51.src/timer1cl.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/sims/s51.src/timer1.cc b/src/sims/s51.src/timer1.cc
index e756f18..d79dd34 100644
--- a/src/sims/s51.src/timer1.cc
+++ b/src/sims/s51.src/timer1.cc
@@ -43,6 +43,16 @@ cl_timer1::init(void)
 }*/
 
 
+int
+cl_timer1::tick(int cycles)
+{
+  // in mode 3 timer #0 takes over TR1 and TF1
+  bool split= (cell_tmod->get() & (bmM00|bmM10)) == (bmM00|bmM10);
+  TR= split || (cell_tcon->get() & bmTR1);
+  mask_TF= split?0:bmTF1;
+  return cl_timer0::tick(cycles);
+}
+
 int
 cl_timer1::do_mode3(int cycles)
 {
diff --git a/src/sims/s51.src/timer1cl.h b/src/sims/s51.src/timer1cl.h
index 8fd8a3e..1b7cfea 100644
--- a/src/sims/s51.src/timer1cl.h
+++ b/src/sims/s51.src/timer1cl.h
@@ -48,6 +48,7 @@ public:
   //virtual void write(class cl_mem *mem, long addr, ulong *val);
 
   //virtual int tick(int cycles);
+  virtual int tick(int cycles);
   virtual int do_mode3(int cycles);
   //virtual void overflow(void);
 
-- 
2.43.0


From 786ada70ce79778994ff6cf73e61f15fec51f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 047/190] fix: mcs51 counters count falling edges, only while
 they are enabled

---
 src/sims/s51.src/timer0.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..a482e44 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -213,6 +213,8 @@ cl_timer0::tick(int cycles)
     case 2: do_mode2(cycles); break;
     case 3: do_mode3(cycles); break;
     }
+  // edges are not remembered while the counter is disabled
+  T_edge= 0;
   return(resGO);
 }
 
@@ -395,8 +397,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From feff2e0a4be8741e94a79d706c9441523b8e7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 048/190] fix: mcs51 timer 2 counted cycles instead of edges in
 counter mode

---
 src/sims/s51.src/timer2.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..fc55cc5 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -164,6 +164,8 @@ cl_timer2::tick(int cycles)
       break;
     default: break;
     }
+  // edges are not remembered while they are not used
+  T_edge= t2ex_edge= 0;
   
   return(resGO);
 }
@@ -224,10 +226,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +258,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From b6750700d9fa82735977a984cb067fb197baec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 049/190] fix: mcs51 timers run in idle mode, interrupt ends it
 and is serviced at once

---
 src/sims/s51.src/uc51.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 3f986ad..321460f 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1713,6 +1713,8 @@ cl_51core::do_inst(void)
     {
       // tick hw in idle state
       tick(1);
+      if (state == stIDLE)
+	tick_hw(1);
     }
 
   if ((result == resGO) && (PC == PCsave) && stop_selfjump)
@@ -1760,6 +1762,8 @@ cl_51core::do_emu(void)
     {
       // tick hw in idle state
       tick(1);
+      if (state == stIDLE)
+	tick_hw(1);
     }
 
   if (result == resGO)
@@ -1825,13 +1829,6 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
-	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
-	    }
 	  is->clear();
 	  sim->app->get_commander()->
 	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-- 
2.43.0


From 8fc1feb33675e2b991d85fe3b78e1bede53eeb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 050/190] fix: mcs51 accepts the pending interrupt of the
 highest priority level

---
 src/sims/s51.src/uc51.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 321460f..489ab74 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1818,6 +1818,9 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *best= 0;
+  int best_pr= -1;
+  // highest priority level first, then polling order
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1829,14 +1832,19 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
+	  if (pr > best_pr)
+	    best= is, best_pr= pr;
 	}
     }
+  if (best)
+    {
+      best->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(best), PC);
+      IL= new it_level(best_pr, best->addr, PC, best);
+      return(accept_it(IL));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From e6b4a35cf793b36a69663e0dbd20653b5278e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 051/190] fix: mcs51 interrupt is not accepted directly after a
 write of IP

---
 src/sims/s51.src/interrupt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 56399a8..d4b737a 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,6 +54,7 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
@@ -97,7 +98,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From de8ab6f19cfbd550b83693af283238a5958d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 052/190] fix: mcs51 port reported its edges twice to the
 peripherals

---
 src/sims/s51.src/port.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..9785a9e 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -156,7 +156,13 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
   struct ev_port_changed ep;
   u8_t nv= *val;
   t_addr ba;
-  
+
+  if (cfg->is_owned(cell, &ba))
+    {
+      // configuration is not the output register
+      conf(cell, val);
+      return;
+    }
   if (cell == cell_p)
     {
       (*val)&= 0xff; // 8 bit port
-- 
2.43.0


From a32d388c6400ad72e473a61905cb1f8ab5641f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 053/190] fix: mcs51 UART bit clocks: mode 2 rate, and timer
 selected by RCLK and TCLK

---
 src/sims/s51.src/serial.cc  | 90 +++++++++++++++++--------------------
 src/sims/s51.src/serialcl.h |  5 ++-
 2 files changed, 45 insertions(+), 50 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..f52eb88 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -80,11 +80,10 @@ cl_serial::init(void)
   there_is_t2= t2!=NULL;
   if (there_is_t2)
     {
-      t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
+      set_t2_baud(sfr->get(T2CON));
     }
   else
-    t2_baud= false;
+    set_t2_baud(0);
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -101,8 +100,7 @@ cl_serial::new_hw_added(class cl_hw *new_hw)
       new_hw->id == 2)
     {
       there_is_t2= true;
-      t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
+      set_t2_baud(sfr->get(T2CON));
     }
 }
 
@@ -172,39 +170,21 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	{
 	case 0:
 	  _bits= 8;
-	  _divby= 12;
 	  break;
 	case 1:
 	  _bits= 10;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 3:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	}
     }
   else if (cell == pcon)
     {
       _bmSMOD= *val & bmSMOD;
-      /*switch (_mode)
-	{
-	case 1:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 2:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 3:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	  }*/
-      if (_mode)
-	_divby= _bmSMOD?16:32;
     }
   else
     conf(cell, val);
@@ -238,47 +218,62 @@ cl_serial::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
   return cell->get();
 }
 
+void
+cl_serial::set_t2_baud(t_mem t2con)
+{
+  t2_rec= t2con & bmRCLK;
+  t2_tr = t2con & bmTCLK;
+}
+
+/* Number of clocks (mode 0, 2) or timer overflows (mode 1, 3) of one bit */
+int
+cl_serial::divby(bool by_t2)
+{
+  switch (_mode)
+    {
+    case 0: return 12;
+    case 2: return _bmSMOD?32:64;
+    }
+  return (by_t2 || _bmSMOD)?16:32;
+}
+
 int
 cl_serial::serial_bit_cnt(void)
 {
-  //int divby= 12;
   int *tr_src= 0, *rec_src= 0;
 
   switch (_mode)
     {
     case 0:
-      //divby  = 12;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     case 1:
     case 3:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_t1;
       rec_src= &s_rec_t1;
       break;
     case 2:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      int d= divby(t2_tr);
+      while (*tr_src >= d)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= d;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      int d= divby(t2_rec);
+      while (*rec_src >= d)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= d;
 	  s_rec_bit++;
 	}
     }
@@ -366,26 +361,25 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 {
   if (where->category == HW_TIMER)
     {
-      if (where->id == 1)
+      if (where->id == 1 && he == EV_OVERFLOW)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if (!t2_rec)
+	    s_rec_t1++;
+	  if (!t2_tr)
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
 	  switch (he)
 	    {
 	    case EV_T2_MODE_CHANGED:
-	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
-		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
-		break;
-	      }
+	      set_t2_baud(*(t_mem *)params);
+	      break;
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_rec)
+		s_rec_t1++;
+	      if (t2_tr)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
@@ -414,8 +408,8 @@ cl_serial::print_info(class cl_console_base *con)
   con->dd_printf("\n");
   int mode= (sc&(bmSM0|bmSM1))>>6;
   con->dd_printf("%s", modes[mode]);
-  if (mode == 1 || mode == 2)
-    con->dd_printf(" (timer%d)", (t2_baud)?2:1);
+  if (mode == 1 || mode == 3)
+    con->dd_printf(" (rx: timer%d, tx: timer%d)", t2_rec?2:1, t2_tr?2:1);
   con->dd_printf(" MultiProc=%s",
 		 (mode&2)?((sc&bmSM2)?"ON":"OFF"):"none");
   con->dd_printf(" irq=%s", (sfr->get(IE)&bmES)?"en":"dis");
@@ -438,7 +432,7 @@ cl_serial::print_info(class cl_console_base *con)
 		 s_rec_t1, s_rec_bit, s_rec_tick);
   con->dd_printf("s_tr_t1=%d s_tr_bit=%d s_tr_tick=%d\n",
 		 s_tr_t1, s_tr_bit, s_tr_tick);
-		 con->dd_printf("divby=%d bits=%d\n", _divby, _bits);*/
+		 con->dd_printf("bits=%d\n", _bits);*/
   //print_cfg_info(con);
 }
 
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..b975d0d 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,7 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2, t2_rec, t2_tr; // timer2 clocks receiver, transmitter
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
@@ -55,7 +55,6 @@ protected:
   uchar _bmREN;
   uchar _bmSMOD;
   uchar _bits;
-  uchar _divby;
 public:
   cl_serial(class cl_uc *auc);
   virtual ~cl_serial(void);
@@ -68,6 +67,8 @@ public:
   virtual void write(class cl_memory_cell *cell, t_mem *val);
   virtual t_mem conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val);
 
+  virtual void set_t2_baud(t_mem t2con);
+  virtual int  divby(bool by_t2);
   virtual int  serial_bit_cnt(void);
   virtual void received(int c);
 
-- 
2.43.0


From 5ced1f015934c16bbbf1f9680c1cea10c9399d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 054/190] fix: stm8 RET keeps the section of the program
 counter

---
 src/sims/stm8.src/stm8.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..42ca4fa 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1215,7 +1215,9 @@ cl_stm8::exec_inst(void)
                      return(resINV_INST);
                }
             case 0x80: // ret
+	       tempi= PC & 0xff0000; // PCE is not stacked
                pop2( PC);
+	       PC|= tempi;
 	       tick(3);
                return(resGO);
             case 0x10: 
-- 
2.43.0


From c945a0a17327827ff0ef92f3220eeea44745303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:40 +0000
Subject: [PATCH 055/190] fix: disassembling dump did not step over code of
 unknown length

---
 src/core/cmd.src/cmd_uc.cc | 10 ++++++----
 src/core/sim.src/mem.cc    |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index ed2e3c4..58783cc 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -579,10 +579,12 @@ COMMAND_DO_WORK_UC(cl_dc_cmd)
       return(false);
     }
 
-  for (;
-       start <= end;
-       start+= uc->inst_length(start))
-    uc->print_disass(start, con);
+  while (start <= end)
+    {
+      int il= uc->inst_length(start);
+      uc->print_disass(start, con);
+      start+= (il > 0)?il:1; // unknown code has no length
+    }
   last= start;
   return(false);
 }
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index df946c1..47da8f0 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -283,7 +283,8 @@ cl_memory::dump(int smart,
       if (smart && step > 0 && this == uc->rom)
         {
           uc->print_disass(ads->start, con, true);
-          ads->start += uc->inst_length(ads->start);
+          int il= uc->inst_length(ads->start);
+          ads->start += (il > 0)?il:1; // unknown code has no length
           dump_finished = ads->start;
           if (lines > 0 && --lines == 0)
             break;
-- 
2.43.0


From 9b726450a224c666acfd025a5bf9f24e36ef0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:40 +0000
Subject: [PATCH 056/190] fix: mos6502 BRK was postponed inside of interrupt
 service routines

---
 src/sims/mos6502.src/mos6502.cc  | 1 +
 src/sims/mos6502.src/mos65c02.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..c5b656e 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -722,6 +722,7 @@ cl_mos6502::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  il->level= 0; // interrupts are masked by flag I only
   it_levels->push(il);
   
   return resGO;
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..d4314b0 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -109,6 +109,7 @@ cl_mos65c02::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  il->level= 0; // interrupts are masked by flag I only
   it_levels->push(il);
   
   return resGO;
-- 
2.43.0


From 42f13ea6d208de8471391f7a3ef87655dc31c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 057/190] fix: mos6502 pointers wrap inside page zero and at
 the end of memory

---
 src/sims/mos6502.src/mos6502.cc  | 18 ++++++++++++++----
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index c5b656e..a9f5767 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -487,7 +487,17 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
+  return h*256+l;
+}
+
+// pointers of page zero are in page zero entirely
+t_addr
+cl_mos6502::read_zaddr(u8_t za)
+{
+  u8_t h, l;
+  l= rom->read(za);
+  h= rom->read((za+1) & 0xff);
   return h*256+l;
 }
 
@@ -581,7 +591,7 @@ class cl_cell8 &
 cl_mos6502::zind(void)
 {
   u16_t a= fetch();
-  a= read_addr(rom, a);
+  a= read_zaddr(a);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -592,7 +602,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zaddr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -602,7 +612,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zaddr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..b2c02f2 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr read_zaddr(u8_t za);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
-- 
2.43.0


From e4d033a75c6e8f0168ba084a0eff697a948bbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 058/190] fix: i8085: carry and auxiliary carry of
 ADC/SBB/SUB/CMP at the operand boundaries

---
 src/sims/i8085.src/ialu.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..7e35435 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,9 +31,8 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  res= rA+op+c;
   rF&= ~fAll_A;
   if (!is_daa) rF&= ~flagA;
   if (res>0xff) rF|= flagC;
@@ -41,7 +40,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
   res&= 0xff;
   if (!res) rF|= flagZ;
   if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
+    if ((rA&0xf)+(op&0xf)+c > 0xf)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
@@ -54,17 +53,15 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t c= (sub_c && (rF & flagC))?0:1;
+  op= ~op;
+  u16_t res= rA+op+c;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
-- 
2.43.0


From 14db420e2bfcae83657979cc36902ca295835e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 059/190] fix: i8085: RST 2,3,6,7 go to their own vectors

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From fee2ffab0e3e28a335826bf621da70c93f62144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 060/190] fix: i8085: POP PSW keeps the fixed bits of the flag
 register

---
 src/sims/i8085.src/i8080cl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..4533c0b 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -198,7 +198,7 @@ public:
   virtual int POP_B(t_mem code) { cBC.W(pop2()); return resGO; }
   virtual int POP_D(t_mem code) { cDE.W(pop2()); return resGO; }
   virtual int POP_H(t_mem code) { cHL.W(pop2()); return resGO; }
-  virtual int POP_PSW(t_mem code) { cAF.W(pop2()); return resGO; }
+  virtual int POP_PSW(t_mem code) { u16_t v= pop2(); cA.W(v>>8); cF.W(v); return resGO; }
   virtual int XTHL(t_mem code);
   virtual int SPHL(t_mem code);
   
-- 
2.43.0


From beb936f3d230f1400b15d492548770fa26973f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 061/190] fix: i8085: duration of taken conditional jumps of
 the 8080, MOV A,H and LHLX of the 8085

---
 src/sims/i8085.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 5ed5426..469a744 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -194,10 +194,10 @@ u16_t tick_tab_8080[256]= {
   /* 9_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
-  /* c_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* d_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* e_ */  0x0b05, 0x0a, 0x0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
-  /* f_ */  0x0b05, 0x0a, 0x0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
+  /* c_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* d_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* e_ */  0x0b05, 0x0a, 0x0a0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
+  /* f_ */  0x0b05, 0x0a, 0x0a0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
 };
 
 u16_t tick_tab_8085[256]= {
@@ -209,14 +209,14 @@ u16_t tick_tab_8085[256]= {
   /* 4_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 5_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 6_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x05,   0x04, 0x07, 0x04, 
+  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 8_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 9_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* c_ */  0x0c06, 0x0a, 0x0a07, 0x0a, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x0a, 0x0a07, 0x0c06, 0x1209,   0x12, 0x07, 0x0c, 
   /* d_ */  0x0c06, 0x0a, 0x0a07, 0x0a, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x0a, 0x0a07,   0x0a, 0x1209, 0x0a07, 0x07, 0x0c, 
-  /* e_ */  0x0c06, 0x0a, 0x0a07, 0x10, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209,   0x1a, 0x07, 0x0c, 
+  /* e_ */  0x0c06, 0x0a, 0x0a07, 0x10, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209,   0x0a, 0x07, 0x0c, 
   /* f_ */  0x0c06, 0x0a, 0x0a07, 0x04, 0x1209, 0x0c, 0x07, 0x0c, 0x0c06, 0x06, 0x0a07,   0x04, 0x1209, 0x0a07, 0x07, 0x0c 
 };
 
-- 
2.43.0


From 6a8f7513f91739a91bdcddbe2492e2dce7bef5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 062/190] fix: i8085: JNX5 and JX5 jumped on the opposite
 condition

---
 src/sims/i8085.src/i8085.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..c9e0875 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -276,13 +276,13 @@ cl_i8085::DSUB(t_mem code)
 int
 cl_i8085::JNX5(t_mem code)
 {
-  return jmp_if(rF & flagX5);
+  return jmp_if(!(rF & flagX5));
 }
 
 int
 cl_i8085::JX5(t_mem code)
 {
-  return jmp_if(!(rF & flagX5));
+  return jmp_if(rF & flagX5);
 }
 
 int
-- 
2.43.0


From 2e74096c368c8ff189da8052000331f4ac016e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 063/190] fix: i8085: LDHI and LDSI load the address, not the
 memory under it

---
 src/sims/i8085.src/i8085.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index c9e0875..488e039 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -301,8 +301,7 @@ int
 cl_i8085::LDHI(t_mem code)
 {
   u16_t a= rHL + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(a);
   return resGO;
 }
 
@@ -310,8 +309,7 @@ int
 cl_i8085::LDSI(t_mem code)
 {
   u16_t a= rSP + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(a);
   return resGO;
 }
 
-- 
2.43.0


From 487aa68fbea9eee3d61c3369faded5e951e6cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 064/190] fix: i8085: DAA keeps the carry and sets the
 auxiliary carry

---
 src/sims/i8085.src/ialu.cc | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 7e35435..cdd7ecd 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -244,25 +244,14 @@ cl_i8080::DAA(t_mem code)
   u8_t corr= 0;
   if (((rA & 0xf) > 9) || (rF & flagA))
     corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
+  u8_t c= ((rA > 0x99) || (rF & flagC))?flagC:flagNON;
+  u8_t ac= ((rA & 0xf) + corr > 0xf)?flagA:flagNON;
+  if (c)
     corr|= 0x60;
-  if (corr)
-    {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
-    }
+  add8(corr, false, true);
+  rF&= ~(flagC|flagA);
+  rF|= c|ac;
+  cF.W(rF);
   return resGO;
 }
 
-- 
2.43.0


From 0234fc6aaf8cea39c2bca2c41b729adcadb25db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 065/190] fix: i8085: DSUB does not borrow when BC is zero

---
 src/sims/i8085.src/i8085.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 488e039..29f3dbc 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -259,14 +259,14 @@ cl_i8085::DSUB(t_mem code)
 {
   u16_t a= rHL, b= rBC;
   u32_t r;
-  b= ~b+1;
-  r= a+b;
+  b= ~b;
+  r= a+b+1;
   rF&= ~fAll;
   if (r <= 0xffff) rF|= flagC;
   if (r & 0x8000) rF|= flagS;
   r&= 0xffff;
   if (!r) rF|= flagZ;
-  if (((a&0xfff) + (b&0xfff)) > 0xfff) rF|= flagA;
+  if (((a&0xfff) + (b&0xfff) + 1) > 0xfff) rF|= flagA;
   rF|= ptab[r>>8];
   cHL.W(r);
   cF.W(rF);
-- 
2.43.0


From 0450a5f7450119dba3093cca98d5ea169246f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 066/190] fix: i8085: 16 bit memory accesses wrap at the end of
 the memory

---
 src/sims/i8085.src/i8080.cc  | 7 +++++++
 src/sims/i8085.src/i8080cl.h | 1 +
 src/sims/i8085.src/imove.cc  | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index ef74918..cd26ed1 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -460,6 +460,13 @@ cl_i8080::fetch16()
   return h*256+l;
 }
 
+t_addr
+cl_i8080::read_addr(class cl_memory *m, t_addr start_addr)
+{
+  if (!m) return 0;
+  return m->read(start_addr&0xffff) + 256*m->read((start_addr+1)&0xffff);
+}
+
 int
 cl_i8080::exec_inst(void)
 {
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index 4533c0b..79a7190 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -150,6 +150,7 @@ public:
   virtual u16_t *tick_tab(void) { return tick_tab_8080; }
   virtual class cl_memory_cell &cM(void);
   virtual u16_t fetch16(void);
+  virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
   virtual int exec_inst(void);
 
   virtual void push2(u16_t v);
diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..faf643f 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -72,7 +72,7 @@ cl_i8080::SHLD_a16(t_mem code)
 {
   u16_t a= fetch16();
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write((a+1)&0xffff, rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -124,7 +124,7 @@ cl_i8080::XTHL(t_mem code)
   u16_t temp= read_addr(rom, rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write((rSP+1)&0xffff, rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From 216f078b70adbfe61f5f8467b817b9dceed7fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 067/190] fix: m6800: load and store keep the carry and clear
 the zero flag

---
 src/core/motorola.src/imove68.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..e4f4bb8 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,7 +73,7 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
   rom->write(a+1, op&0xff);
   vc.wr+= 2;
-- 
2.43.0


From fb93e82f5a3d07cbd58b2ee64470b36fda0febce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 068/190] fix: m6800: 16 bit memory accesses wrap at the end of
 the memory

---
 src/core/motorola.src/imove68.cc | 2 +-
 src/core/motorola.src/m6800.cc   | 2 +-
 src/core/motorola.src/m6801.cc   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index e4f4bb8..83f6d96 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -75,7 +75,7 @@ cl_m6800::stsx(t_addr a, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write(u16_t(a+1), op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..e7fd660 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -464,7 +464,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read(u16_t(start_addr+1));
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..bb7403a 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -210,7 +210,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -220,7 +220,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write(u16_t(rSP-1), rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -230,7 +230,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read(u16_t(rSP+1)) * 256 + rom->read(u16_t(rSP+2));
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From cc2f396828a9980a1f4512344a1a8d7d2a79b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 069/190] fix: m6800: ADC counts the carry in the half carry

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..ebb60ee 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From 043a4af6bc7c4aad3ae8e476f7976d02d46b06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 070/190] fix: m6801: ADDD and SUBD set N, V and C

---
 src/core/motorola.src/m6801.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index bb7403a..f71a1f3 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -149,7 +149,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
-- 
2.43.0


From fcbf9e6bb6f9f488e40a45878f8ac5a5b6e7064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 071/190] fix: m6801: CPX sets V and C of the difference

---
 src/core/motorola.src/m6801.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index f71a1f3..0c4f7af 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -167,20 +167,12 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r= x-op;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
-  if (op > x)
-    f|= flagC;
+  if (!r) f|= flagZ;
+  if ((x^op)&(x^r)&0x8000) f|= flagV;
+  if (op > x) f|= flagC;
   cCC.W(f);
   return resGO;
 }
-- 
2.43.0


From de86cde465565804f43c05084baf5a666e2b2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 072/190] fix: m6800: RTI keeps the unused bits of the
 condition codes set

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index e7fd660..daa0b93 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -546,7 +546,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 0c734a9b7ad288aeebce826947bc5e2c4c4d9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 073/190] fix: m68hc11: CPX sets V and C of the difference

---
 src/core/motorola.src/m68hc11cl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..88ab570 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -80,6 +80,7 @@ public:
   
   virtual i8_t *tick_tab(t_mem code);
   virtual int tickt(t_mem code);
+  virtual int cpx(u16_t op) { return cp16(cX, op); }
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
-- 
2.43.0


From da7b90b5144e50b6e201fc8048529f173d432bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 074/190] fix: m68hc11: ABY adds to Y

---
 src/core/motorola.src/m68hc11.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..f306698 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -715,7 +715,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
-- 
2.43.0


From bb2ed0c8086ad3df2c3995aa71257a20796e1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 075/190] fix: m68hc11: LDD, STD and BSET clear the overflow
 flag

---
 src/core/motorola.src/m68hc11.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index f306698..baf6c4d 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -479,7 +479,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -491,7 +491,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -598,7 +598,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
-- 
2.43.0


From 7ef8765f41e6f0b782174f0549bece485f17564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 076/190] fix: m68hc11: codes of CPY ind,X and CPX ind,Y

---
 src/core/motorola.src/g11p1a.cc  | 2 +-
 src/core/motorola.src/g11pcd.cc  | 2 +-
 src/core/motorola.src/m68hc11.cc | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..7bec08e 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -37,7 +37,7 @@ struct dis_entry disass11p1a[]= {
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
   { 0xb3, 0xff, ' ', 3, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
   { 0xee, 0xff, ' ', 2, "LDY %x" },
   { 0xef, 0xff, ' ', 2, "STY %x" },
 
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..bbda5a2 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,7 +33,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
   { 0xee, 0xff, ' ', 2, "LDX %x" },
   { 0xef, 0xff, ' ', 2, "STX %x" },
 
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index baf6c4d..9b43cf0 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From 8e4067f72663c96497cd9629671d1e8d5c0c764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 077/190] fix: m68hc11: IDIV and FDIV take the remainder by the
 divisor, and give 0xffff when there is no quotient

---
 src/core/motorola.src/m68hc11.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 9b43cf0..2b30020 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -645,14 +645,15 @@ CL11::IDIV(t_mem code)
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if (rX == 0)
     {
-      q= 0xffff;
-      r= rX;
+      cX.W(q= 0xffff);
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -663,20 +664,22 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
+  u32_t n= (u32_t)rD << 16;
   u16_t q, r;
   u8_t f= rF & ~(flagZ|flagV|flagC);
-  if( rX <= rD) f|= flagV;
-  if (rX == 0)
+  if (rX <= rD)
     {
-      q= 0xffff;
-      r= rX;
-      f|= flagC;
+      f|= flagV;
+      if (rX == 0)
+	f|= flagC;
+      cX.W(q= 0xffff);
     }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
-- 
2.43.0


From 8bf3591e206cca90caa21ae887c896f97762c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 078/190] fix: m68hc11: the interrupt frame includes Y, and the
 interrupt vectors are of the 68HC11

---
 src/core/motorola.src/m68hc11.cc  | 39 +++++++++++++++++++++++++++++++
 src/core/motorola.src/m68hc11cl.h |  2 ++
 2 files changed, 41 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 2b30020..96c5ebf 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -186,6 +186,9 @@ cl_m68hcbase::print_regs(class cl_console_base *con)
 cl_m68hc11::cl_m68hc11(class cl_sim *asim):
   cl_m68hcbase(asim)
 {
+  IRQ_AT	= 0xfff2;
+  NMI_AT	= 0xfff4;
+  SWI_AT	= 0xfff6;
   cCC.decode(&CC);
 }
 
@@ -242,6 +245,42 @@ CL11::tickt(t_mem code)
 }
 
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(9);
+}
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(9);
+}
+
 /*
 struct dis_entry *
 cl_m68hc11::dis_tbl(void)
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index 88ab570..bae168d 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -80,6 +80,8 @@ public:
   
   virtual i8_t *tick_tab(t_mem code);
   virtual int tickt(t_mem code);
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
   virtual int cpx(u16_t op) { return cp16(cX, op); }
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
-- 
2.43.0


From 9fd2565a55b3c9b52e13dc68e2ba72f68881e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 079/190] fix: m68hc11: execution times of IDIV, FDIV, MUL and
 some Y instructions

---
 src/core/motorola.src/m68hc11.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 96c5ebf..587bc7a 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
-- 
2.43.0


From a7663f0161f3e9f6803f785551ae253feeb2dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 080/190] fix: m68hc11: JMP ind,Y jumps relative to Y

---
 src/core/motorola.src/ibranch68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..2217d1c 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -65,7 +65,7 @@ int
 cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
-  a+= rX;
+  a+= cI->get();
   PC= a;
   return resGO;
 }
-- 
2.43.0


From 1987c333a6f60191efd1ad6dbeff2df273e527e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 081/190] fix: expressions: assignment of a bit or bit field
 stores the value in the specified bits

---
 src/core/cmd.src/cmdpars.y | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..d1b5691 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -385,11 +385,13 @@ assignment_expr
 	}
 | bit PTOK_EQUAL assignment_expr
 	{
-		t_mem mask = 0;
+		t_mem mask = 0, val = $3;
 		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		if ($1.bitnr_low == $1.bitnr_high)
+		  val= ($3)?1:0;
+		val= ($1.memory->read($1.mem_address) & (~mask)) | ((val << $1.bitnr_low) & mask);
+		$1.memory->write($1.mem_address, val);
+		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From 55191a8700e7f17f610b7d528a2251d4826d317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 082/190] fix: expressions: division by zero is reported and
 does not crash the simulator

---
 src/core/cmd.src/cmdpars.y | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index d1b5691..062aa45 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,8 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+
+#define CHECK_DIVISOR(D) if ((D) == 0) { yyerror("division by zero"); YYABORT; }
 %}
 /*%expect 6*/
 
@@ -277,8 +279,8 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr { CHECK_DIVISOR($3); $$= $1 / $3; }
+| multiplicative_expr PTOK_PERCENT cast_expr { CHECK_DIVISOR($3); $$= $1 % $3; }
 ;
 
 additive_expr
@@ -354,9 +356,11 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
+	      CHECK_DIVISOR($3);
 	      $1.memory->write($1.address, org /= $3);
 	      break;
 	    case PTOK_MOD_ASSIGN:
+	      CHECK_DIVISOR($3);
 	      $1.memory->write($1.address, org %= $3);
 	      break;
 	    case PTOK_ADD_ASSIGN:
@@ -406,9 +410,11 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
+	      CHECK_DIVISOR($3);
 	      $1->write(org /= $3);
 	      break;
 	    case PTOK_MOD_ASSIGN:
+	      CHECK_DIVISOR($3);
 	      $1->write(org %= $3);
 	      break;
 	    case PTOK_ADD_ASSIGN:
-- 
2.43.0


From 3013884709312fa044800b21f0cb7b4369e3cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 083/190] fix: expressions: a bit variable is a bit and not the
 whole cell

---
 src/core/cmd.src/cmdlex.l | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..ceb199f 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -204,23 +204,28 @@ uc_yy_check_id(char *token)
       
       t_addr addr;
       bool found;
+      class cl_cvar *v= uc->get_var(token);
+      if (v && v->is_mem_var() && (v->bitnr_low >= 0))
+	{
+	  yylval.bit.memory= v->get_mem();
+	  yylval.bit.mem_address= v->get_addr();
+	  yylval.bit.bit_address= -1;
+	  if (v->bitnr_low == v->bitnr_high)
+	    {
+	      addr= uc->bit_address(v->get_mem(), v->get_addr(), v->bitnr_low);
+	      if (addr != AU(-1))
+		yylval.bit.bit_address= addr;
+	    }
+	  yylval.bit.bitnr_high= v->bitnr_high;
+	  yylval.bit.bitnr_low= v->bitnr_low;
+	  return PTOK_BITS;
+	}
       if ((found= uc->symbol2address(yytext, &mem, &addr)))
 	  {
 	      yylval.memory.memory= mem;
 	      yylval.memory.address= addr;
 	      return PTOK_MEMORY;
 	  }
-      if (found)
-	{
-	  t_addr memaddr;
-	  int bitnr_low, bitnr_high;
-	  yylval.bit.memory= uc->bit2mem(addr, &memaddr, &bitnr_high, &bitnr_low);
-	  yylval.bit.mem_address = memaddr;
-	  yylval.bit.bit_address = addr;
-	  yylval.bit.bitnr_high = bitnr_high;
-	  yylval.bit.bitnr_low = bitnr_low;
-	  return PTOK_BITS;
-	}
       {
 	t_index i;
 	found= uc->vars->by_name.search(token, i);
-- 
2.43.0


From 152016ff6a4fc8f6974b0e935d89f86d6d518bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 084/190] fix: expressions: address of a bit

---
 src/core/cmd.src/cmdpars.y |  6 +++++-
 src/sims/s51.src/uc51.cc   | 16 +++-------------
 src/sims/s51.src/uc51cl.h  |  6 +++---
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 062aa45..ae948aa 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -481,7 +481,11 @@ bit:
 	    $$.bit_address= -1;
 	    class cl_uc *uc= application->get_uc();
 	    if (uc)
-	      $$.bit_address= uc->bit_address($1.memory, $1.address, $3);
+	      {
+		t_addr ba= uc->bit_address($1.memory, $1.address, $3);
+		if (ba != AU(-1))
+		  $$.bit_address= ba;
+	      }
 	  }
 	| memory PTOK_LEFT_BRACKET expr PTOK_COLON expr PTOK_RIGHT_BRACKET
 	  {
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 489ab74..97bfb70 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1442,40 +1442,30 @@ cl_51core::bit2mem(t_addr bitaddr, t_addr *memaddr, int *bitnr_high, int *bitnr_
   return(m);
 }
 
-/*
 t_addr
 cl_51core::bit_address(class cl_memory *mem,
 		       t_addr mem_address, int bit_number)
 {
   if (bit_number < 0 ||
-      bit_number > 7 ||
-      mem_address < 0
-      )
+      bit_number > 7)
     return(AU(-1));
-  class cl_memory *sfrchip= memory("sfr_chip");
-  if (mem == sfrchip)
-    {
-      mem= sfr;
-      mem_address+= sfr->start_address;
-    }
   if (mem == sfr)
     {
       if (mem_address < 128 ||
 	  mem_address % 8 != 0 ||
 	  mem_address > 255)
 	return(AU(-1));
-      return(128 + (mem_address-128) + bit_number);
+      return(mem_address + bit_number);
     }
   if (mem == iram)
     {
       if (mem_address < 0x20 ||
-	  mem_address >= 0x20+32)
+	  mem_address >= 0x30)
 	return(AU(-1));
       return((mem_address-0x20)*8 + bit_number);
     }
   return(AU(-1));
 }
-*/
 
 /* Get name of directly addressed iram/sfr cell */
 
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index 22044c9..350d554 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -130,9 +130,9 @@ public:
 					  t_addr *memaddr,
 					  int *bitnr_high,
 					  int *bitnr_low);
-  //virtual t_addr bit_address(class cl_memory *mem,
-  //			     t_addr mem_address,
-  //			     int bit_number);
+  virtual t_addr bit_address(class cl_memory *mem,
+			     t_addr mem_address,
+			     int bit_number);
   virtual bool   daddr_name(t_addr addr, chars *buf);
   virtual void   baddr_name(t_addr addr, chars *buf);
   
-- 
2.43.0


From 063cbe1295b57adf56b1272708eabe5a2a918b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 085/190] fix: expressions: a variable covering every bit of a
 cell is the cell itself

---
 src/core/cmd.src/cmdlex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index ceb199f..9b44fbd 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -205,7 +205,8 @@ uc_yy_check_id(char *token)
       t_addr addr;
       bool found;
       class cl_cvar *v= uc->get_var(token);
-      if (v && v->is_mem_var() && (v->bitnr_low >= 0))
+      if (v && v->is_mem_var() && (v->bitnr_low >= 0) &&
+	  !(v->bitnr_low == 0 && v->bitnr_high >= v->get_mem()->width-1))
 	{
 	  yylval.bit.memory= v->get_mem();
 	  yylval.bit.mem_address= v->get_addr();
-- 
2.43.0


From b84a2bba624dd8732f4ff52f27a08eeb5f3e3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 086/190] fix: expressions: plain assignment does not read the
 cell before writing it

---
 src/core/cmd.src/cmdpars.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index ae948aa..1293bc5 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -345,7 +345,7 @@ assignment_expr
 /*| cast_expr PTOK_EQUAL assignment_expr*/
 | memory assignment_operator assignment_expr
 	{
-	  t_mem org= $1.memory->read($1.address);
+	  t_mem org= ($2 == PTOK_EQUAL)?0:$1.memory->read($1.address);
 	  $$= $3;
 	  switch ($2)
 	    {
@@ -399,7 +399,7 @@ assignment_expr
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-	  t_mem org= $1->read();
+	  t_mem org= ($2 == PTOK_EQUAL)?0:$1->read();
 	  $$= $3;
 	  switch ($2)
 	    {
-- 
2.43.0


From 1ce2823d1137f98e4c56dfa9b6d988656437bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 087/190] fix: avr: CPI, SBCI and SUBI use the upper half of
 the constant

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
-- 
2.43.0


From e1aebfb09f38084f9f0731265923b91c85df3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 088/190] fix: avr: SBCI, CPC and SBC subtract with carry

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..4be4ef4 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
-- 
2.43.0


From 99aab9ff2b33fa8bda3143d2a6b264105f880c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 089/190] fix: avr: half carry of NEG

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 4be4ef4..8137c38 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -575,7 +575,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 214fdd201b3f0b3542112a6508562b8b0a067571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 090/190] fix: avr: half carry of ADC counts the carry in

---
 src/sims/avr.src/arith_inst.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 8137c38..e147a15 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  int oldc= sreg & BIT_C;
+  result= D+R+(oldc?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + (oldc?1:0) > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 1ef986c664493edee6c0d81779f47f406aedf0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 091/190] fix: avr: ROR rotates the register

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index e147a15..55ba55c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -752,7 +752,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From e0a7c3007a584d5c9e3c65fd78d1331eec20f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 092/190] fix: avr: constant of SBIW is unsigned

---
 src/sims/avr.src/arith_inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 55ba55c..f5cd6b5 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -919,8 +919,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From d3ee54ef122c1af88d91fe51ba79030b4b725c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 093/190] fix: avr: overflow flag of ADIW

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index f5cd6b5..62189c4 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -881,7 +881,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
-- 
2.43.0


From 3d6f3af395013e36f46d519d684e0304ff54cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 094/190] fix: avr: MUL sets the zero flag

---
 src/sims/avr.src/arith_inst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 62189c4..0e59afb 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -845,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!resl && !resh)
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
-- 
2.43.0


From 8b870630c7b296cb79ec4eaed8667773fce96b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 095/190] fix: avr: ORI and ANDI operate on the register they
 name

---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From 06ad54ae0865ac0496431a7b5950f539811842d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 096/190] fix: avr: address of LDD and STD is 16 bits

---
 src/sims/avr.src/move_inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..bd5335f 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -118,7 +118,7 @@ cl_avr::ldd_Rd_Z_q(t_mem code)
   d= (code&0x1f0)>>4;
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   z= ram->get(ZH)*256 + ram->get(ZL);
-  t_mem data= ram->read(z+q);
+  t_mem data= ram->read(0xffff & (z+q));
   vc.rd++;
   ram->write(d, data);
   tick(1);
@@ -142,7 +142,7 @@ cl_avr::ldd_Rd_Y_q(t_mem code)
   d= (code&0x1f0)>>4;
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   y= ram->get(YH)*256 + ram->get(YL);
-  t_mem data= ram->read(y+q);
+  t_mem data= ram->read(0xffff & (y+q));
   vc.rd++;
   ram->write(d, data);
   tick(1);
@@ -167,7 +167,7 @@ cl_avr::std_Z_q_Rr(t_mem code)
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   z= ram->get(ZH)*256 + ram->get(ZL);
   t_mem data= ram->read(r);
-  ram->write(z+q, data);
+  ram->write(0xffff & (z+q), data);
   vc.wr++;
   tick(1);
   return(resGO);
@@ -191,7 +191,7 @@ cl_avr::std_Y_q_Rr(t_mem code)
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   y= ram->get(YH)*256 + ram->get(YL);
   t_mem data= ram->read(r);
-  ram->write(y+q, data);
+  ram->write(0xffff & (y+q), data);
   vc.wr++;
   tick(1);
   return(resGO);
-- 
2.43.0


From d5e39de1faf7e259181df663fc26c132a6764e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 097/190] fix: avr: LPM takes the byte address of the program
 memory

---
 src/sims/avr.src/move_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index bd5335f..21b8d01 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 8d60f5c8373887000508c7061fc09d7821c4af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 098/190] fix: avr: IJMP takes 2 cycles

---
 src/sims/avr.src/jump_inst.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..643cc50 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -44,6 +44,7 @@ cl_avr::ijmp(t_mem code)
   z= ram->get(ZH)*256 + ram->get(ZL);
   PC= rom->validate_address((PC & ~0xffff) | z);
   //FIXME: analyze
+  tick(1);
   return(resGO);
 }
 
-- 
2.43.0


From 9b1227f729fd4164f70714046c98c47b3c22c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 099/190] fix: avr: return address is stored with its low byte
 at the higher address

---
 src/sims/avr.src/avr.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..9e2f8a9 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -692,9 +692,9 @@ cl_avr::push_addr(t_addr addr)
   sp= 0xffff & (256*sph + spl);
   al= addr & 0xff;
   ah= (addr>>8) & 0xff;
-  ram->write(sp, ah);
-  sp= 0xffff & (sp-1);
   ram->write(sp, al);
+  sp= 0xffff & (sp-1);
+  ram->write(sp, ah);
   vc.wr+= 2;
   sp= 0xffff & (sp-1);
   spl= sp & 0xff;
@@ -734,9 +734,9 @@ cl_avr::pop_addr(t_addr *addr)
   sph= ram->read(SPH);
   sp= 256*sph + spl;
   sp= 0xffff & (sp+1);
-  al= ram->read(sp);
-  sp= 0xffff & (sp+1);
   ah= ram->read(sp);
+  sp= 0xffff & (sp+1);
+  al= ram->read(sp);
   vc.rd+= 2;
   *addr= ah*256 + al;
   spl= sp & 0xff;
-- 
2.43.0


From 54f64b05d5fec6c17dd62089e90903156cad1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 100/190] fix: avr: SBIC and SBIS skip the whole next
 instruction

---
 src/sims/avr.src/jump_inst.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 643cc50..545cc58 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -385,14 +385,13 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
+      int size= inst_length(PC);
+      tick(size);
+      while (size > 0)
 	{
 	  fetch();
 	  size--;
 	}
-      tick(1);
     }
   return(resGO);
 }
@@ -415,14 +414,13 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
+      int size= inst_length(PC);
+      tick(size);
+      while (size > 0)
 	{
 	  fetch();
 	  size--;
 	}
-      tick(1);
     }
   return(resGO);
 }
-- 
2.43.0


From f4d27cd54b6853286e5e2b7d9227026bd70e217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 101/190] fix: avr: skipping a two word instruction takes one
 more cycle

---
 src/sims/avr.src/jump_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 545cc58..60683d9 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -196,7 +196,7 @@ cl_avr::cpse_Rd_Rr(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -326,7 +326,7 @@ cl_avr::sbrc_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -359,7 +359,7 @@ cl_avr::sbrs_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
-- 
2.43.0


From c8729ec307d69a2348f00edc8fdda2a8fd91bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 102/190] fix: hc08: DAA stores the adjusted value and sets N
 and Z

---
 src/sims/m68hc08.src/inst.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..2fcf8d1 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -916,6 +916,9 @@ cl_hc08::inst_daa(t_mem code, bool prefix)
     FLAG_SET (BIT_C);
   }
 
+  regs.A = (msn << 4) | lsn;
+  FLAG_NZ (regs.A);
+
   return(resGO);
 }
 
-- 
2.43.0


From 39b054f7eab613f97827d59d04cf22ee41f4bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 103/190] fix: hc08: DBNZ does not change the flags

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 2fcf8d1..70039d9 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From 2f68276e627dfe77d33da892417a6cc659f8f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 104/190] fix: hc08: SWI sets the interrupt mask

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 70039d9..744c95c 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1343,7 +1343,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From 4af027a63c3a68277d89c1be46ce23a5ad47f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 105/190] fix: hc08: RSP changes only the low byte of the stack
 pointer

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 744c95c..a9bf276 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -158,7 +158,7 @@ cl_hc08::inst_setclearflags(t_mem code, bool prefix)
 int
 cl_hc08::inst_rsp(t_mem code, bool prefix)
 {
-  regs.SP = 0x00ff;
+  regs.SP = (regs.SP & 0xff00) | 0x00ff;
   return(resGO);
 }
 
-- 
2.43.0


From 8622ead51045cb239c914b123e365dbad3f7fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 106/190] fix: hc08: duration of instructions that lacked or
 had surplus cycles

---
 src/sims/m68hc08.src/inst.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index a9bf276..473d12d 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -119,9 +119,11 @@ cl_hc08::inst_transfer(t_mem code, bool prefix)
     case 0x94: // TXS
       hx = (regs.H << 8) | regs.X;
       regs.SP = (hx - 1) & 0xffff;
+      tick(1);
       break;
     case 0x95: // TSX
       hx = regs.SP +1;
+      tick(1);
       regs.H = (hx >> 8) & 0xff;
       regs.X = hx & 0xff;
       break;
@@ -200,7 +202,8 @@ cl_hc08::inst_sta(t_mem code, bool prefix)
   FLAG_CLEAR(BIT_V);
   FLAG_NZ(regs.A);
   store1(ea, regs.A);
-  tick(1);
+  if ((code & 0xf0) != 0xf0)
+    tick(1); // indexed store without offset has no extra cycle
   return(resGO);
 }
 
@@ -212,7 +215,8 @@ cl_hc08::inst_stx(t_mem code, bool prefix)
   FLAG_CLEAR(BIT_V);
   FLAG_NZ(regs.X);
   store1(ea, regs.X);
-  tick(1);
+  if ((code & 0xf0) != 0xf0)
+    tick(1); // indexed store without offset has no extra cycle
   return(resGO);
 }
 
@@ -346,6 +350,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 {
   signed char ofs = fetch();
 
+  tick(1);
   push2(PC);
   tick(2);
   PC += ofs;
@@ -358,6 +363,7 @@ int
 cl_hc08::inst_ais(t_mem code, bool prefix)
 {
   regs.SP = regs.SP + (signed char)fetch();
+  tick(1);
   return(resGO);
 }
 
@@ -686,6 +692,8 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
     if ((code & 0x70) != 0x70)
       tick(1);
   }
+  if (((code & 0xf0) == 0x40) || ((code & 0xf0) == 0x50))
+    tick(1);
 
   ofs = fetch();
   tick(1);
@@ -750,6 +758,7 @@ cl_hc08::inst_clr(t_mem code, bool prefix)
     regs.X = operand;
   else {
     store1(ea, operand);
+    tick(1);
     if ((code & 0x70) != 0x70)
       tick(1);
   }
@@ -795,6 +804,7 @@ cl_hc08::inst_com(t_mem code, bool prefix)
     regs.X = operand;
   else {
     store1(ea, operand);
+    tick(1);
     if ((code & 0x70) != 0x70)
       tick(1);
   }
@@ -829,6 +839,7 @@ cl_hc08::inst_neg(t_mem code, bool prefix)
     regs.X = operand;
   else {
     store1(ea, operand);
+    tick(1);
     if ((code & 0x70) != 0x70)
       tick(1);
   }
@@ -1195,7 +1206,6 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
   else if ((code == 0x96) && (type->type == CPU_HCS08))
   {
     ea = fetch2();
-    tick(2);
   }
   else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
   {
@@ -1237,7 +1247,6 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
   }
   else if ((code == 0x32) && (type->type == CPU_HCS08)) {
     ea = fetch2();
-    tick(2);
     regs.H = get1(ea);
     tick(1);
     regs.X = get1(ea+1);
@@ -1253,7 +1262,6 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
   }
   else if (prefix && (code == 0xbe) && (type->type == CPU_HCS08)) {
     ea = ((regs.H << 8) | regs.X) + fetch2();
-    tick(2);
     regs.H = get1(ea);
     tick(1);
     regs.X = get1(ea+1);
@@ -1295,7 +1303,6 @@ cl_hc08::inst_cphx(t_mem code, bool prefix)
   
   if (code == 0x65) {
     operand = fetch2();
-    tick(2);
   }
   else if (code == 0x75) {
     ea = fetch();
@@ -1306,7 +1313,6 @@ cl_hc08::inst_cphx(t_mem code, bool prefix)
   }
   else if ((code == 0x3e) && (type->type == CPU_HCS08)) {
     ea = fetch2();
-    tick(2);
     operand = (get1(ea) << 8) | get1(ea+1);
     tick(2);
     tick(1);
-- 
2.43.0


From 921e70f87b23f9b3736b8359f271eb5c61ce17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 107/190] fix: hc08: DAA after a carry out of both nibbles

---
 src/sims/m68hc08.src/inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 473d12d..3ed1bba 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -904,13 +904,13 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
+  int lsn, msn;
 
   lsn = regs.A & 0xf;
   msn = (regs.A >> 4) & 0xf;
   if (regs.P & BIT_H) {
     lsn += 16;
-    msn = (msn-1) & 0xf;
+    msn--;
   }
   if (regs.P & BIT_C)
     msn += 16;
-- 
2.43.0


From bfef7d89a30252a4270e2d2fd913550fcebe1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 108/190] fix: hc08: effective address of indexed and stack
 relative operands is 16 bits

---
 src/sims/m68hc08.src/inst.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 3ed1bba..7dd0c72 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -75,14 +75,14 @@ cl_hc08::fetchea(t_mem code, bool prefix)
     case 0xe:
       tick(1);
       if (!prefix)
-        return ((unsigned char)fetch())+((regs.H << 8) | regs.X); // IX1
+        return (((unsigned char)fetch())+((regs.H << 8) | regs.X)) & 0xffff; // IX1
       else
-        return ((unsigned char)fetch())+regs.SP; // SP1
+        return (((unsigned char)fetch())+regs.SP) & 0xffff; // SP1
     case 0xd:
       if (!prefix)
-        return fetch2()+((regs.H << 8) | regs.X); // IX2
+        return (fetch2()+((regs.H << 8) | regs.X)) & 0xffff; // IX2
       else
-        return fetch2()+regs.SP; // SP2
+        return (fetch2()+regs.SP) & 0xffff; // SP2
     case 0xc:
       return fetch2();
     default:
@@ -1209,7 +1209,7 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
   }
   else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
   {
-    ea = regs.SP + fetch();
+    ea = (regs.SP + fetch()) & 0xffff;
     tick(1);
   }
   else
-- 
2.43.0


From 86f5517d98abda5e7907388a8fd104ba468aab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 109/190] fix: gb80: duration of instructions was counted twice

---
 src/sims/z80.src/glob_gb80.cc |  10 +--
 src/sims/z80.src/inst_gb80.cc | 126 ----------------------------------
 2 files changed, 5 insertions(+), 131 deletions(-)

diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..f5dcba3 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -618,7 +618,7 @@ u16_t gb_ttab_00[256]= {
     /*0*/      4, 12,       8,  8,       4,   4,  8,  4,     20,  8,       8,  8,       4,  4,  8,  4,
     /*1*/      4, 12,       8,  8,       4,   4,  8,  4,     12,  8,       8,  8,       4,  4,  8,  4,
     /*2*/T(12,8), 12,       8,  8,       4,   4,  8,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
-    /*3*/T(12,8), 18,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
+    /*3*/T(12,8), 12,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
     /*4*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*5*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*6*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
@@ -641,10 +641,10 @@ u16_t gb_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..0225b60 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -39,15 +39,10 @@ int cl_gb80::inst_cb(void) {
   t_mem       code;
   
   if ( (peek1( ) & 0xf8) != 0x30 ) {
-    // (hl) has to be rounded, but not for bit
-    if ((peek1( ) & 0x7) == 0x6)
-      if (peek1( ) < 0x50 || peek1( ) >= 0x80)
-        tick(1);
     return cl_z80::inst_cb( );
   }
   
   code = fetch1();
-  tick(7);
   
   /* perform SWAP instead of slia */
   switch(code) {
@@ -59,7 +54,6 @@ int cl_gb80::inst_cb(void) {
   case 0x35: result = regs.hl.l = swap_nibbles(regs.hl.l); break; /* l */
   case 0x36: /* SWAP (HL) */
     {
-      tick(8);
       result = swap_nibbles(get1(regs.HL));
       store1(regs.HL, result);
       vc.rd++;
@@ -76,123 +70,21 @@ int cl_gb80::inst_cb(void) {
 
 int cl_gb80::inst_jr(t_mem code)
 {
-  /* fix timing for untaken jr */
-  switch(code) {
-    case 0x20: // JR NZ,dd
-      if ((regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x28: // JR Z,dd
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x30: // JR NC,dd
-      if ((regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-    case 0x38: // JR C,dd
-      if (!(regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-  }
-  
   return cl_z80::inst_jr(code);
 }
 
 int cl_gb80::inst_call(t_mem code)
 {
-  /* fix timing for taken call */
-  switch(code)
-    {
-    case 0xC4: // CALL NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(5);
-      }
-      break;
-    case 0xCC: // CALL Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(5);
-      }
-      break;
-    case 0xD4: // CALL NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(5);
-      }
-      break;
-    case 0xDC: // CALL C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(5);
-      }
-      break;
-    }
-  
   return cl_z80::inst_call(code);
 }
 
 int cl_gb80::inst_ret(t_mem code)
 {
-  /* fix timing for taken ret */
-  switch(code)
-    {
-    case 0xC0: // RET NZ
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xC8: // RET Z
-      if ((regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xD0: // RET NC
-      if (!(regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    case 0xD8: // RET C
-      if ((regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    }
-  
   return cl_z80::inst_ret(code);
 }
 
 int cl_gb80::inst_jp(t_mem code)
 {
-  /* fix timing for taken ret */
-  switch (code)
-    {
-    case 0xC2: // JP NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xCA: // JP Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(4);
-      }
-      break;
-      
-    case 0xD2: // JP NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xDA: // JP C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(4);
-      }
-      break;
-    }
-  
   return cl_z80::inst_jp(code);
 }
 
@@ -203,19 +95,15 @@ int cl_gb80::inst_add(t_mem code)
     {
     case 0x09: // ADD HL,BC
       add_HL_Word(regs.BC);
-      tick(7);
       break;
     case 0x19: // ADD HL,DE
       add_HL_Word(regs.DE);
-      tick(7);
       break;
     case 0x29: // ADD HL,HL
       add_HL_Word(regs.HL);
-      tick(7);
       break;
     case 0x39: // ADD HL,SP
       add_HL_Word(regs.SP);
-      tick(7);
       break;
       
     default:
@@ -231,7 +119,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
     u16_t addr = fetch2( );
     store2( addr, regs.SP );
     vc.wr+= 2;
-    tick(19);
     return(resGO);
   }
   
@@ -240,7 +127,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
 
 int cl_gb80::inst_stop0    (t_mem code) {
   // TODO: change to wait for a signal for simulated hardware
-  tick(3);//can be 7 sometimes
   return resHALT;
 }
 
@@ -249,13 +135,11 @@ int cl_gb80::inst_ldi   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL ++;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x2A) {
     regs.raf.A = get1( regs.HL );
     regs.HL ++;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -267,13 +151,11 @@ int cl_gb80::inst_ldd   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL --;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x3A) {
     regs.raf.A = get1( regs.HL );
     regs.HL --;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -287,18 +169,15 @@ int cl_gb80::inst_ldh   (t_mem code) {
     addr += regs.bc.l;
   } else {
     addr += fetch1( );
-    tick(4);
   }
   
   if ((code & 0xFD) == 0xE0) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(7);
     return resGO;
   } else if ((code & 0xFD) == 0xF0) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -308,7 +187,6 @@ int cl_gb80::inst_ldh   (t_mem code) {
 int cl_gb80::inst_reti  (t_mem code) {
   /* enable interrupts */
   cl_z80::inst_ei(0xFB);
-  tick(12);
   
   /* pop2(PC); */
   PC=get2(regs.SP);
@@ -331,7 +209,6 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   
   regs.SP = (regs.SP + d) & 0xffff;
 
-  tick(15);
   return(resGO);
 }
 
@@ -340,12 +217,10 @@ int cl_gb80::inst_ld16  (t_mem code) {
   if (code == 0xEA) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(15);
     return resGO;
   } else if (code == 0xFA) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(15);
     return resGO;
   }
   
@@ -364,7 +239,6 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-  tick(11);
   return resGO;
 }
 
-- 
2.43.0


From efc3c84e82b0bcae8d47956ca1796bd1b7115698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 110/190] fix: z80, gb80: duration of a prefixed instruction
 that wraps around the end of memory

---
 src/sims/z80.src/gb80.cc |  2 +-
 src/sims/z80.src/z80.cc  | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 00bc111..5acb1d3 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -711,7 +711,7 @@ cl_gb80::tickt(t_mem code)
   switch (code)
     {
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= gb_ttab_cb[c2];
       break;
     default:
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 9d99ad6..3f7bef0 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -847,31 +847,31 @@ cl_z80::tickt(t_mem code)
   switch (code)
     {
     case 0xdd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2 == 0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_ddcb[c4];
 	  break;
 	}
       t= ttab_dd[c2];
       break;
     case 0xfd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2==0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_fdcb[c4];
 	  break;
 	}
       t= ttab_fd[c2];
       break;
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_cb[c2];
       break;
     case 0xed:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_ed[c2];
       break;
     default:
-- 
2.43.0


From b02fcdf4389dcd77c04d139d46085e99bcb6b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 111/190] fix: gb80: ADD SP,d and LD HL,SP+d set H and C from
 the low byte

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 0225b60..79d5dc3 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -202,9 +202,9 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xff) + (d & 0xff) > 0xff)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
@@ -233,9 +233,9 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xff) + (d & 0xff) > 0xff)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-- 
2.43.0


From 5e27f0b9c24845643316eaca057634f5ea7ecca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 112/190] fix: gb80: DAA after subtraction uses the flags only,
 and clears H

---
 src/sims/z80.src/gb80cl.h     |  1 +
 src/sims/z80.src/inst_gb80.cc | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..337d79f 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -100,6 +100,7 @@ public:
   virtual int inst_ret  (t_mem code);
   virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
+  virtual int inst_daa  (t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 79d5dc3..980a498 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -114,6 +114,31 @@ int cl_gb80::inst_add(t_mem code)
   return(resGO);
 }
 
+int cl_gb80::inst_daa(t_mem code)
+{
+  u8_t incr= 0, f= regs.raf.F & (BIT_N | BIT_C);
+
+  /* digits are examined after addition only */
+  if ((regs.raf.F & BIT_A) ||
+      (!(f & BIT_N) && ((regs.raf.A & 0x0f) > 9)))
+    incr|= 0x06;
+  if ((f & BIT_C) ||
+      (!(f & BIT_N) && (regs.raf.A > 0x99)))
+    {
+      incr|= 0x60;
+      f|= BIT_C;
+    }
+  if (f & BIT_N)
+    regs.raf.A-= incr;
+  else
+    regs.raf.A+= incr;
+  if (regs.raf.A == 0)
+    f|= BIT_Z;
+  regs.raf.F= f;
+
+  return(resGO);
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From 3d375d3550ccbfe12c55234a590df8aff0f351ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 113/190] fix: gb80: CCF clears H

---
 src/sims/z80.src/gb80.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5acb1d3..c455802 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -543,7 +543,7 @@ cl_gb80::exec_inst(void)
     case 0x3d: res= (inst_dec(code)); break;
     case 0x3c: res= (inst_inc(code)); break;
     case 0x3e: res= (inst_ld(code)); break;
-    case 0x3f: res= (inst_ccf(code)); break;
+    case 0x3f: res= (inst_ccf(code)); regs.raf.F&= ~BIT_A; break;
 
     case 0x40: case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x47:
     case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c: case 0x4d: case 0x4f:
-- 
2.43.0


From 01521fb713a8cceb2f79fe747f518c276ab2106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 114/190] fix: gb80: taken conditional jump takes 16 clocks

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 980a498..5843001 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -85,6 +85,14 @@ int cl_gb80::inst_ret(t_mem code)
 
 int cl_gb80::inst_jp(t_mem code)
 {
+  /* taken jump is longer */
+  switch (code)
+    {
+    case 0xC2: cond_true= !(regs.raf.F & BIT_Z); break;
+    case 0xCA: cond_true=  (regs.raf.F & BIT_Z); break;
+    case 0xD2: cond_true= !(regs.raf.F & BIT_C); break;
+    case 0xDA: cond_true=  (regs.raf.F & BIT_C); break;
+    }
   return cl_z80::inst_jp(code);
 }
 
-- 
2.43.0


From bb7bc602121ea57da11db624be2ecbab01d0446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 115/190] fix: vcd: timescale set by the user works in output
 mode too

---
 src/core/sim.src/vcd.cc | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 20ccf8e..3b472ed 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -673,7 +673,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             con->dd_printf("Units must be ms, us, ns, ps or fs\n");
           if (p1[0] == 't')
-            timescale = time;
+            // in output mode timescale is number of units in a second
+            timescale = ((state == -1 && time > 0) ? 1.0 / time : time);
           else if (p1[0] == 'p')
             {
               pausetime = time;
@@ -786,18 +787,16 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 		      else
 			fprintf(fd, "$date\n\t%s$end\n", ctime(&now));
 		      fprintf(fd, "$version\n\tucsim\n$end\n$timescale ");
-                      if (timescale >= 1e15)
-                        fprintf(fd, "%.0ffs", timescale * 1e-15);
-                      else if (timescale >= 1e12)
-                        fprintf(fd, "%.0fps", timescale * 1e-12);
-                      else if (timescale >= 1e9)
-                        fprintf(fd, "%.0fns", timescale * 1e-9);
-                      else if (timescale >= 1e6)
-                        fprintf(fd, "%.0fus", timescale * 1e-6);
-                      else if (timescale >= 1e3)
-                        fprintf(fd, "%.0fms", timescale * 1e-3);
+                      if (timescale > 1.1e12)
+                        fprintf(fd, "%.0ffs", 1e15 / timescale);
+                      else if (timescale > 1.1e9)
+                        fprintf(fd, "%.0fps", 1e12 / timescale);
+                      else if (timescale > 1.1e6)
+                        fprintf(fd, "%.0fns", 1e9 / timescale);
+                      else if (timescale > 1.1e3)
+                        fprintf(fd, "%.0fus", 1e6 / timescale);
                       else
-                        fprintf(fd, "%.0fms", timescale * 1e3);
+                        fprintf(fd, "%.0fms", 1e3 / timescale);
 
                       fprintf(fd, " $end\n$scope module %s $end\n", modul.c_str());
 
@@ -1144,16 +1143,16 @@ cl_vcd::print_info(class cl_console_base *con)
         con->dd_printf("  Time scale: auto set on start\n");
       else
         {
-          if (timescale >= 1e15)
-            con->dd_printf("  Time scale: %.0f fs\n", timescale * 1e-15);
-          else if (timescale >= 1e12)
-            con->dd_printf("  Time scale: %.0f ps\n", timescale * 1e-12);
-          else if (timescale >= 1e9)
-            con->dd_printf("  Time scale: %.0f ns\n", timescale * 1e-9);
-          else if (timescale >= 1e6)
-            con->dd_printf("  Time scale: %.0f us\n", timescale * 1e-6);
+          if (timescale > 1.1e12)
+            con->dd_printf("  Time scale: %.0f fs\n", 1e15 / timescale);
+          else if (timescale > 1.1e9)
+            con->dd_printf("  Time scale: %.0f ps\n", 1e12 / timescale);
+          else if (timescale > 1.1e6)
+            con->dd_printf("  Time scale: %.0f ns\n", 1e9 / timescale);
+          else if (timescale > 1.1e3)
+            con->dd_printf("  Time scale: %.0f us\n", 1e6 / timescale);
           else
-            con->dd_printf("  Time scale: %.0f ms\n", timescale * 1e-3);
+            con->dd_printf("  Time scale: %.0f ms\n", 1e3 / timescale);
         }
     }
 
-- 
2.43.0


From f9b2bc7282c9b429cef06eefd51c146b9699c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 116/190] fix: vcd: delete finds whole cells and bit fields as
 add defined them

---
 src/core/sim.src/vcd.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 3b472ed..329b318 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -226,6 +226,12 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
 void
 cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
 {
+  if (cell && bitnr_high == -1)
+    bitnr_high = cell->get_width() - 1;
+
+  if (bitnr_low == -1)
+    bitnr_low = 0;
+
   for (class cl_vcd_var **var_p = &vars; *var_p; var_p = &((*var_p)->next_var))
     {
       if ((*var_p)->cell == cell)
@@ -593,7 +599,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
+            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[4]->value.number, params[3]->value.number);
           return true;
         }
       return false;
@@ -632,7 +638,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
+            del_var(con, params[1]->value.cell, params[3]->value.number, params[2]->value.number);
           return true;
         }
       return false;
-- 
2.43.0


From e95bd22fc5fc605ab3b90da413a26e2f6d58b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 117/190] fix: vcd: input vector shorter than the variable is
 zero extended

---
 src/core/sim.src/vcd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 329b318..4a9d6e2 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1055,6 +1055,7 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
+                  value = 0;
                   for (char *ptr = word; *ptr; ptr++)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
                   state = 1;
-- 
2.43.0


From fdf055ce0f4b902c7f831c688338668889e58c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 118/190] fix: vcd: starttime moves the first (pending) input
 event by the same time as the rest

---
 src/core/sim.src/vcd.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 4a9d6e2..3eed875 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -394,7 +394,7 @@ cl_vcd::parse_header(cl_console_base *con)
         {
           if (token[0] == '#')
             {
-              event = starttime + timescale * strtod(&token[1], NULL);
+              event = timescale * strtod(&token[1], NULL); // relative to starttime
               //uc->sim->app->debug("vcd[%d]: first event at %.15f\n", cl_hw::id, event);
               break;
             }
@@ -691,7 +691,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             {
               starttime += time;
-              event += time;
+              // event of an input which does not run is relative to starttime
+              if (state == -1 || is_running())
+                event += time;
               //uc->sim->app->debug("vcd[%d]: event rescheduled to %.15f\n", cl_hw::id, event);
             }
           return true;
-- 
2.43.0


From 3153f722877f03a5fdb7cbd99852ebaac6d2d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 119/190] fix: vcd: comments in input are not value changes

---
 src/core/sim.src/vcd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 3eed875..0e1f04a 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1062,6 +1062,12 @@ cl_vcd::tick(int cycles)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
                   state = 1;
                 }
+              else if (!strcmp(word, "$comment"))
+                {
+                  // Words of a comment are not value changes
+                  while (read_word(0U) && strcmp(word, "$end"))
+                    ;
+                }
               else if (word[0] == 'r' || word[0] == 'R')
                 {
                   // Real value, next word is ID
-- 
2.43.0


From 6ec40eb0475884a17243f50a160ad3d046236e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 120/190] fix: vcd: 0 and 1 are valid variable IDs of input
 vectors

---
 src/core/sim.src/vcd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 0e1f04a..5d8fcfa 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1079,12 +1079,12 @@ cl_vcd::tick(int cycles)
             {
               // ID for preceding value or bit followed by ID
               char id;
-              if (word[0] == '1')
+              if (state == 0 && word[0] == '1')
                 {
                   value = 1;
                   id = word[1];
                 }
-              else if (word[0] == '0')
+              else if (state == 0 && word[0] == '0')
                 {
                   value = 0;
                   id = word[1];
-- 
2.43.0


From 1eb2aff33f5b4dea31bf26c33c16b299f02750d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:28 +0000
Subject: [PATCH 121/190] fix: vcd: new creates the dumper with the given id

---
 src/core/sim.src/vcd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 5d8fcfa..47fc1a5 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -577,7 +577,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
             }
           else if (strcmp(p1, "new") == 0)
             {
-              int nid= params[1]->as_number();
+              if (!params[1]->as_number())
+                return false;
+              int nid= params[1]->value.number;
               if (uc->get_hw(id_string, nid, NULL) != NULL)
                 {
                   con->dd_printf("Already exists\n");
-- 
2.43.0


From be33a822f44b09f082544ea74514f6657e6ff1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:14 +0000
Subject: [PATCH 122/190] fix: vcd: input drives every bit of a variable that
 is a whole cell

---
 src/core/sim.src/vcd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 47fc1a5..fbdb9f3 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -451,6 +451,9 @@ cl_vcd::parse_header(cl_console_base *con)
 
           if (param->as_bit(uc))
             {
+              // variable of a whole cell has no bit numbers
+              if (param->value.bit.bitnr_low < 0)
+                param->value.bit.bitnr_low= 0;
               if (param->value.bit.mem->is_address_space())
                 add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), param->value.bit.bitnr_low + width - 1, param->value.bit.bitnr_low);
               else
-- 
2.43.0


From 9c17e56ddbf722c4f579b05485b99ef025a250bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:40 +0000
Subject: [PATCH 123/190] fix: error non_decoded inherits its state from
 memory, not from invalid_address

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 47da8f0..944ba56 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -3108,8 +3108,8 @@ cl_mem_error_registry::cl_mem_error_registry(void)
 {
   class cl_error_class *prev = mem_error_registry.find("non-classified");
   prev = register_error(new cl_error_class(err_error, "memory", prev, ERROR_OFF));
-  prev = register_error(new cl_error_class(err_error, "invalid_address", prev));
-  prev = register_error(new cl_error_class(err_error, "non_decoded", prev));
+  register_error(new cl_error_class(err_error, "invalid_address", prev));
+  register_error(new cl_error_class(err_error, "non_decoded", prev));
 }
 
 /* End of sim.src/mem.cc */
-- 
2.43.0


From dac7474c8985ad5df50eaf69f1022025c8d32b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 124/190] fix: s51: instructions of unknown code continue at a
 wrong address

The address of the actual instruction was not recorded, unknown codes
and errors referred to an earlier one (usually 0).
---
 src/sims/s51.src/uc51.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 97bfb70..480e332 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1695,7 +1695,7 @@ cl_51core::do_inst(void)
     {
       interrupt->was_reti= false;
       pre_inst();
-      PCsave= PC;
+      instPC= PCsave= PC;
       result= exec_inst();
       post_inst();
     }
-- 
2.43.0


From 5b4e58dc2146313decc66f6719a424155ed60629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 125/190] fix: set error NAME no turned the error on

---
 src/core/cmd.src/cmd_set.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..cd13f77 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -291,11 +291,11 @@ COMMAND_DO_WORK_APP(cl_set_error_cmd)
 		e->set_on(ERROR_PARENT);
 	      else if (strchr("1tTyY", *value) != NULL ||
 		       (strlen(value) > 1 &&
-			strchr("nN", value[2]) != NULL))
+			strchr("nN", value[1]) != NULL))
 		e->set_on(ERROR_ON);
 	      else if (strchr("0fFnN", *value) != NULL ||
 		       (strlen(value) > 1 &&
-			strchr("fF", value[2]) != NULL))
+			strchr("fF", value[1]) != NULL))
 		e->set_on(ERROR_OFF);
 	      else
 		con->dd_printf("Bad value (%s)\n", value);
-- 
2.43.0


From 6047a38728f81ff8ba1511c371f469e1b232ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:40 +0000
Subject: [PATCH 126/190] fix: stack overflow errors belong to the class
 stack_overflow

They were classified as stack, setting stack_overflow had no effect.
---
 src/core/sim.src/stack.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/stack.cc b/src/core/sim.src/stack.cc
index 1ad8b80..af9b0bf 100644
--- a/src/core/sim.src/stack.cc
+++ b/src/core/sim.src/stack.cc
@@ -446,6 +446,7 @@ cl_error_stack_overflow::cl_error_stack_overflow(class cl_stack_op *op):
   PC= op->get_pc();
   SP_before= op->get_before();
   SP_after= op->get_after();
+  classification= stack_error_registry.find("stack_overflow");
 }
 
 cl_error_stack_overflow::cl_error_stack_overflow(t_addr iPC,
@@ -456,6 +457,7 @@ cl_error_stack_overflow::cl_error_stack_overflow(t_addr iPC,
   PC= iPC;
   SP_before= SPbef;
   SP_after= SPaft;
+  classification= stack_error_registry.find("stack_overflow");
 }
 
 void
-- 
2.43.0


From 993b5c6357a39108fd7d7247c487d56d8dd2902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 127/190] fix: history list printed unused elements when asked
 for less than 1

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ccf377b..be896e1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -425,7 +425,7 @@ cl_exec_hist::list(class cl_console_base *con, bool inc, int nr)
   int s, p, ta, l;
   if (!con)
     return;
-  if (t==h)
+  if (t==h || nr<1)
     return;
   if (nr > len-1)
     nr= len-1;
-- 
2.43.0


From cac9f86736484f51d3c135f4c14f6cee57835af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:07 +0000
Subject: [PATCH 128/190] fix: history recorded instructions of breakpoints
 before their execution

The instruction at a breakpoint was recorded when execution stopped in
front of it and again when it was executed.
---
 src/core/sim.src/uc.cc   | 27 ++++++++++++++++++++++++++-
 src/core/sim.src/uccl.h  |  2 ++
 src/sims/s51.src/uc51.cc |  2 ++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index be896e1..69f0541 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -382,6 +382,7 @@ cl_exec_hist::cl_exec_hist(class cl_uc *auc):
   len= 10001;
   hist= (struct t_hist_elem*)malloc(sizeof(struct t_hist_elem) * len);
   t= h= 0;
+  lost= false;
 }
 
 cl_exec_hist::~cl_exec_hist(void)
@@ -403,6 +404,7 @@ cl_exec_hist::put(void)
   if (!uc)
     return;
   pc= uc->PC;
+  lost= false;
   if (t != h)
     {
       if (hist[h].addr == pc)
@@ -413,12 +415,33 @@ cl_exec_hist::put(void)
     }
   int nh= (h+1)%len;
   if (t == nh)
-    t= (t+1)%len;
+    {
+      t= (t+1)%len;
+      lost= true;
+    }
   h= nh;
   hist[h].addr= pc;
   hist[h].nr= 1;
 }
 
+/* Take back the last put, the instruction was not executed */
+
+void
+cl_exec_hist::undo(void)
+{
+  if (t == h)
+    return;
+  if (hist[h].nr > 1)
+    {
+      hist[h].nr--;
+      return;
+    }
+  h= (h+len-1)%len;
+  if (lost)
+    t= (t+len-1)%len;
+  lost= false;
+}
+
 void
 cl_exec_hist::list(class cl_console_base *con, bool inc, int nr)
 {
@@ -3220,6 +3243,8 @@ cl_uc::do_inst(void)
       if (res == resINV_INST)
 	/* backup to start of instruction */
 	PC= instPC;
+      if (res == resBREAKPOINT)
+	hist->undo();
     }
   post_inst();
 
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 258b0cd..2cf0c05 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -237,6 +237,7 @@ class cl_exec_hist: public cl_base
 protected:
   int len;
   int h, t;
+  bool lost;
   struct t_hist_elem *hist;
   class cl_uc *uc;
 public:
@@ -244,6 +245,7 @@ public:
   virtual ~cl_exec_hist(void);
   virtual int init(void);
   virtual void put(void);
+  virtual void undo(void);
   virtual void list(class cl_console_base *con, bool inc, int nr);
   virtual void clear() { keep(0); }
   virtual void keep(int nr);
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 480e332..52cb6f1 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1697,6 +1697,8 @@ cl_51core::do_inst(void)
       pre_inst();
       instPC= PCsave= PC;
       result= exec_inst();
+      if (result == resBREAKPOINT)
+	hist->undo();
       post_inst();
     }
   else
-- 
2.43.0


From 10d7a064b1667d8c358991a4aa8314c3f59eafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 129/190] fix: m6809: add, subtract and compare set the E, F, I
 (and H) flags

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 74e1056..fa75443 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1003,7 +1003,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
   if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
@@ -1033,7 +1033,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From 504fe43a526f317870c3ce3c90f183e4059bc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 130/190] fix: m6809: half carry of ADC when the low digit of
 the operand is 0xf

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index fa75443..758242e 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1004,7 +1004,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   if (c) { ++res, ++o; }
   
   reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  if ((d & 0xf) + (op & 0xf) + (c?1:0) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
-- 
2.43.0


From baf6f8c0843d1cb97b7800837b00347fa77d2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 131/190] fix: m6809: ASL sets the V flag

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 758242e..dd415da 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1918,6 +1918,8 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
+
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
   
   op8<<= 1;
 
-- 
2.43.0


From 1deb3b1e2ba0e1e49058457046445906e61f01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 132/190] fix: m6809: STY stored S and STS stored Y

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index dd415da..13ab5f3 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2266,9 +2266,9 @@ cl_m6809::inst_page1(t_mem code)
       break;
     case 0xf: // STY, STS
       if (code & 0x40)
-	inst_st16(code, reg.Y, ea);
-      else
 	inst_st16(code, reg.S, ea);
+      else
+	inst_st16(code, reg.Y, ea);
       break;
     }
   
-- 
2.43.0


From 3e7715e88f363ef366715cffc024c1e06d3368b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 133/190] fix: m6809: SWI2 and SWI3 were reported as invalid
 instructions

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 13ab5f3..6e496c9 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2175,6 +2175,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2294,6 +2295,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From ecb8711568c901e86c4af9b9fc4082bf39f5f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 134/190] fix: m6809: EXG with PC crashed the simulator

---
 src/sims/m6809.src/m6809.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 6e496c9..4e90899 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1422,8 +1422,14 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    if (R1)
+	      *R1= (R2)?*R2:PC;
+	    else
+	      PC= (R2)?*R2:PC;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 4dc62ecbafbc3c9e4e3b3198c2190aea814e8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 135/190] fix: m6809: CLR cleared the Z flag

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 4e90899..ef7671b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2035,7 +2035,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From d3d8ec5af440e27da1b19c6b847c0048d1924eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 136/190] fix: m6809: operand addresses wrap at the end of the
 address space

---
 src/sims/m6809.src/m6809.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ef7671b..aa7b965 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -925,14 +925,14 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea & 0xffff)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1133,7 +1133,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1220,7 +1220,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1261,7 +1261,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1303,7 +1303,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -2252,7 +2252,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2351,7 +2351,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From 887cc88ff893dd45a7aaf5210463c46e5be08dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:47 +0000
Subject: [PATCH 137/190] fix: pdk: commands pc and run did not set the PC of
 the processor

---
 src/sims/pdk.src/pdk.cc  | 6 ++++++
 src/sims/pdk.src/pdkcl.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..63dc3fb 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -936,6 +936,12 @@ cl_pdk::set_pc(int id, t_addr new_pc)
   fpps[id]->cPC.W(new_pc);
 }
 
+void
+cl_pdk::set_PC(t_addr addr)
+{
+  PC= fpps[act]->PC= addr;
+}
+
 
 int
 cl_pdk::exec_inst(void)
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index eb3e687..c9e0505 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -266,6 +266,7 @@ public:
   virtual u8_t set_nuof(u8_t val);
   virtual t_addr get_pc(int id);
   virtual void set_pc(int id, t_addr new_pc);
+  virtual void set_PC(t_addr addr);
   
   virtual int exec_inst(void);
 
-- 
2.43.0


From 540fab604288ee29cd89c85032f764d1588116ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:47 +0000
Subject: [PATCH 138/190] fix: pblaze: command next did not step over
 subroutine calls

---
 src/sims/pblaze.src/pblaze.cc  | 10 ++++++++++
 src/sims/pblaze.src/pblazecl.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..8ebe9b6 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -346,6 +346,16 @@ cl_pblaze::inst_branch(t_addr addr)
   return b;
 }
 
+bool
+cl_pblaze::is_call(t_addr addr)
+{
+  uint code= get_mem(MEM_ROM_ID, addr);
+  dis_entry_pblaze *dis_e= (type->type == CPU_PBLAZE_3 ? disass_pblaze3 : disass_pblaze6);
+  while ((code & dis_e->mask) != dis_e->code && dis_e->instruction != BAD_OPCODE)
+    dis_e++;
+  return dis_e->instruction >= CALL && dis_e->instruction <= CALL_AT;
+}
+
 int
 cl_pblaze::longest_inst(void)
 {
diff --git a/src/sims/pblaze.src/pblazecl.h b/src/sims/pblaze.src/pblazecl.h
index 771f987..15ab829 100644
--- a/src/sims/pblaze.src/pblazecl.h
+++ b/src/sims/pblaze.src/pblazecl.h
@@ -88,6 +88,7 @@ public:
   virtual int clock_per_cycle(void) { return(2); }
   virtual int inst_length(t_addr addr);
   virtual int inst_branch(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void);
   virtual char *disass(t_addr addr);
   virtual void print_regs(class cl_console_base *con);
-- 
2.43.0


From 2dd2227b13039ac9036905ef69ee932f6c23dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:39 +0000
Subject: [PATCH 139/190] fix: pdk: command next did not step over subroutine
 calls

---
 src/sims/pdk.src/glob.cc | 10 +++++-----
 src/sims/pdk.src/pdk.cc  |  6 ++++++
 src/sims/pdk.src/pdkcl.h |  1 +
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sims/pdk.src/glob.cc b/src/sims/pdk.src/glob.cc
index 459d301..07f761e 100644
--- a/src/sims/pdk.src/glob.cc
+++ b/src/sims/pdk.src/glob.cc
@@ -123,7 +123,7 @@ struct dis_entry disass_pdk_13[]= {
   { 0x0013, ~0x0000, ' ', 1, "dzsn" },
   { 0x08C0, ~0x003F, ' ', 1, "dzsn %m" },
 
-  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'" },
+  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'", true },
   { 0x1800, ~0x03FF, ' ', 1, "goto 'a10'" },
 
   { 0x001E, ~0x0000, ' ', 1, "swap" },
@@ -223,7 +223,7 @@ struct dis_entry disass_pdk_14[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x1180, ~0x007F, ' ', 1, "dzsn %m" },
 
-  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'" },
+  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'", true },
   { 0x3000, ~0x07FF, ' ', 1, "goto 'a11'" },
 
   { 0x0600, ~0x007F, ' ', 1, "comp a,%m" },
@@ -329,7 +329,7 @@ struct dis_entry disass_pdk_15[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x2300, ~0x00FF, ' ', 1, "dzsn %m" },
 
-  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'" },
+  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'", true },
   { 0x6000, ~0x0FFF, ' ', 1, "goto 'A12'" },
 
   { 0x0C00, ~0x00FF, ' ', 1, "comp a,%m" },
@@ -463,7 +463,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x2a00, 0xfe00, ' ', 1, "wait0 %i,'n6'" },
   { 0x2c00, 0xfe00, ' ', 1, "wait1 %i,'n6'" },
   { 0x0600, 0xfe01, ' ', 1, "igoto %m" },
-  { 0x0601, 0xfe01, ' ', 1, "icall %m" },
+  { 0x0601, 0xfe01, ' ', 1, "icall %m", true },
   { 0x7e00, 0xfe00, ' ', 1, "delay %m" },
 
   { 0xa000, 0xf000, ' ', 1, "set0 %m,'n9'" },
@@ -471,7 +471,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x8000, 0xf000, ' ', 1, "t0sn %m,'n9'" },
   { 0x9000, 0xf000, ' ', 1, "t1sn %m,'n9'" },
 
-  { 0xe000, 0xe000, ' ', 1, "call 'a13'" },
+  { 0xe000, 0xe000, ' ', 1, "call 'a13'", true },
   { 0xc000, 0xe000, ' ', 1, "goto 'a13'" },
 
   { 0, 0, 0, 0, NULL }
diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 63dc3fb..eef74f8 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -942,6 +942,12 @@ cl_pdk::set_PC(t_addr addr)
   PC= fpps[act]->PC= addr;
 }
 
+bool
+cl_pdk::is_call(t_addr addr)
+{
+  return fpps[act]->is_call(addr);
+}
+
 
 int
 cl_pdk::exec_inst(void)
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index c9e0505..6b58198 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -267,6 +267,7 @@ public:
   virtual t_addr get_pc(int id);
   virtual void set_pc(int id, t_addr new_pc);
   virtual void set_PC(t_addr addr);
+  virtual bool is_call(t_addr addr);
   
   virtual int exec_inst(void);
 
-- 
2.43.0


From 3522ec5590f7fe2985dd0bfc40ed162dfde3d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 140/190] fix: f8: command next did not step over subroutine
 calls

---
 src/sims/f8.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 838a343..b85a098 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -312,8 +312,8 @@ struct dis_entry disass_f8[]=
     // branch
     { 0x64, 0xff, ' ', 3, "jp #'a16'" },
     { 0x65, 0xff, ' ', 1, "jp %A" },
-    { 0x66, 0xff, ' ', 3, "call #'a16'" },
-    { 0x67, 0xff, ' ', 1, "call %A" },
+    { 0x66, 0xff, ' ', 3, "call #'a16'", true },
+    { 0x67, 0xff, ' ', 1, "call %A", true },
     { 0xba, 0xff, ' ', 1, "ret" },
     { 0xbb, 0xff, ' ', 1, "reti" },
 
-- 
2.43.0


From efb37de5ff0e51813363c890417fb43c5f49543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 141/190] fix: avr: command next did not step over RCALL and
 ICALL

---
 src/sims/avr.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..7bca1e6 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -87,7 +87,7 @@ struct dis_entry disass_avr[]= {
   { 0x1000, 0xfc00, ' ', 1, "cpse %d,%r" },
   { 0x940a, 0xfe0f, ' ', 1, "dec %d" },
   { 0x2400, 0xfc00, ' ', 1, "eor %d,%r" },
-  { 0x9509, 0xff0f, ' ', 1, "icall" },
+  { 0x9509, 0xff0f, ' ', 1, "icall", true },
   { 0x9409, 0xff0f, ' ', 1, "ijmp" },
   { 0xb000, 0xf800, ' ', 1, "in %d,%p" },
   { 0x9403, 0xfe0f, ' ', 1, "inc %d" },
@@ -116,7 +116,7 @@ struct dis_entry disass_avr[]= {
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-  { 0xd000, 0xf000, ' ', 1, "rcall %a" },
+  { 0xd000, 0xf000, ' ', 1, "rcall %a", true },
   { 0x9508, 0xff9f, ' ', 1, "ret" },
   { 0x9518, 0xff9f, ' ', 1, "reti" },
   { 0xc000, 0xf000, ' ', 1, "rjmp %a" },
-- 
2.43.0


From c4a270128267ceddd9aeed72bc6edb5afd4b9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 142/190] fix: s51: command next did not step over ACALL to
 page 0

---
 src/sims/s51.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
-- 
2.43.0


From c779f2c18a0fc9b55c40dd9f2dff9b2ffa0b93ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 143/190] fix: i8048: command next did not step over subroutine
 calls

---
 src/sims/i8048.src/decode.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..a909afe 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -23,7 +23,7 @@ DEC( 10, INCIR0 	, "inc @r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 11, INCIR1 	, "inc @r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 12, JB0		, "jb0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 13, ADCI8		, "addc a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, false, 2, (void*)"8421" )
+DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, true, 2, (void*)"8421" )
 DEC( 15, DISI		, "dis i"	, ' ', 1, false, 1, (void*)"842-" )
 DEC( 16, JTF		, "jtf 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 17, INCA   	, "inc a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -57,7 +57,7 @@ DEC( 30, XCHDIR0	, "xchd a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 31, XCHDIR1	, "xchd a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 32, JB1		, "jb1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // 33 undefined
-DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 35, DISTCNTI	, "dis tcnti"	, ' ', 1, false, 1, (void*)"842-" ) //48,41,22
 DEC( 36, JT0		, "jt0 'a8'"	, 'i', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( 37, CPLA		, "cpl a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -91,7 +91,7 @@ DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
-DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 57, DAA		, "da a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -124,7 +124,7 @@ DEC( 6f, ADDR7		, "add a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -164,7 +164,7 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From a70c7458457ba69bb62cfdd01c335f184b58b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 144/190] fix: tlcs: command next did not step over subroutine
 calls of TLCS-870/C

---
 src/sims/tlcs.src/glob.cc   | 16 ++++++++--------
 src/sims/tlcs.src/t870c.cc  |  7 +++++++
 src/sims/tlcs.src/t870ccl.h |  1 +
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 10f6125..219795e 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -776,7 +776,7 @@ struct dis_entry disass_t870c[]=
     { 0x0000f6e8, 0x0000fff8, ' ', 2, "ROLC 'r_0.0'" },
     { 0x0000f7e8, 0x0000fff8, ' ', 2, "RORC 'r_0.0'" },
     { 0x0000fae8, 0x0000fff8, ' ', 2, "NEG CS,'rr_0.0'" },
-    { 0x0000fde8, 0x0000fff8, ' ', 2, "CALL 'rr_0.0'" },
+    { 0x0000fde8, 0x0000fff8, ' ', 2, "CALL 'rr_0.0'", true },
     { 0x0000fee8, 0x0000fff8, ' ', 2, "JP 'rr_0.0'" },
     { 0x0000ffe8, 0x0000fff8, ' ', 2, "SWAP 'r_0.0'" },
 
@@ -1043,11 +1043,11 @@ struct dis_entry disass_t870c[]=
     { 0x00fc00d4, 0x00ff00fc, ' ', 3, "LD CF,('srcD').A" },
     { 0x0000fc4f, 0x0000ffff, ' ', 2, "LD CF,('src4').A" },
 
-    { 0x00fd00e0, 0x00ff00ff, ' ', 3, "CALL (%x)" },
-    { 0xfd0000e1, 0xff0000ff, ' ', 4, "CALL ('vw')" },
-    { 0x0000fde0, 0x0000fff8, ' ', 2, "CALL ('srcE')" },
-    { 0x00fd00d4, 0x00ff00fc, ' ', 3, "CALL ('srcD')" },
-    { 0x0000fd4f, 0x0000ffff, ' ', 2, "CALL ('src4')" },
+    { 0x00fd00e0, 0x00ff00ff, ' ', 3, "CALL (%x)", true },
+    { 0xfd0000e1, 0xff0000ff, ' ', 4, "CALL ('vw')", true },
+    { 0x0000fde0, 0x0000fff8, ' ', 2, "CALL ('srcE')", true },
+    { 0x00fd00d4, 0x00ff00fc, ' ', 3, "CALL ('srcD')", true },
+    { 0x0000fd4f, 0x0000ffff, ' ', 2, "CALL ('src4')", true },
 
     { 0x00fe00e0, 0x00ff00ff, ' ', 3, "JP (%x)" },
     { 0xfe0000e1, 0xff0000ff, ' ', 4, "JP ('vw')" },
@@ -1118,7 +1118,7 @@ struct dis_entry disass_t870c[]=
     { 0x00000066, 0x000000ff, ' ', 2, "OR A,'n_1'" },
     { 0x00000067, 0x000000ff, ' ', 2, "CMP A,'n_1'" },
 
-    { 0x00000070, 0x000000f0, ' ', 1, "CALLV 'vn'" },
+    { 0x00000070, 0x000000f0, ' ', 1, "CALLV 'vn'", true },
     
     { 0x00000080, 0x000000e0, ' ', 1, "JRS T,'ra5'" },
 
@@ -1132,7 +1132,7 @@ struct dis_entry disass_t870c[]=
     { 0x000000d8, 0x000000f8, ' ', 2, "JR 'cc','ra8'" },
     
     { 0x000000fc, 0x000000ff, ' ', 2, "JR 'ra8'" },
-    { 0x000000fd, 0x000000ff, ' ', 3, "CALL 'a16_1'" },
+    { 0x000000fd, 0x000000ff, ' ', 3, "CALL 'a16_1'", true },
     { 0x000000fe, 0x000000ff, ' ', 3, "JP 'a16_1'" },
     
     // one byte invalids
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b56a5d7..55e2a71 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -358,6 +358,13 @@ cl_t870c::get_dis_entry(t_addr addr)
   return de;
 }
 
+bool
+cl_t870c::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de && de->mnemonic && de->is_call;
+}
+
 char *
 cl_t870c::disassc(t_addr addr, chars *comment)
 {
diff --git a/src/sims/tlcs.src/t870ccl.h b/src/sims/tlcs.src/t870ccl.h
index f1c246a..c91b1c6 100644
--- a/src/sims/tlcs.src/t870ccl.h
+++ b/src/sims/tlcs.src/t870ccl.h
@@ -157,6 +157,7 @@ public:
   virtual u8_t *extra_ticks(void) { return extra_ticks_t870c; }
   
   virtual struct dis_entry *dis_tbl(void);
+  virtual bool is_call(t_addr addr);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment);
   virtual int longest_inst(void) { return 5; }
-- 
2.43.0


From 0b286e424f97b9b902665c13ac7b69c6b0198376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:16 +0000
Subject: [PATCH 145/190] fix: condition of a breakpoint that reads cells
 triggered event breakpoints and crashed the simulator

---
 src/core/sim.src/brk.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/sim.src/brk.cc b/src/core/sim.src/brk.cc
index bac95d9..da7909e 100644
--- a/src/core/sim.src/brk.cc
+++ b/src/core/sim.src/brk.cc
@@ -80,7 +80,15 @@ cl_brk::condition(void)
   if (cond.empty())
     return true;
   long l;
+  // accesses made by evaluation of the condition are not accesses
+  // of the executed instruction
+  class cl_uc *uc= application->get_uc();
+  bool inst= uc && uc->inst_exec;
+  if (inst)
+    uc->inst_exec= false;
   l= application->eval(cond);
+  if (inst)
+    uc->inst_exec= true;
   //fprintf(stderr,"BP[%d]EVAL: %s =%ld\n", nr, cond.c_str(), l);
   return l!=0;
 }
-- 
2.43.0


From 82a0401e8de4f3e15725e5d2ac02d4b26e49415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 146/190] fix: s51: DCEN mode of timer 2 was lost by writes of
 T2CON, toggled P1.6 instead of EXF2, missed underflow at 0

---
 src/sims/s51.src/timer2.cc | 50 +++++++++++++++++++-------------------
 src/sims/s51.src/uc52.cc   |  1 +
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index fc55cc5..9d9d676 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,7 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  bit_dcen= bit_t2oe= false;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -97,8 +98,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,6 +107,17 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
+      inform_partners(EV_T2_MODE_CHANGED, &n);
+    }
+  else if (cell == cell_t2mod)
+    {
+      bit_dcen= (*val & bmDCEN) != 0;
+      bit_t2oe= (*val & bmT2OE) != 0;
+    }
+  if ((cell == cell_tcon) ||
+      (cell == cell_t2mod) ||
+      b)
+    {
       if (!(RCLK || TCLK) &&
 	  !CP_RL2)
 	mode= T2MODE_RELOAD;
@@ -118,19 +128,16 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 	mode= T2MODE_BAUDRATE;
       else
 	mode= T2MODE_OFF;
-      inform_partners(EV_T2_MODE_CHANGED, &n);
-    }
-  else if (cell == cell_t2mod)
-    {
-      bit_dcen= (*val & bmDCEN) != 0;
-      bit_t2oe= (*val & bmT2OE) != 0;
       if ((features & t2_down) &&
 	  bit_dcen &&
 	  mode == T2MODE_RELOAD)
+	mode= T2MODE_DOWN;
+      if (exf2it)
 	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
+	  if (mode == T2MODE_DOWN)
 	    exf2it->deactivate();
+	  else
+	    exf2it->activate();
 	}
       if ((features & t2_clock_out) &&
           bit_t2oe)
@@ -294,7 +301,7 @@ cl_timer2::do_t2_down(int cycles)
 		cell_tcon->set(cell_tcon->get() | mask_TF);
 		cell_th->set(cell_rcap2h->get());
 		cell_tl->set(cell_rcap2l->get());
-		toggle= true;
+		toggle= !toggle;
 	      }
 	  }
     }
@@ -303,28 +310,21 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
-	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
+	  u16_t cnt= cell_th->get()*256 + cell_tl->get();
+	  cell_th->set(((cnt-1) >> 8) & 0xff);
+	  cell_tl->set((cnt-1) & 0xff);
+	  if (cnt <=
 	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
-	      toggle= true;
+	      toggle= !toggle;
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


From 0996dea6d0cae4f1093a63c54b80233fa28b8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 147/190] fix: s51: MOVX @Ri used the pins of P2 as upper half
 of the address

---
 src/sims/s51.src/uc51.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 52cb6f1..9f12eba 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1658,7 +1658,8 @@ cl_51core::high_movxri(void)
       t_addr addr= cpu->cfg_read(uc51cpu_movxri_addr);
       switch (cpu->cfg_read(uc51cpu_movxri_as))
 	{
-	case 's': return sfr->read(addr);
+	// of a port: the latch, not the pins
+	case 's': return sfr->get(addr);
 	case 'c':
 	case 'r': return rom->read(addr);
 	case 'i': return iram->read(addr);
-- 
2.43.0


From 6789c13716fadf11909c4131e9fedbd1e7b54ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:19 +0000
Subject: [PATCH 148/190] fix: set memory showed wrong or too many cells

---
 src/core/cmd.src/cmd_set.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index cd13f77..7e12882 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -117,7 +117,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
         {
           int i;
           t_addr addr, last= mem->get_start_address()+mem->get_size()-1;
-	  class cl_dump_ads ads(start, start, true, true);
+	  class cl_dump_ads ads(start, start);
           for (i= 0, addr= start;
                (i < len) &&
 		 mem->valid_address(addr) &&
@@ -125,8 +125,11 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
                i++, addr++)
             mem->write(addr, array[i]);
           uc->check_errors();
-	  ads.stop= addr;
-          mem->dump(/*start, start+len-1*/&ads, 8, con);
+	  if (addr > start)
+	    {
+	      ads.stop= addr-1;
+	      mem->dump(/*start, start+len-1*/&ads, 8, con);
+	    }
         }
     }
   else
-- 
2.43.0


From 855d7006a2090042d5ca27421dbf5b2f31280a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 149/190] fix: i8048: DJNZ always jumped and counted in R7

---
 src/sims/i8048.src/branch.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..24ed91a 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -163,14 +163,12 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code&7;
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
-    {
-      PC&= 0xf00;
-      PC+= a;
-    }
+  if (R[r]->R() != 0)
+    PC= page | a;
   return resGO;
 }
 
-- 
2.43.0


From e9a3d0fe7f323480893f456ec92372e4707ce0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 150/190] fix: i8048: conditional jumps at the end of a page
 left the page of their address byte

---
 src/sims/i8048.src/branch.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 24ed91a..17674fd 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -53,25 +53,21 @@ CL2::call(MP)
 int
 CL2::jb(MP)
 {
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   u8_t m= 1<<((code>>5)&7);
   if (rA & m)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
+    PC= page | a;
   return resGO;
 }
 
 int
 CL2::jif(bool cond)
 {
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   if (cond)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
+    PC= page | a;
   return resGO;
 }
 
-- 
2.43.0


From 0d548c4101089660b1cbc46be9de76365fd11bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 151/190] fix: i8048: ADDC A,@R0 and ADDC A,@R1 were not
 implemented

---
 src/sims/i8048.src/i8020cl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..8a49638 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -221,6 +221,8 @@ protected:
   /* Arithmetics */
   int ADDI8(MP) { return add(fetch(), false); }
   int ADCI8(MP) { return add(fetch(), true); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADDIR0(MP) { return add(read_ir(0), false); }
   int ADDIR1(MP) { return add(read_ir(1), false); }
   int ADDR0(MP) { return add(R[0]->read(), false); }
-- 
2.43.0


From 461d543ef497f877167cfa224c5fd1cdd726027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 152/190] fix: i8048: wrong length or duration of ANL A,#, MOV
 @Ri,A, ENT0 CLK, ANL BUS,#

---
 src/sims/i8048.src/decode.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index a909afe..9cbcb9a 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From 611648c5024e95eff76c51f4ff62e32e6f1a5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 153/190] fix: i8048: ORLD, ANLD used wrong expander port,
 expander operations cleared P24-P27

---
 src/sims/i8048.src/i8020cl.h | 16 ++++++++--------
 src/sims/i8048.src/port.cc   |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index 8a49638..194fd6b 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -281,14 +281,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(4+(code&3), &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From c829ee994dec170ed29c68d3bee17137d7b08e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 154/190] fix: PicoBlaze FETCH and STORE: address wraps in the
 scratch pad

---
 src/sims/pblaze.src/inst.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d1e7d85..608e504 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -315,10 +315,11 @@ cl_pblaze::inst_fetch(uint code, int operands)
     addr = get_constant(code) & 0x3f; // only bits 5..0 are used for addressing
   }
   else if (operands == REG_ADDRESS8) {
-    addr = get_constant(code);
+    addr = get_constant(code) % ram_size;
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    // a small scratch pad uses the lower bits of the address only
+    addr = get_register(code, false)->get() % ram_size;
   }
   else {
     fprintf(stderr, "FETCH: Unsupported operand type\n");
@@ -814,10 +815,11 @@ cl_pblaze::inst_store(uint code, int operands)
     addr = get_constant(code) & 0x3f; // only bits 5..0 are used for addressing
   }
   else if (operands == REG_ADDRESS8) {
-    addr = get_constant(code);
+    addr = get_constant(code) % ram_size;
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    // a small scratch pad uses the lower bits of the address only
+    addr = get_register(code, false)->get() % ram_size;
   }
   else {
     fprintf(stderr, "STORE: Unsupported operand type\n");
-- 
2.43.0


From debeb688986b6d122c7b84d4eb89d6b991c791cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 155/190] fix: PicoBlaze return to the address after the last
 one wraps to 0

---
 src/sims/pblaze.src/inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 608e504..43ec55b 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -495,7 +495,7 @@ cl_pblaze::inst_load_return(uint code, int operands)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) % rom_size;
   }
   else {
     fprintf(stderr, "LOAD&RETURN: Unsupported operand type\n");
@@ -643,7 +643,7 @@ cl_pblaze::inst_return(uint code, int inst)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) % rom_size;
   }
 
   return(resGO);
@@ -661,7 +661,7 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
     //return (resERROR);
   }
-  PC = addr+1;
+  PC = (addr+1) % rom_size;
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
-- 
2.43.0


From a5dc3a01e219ea5bfdce34e0b49eeca7d6a0ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 156/190] fix: KCPSM6 continues at address 0 after the reset
 caused by its stack

---
 src/sims/pblaze.src/inst.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 43ec55b..d006b31 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -243,8 +243,10 @@ cl_pblaze::inst_call(uint code, int inst, int operands)
     if (stack_push(PC-1)) {
       fprintf(stderr, "Call stack overflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return(resGO);
+      }
       //return (resERROR);
     }
     PC = address;
@@ -490,8 +492,10 @@ cl_pblaze::inst_load_return(uint code, int operands)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return(resGO);
+      }
 
       //return (resERROR);
     }
@@ -638,8 +642,10 @@ cl_pblaze::inst_return(uint code, int inst)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return(resGO);
+      }
 
       //return (resERROR);
     }
@@ -656,8 +662,10 @@ cl_pblaze::inst_returni(bool interrupt_enable)
   if (stack_pop(&addr)) {
     fprintf(stderr, "Call stack underflow.\n");
 
-    if (type->type == CPU_PBLAZE_6)
+    if (type->type == CPU_PBLAZE_6) {
       reset();
+      return(resGO);
+    }
 
     //return (resERROR);
   }
-- 
2.43.0


From 4ce45a89e59f270ec7cb73b54c4a4fc380383043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 157/190] fix: KCPSM6 OUTPUTK outputs its constant

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d006b31..fe4fd07 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -576,7 +576,7 @@ cl_pblaze::inst_outputk(uint code, int operands)
   u8_t port;
 
   if (operands == CONSTANT_PORT) {
-    constant = (code & 0x00ff0) >> 8;
+    constant = (code & 0x00ff0) >> 4;
     port = code & 0x0000f;
   }
   else {
-- 
2.43.0


From 43c41830f69aac5f0674dc8bb0da40c46b2e8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 158/190] fix: KCPSM6 STAR writes the register given by its
 first operand

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index fe4fd07..1d1d8cf 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -794,7 +794,7 @@ cl_pblaze::inst_star(uint code, int operands)
 
   if (operands == REG_REG) {
     // getting register from inactive register bank
-    unsigned char reg_code = (code & 0x000f0) >> 4;
+    unsigned char reg_code = (code & 0x00f00) >> 8;
     if (active_regbank == REGISTER_BANK_A)
       reg_code += 0x10;
 
-- 
2.43.0


From 69ce8ff950e4568d23edf1e51e6f5d016b9d18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 159/190] fix: KCPSM6 RETURNI restores the register bank of the
 interrupted program

---
 src/sims/pblaze.src/inst.cc       | 1 +
 src/sims/pblaze.src/interrupt.cc  | 3 +++
 src/sims/pblaze.src/interruptcl.h | 1 +
 src/sims/pblaze.src/pblaze.cc     | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 1d1d8cf..03917af 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -673,6 +673,7 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
+  active_regbank = interrupt->preserved_regbank;
   FLAGS_SET_I(interrupt_enable);
 
   return (resGO);
diff --git a/src/sims/pblaze.src/interrupt.cc b/src/sims/pblaze.src/interrupt.cc
index 6cc2840..b3942eb 100644
--- a/src/sims/pblaze.src/interrupt.cc
+++ b/src/sims/pblaze.src/interrupt.cc
@@ -37,6 +37,9 @@ int
 cl_interrupt::init(void)
 {
   interrupt_request = false;
+  preserved_flag_c = false;
+  preserved_flag_z = false;
+  preserved_regbank = REGISTER_BANK_A;
   return(0);
 }
 
diff --git a/src/sims/pblaze.src/interruptcl.h b/src/sims/pblaze.src/interruptcl.h
index 37c0659..d61a1d3 100644
--- a/src/sims/pblaze.src/interruptcl.h
+++ b/src/sims/pblaze.src/interruptcl.h
@@ -35,6 +35,7 @@ public:
   
   bool preserved_flag_c;
   bool preserved_flag_z;
+  int preserved_regbank;
 public:
   cl_interrupt(class cl_uc *auc);
   virtual int init(void);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index 8ebe9b6..55eff5d 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -908,6 +908,7 @@ cl_pblaze::do_interrupt(void)
     //stack_push(PC);
     interrupt->preserved_flag_c = FLAGS_GET_C;
     interrupt->preserved_flag_z = FLAGS_GET_Z;
+    interrupt->preserved_regbank = active_regbank;
     FLAGS_SET_I(0);
     interrupt->interrupt_request = false;
 
-- 
2.43.0


From a84f26771484464fde1b18da163c71e7a38517fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:00 +0000
Subject: [PATCH 160/190] fix: PicoBlaze hardware constant has an initial value

---
 src/sims/pblaze.src/pblaze.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index 55eff5d..2fd8aea 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -1352,6 +1352,7 @@ cl_pblaze::init_uc_parameters(void)
   rom_size = 1024;
   ram_size = 64;
   interrupt_vector = 0x3ff;
+  hw_constant = 0;
 
   if (type->type == CPU_PBLAZE_3)
     stack_size = 31;
-- 
2.43.0


From d31e1830b9a13495bcaeca3870d1a016e7839dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:58 +0000
Subject: [PATCH 161/190] fix: MCS-48 counter counts falling edges of T1

---
 src/sims/i8048.src/i8020.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..5223642 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -875,12 +875,13 @@ cl_i8020_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
     case i8020cpu_t1:
       if (val)
 	{
+	  bool was= (ipins & ipm_t1) != 0;
 	  *val= (*val)?1:0;
 	  ipins&= ~ipm_t1;
 	  ipins|= (*val)?ipm_t1:0;
 	  if (u->timer)
 	    {
-	      if ((cell->get() != 0) &&
+	      if (was &&
 		  (*val == 0))
 		{
 		  u->timer->do_counter(1);
-- 
2.43.0


From 4f9f6364896962dd2ddacab886281c26aa9881b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:58 +0000
Subject: [PATCH 162/190] fix: MCS-48 timer overflow requests interrupt

---
 src/sims/i8048.src/timer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/timer.cc b/src/sims/i8048.src/timer.cc
index 402cafc..1f44d85 100644
--- a/src/sims/i8048.src/timer.cc
+++ b/src/sims/i8048.src/timer.cc
@@ -143,7 +143,10 @@ cl_timer::do_overflow(void)
 {
   cfg_write(tcfg_tflag, 1);
   if (int_enabled)
-    cfg_write(tcfg_ovflag, 1);
+    {
+      cfg_write(tcfg_ovflag, 1);
+      cfg_write(tcfg_irq, 1);
+    }
 }
 
 const char *
-- 
2.43.0


From 4aea526dfccc87b3c1eccf17ab1ed4996d8c013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:03 +0000
Subject: [PATCH 163/190] fix: MCS-48 jumps and calls stay in bank 0 while an
 interrupt is served

---
 src/sims/i8048.src/branch.cc | 4 ++--
 src/sims/i8048.src/i8048.cc  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 17674fd..b8c0517 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -34,7 +34,7 @@ cl_i8020::jmp(MP)
   u16_t a;
   a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   PC= a;
   return resGO;
 }
@@ -44,7 +44,7 @@ CL2::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(false);
   PC= a;
   return resGO;
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..4d1c7c1 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -266,7 +266,7 @@ cl_i8048::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(true);
   PC= a;
   return resGO;
-- 
2.43.0


From 120a505b82b02f83ccb0e1f48478eb030d661620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:28 +0000
Subject: [PATCH 164/190] fix: ST7 N flag of shifts, NEG, SWAP and TNZ is bit 7
 of the result

---
 src/sims/st7.src/inst.cc | 48 +++++++---------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..806e109 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -646,11 +646,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, operand & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +705,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, operand & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +745,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, opres & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +803,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, opres & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +843,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, opres & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +879,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, opres & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +934,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, opres & 0x80);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +967,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, operand & 0x80);
 
    return(resGO);
 }
-- 
2.43.0


From bac637d5e796bd2812a213d8653b654c0b9bbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:28 +0000
Subject: [PATCH 165/190] fix: ST7 NEG of zero clears the carry

---
 src/sims/st7.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 806e109..d53adf5 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -645,7 +645,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
+   FLAG_ASSIGN (BIT_C, operand & 0xff);
    FLAG_ASSIGN (BIT_N, operand & 0x80);
 
    if ((code&0xf0)==0x40) {
-- 
2.43.0


From 4a747a53fa4c1751a5b81721e99aaa838e68af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:28 +0000
Subject: [PATCH 166/190] fix: ST7 LD of A, X and Y from memory sets N and Z

---
 src/sims/st7.src/inst.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index d53adf5..13c53e9 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -554,10 +554,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +573,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
-- 
2.43.0


From 9f69c0cfef4c521dcd72b4e1b66730f18dca4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:28 +0000
Subject: [PATCH 167/190] fix: ST7 BTJT and BTJF copy the tested bit to C

---
 src/sims/st7.src/inst.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 13c53e9..addb925 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -271,7 +271,8 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
   unsigned char dbyte = get1( ea);
-  char reljump = fetch();
+  signed char reljump = fetch();
+  FLAG_ASSIGN (BIT_C, dbyte & (1 << ((code >> 1) & 7)));
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
-- 
2.43.0


From c84015e1c7e1c58be60264fcbeea0ef0ef7e9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 168/190] fix: ST7 BSET, BRES, BTJT and BTJF take a pointer

---
 src/sims/st7.src/inst.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index addb925..36aad85 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -250,6 +250,8 @@ int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -270,6 +272,8 @@ int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   signed char reljump = fetch();
   FLAG_ASSIGN (BIT_C, dbyte & (1 << ((code >> 1) & 7)));
-- 
2.43.0


From f6fd0ceb13a933e35aca5cc98b82609f7a8621bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 169/190] fix: ST7 MUL clears H and C

---
 src/sims/st7.src/st7.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index f80cc1c..1533986 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -584,10 +584,12 @@ cl_st7::exec_inst(void)
                mulres = regs.X * regs.A;
                regs.A = mulres & 0xff;
                regs.X = mulres >> 8;
+               FLAG_CLEAR (BIT_H | BIT_C);
             }else if (cprefix == 0x90) {
                mulres = regs.Y * regs.A;
                regs.A = mulres & 0xff;
                regs.Y = mulres >> 8;
+               FLAG_CLEAR (BIT_H | BIT_C);
             } else {
                return (resHALT);
             }
-- 
2.43.0


From 56f1fb6cad5b273360a76a95815f272aef5a502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 170/190] fix: ST7 LD S loads the low byte of the stack pointer

---
 src/sims/st7.src/st7.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 1533986..e74586e 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -683,9 +683,9 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.X;
+               regs.SP = (regs.SP & 0xff00) | regs.X;
             }else if (cprefix == 0x90) {
-               regs.SP = regs.Y;
+               regs.SP = (regs.SP & 0xff00) | regs.Y;
             } else {
                return (resHALT);
             }
@@ -727,7 +727,7 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.A;
+               regs.SP = (regs.SP & 0xff00) | regs.A;
             } else {
                return (resHALT);
             }
-- 
2.43.0


From 64ea139d17b7ecde3442a584afd748f1b46d7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 171/190] fix: ST7 direct and indirect operands of LD and CP Y

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 36aad85..c63675f 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if (( 0x91 == prefix) || ( 0x92 == prefix)) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if (( 0x91 == prefix) || ( 0x92 == prefix)) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
-- 
2.43.0


From 0f9ef3071c4f7960328c3d3d2426179d9591c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 172/190] fix: ST7 long indexed address wraps at 64K

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index c63675f..6250cee 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -73,15 +73,15 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
 
     case 0xd:
 	  if ( 0 == prefix) {              // long offset with X reg
-        resaddr = (fetch2()+regs.X);
+        resaddr = ((fetch2()+regs.X) & 0xffff);
 	  } else if ( 0x90 == prefix) {    // long offset with Y reg
-        resaddr = (fetch2()+regs.Y);
+        resaddr = ((fetch2()+regs.Y) & 0xffff);
 	  } else if ( 0x91 == prefix) {    // pointer to long offset with Y
       ftc = fetch();
-	    resaddr = (get2(ftc)+regs.Y);
+	    resaddr = ((get2(ftc)+regs.Y) & 0xffff);
 	  } else if ( 0x92 == prefix) {    // pointer to long offset with X
        ftc = fetch();
-	    resaddr = (get2(ftc)+regs.X);
+	    resaddr = ((get2(ftc)+regs.X) & 0xffff);
 	  } else {
 	    resaddr =( resHALT);
 	  }
-- 
2.43.0


From 68efc3429aa85a6d57334a6e45ee5ef991ed8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:22 +0000
Subject: [PATCH 173/190] fix: m68hc12: select Y and SP as coded in the indexed
 postbytes

---
 src/sims/m68hc12.src/m68hc12.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 76cabca..4186054 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -367,8 +367,8 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       switch (p & 0x18)
 	{
 	case 0x00: ival= rX; break;
-	case 0x10: ival= rY; break;
-	case 0x08: ival= rSP; break;
+	case 0x08: ival= rY; break;
+	case 0x10: ival= rSP; break;
 	case 0x18:
 	  if (use_PC)
 	    ival= use_PC;
@@ -390,8 +390,8 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       switch (p & 0x18)
 	{
 	case 0x00: ival= rX; break;
-	case 0x10: ival= rY; break;
-	case 0x08: ival= rSP; break;
+	case 0x08: ival= rY; break;
+	case 0x10: ival= rSP; break;
 	case 0x18:
 	  if (use_PC)
 	    ival= use_PC;
@@ -455,8 +455,8 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       switch (p & 0x18)
 	{
 	case 0x00: ival= rX; break;
-	case 0x10: ival= rY; break;
-	case 0x08: ival= rSP; break;
+	case 0x08: ival= rY; break;
+	case 0x10: ival= rSP; break;
 	case 0x18:
 	  if (use_PC)
 	    ival= use_PC;
-- 
2.43.0


From 0b3394a6a3a194eed81ce13141326abaf34d8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:22 +0000
Subject: [PATCH 174/190] fix: m68hc12: auto increment and decrement use and
 update the index register

---
 src/sims/m68hc12.src/imov.cc     | 20 ++++++++++----------
 src/sims/m68hc12.src/m68hc12.cc  | 15 ++++++---------
 src/sims/m68hc12.src/m68hc12cl.h |  2 +-
 3 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/sims/m68hc12.src/imov.cc b/src/sims/m68hc12.src/imov.cc
index 56195fe..53e7983 100644
--- a/src/sims/m68hc12.src/imov.cc
+++ b/src/sims/m68hc12.src/imov.cc
@@ -146,7 +146,7 @@ CL12::movw_imid(void)
   int xt= xb_type(xb);
   if ((xt==1) || (xt==3) || (xt==4))
     {
-      t_addr a= naddr(&aof_xb, NULL, PC);
+      t_addr a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= 2;
       rom->write(a, ih);
@@ -165,7 +165,7 @@ CL12::movb_imid(void)
   int xt= xb_type(xb);
   if ((xt==1) || (xt==3) || (xt==4))
     {
-      t_addr a= naddr(&aof_xb, NULL, PC);
+      t_addr a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= 1;
       rom->write(a, i);
@@ -186,7 +186,7 @@ CL12::movw_exid(void)
     {
       u8_t h, l;
       u16_t ea= eh*256+el;
-      t_addr a= naddr(&aof_xb, NULL, PC);
+      t_addr a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= 2;
       h= rom->read(ea);
@@ -211,7 +211,7 @@ CL12::movb_exid(void)
     {
       u8_t v;
       u16_t ea= eh*256+el;
-      t_addr a= naddr(&aof_xb, NULL, PC);
+      t_addr a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= 2;
       v= rom->read(ea);
@@ -235,8 +235,8 @@ CL12::movw_idid(void)
       if ((xtdst==1) || (xtdst==3) || (xtdst==4))
 	{
 	  u8_t v;
-	  u16_t asrc= naddr(&aof_xbsrc, NULL, PC);
-	  u16_t adst= naddr(&aof_xbdst, NULL, PC);
+	  u16_t asrc= naddr(&aof_xbsrc, NULL, PC, true);
+	  u16_t adst= naddr(&aof_xbdst, NULL, PC, true);
 	  if (xb_PC(xbsrc))
 	    asrc+= -1;
 	  if (xb_PC(xbdst))
@@ -265,8 +265,8 @@ CL12::movb_idid(void)
       if ((xtdst==1) || (xtdst==3) || (xtdst==4))
 	{
 	  u8_t v;
-	  u16_t asrc= naddr(&aof_xbsrc, NULL, PC);
-	  u16_t adst= naddr(&aof_xbdst, NULL, PC);
+	  u16_t asrc= naddr(&aof_xbsrc, NULL, PC, true);
+	  u16_t adst= naddr(&aof_xbdst, NULL, PC, true);
 	  if (xb_PC(xbsrc))
 	    asrc+= -1;
 	  if (xb_PC(xbdst))
@@ -362,7 +362,7 @@ CL12::movw_idex(void)
     {
       u8_t h, l;
       u16_t ea= eh*256+el;
-      u16_t a= naddr(&aof_xb, NULL, PC);
+      u16_t a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= -2;
       h= rom->read(a);
@@ -387,7 +387,7 @@ CL12::movb_idex(void)
     {
       u8_t v;
       u16_t ea= eh*256+el;
-      u16_t a= naddr(&aof_xb, NULL, PC);
+      u16_t a= naddr(&aof_xb, NULL, PC, true);
       if (xb_PC(xb))
 	a+= -2;
       v= rom->read(a);
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 4186054..fddf441 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -321,7 +321,7 @@ CL12::xb_PC(u8_t p)
 }
 
 t_addr
-CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
+CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC, bool exec)
 {
   u8_t p, h, l;
   i8_t n;
@@ -433,19 +433,16 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       if (p&0x10)
 	{
 	  // post +-
-	  ival= (post_idx_reg->R() + (int)n);
-	  if (!addr)
-	    {
-	      //post_inc_dec= n;
-	      post_idx_reg->W(ival);
-	    }
+	  ival= post_idx_reg->R();
+	  if (!addr || exec)
+	    post_idx_reg->W(ival + (int)n);
 	}
       else
 	{
 	  // pre +-
-	  if (!addr)
-	    post_idx_reg->W(ival);
 	  ival= (post_idx_reg->R() + (int)n);
+	  if (!addr || exec)
+	    post_idx_reg->W(ival);
 	}
       xb_tick_shift= 0;
       return (u16_t)ival;
diff --git a/src/sims/m68hc12.src/m68hc12cl.h b/src/sims/m68hc12.src/m68hc12cl.h
index 6744c3e..9cc3c64 100644
--- a/src/sims/m68hc12.src/m68hc12cl.h
+++ b/src/sims/m68hc12.src/m68hc12cl.h
@@ -114,7 +114,7 @@ public:
   virtual int xb_type(u8_t p);
   virtual bool xb_indirect(u8_t p);
   virtual bool xb_PC(u8_t p);
-  virtual t_addr naddr(t_addr *addr, u8_t *pg, u32_t use_PC= 0);
+  virtual t_addr naddr(t_addr *addr, u8_t *pg, u32_t use_PC= 0, bool exec= false);
   virtual u8_t xbop8();
   virtual u16_t xbop16();
   virtual class cl_memory_cell &xb(void);
-- 
2.43.0


From ca00c2fc5beb355eca233637e838d64e0e98092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:22 +0000
Subject: [PATCH 175/190] fix: m68hc12: PC relative indexing counts from the
 end of the instruction

---
 src/sims/m68hc12.src/m68hc12.cc | 54 ++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index fddf441..e97af52 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -387,6 +387,19 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC, bool exec)
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
+      if (addr)
+	{
+	  h= rom->read(*addr);
+	  (*addr)++;
+	  l= rom->read(*addr);
+	  (*addr)++;
+	}
+      else
+	{
+	  h= fetch();
+	  l= fetch();
+	}
+      ioffset= h*256+l;
       switch (p & 0x18)
 	{
 	case 0x00: ival= rX; break;
@@ -401,19 +414,6 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC, bool exec)
 	    ival= PC&0xffff;
 	  break;
 	}
-      if (addr)
-	{
-	  h= rom->read(*addr);
-	  (*addr)++;
-	  l= rom->read(*addr);
-	  (*addr)++;
-	}
-      else
-	{
-	  h= fetch();
-	  l= fetch();
-	}
-      ioffset= h*256+l;
       a= (u16_t)(ival+ioffset);
       if (pg)
 	*pg= rom->read(a+2);
@@ -449,20 +449,6 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC, bool exec)
       break;
       
     case 2:  // 2. 111r r0zs n9/16,r rr={X,Y,SP,PC}
-      switch (p & 0x18)
-	{
-	case 0x00: ival= rX; break;
-	case 0x08: ival= rY; break;
-	case 0x10: ival= rSP; break;
-	case 0x18:
-	  if (use_PC)
-	    ival= use_PC;
-	  else if (addr)
-	    ival= (*addr)&0xffff;
-	  else
-	    ival= PC&0xffff;
-	  break;
-	}
       if ((p&0x02) == 0x00)
 	{
 	  // 9 bit
@@ -494,6 +480,20 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC, bool exec)
 	  ioffset= h*256+l;
 	  xb_tick_shift= 1;
 	}
+      switch (p & 0x18)
+	{
+	case 0x00: ival= rX; break;
+	case 0x08: ival= rY; break;
+	case 0x10: ival= rSP; break;
+	case 0x18:
+	  if (use_PC)
+	    ival= use_PC;
+	  else if (addr)
+	    ival= (*addr)&0xffff;
+	  else
+	    ival= PC&0xffff;
+	  break;
+	}
       return (u16_t)(ival+ioffset);
       break;
   
-- 
2.43.0


From 52a26da2d50c9fb97e27dc313f37fad6abe6d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:22 +0000
Subject: [PATCH 176/190] fix: m68hc12: ORCC sets flags

---
 src/sims/m68hc12.src/decode12.h | 2 +-
 src/sims/m68hc12.src/wdefs.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index e08ae73..492db9a 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -21,7 +21,7 @@ DEC(0, 10,	andcc	, _i8		, "ANDCC %b"	, ' ', 2	, 1)
 DEC(0, 11,	ediv	, _NONE		, "EDIV"	, ' ', 1	, 11)
 DEC(0, 12,	mul	, _NONE		, "MUL"		, ' ', 1	, 1)
 DEC(0, 13,	emul	, _NONE		, "EMUL"	, ' ', 1	, 3)
-DEC(0, 14,	andcc	, _i8		, "ORCC %b"	, ' ', 2	, 1)
+DEC(0, 14,	orcc	, _i8		, "ORCC %b"	, ' ', 2	, 1)
 DEC(0, 15,	jsr	, _xba		, "JSR %p"	, ' ', -2	, 0x764)
 DEC(0, 16,	jsr	, _ea	 	, "JSR %e"	, ' ', 3	, 4)
 DEC(0, 17,	jsr	, _da	 	, "JSR %d"	, ' ', 2	, 4)
diff --git a/src/sims/m68hc12.src/wdefs.h b/src/sims/m68hc12.src/wdefs.h
index 8434c56..63239bc 100644
--- a/src/sims/m68hc12.src/wdefs.h
+++ b/src/sims/m68hc12.src/wdefs.h
@@ -16,7 +16,7 @@ int wrap_0_10(class CL12 *uc, t_mem code) { return uc-> andcc ( _i8 ); }
 int wrap_0_11(class CL12 *uc, t_mem code) { return uc-> ediv ( _NONE ); }
 int wrap_0_12(class CL12 *uc, t_mem code) { return uc-> mul ( _NONE ); }
 int wrap_0_13(class CL12 *uc, t_mem code) { return uc-> emul ( _NONE ); }
-int wrap_0_14(class CL12 *uc, t_mem code) { return uc-> andcc ( _i8 ); }
+int wrap_0_14(class CL12 *uc, t_mem code) { return uc-> orcc ( _i8 ); }
 int wrap_0_15(class CL12 *uc, t_mem code) { return uc-> jsr ( _xba ); }
 int wrap_0_16(class CL12 *uc, t_mem code) { return uc-> jsr ( _ea ); }
 int wrap_0_17(class CL12 *uc, t_mem code) { return uc-> jsr ( _da ); }
-- 
2.43.0


From 3df1df1b9abd35409b358a2660b73096c16ccf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:22 +0000
Subject: [PATCH 177/190] fix: m68hc12: EMAXM and EMINM are instructions, not
 traps

---
 src/sims/m68hc12.src/decode12.h | 2 ++
 src/sims/m68hc12.src/wdecls.h   | 2 ++
 src/sims/m68hc12.src/wdefs.h    | 2 ++
 src/sims/m68hc12.src/wfills.h   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index 492db9a..1ec4d45 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -303,6 +303,8 @@ DEC(0x18, 1a,	emaxd	, _NONE		, "EMAXD %P"	, ' ', -3	, 0x764)
 DEC(0x18, 1b,	emind	, _NONE		, "EMIND %P"	, ' ', -3	, 0x764)
 DEC(0x18, 1c,	maxm	, _NONE		, "MAXM %p"	, ' ', -3	, 0x764)
 DEC(0x18, 1d,	minm	, _NONE		, "MINM %p"	, ' ', -3	, 0x764)
+DEC(0x18, 1e,	emaxm	, _NONE		, "EMAXM %P"	, ' ', -3	, 0x764)
+DEC(0x18, 1f,	eminm	, _NONE		, "EMINM %P"	, ' ', -3	, 0x764)
 
 DEC(0x18, 20,	lbranch	, code		, "LBRA %R"	, ' ', 4	, 1)
 DEC(0x18, 21,	lbranch	, code		, "LBRN %R"	, ' ', 4	, 1)
diff --git a/src/sims/m68hc12.src/wdecls.h b/src/sims/m68hc12.src/wdecls.h
index 693ba66..815d341 100644
--- a/src/sims/m68hc12.src/wdecls.h
+++ b/src/sims/m68hc12.src/wdecls.h
@@ -279,6 +279,8 @@ extern int wrap_0x18_1a (class CL12 *uc, t_mem code);
 extern int wrap_0x18_1b (class CL12 *uc, t_mem code);
 extern int wrap_0x18_1c (class CL12 *uc, t_mem code);
 extern int wrap_0x18_1d (class CL12 *uc, t_mem code);
+extern int wrap_0x18_1e (class CL12 *uc, t_mem code);
+extern int wrap_0x18_1f (class CL12 *uc, t_mem code);
 extern int wrap_0x18_20 (class CL12 *uc, t_mem code);
 extern int wrap_0x18_21 (class CL12 *uc, t_mem code);
 extern int wrap_0x18_22 (class CL12 *uc, t_mem code);
diff --git a/src/sims/m68hc12.src/wdefs.h b/src/sims/m68hc12.src/wdefs.h
index 63239bc..dd968ed 100644
--- a/src/sims/m68hc12.src/wdefs.h
+++ b/src/sims/m68hc12.src/wdefs.h
@@ -279,6 +279,8 @@ int wrap_0x18_1a(class CL12 *uc, t_mem code) { return uc-> emaxd ( _NONE ); }
 int wrap_0x18_1b(class CL12 *uc, t_mem code) { return uc-> emind ( _NONE ); }
 int wrap_0x18_1c(class CL12 *uc, t_mem code) { return uc-> maxm ( _NONE ); }
 int wrap_0x18_1d(class CL12 *uc, t_mem code) { return uc-> minm ( _NONE ); }
+int wrap_0x18_1e(class CL12 *uc, t_mem code) { return uc-> emaxm ( _NONE ); }
+int wrap_0x18_1f(class CL12 *uc, t_mem code) { return uc-> eminm ( _NONE ); }
 int wrap_0x18_20(class CL12 *uc, t_mem code) { return uc-> lbranch ( code ); }
 int wrap_0x18_21(class CL12 *uc, t_mem code) { return uc-> lbranch ( code ); }
 int wrap_0x18_22(class CL12 *uc, t_mem code) { return uc-> lbranch ( code ); }
diff --git a/src/sims/m68hc12.src/wfills.h b/src/sims/m68hc12.src/wfills.h
index 1ae69e6..1c03617 100644
--- a/src/sims/m68hc12.src/wfills.h
+++ b/src/sims/m68hc12.src/wfills.h
@@ -279,6 +279,8 @@ virtual void fill_0x18_1a() { page0x18[0x1a ]= wrap_0x18_1a; set_disass(0x18, 0x
 virtual void fill_0x18_1b() { page0x18[0x1b ]= wrap_0x18_1b; set_disass(0x18, 0x1b, "EMIND %P", ' ', -3); set_ticks(0x18, 0x1b, 0x764); }
 virtual void fill_0x18_1c() { page0x18[0x1c ]= wrap_0x18_1c; set_disass(0x18, 0x1c, "MAXM %p", ' ', -3); set_ticks(0x18, 0x1c, 0x764); }
 virtual void fill_0x18_1d() { page0x18[0x1d ]= wrap_0x18_1d; set_disass(0x18, 0x1d, "MINM %p", ' ', -3); set_ticks(0x18, 0x1d, 0x764); }
+virtual void fill_0x18_1e() { page0x18[0x1e ]= wrap_0x18_1e; set_disass(0x18, 0x1e, "EMAXM %P", ' ', -3); set_ticks(0x18, 0x1e, 0x764); }
+virtual void fill_0x18_1f() { page0x18[0x1f ]= wrap_0x18_1f; set_disass(0x18, 0x1f, "EMINM %P", ' ', -3); set_ticks(0x18, 0x1f, 0x764); }
 virtual void fill_0x18_20() { page0x18[0x20 ]= wrap_0x18_20; set_disass(0x18, 0x20, "LBRA %R", ' ', 4); set_ticks(0x18, 0x20, 1); }
 virtual void fill_0x18_21() { page0x18[0x21 ]= wrap_0x18_21; set_disass(0x18, 0x21, "LBRN %R", ' ', 4); set_ticks(0x18, 0x21, 1); }
 virtual void fill_0x18_22() { page0x18[0x22 ]= wrap_0x18_22; set_disass(0x18, 0x22, "LBHI %R", ' ', 4); set_ticks(0x18, 0x22, 1); }
-- 
2.43.0


From 497be165d05d9661a1d702673ef2bc7ef5193253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 178/190] fix: m68hc12: DEX and DEY set Z only when the whole
 register is zero

---
 src/sims/m68hc12.src/ialu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index da3c91e..756050e 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -114,7 +114,8 @@ CL12::inxy(class cl_memory_cell &dest)
 int
 CL12::dexy(class cl_memory_cell &dest)
 {
-  u8_t f= rF & ~flagZ, v;
+  u8_t f= rF & ~flagZ;
+  u16_t v;
   dest.W(v= dest.R()-1);
   if (!v)
     f|= flagZ;
-- 
2.43.0


From 8415b14e362726437fd92f81b8047fbc7f759044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 179/190] fix: m68hc12: DBEQ and DBNE decrement, TBEQ and TBNE
 only test

---
 src/sims/m68hc12.src/ibranch.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sims/m68hc12.src/ibranch.cc b/src/sims/m68hc12.src/ibranch.cc
index cc7a08f..3666624 100644
--- a/src/sims/m68hc12.src/ibranch.cc
+++ b/src/sims/m68hc12.src/ibranch.cc
@@ -337,8 +337,11 @@ CL12::loop(u8_t code)
   if (c == NULL)
     return resINV;
 
-  if (code & 0x80) c->W(c->R() + 1);
-  if (code & 0x40) c->W(c->R() - 1);
+  switch (code & 0xc0)
+    {
+    case 0x00: c->W(c->R() - 1); break; // DBcc
+    case 0x80: c->W(c->R() + 1); break; // IBcc
+    }
   int brz= (code & 0x20)?0:1;
   int isz= (c->R() == 0)?1:0;
   if (brz == isz)
-- 
2.43.0


From a18475811d9e7a54022d574ed1cac7174dd3231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 180/190] fix: m68hc12: transfers into CCR can clear X

---
 src/sims/m68hc12.src/imov.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sims/m68hc12.src/imov.cc b/src/sims/m68hc12.src/imov.cc
index 53e7983..8dc26e7 100644
--- a/src/sims/m68hc12.src/imov.cc
+++ b/src/sims/m68hc12.src/imov.cc
@@ -84,12 +84,6 @@ CL12::exec_b7(void)
 	  //cd->W(src);
 	}
     }
-  if (cd == &cF)
-    {
-      u8_t ox= rF&flagX, nx=src&flagX;
-      src&= ~flagX;
-      src|= (ox|nx);
-    }
   cd->W(src);
   return resGO;
 }
-- 
2.43.0


From a20b4eb80261b71b09424c26ca3811c6b4b413f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 181/190] fix: m68hc12: RTI keeps X when it is set in the
 stacked CCR too

---
 src/sims/m68hc12.src/ibranch.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sims/m68hc12.src/ibranch.cc b/src/sims/m68hc12.src/ibranch.cc
index 3666624..caf0a92 100644
--- a/src/sims/m68hc12.src/ibranch.cc
+++ b/src/sims/m68hc12.src/ibranch.cc
@@ -241,14 +241,9 @@ int
 CL12::rti(void)
 {
   u16_t s= rSP;
-  u8_t f, fx, h, l;
+  u8_t f, h, l;
 
   f= rom->read(s++);
-  rF&= ~(flagStop|flagH|flagI|flagN|flagZ|flagV|flagC);
-  fx= f&flagX;
-  f&= ~flagX;
-  rF&= fx;
-  rF|= f;
   cF.W(f);
   
   h= rom->read(s++);
-- 
2.43.0


From eca0b38ac2fbb2ac97efc72c09ed0672a24b8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 182/190] fix: m68hc12: EMACS sets V on overflow only

---
 src/sims/m68hc12.src/ialu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index 756050e..02cc269 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -282,7 +282,7 @@ CL12::emacs(void)
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (r & 0x80000000) f|= flagN;
   if (!r) f|= flagZ;
-  if (0x80000000 & ((m&i&~r)|(~m|~i|~r))) f|= flagV;
+  if (0x80000000 & ((m&i&~r)|(~m&~i&r))) f|= flagV;
   if (0x8000 & ((m&i)|(i&~r)|(~r&m))) f|= flagC;
   rom->write(a+0, r>>24);
   rom->write(a+1, r>>16);
-- 
2.43.0


From 29bd47516e2882938ee19e6b437aa40ae27b67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 183/190] fix: m68hc12: EDIVS of the smallest number by -1 must
 not stop the simulator

---
 src/sims/m68hc12.src/ialu.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index 02cc269..744836a 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -315,11 +315,12 @@ CL12::edivs(void)
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (rX != 0)
     {
-      q= op1 / (i16_t)rX;
-      r= op1 % (i16_t)rX;
+      i64_t lq= (i64_t)op1 / (i16_t)rX;
+      q= lq;
+      r= (i64_t)op1 % (i16_t)rX;
       if (q&0x8000) f|= flagN;
       if (!q) f|= flagZ;
-      if ((q > 32767) || (q < -32768))
+      if ((lq > 32767) || (lq < -32768))
 	f|= flagV;
       cY.W(q);
       cD.W(r);
-- 
2.43.0


From c719216d4ba491deb1ec139c7563d89e063407c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:23 +0000
Subject: [PATCH 184/190] fix: m68hc12: TRAP masks interrupts

---
 src/sims/m68hc12.src/m68hc12.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index e97af52..f073a3f 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -587,6 +587,7 @@ int
 CL12::trap(t_mem code)
 {
   push_regs(true);
+  cF.W(rF|flagI);
   PC= read_addr(rom, TRAP_AT);
   return resGO;
 }
-- 
2.43.0


From 78f13769a8dd2b2a9ffb7d0b38dceefd9767fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:27 +0000
Subject: [PATCH 185/190] fix: m68hc12: BSET and BCLR fetch the address before
 the mask

---
 src/sims/m68hc12.src/decode12.h  | 12 ++++++------
 src/sims/m68hc12.src/ialu.cc     | 15 +++++++++++++++
 src/sims/m68hc12.src/m68hc12cl.h |  2 ++
 src/sims/m68hc12.src/wdefs.h     | 12 ++++++------
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index 1ec4d45..b8d888b 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -12,8 +12,8 @@ DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -4	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -4	, 4)
+DEC(0, 0c,	bset	, _xb	, "BSET %p,%b"	, ' ', -4	, 4)
+DEC(0, 0d,	bclr	, _xb	, "BCLR %p,%b"	, ' ', -4	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
@@ -29,8 +29,8 @@ DEC(0, 17,	jsr	, _da	 	, "JSR %d"	, ' ', 2	, 4)
 DEC(0, 19,	lea	, _cY		, "LEAY %p"	, ' ', -2	, 0x532)
 DEC(0, 1a,	lea	, _cX		, "LEAX %p"	, ' ', -2	, 0x532)
 DEC(0, 1b,	lea	, _cS		, "LEAS %p"	, ' ', -2	, 0x532)
-DEC(0, 1c,	Or	, _e_i8		, "BSET %e,%b"	, ' ', 4	, 4)
-DEC(0, 1d,	And	, _e_i8n	, "BCLR %e,%b"	, ' ', 4	, 4)
+DEC(0, 1c,	bset	, _e		, "BSET %e,%b"	, ' ', 4	, 4)
+DEC(0, 1d,	bclr	, _e	, "BCLR %e,%b"	, ' ', 4	, 4)
 DEC(0, 1e,	brset_e	, _NONE		, "BRSET %e,%b,%r", ' ', 5	, 5)
 DEC(0, 1f,	brclr_e	, _NONE		, "BRCLR %e,%b,%r", ' ', 5	, 5)
 
@@ -80,8 +80,8 @@ DEC(0, 48,	asl	, _cA	 	, "ASLA"	, ' ', 1	, 1)
 DEC(0, 49,	lsr16	, _cD		, "LSRD"	, ' ', 1	, 1)
 DEC(0, 4a,	call_e	, _NONE		, "CALL 'ep'"	, ' ', 4	, 7)
 DEC(0, 4b,	call_id	, _NONE		, "CALL 'ip'"	, ' ', -2	, 0xa98)
-DEC(0, 4c,	Or	, _d_i8		, "BSET %d,%b"	, ' ', 3	, 4)
-DEC(0, 4d,	And	, _d_i8n	, "BCLR %d,%b"	, ' ', 3	, 4)
+DEC(0, 4c,	bset	, _d		, "BSET %d,%b"	, ' ', 3	, 4)
+DEC(0, 4d,	bclr	, _d	, "BCLR %d,%b"	, ' ', 3	, 4)
 DEC(0, 4e,	brset_d	, _NONE		, "BRSET %d,%b,%r", ' ', 4	, 5)
 DEC(0, 4f,	brclr_d	, _NONE		, "BRCLR %d,%b,%r", ' ', 4	, 5)
 
diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index 744836a..3540d10 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -620,5 +620,20 @@ CL12::rev(void)
   return resGO;
 }
 
+int
+CL12::bset(class cl_memory_cell &dest)
+{
+  // mask follows the address in the code
+  u8_t m= fetch();
+  return Or(dest, m);
+}
+
+int
+CL12::bclr(class cl_memory_cell &dest)
+{
+  u8_t m= fetch();
+  return And(dest, ~m);
+}
+
 
 /* End of m68hc12.src/ialu.cc */
diff --git a/src/sims/m68hc12.src/m68hc12cl.h b/src/sims/m68hc12.src/m68hc12cl.h
index 9cc3c64..f91a7c4 100644
--- a/src/sims/m68hc12.src/m68hc12cl.h
+++ b/src/sims/m68hc12.src/m68hc12cl.h
@@ -157,6 +157,8 @@ public:
   virtual int etbl(void);
   virtual int mem(void);
   virtual int rev(void);
+  virtual int bset(class cl_memory_cell &dest);
+  virtual int bclr(class cl_memory_cell &dest);
   
   // MOVE
 #define ld16 ldsx
diff --git a/src/sims/m68hc12.src/wdefs.h b/src/sims/m68hc12.src/wdefs.h
index dd968ed..bc95e19 100644
--- a/src/sims/m68hc12.src/wdefs.h
+++ b/src/sims/m68hc12.src/wdefs.h
@@ -8,8 +8,8 @@ int wrap_0_08(class CL12 *uc, t_mem code) { return uc-> inxy ( _cX ); }
 int wrap_0_09(class CL12 *uc, t_mem code) { return uc-> dexy ( _cX ); }
 int wrap_0_0a(class CL12 *uc, t_mem code) { return uc-> rtc ( _NONE ); }
 int wrap_0_0b(class CL12 *uc, t_mem code) { return uc-> rti ( _NONE ); }
-int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> Or ( _xb_i8 ); }
-int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> And ( _xb_i8n ); }
+int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> bset ( _xb ); }
+int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> bclr ( _xb ); }
 int wrap_0_0e(class CL12 *uc, t_mem code) { return uc-> brset_id ( _NONE ); }
 int wrap_0_0f(class CL12 *uc, t_mem code) { return uc-> brclr_id ( _NONE ); }
 int wrap_0_10(class CL12 *uc, t_mem code) { return uc-> andcc ( _i8 ); }
@@ -23,8 +23,8 @@ int wrap_0_17(class CL12 *uc, t_mem code) { return uc-> jsr ( _da ); }
 int wrap_0_19(class CL12 *uc, t_mem code) { return uc-> lea ( _cY ); }
 int wrap_0_1a(class CL12 *uc, t_mem code) { return uc-> lea ( _cX ); }
 int wrap_0_1b(class CL12 *uc, t_mem code) { return uc-> lea ( _cS ); }
-int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> Or ( _e_i8 ); }
-int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> And ( _e_i8n ); }
+int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> bset ( _e ); }
+int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> bclr ( _e ); }
 int wrap_0_1e(class CL12 *uc, t_mem code) { return uc-> brset_e ( _NONE ); }
 int wrap_0_1f(class CL12 *uc, t_mem code) { return uc-> brclr_e ( _NONE ); }
 int wrap_0_20(class CL12 *uc, t_mem code) { return uc-> BRA ( 0x20 ); }
@@ -69,8 +69,8 @@ int wrap_0_48(class CL12 *uc, t_mem code) { return uc-> asl ( _cA ); }
 int wrap_0_49(class CL12 *uc, t_mem code) { return uc-> lsr16 ( _cD ); }
 int wrap_0_4a(class CL12 *uc, t_mem code) { return uc-> call_e ( _NONE ); }
 int wrap_0_4b(class CL12 *uc, t_mem code) { return uc-> call_id ( _NONE ); }
-int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> Or ( _d_i8 ); }
-int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> And ( _d_i8n ); }
+int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> bset ( _d ); }
+int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> bclr ( _d ); }
 int wrap_0_4e(class CL12 *uc, t_mem code) { return uc-> brset_d ( _NONE ); }
 int wrap_0_4f(class CL12 *uc, t_mem code) { return uc-> brclr_d ( _NONE ); }
 int wrap_0_50(class CL12 *uc, t_mem code) { return uc-> neg ( _cB ); }
-- 
2.43.0


From 58c1b19a70911b8f52bfcc9ee61b29af440326ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:27 +0000
Subject: [PATCH 186/190] fix: m68hc12: EMUL sets N from the result

---
 src/sims/m68hc12.src/ialu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index 3540d10..90cee24 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -166,7 +166,7 @@ int
 CL12::emul(void)
 {
   u8_t f= rF&~(flagC|flagZ|flagN);
-  u32_t res= rD*rY;
+  u32_t res= (u32_t)rD*rY;
   if (res & 0x8000)
     f|= flagC;
   if (res & 0x80000000)
-- 
2.43.0


From 7515f0959ab560f388650790bcfcc5be529e4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:22 +0000
Subject: [PATCH 187/190] fix: oisc: registers of URISC are mapped from the
 start, PC too

---
 src/sims/oisc.src/urisc.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 315e1a2..2d4e5b2 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -78,6 +78,16 @@ cl_urisc::init_alu(void)
 {
   id_str= "Ultimate_RISC";
   reg_cell_var(&cF, &rF, "F", "Flags");
+  class cl_memory_cell *c;
+  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xffff); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
@@ -90,15 +100,6 @@ cl_urisc::print_regs(class cl_console_base *con)
   con->dd_printf(" 0x%02x", rF);
   con->dd_printf("\n");
   print_disass(PC, con);
-  class cl_memory_cell *c;
-  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 
-- 
2.43.0


From 83632a837c7b0d574eeea965fd289ac2be3453e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:22 +0000
Subject: [PATCH 188/190] fix: oisc: overflow flag of URISC

---
 src/sims/oisc.src/urisc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 2d4e5b2..755e789 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -61,7 +61,7 @@ cl_urisc::add(u16_t a, u16_t b, u16_t c)
   u32_t sf, ss;
   c= c?1:0;
   sf= a+b+c;
-  ss= (a&0x7fff)+(b+0x7fff)+c;
+  ss= (a&0x7fff)+(b&0x7fff)+c;
   u8_t c1, c2;
   c1= (sf>0xffff)?1:0;
   c2= (ss>0x7fff)?1:0;
-- 
2.43.0


From 0735e59df72051d8ef0fd47cb145ebd0e5f2963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:22 +0000
Subject: [PATCH 189/190] fix: oisc: displaying registers and instructions does
 not change the state

---
 src/sims/oisc.src/em.cc     | 2 +-
 src/sims/oisc.src/misc16.cc | 6 +++---
 src/sims/oisc.src/oisc.cc   | 2 +-
 src/sims/oisc.src/urisc.cc  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 24d3486..8b64d29 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -60,7 +60,7 @@ cl_em::cl_em(class cl_sim *asim):
 void
 cl_em::print_regs(class cl_console_base *con)
 {
-  u16_t v= rom->read(rP);
+  u16_t v= rom->get(rP);
   print_acc(con);
   con->dd_printf("P= %04x %5u %+5d ", rP, rP, rP);
   con->dd_printf(" [P]= %04x %5u %+5d\n", v, v, v);
diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 6a1f9b4..576df95 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -195,19 +195,19 @@ cl_misc16::dis_comment(t_addr src, t_addr dst)
 	sa= rA;
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[0x%04x]=0x%04x", sa, rom->read(sa));
+      s.appendf("[0x%04x]=0x%04x", sa, rom->get(sa));
     }
   else if (src==7)
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", rA, rom->read(rA));
+      s.appendf("[src=0x%04x]=0x%04x", rA, rom->get(rA));
     }
   else
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", src, rom->read(src));
+      s.appendf("[src=0x%04x]=0x%04x", src, rom->get(src));
     }
   return s;
 }
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 17ea62b..ae8beb3 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -263,7 +263,7 @@ cl_oisc::exec_inst(void)
 void
 cl_oisc::print_acc(class cl_console_base *con)
 {
-  u16_t v= rom->read(rA);
+  u16_t v= rom->get(rA);
   con->dd_color("answer");
   con->dd_printf("A= %04x %5u %+5d ", rA, rA, (i16_t)rA);
   con->dd_printf(" [A]= %04x %5u %+5d ", v, v, (i16_t)v);
diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 755e789..7f9699f 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -146,7 +146,7 @@ cl_urisc::dis_comment(t_addr src, t_addr dst)
   if ((dst >= 0xfff0) && (dst <= 0xfff7) &&
       ((src < 0xfff0) || (src > 0xfff7)) &&
       (src != 0xffff))
-    s.appendf("; 0x%04x", rom->read(src));
+    s.appendf("; 0x%04x", rom->get(src));
   return s;
 }
 
-- 
2.43.0


From a4129c6068bd88c38ae793b852e0bf8cebb9cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:13 +0000
Subject: [PATCH 190/190] fix: oisc: disassembling must not read (and step) the
 pointer registers

---
 src/sims/oisc.src/oisc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index ae8beb3..1298bf4 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -140,8 +140,8 @@ cl_oisc::disassc(t_addr addr, chars *comment)
   u16_t src, dst;
   u16_t a;
 
-  src= rom->read(addr);
-  dst= rom->read(addr+1);
+  src= rom->get(addr);
+  dst= rom->get(addr+1);
   
   b= "mov %d,%s";
 
-- 
2.43.0

