From f9fa2dc9e2295ba908d7412380b8516a95240d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 01/45] fix: sml_uname: build the result block only after its
 strings exist

---
 src/runtime/unix.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/runtime/unix.c b/src/runtime/unix.c
index 81fae08..d239536 100644
--- a/src/runtime/unix.c
+++ b/src/runtime/unix.c
@@ -42,16 +42,17 @@ value sml_uname(value v)          /* ML */
 #else
   struct utsname buf;
   value res;
-  Push_roots(r, 1);
+  Push_roots(r, 3);
 
   if (uname(&buf) == -1) 
       failwith("uname");  
-  res = alloc (3, 0);
-  r[0] = res;
-  Field (r[0], 0) = copy_string (buf.machine);
-  Field (r[0], 1) = copy_string (buf.sysname);
-  Field (r[0], 2) = copy_string (buf.release);
-  res = r[0];
+  r[0] = copy_string (buf.machine);
+  r[1] = copy_string (buf.sysname);
+  r[2] = copy_string (buf.release);
+  res = alloc_tuple (3);
+  Field (res, 0) = r[0];
+  Field (res, 1) = r[1];
+  Field (res, 2) = r[2];
   Pop_roots();
   return res;
 #endif
-- 
2.43.0


From 7d35aea71cff85681d894506e3e1966c49e51f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 02/45] fix: msocket newsinaddrport: no block address taken
 before an allocation

---
 src/dynlibs/msocket/msocket.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index b515aa0..c0c0ea4 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -168,14 +168,10 @@ static value newaddr(int len, int namespace, value addrdata) {
 value newsinaddrport(s_addr_t sa, value port) {
   value res;
   Push_roots(r,1);  
-  r[0] = alloc_tuple(2); 
-    
-  Field(r[0], 0) = 0; /* to please the gc */
-  Field(r[0], 1) = 0;
-  
-  modify(&Mlsaddr_sapval(r[0]), newinaddr(sa));
-  modify(&Port_sapval(r[0]), port);
-  res = r[0];
+  r[0] = newinaddr(sa);
+  res = alloc_tuple(2); 
+  Mlsaddr_sapval(res) = r[0];
+  Port_sapval(res) = port;
   Pop_roots();
   return res;
 }
-- 
2.43.0


From 6147a65160337c5481cbf321f85adb1d421c7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 03/45] fix: mregex: do not read the substring argument after
 allocating

---
 src/dynlibs/mregex/mregex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index d5484cb..77e8cee 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -165,6 +165,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
     nmatch = i;
     /* Create the ML return value: SOME(vector of nmatch substrings) */
     {
+      long start = start_susval(susval);	/* susval may move below */
       Push_roots(r, 2);
       r[0] = base_susval(susval); 
       /* Allocate and initialize vector in ML heap */
@@ -180,7 +181,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
 	if (pmatch[i].rm_so != -1) { /* Substring took part in the match */
 	  /* Component 1: the substring start byte offset  */
 	  modify(&Field(substr, 1), 
-		 Val_long(start_susval(susval) + pmatch[i].rm_so));
+		 Val_long(start + pmatch[i].rm_so));
 	  /* Component 2: the substring length in bytes    */
 	  modify(&Field(substr, 2), 
 		 Val_long(pmatch[i].rm_eo - pmatch[i].rm_so));
-- 
2.43.0


From 38ea1facbbb6743b1b339118594a5da13a2e5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 04/45] fix: mkexnname: initialize, not modify, the field of a
 fresh block

---
 src/runtime/sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index 363ecc6..f3311a3 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -203,7 +203,7 @@ value mkexnname(char* name) {
   Push_roots(r, 1);
   r[0] = copy_string(name);
   ref = alloc_shr(1, Reference_tag);
-  modify(&Field(ref, 0), r[0]);
+  initialize(&Field(ref, 0), r[0]);
   Pop_roots();
   return ref;
 }
-- 
2.43.0


From f4d12b2e5984bea33a1a83b7f051b0256a84b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 05/45] fix: report too many free variables or primitive
 arguments instead of truncating the byte operand

---
 src/compiler/Emitcode.sml | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/Emitcode.sml b/src/compiler/Emitcode.sml
index 9251b80..3f44598 100644
--- a/src/compiler/Emitcode.sml
+++ b/src/compiler/Emitcode.sml
@@ -35,6 +35,9 @@ fun checkLocals n =
 fun checkFields n =
     if n > 0xFFFF then tooManyError "fields" else ()
 
+fun checkFreeVars n =
+    if n > maxint_byte then tooManyError "free variables" else ()
+
 fun out_bool_test tst =
   fn PTeq    => out tst
    | PTnoteq => out (tst + 1)
@@ -154,8 +157,10 @@ fun emit_zam zam =
     | Klabel lbl =>
         if lbl = Nolabel then fatalError "emit_zam: undefined label"
         else (define_label lbl)
-    | Kclosure (lbl,sz) => (out CLOSURE; out sz; out_label lbl)
-    | Kclosurerec (lbl,sz) => (out CLOSREC; out (sz - 1); out_label lbl)
+    | Kclosure (lbl,sz) =>
+	(checkFreeVars sz; out CLOSURE; out sz; out_label lbl)
+    | Kclosurerec (lbl,sz) =>
+	(checkFreeVars (sz - 1); out CLOSREC; out (sz - 1); out_label lbl)
     | Kpushtrap lbl => (out PUSHTRAP; out_label lbl)
     | Kpush_retaddr lbl => (out PUSH_RETADDR; out_label lbl)
     | Kbranch lbl => (out BRANCH; out_label lbl)
@@ -230,7 +235,7 @@ fun emit_zam zam =
               (if arity <= 5 then
                  out (C_CALL1 + arity - 1)
                else
-                 (out C_CALLN; out arity);
+                 (checkArguments arity; out C_CALLN; out arity);
                slot_for_c_prim name)
           | Pfloatprim p =>
               out(opcode_for_float_primitive p)
-- 
2.43.0


From 2464763d97001e221855d3084706bbe8390a1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 06/45] fix: byte-swap four-byte bytecode operands as four
 bytes on 64-bit big-endian machines

---
 src/runtime/fix_code.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/fix_code.c b/src/runtime/fix_code.c
index 721949d..b9c75e0 100644
--- a/src/runtime/fix_code.c
+++ b/src/runtime/fix_code.c
@@ -54,27 +54,27 @@ void fixup_endianness(p, len)
     case PUSH_GETGLOBAL: 
     case PUSH_GETGLOBAL_APPLY1: case PUSH_GETGLOBAL_APPLY2:
     case PUSH_GETGLOBAL_APPLY3: case PUSH_GETGLOBAL_APPLY4:
-      Reverse_word(p);
+      Reverse_int32(p);
       p += 4;
       break;
       /* Instructions with one two-byte and one four-byte immediate argument */
     case PUSH_GETGLOBAL_APPTERM1: case PUSH_GETGLOBAL_APPTERM2: 
     case PUSH_GETGLOBAL_APPTERM3: case PUSH_GETGLOBAL_APPTERM4: 
       Reverse_short(p);
-      Reverse_word(p+2);
+      Reverse_int32(p+2);
       p += 6;
       break;
       /* Instructions with two four-byte immediate arguments */
     case BRANCHINTERVAL: 
-      Reverse_word(p);
-      Reverse_word(p+4);
+      Reverse_int32(p);
+      Reverse_int32(p+4);
       p += 8;
       break;
       /* Special case for switch */
     case SWITCH:
       n = *p++;
       while (n > 0) {
-        Reverse_word(p);
+        Reverse_int32(p);
         p += 4;
         n--;
       }
-- 
2.43.0


From 4eaf7b8ea468f85dd180f817e47df8a0254b323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 07/45] fix: byte-swap the loaded code itself, not the start of
 the buffer, on big-endian machines

---
 src/runtime/meta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/meta.c b/src/runtime/meta.c
index 57b0805..40d6ac4 100644
--- a/src/runtime/meta.c
+++ b/src/runtime/meta.c
@@ -23,7 +23,7 @@ value start_interp(value may_free, value prog, value offset, value vlen) /* ML *
   value res;
 
 #if defined(MOSML_BIG_ENDIAN) && !defined(ALIGNMENT)
-  fixup_endianness(&Byte(prog, 0), (asize_t) len);
+  fixup_endianness(bprog, (asize_t) len);
 #endif
 
 #if defined(DIRECT_JUMP) && defined(THREADED)
-- 
2.43.0


From 63fccdb4a0af321bcccb67bf731910f1c66c6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:20 +0000
Subject: [PATCH 08/45] fix: do not invert ordering tests on reals, which are
 false on NaN both ways

---
 src/compiler/Back.sml | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Back.sml b/src/compiler/Back.sml
index e5d86df..6be73e1 100644
--- a/src/compiler/Back.sml
+++ b/src/compiler/Back.sml
@@ -246,6 +246,17 @@ val invertBoolTest = fn
   | Pnoteqtag_test t => fatalError "invertBoolTest"
 ;
 
+(* Whether the negation of a test is again a test.  Not so for the
+   ordering tests on reals: they are all false if an argument is a NaN. *)
+
+val isInvertible = fn
+    Pfloat_test PTlt => false
+  | Pfloat_test PTle => false
+  | Pfloat_test PTgt => false
+  | Pfloat_test PTge => false
+  | _                => true
+;
+
 (* Production of an immediate test *)
 
 val testForAtom = fn
@@ -567,7 +578,10 @@ fun compileExp env staticfail =
                Kbranchif lbl :: C' =>
                  compExpListLR sz dp explist (Ktest(tst,lbl) :: C')
              | Kbranchifnot lbl :: C' =>
-                 compExpListLR sz dp  explist (Ktest(invertBoolTest tst,lbl) :: C')
+                 if isInvertible tst then
+                   compExpListLR sz dp  explist (Ktest(invertBoolTest tst,lbl) :: C')
+                 else
+                   compExpListLR sz dp  explist (Kprim p :: C)
              | _ =>
                  compExpListLR sz dp  explist (Kprim p :: C))
       | Lprim(Praise, explist) =>
-- 
2.43.0


From bf314631dcaf4ec4bf4352a7887e44f5857ba8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 09/45] fix: report too many fields instead of truncating the
 block size in MAKEBLOCK

---
 src/compiler/Emitcode.sml | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Emitcode.sml b/src/compiler/Emitcode.sml
index 3f44598..92ff607 100644
--- a/src/compiler/Emitcode.sml
+++ b/src/compiler/Emitcode.sml
@@ -35,6 +35,10 @@ fun checkLocals n =
 fun checkFields n =
     if n > 0xFFFF then tooManyError "fields" else ()
 
+(* The size of a block has 22 bits in the operand of MAKEBLOCK *)
+fun checkBlockSize n =
+    if n > 0x3FFFFF then tooManyError "fields" else ()
+
 fun checkFreeVars n =
     if n > maxint_byte then tooManyError "free variables" else ()
 
@@ -152,7 +156,8 @@ fun emit_zam zam =
            (out (MAKEBLOCK1 + n - 1);
             out_tag tag)
          else
-          (out MAKEBLOCK;
+          (checkBlockSize n;
+           out MAKEBLOCK;
            out_header(n, tag)))
     | Klabel lbl =>
         if lbl = Nolabel then fatalError "emit_zam: undefined label"
-- 
2.43.0


From 75e9f0326d634df55f16a7ca27ad229cfab50554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:01 +0000
Subject: [PATCH 10/45] fix: do not leave shared code rewritten for a variable
 when the reference stays a reference

---
 src/compiler/Back.sml | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Back.sml b/src/compiler/Back.sml
index 6be73e1..491ae7c 100644
--- a/src/compiler/Back.sml
+++ b/src/compiler/Back.sml
@@ -291,6 +291,10 @@ fun UNdeBruijn exp =
     val fv = ref []
     val md = ref 0
 
+    (* Shared expressions already rewritten by unref.  They are updated only
+       when unref has succeeded for the entire scope of the reference. *)
+    val rewritten = ref [] : (Lambda ref * Lambda) list ref
+
     fun ins x [] = [x]
       | ins x (ls as (y::r)) =
           if x > y then x :: ls
@@ -354,7 +358,7 @@ fun UNdeBruijn exp =
       | Lshared(exp_ref, lbl_ref) =>
           if !lbl_ref <> !labelNotCtr
           then ( lbl_ref := !labelNotCtr; 
-                 exp_ref := unref i (!exp_ref);
+                 rewritten := (exp_ref, unref i (!exp_ref)) :: !rewritten;
                  exp )
           else exp
 
@@ -383,8 +387,10 @@ fun UNdeBruijn exp =
                            ::rest) acc =
                    (let val lnot = newLabelNot()
                         (* val () = BasicIO.print ("Optref: " ^ (makestring lnot)) *)
+                        val () = rewritten := []
                         val acc' = List.map (unref i) acc
                         val body'' = unref i body'
+                        val () = List.app (fn (r, e) => r := e) (!rewritten)
                     in (* BasicIO.print " $\n"; *)
                        opt_refs body'' (i - 1) rest (e::acc')
                     end
-- 
2.43.0


From 7a8373c61f0d016e575942968f28fe9dd2f5b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:22 +0000
Subject: [PATCH 11/45] fix: mgd_unsettransparentcolor takes one argument, as
 Gdimage.sml calls it

---
 src/dynlibs/mgd/mgd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynlibs/mgd/mgd.c b/src/dynlibs/mgd/mgd.c
index 859bf3d..a80812d 100644
--- a/src/dynlibs/mgd/mgd.c
+++ b/src/dynlibs/mgd/mgd.c
@@ -171,7 +171,7 @@ EXTERNML value mgd_gettransparentcolor(value im)
 
 /* SML type: image -> unit */
 
-EXTERNML value mgd_unsettransparentcolor(value im, value color)
+EXTERNML value mgd_unsettransparentcolor(value im)
 {
   gdImageColorTransparent(Image_val(im), -1);
   return Val_unit;
-- 
2.43.0


From 05406fa81bc31fe8bc174b772da06c057fa0757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:22 +0000
Subject: [PATCH 12/45] fix: msocket_select receives its timeout as ML values,
 not truncated to int

---
 src/dynlibs/msocket/msocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index c0c0ea4..8464757 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -689,7 +689,7 @@ static value fdset_to_list(value sockv, fd_set *fds) {
 /* Warning: allocates in the heap, may cause a GC */
 /* ML return type: sock list * sock list * sock list */
 EXTERNML value msocket_select(value rsocks, value wsocks, value esocks, 
-                     int tsec, int tusec) {
+                     value tsec, value tusec) {
   int ret;
   fd_set rfd, wfd, efd;
   struct timeval timeout, *top;
@@ -699,12 +699,12 @@ EXTERNML value msocket_select(value rsocks, value wsocks, value esocks,
   vec_to_fdset(wsocks, &wfd);
   vec_to_fdset(esocks, &efd);
 
-  if (Int_val(tsec) < 0) {
+  if (Long_val(tsec) < 0) {
     top = NULL;
   }
   else {    
-    timeout.tv_sec = Int_val(tsec);
-    timeout.tv_usec = Int_val(tusec);
+    timeout.tv_sec = Long_val(tsec);
+    timeout.tv_usec = Long_val(tusec);
     top = &timeout;
   }
   ret = select(FD_SETSIZE, &rfd, &wfd, &efd, top);
-- 
2.43.0


From 67876f3088bf092b3fe69252369aab9d40550515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 13/45] fix: an interrupt delivered during a blocking call left
 the runtime in the blocking state

---
 src/runtime/signals.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/signals.c b/src/runtime/signals.c
index 8c9cd1e..02fee61 100644
--- a/src/runtime/signals.c
+++ b/src/runtime/signals.c
@@ -20,10 +20,15 @@ void execute_signal(void)
 {
   if (in_blocking_section) {
     value clos;
+    /* The handler is ML code, so it does not run in a blocking section;
+       in particular it may leave by raising an exception. */
+    leave_blocking_section();
+    signal_is_pending = 0;
     clos = alloc(Closure_wosize, Closure_tag);
     Code_val(clos) = signal_handler;
     Env_val(clos) = Atom(0);
     callback(clos, Val_int(signal_number));
+    enter_blocking_section();
   } else {
     signal_is_pending = 1;
     something_to_do = 1;
-- 
2.43.0


From 37ad0ce5a2d95c875b159e0b43ed7deb8ab93093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 14/45] fix: check the result of localtime, gmtime and malloc
 in mosml.c

---
 src/runtime/mosml.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..47208e2 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1068,6 +1068,8 @@ value sml_localtime (value v) /* ML */
   struct tm *tmr;
   time_t clock = SMLtoSYStime((long) (Double_val(v)));
   tmr = localtime(&clock);
+  if (tmr == NULL)
+    failwith("localtime");
   res = alloc (9, 0);
   Field (res, 0) = Val_long ((*tmr).tm_hour);
   Field (res, 1) = Val_long ((*tmr).tm_isdst);
@@ -1088,6 +1090,8 @@ value sml_gmtime (value v) /* ML */
   struct tm *tmr;
   time_t clock = SMLtoSYStime((long) (Double_val(v)));
   tmr = gmtime(&clock);
+  if (tmr == NULL)
+    failwith("gmtime");
   res = alloc (9, 0);
   Field (res, 0) = Val_long ((*tmr).tm_hour);
   Field (res, 1) = Val_long ((*tmr).tm_isdst);
@@ -1515,6 +1519,8 @@ value sml_localoffset(value v)	/* ML */
 
   t1 = time((time_t*)0);
   gmt = gmtime (&t1);
+  if (gmt == NULL)
+    failwith("localoffset");
   t2 = tm2cal(gmt);
 
   /* SunOS appears to lack difftime: */
@@ -1540,7 +1546,7 @@ value sml_exnname(value exn)	/* ML */
 char* exnmessage_aux(value exn)
 {
 #define BUFSIZE 256
-  char* buf = (char*)malloc(BUFSIZE+1);
+  char* buf = stat_alloc(BUFSIZE+1);
   /* An exn val is a pair (strref, argval) : string ref * 'a */
   value strref = Field(exn, 0);
   value strval = Field(strref, 0);
-- 
2.43.0


From b89e5c02025c44ea689037c7108f59a8dc7a9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 15/45] fix: check the results of memory allocation in the
 runtime

---
 src/runtime/expand.c   | 5 +++--
 src/runtime/interp.c   | 2 +-
 src/runtime/main.c     | 3 ++-
 src/runtime/major_gc.c | 4 ++++
 src/runtime/md5sum.c   | 8 ++++----
 src/runtime/meta.c     | 2 +-
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/runtime/expand.c b/src/runtime/expand.c
index d8cf4d3..26e5471 100644
--- a/src/runtime/expand.c
+++ b/src/runtime/expand.c
@@ -6,6 +6,7 @@
 
 #include "fail.h"
 #include "instruct.h"
+#include "memory.h"
 #include "misc.h"
 #include "unalignd.h"
 #include "interp.h"
@@ -358,9 +359,9 @@ realcode_t expandcode(bytecode_t byteprog, int code_size, void * jumptable[])
 {
 #ifdef THREADED
   bytecode_t pc = byteprog;
-  int *realaddress = (int*)(malloc(code_size * sizeof(int)));
+  int *realaddress = (int*)(stat_alloc(code_size * sizeof(int)));
   int realsize = buildrealmap(byteprog, code_size, realaddress);
-  realcode_t realprog = (realcode_t)malloc(realsize * sizeof(void*));
+  realcode_t realprog = (realcode_t)stat_alloc(realsize * sizeof(void*));
   int codeptr = 0;
 
   while (pc - byteprog < code_size) {
diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..a753adf 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1171,7 +1171,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
 	int i;
         *--sp = accu;
         Setup_for_c_call;
-	args = (value*)malloc(n * sizeof(value));
+	args = (value*)stat_alloc(n * sizeof(value));
 	for (i = 0; i < n; i++) 
 	  args[i] = sp[n-i];
         accu = (cprim[u16pc])(args, n);
diff --git a/src/runtime/main.c b/src/runtime/main.c
index c8cd1bb..5f494a9 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -20,6 +20,7 @@
 #include "globals.h"
 #include "intext.h"
 #include "io.h"
+#include "memory.h"
 #include "misc.h"
 #include "mlvalues.h"
 #include "stacks.h"
@@ -257,7 +258,7 @@ int main(int argc, char * argv[])
     if (Field(exn_bucket, 0) == Field(global_data, SYS__EXN_MEMORY))
       fatal_error ("Fatal error: out of memory.\n");
     else {
-      char* buf = (char*)malloc(201);
+      char* buf = stat_alloc(201);
       char* exnmsg = exnmessage_aux(exn_bucket);
 #if defined(__CYGWIN__) || defined(hpux)
       sprintf(buf, "Uncaught exception:\n%s\n", exnmsg);
diff --git a/src/runtime/major_gc.c b/src/runtime/major_gc.c
index b189588..1cbc166 100644
--- a/src/runtime/major_gc.c
+++ b/src/runtime/major_gc.c
@@ -759,10 +759,14 @@ void init_major_heap (asize_t heap_size)
   gc_phase = Phase_mark;
   weak_arrays_size = 1;
   weak_arrays = (value *) malloc (weak_arrays_size * sizeof (value));
+  if (weak_arrays == NULL)
+    fatal_error ("Fatal error: not enough memory for the initial heap.\n");
   weak_arrays_cur = weak_arrays;
   weak_arrays_end = weak_arrays + weak_arrays_size;
   gray_vals_size = 2048;
   gray_vals = (value *) malloc (gray_vals_size * sizeof (value));
+  if (gray_vals == NULL)
+    fatal_error ("Fatal error: not enough memory for the initial heap.\n");
   gray_vals_cur = gray_vals;
   gray_vals_end = gray_vals + gray_vals_size;
   heap_is_pure = 1;
diff --git a/src/runtime/md5sum.c b/src/runtime/md5sum.c
index f0cbe32..2a33496 100644
--- a/src/runtime/md5sum.c
+++ b/src/runtime/md5sum.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include "mlvalues.h"
 #include "alloc.h"
+#include "memory.h"
 #include "str.h"
 #include "md5sum.h"
 
@@ -172,7 +173,7 @@ EXTERN value md5sum(value str)     /* ML */
 	s = nil;
 	len = string_length(str);
 	start = 0;
-	buf = calloc(256,64);
+	buf = (byte *)stat_alloc(256*64);
 	for(;;){
 	  if (len - start < 128*64)
 	    n = len - start;
@@ -205,9 +206,8 @@ md5(byte *p, my_uint len, byte *digest, MD5state *s)
 	my_uint x[16];
 
 	if(s == nil){
-		s = calloc(sizeof(*s),1);
-		if(s == nil)
-			return nil;
+		s = (MD5state *)stat_alloc(sizeof(*s));
+		s->len = 0;
 
 		/* seed the state, these constants would look nicer big-endian */
 		s->state[0] = 0x67452301;
diff --git a/src/runtime/meta.c b/src/runtime/meta.c
index 40d6ac4..64ef9f8 100644
--- a/src/runtime/meta.c
+++ b/src/runtime/meta.c
@@ -39,7 +39,7 @@ value start_interp(value may_free, value prog, value offset, value vlen) /* ML *
 #else
   {
     // Copy bytecode to memory outside the ML heap
-    bytecode_t actualprog = (bytecode_t)malloc(len);
+    bytecode_t actualprog = (bytecode_t)stat_alloc(len);
     bcopy(bprog, actualprog, len);
     res = interprete(/* mode=byte exec */ 1, actualprog, len, NULL);
     if (Bool_val(may_free)) 
-- 
2.43.0


From 25afda345da260d76b2b3c9d749b033af00301d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 16/45] fix: check the results of malloc and crypt in the
 dynamic libraries

---
 src/dynlibs/crypt/crypt.c     |  4 ++++
 src/dynlibs/interface/cside.c |  2 +-
 src/dynlibs/intinf/intinf.c   |  2 +-
 src/dynlibs/mregex/mregex.c   | 22 +++++++++++++++++-----
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/dynlibs/crypt/crypt.c b/src/dynlibs/crypt/crypt.c
index 0bdb01c..408bfc2 100644
--- a/src/dynlibs/crypt/crypt.c
+++ b/src/dynlibs/crypt/crypt.c
@@ -18,6 +18,7 @@
 
 #include <mlvalues.h>		/* For String_val  */
 #include <alloc.h>		/* For copy_string */
+#include <fail.h>		/* For failwith    */
 
 /* Type on the SML side: string -> string -> string */
 
@@ -30,6 +31,9 @@ EXTERNML value ml_crypt(value mlkey, value mlsalt)
   /* Invoke C library function: */
   char *res = (char*)crypt(key, salt);
 
+  if (res == NULL)
+    failwith("crypt");
+
   /* The result is a pointer to a null-terminated C string.    */
   /* Copy it to a fresh string in the ML heap and return that: */
   return copy_string(res);
diff --git a/src/dynlibs/interface/cside.c b/src/dynlibs/interface/cside.c
index cdc2415..b767769 100644
--- a/src/dynlibs/interface/cside.c
+++ b/src/dynlibs/interface/cside.c
@@ -68,7 +68,7 @@ EXTERNML value cfs(value v)
   oldp = String_val(v);		/* Null-terminated heap-allocated string */
   len = string_length(v);	/* Much faster than strlen */
   
-  q = newp = malloc(len+1);	/* malloc a C string */
+  q = newp = stat_alloc(len+1);	/* malloc a C string */
   strcpy(newp, oldp);		/* and copy the given ML string to it */
 
   while (*q)			/* Modify the C string */
diff --git a/src/dynlibs/intinf/intinf.c b/src/dynlibs/intinf/intinf.c
index 55807a3..923c885 100644
--- a/src/dynlibs/intinf/intinf.c
+++ b/src/dynlibs/intinf/intinf.c
@@ -316,7 +316,7 @@ value largeint_set_str(value dest, value str, value base)
 value largeint_get_str(value src, value base)		
 { 
   long len = 3 + mpz_sizeinbase(Large_val(src), Long_val(base));
-  char *buffer = (char*)(malloc(len));
+  char *buffer = stat_alloc(len);
   value res;
   mpz_get_str(buffer, Long_val(base), Large_val(src));  
   res = copy_string(buffer);
diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index 77e8cee..1e1ac2d 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -67,10 +67,17 @@ void regex_finalize(value regexval) {
 /* Finalized objects are abstract, so can store nmatch as C int */
 
 value regex_alloc(regex_t* preg, int nmatch) { 
-  value res = alloc_final(4, &regex_finalize, 1, 10000);
+  value res;
+  regmatch_t* pmatch = (regmatch_t*)(malloc(nmatch * sizeof(regmatch_t)));
+  if (pmatch == NULL) {
+    regfree(preg);
+    free(preg);
+    raise_out_of_memory();
+  }
+  res = alloc_final(4, &regex_finalize, 1, 10000);
   Field(res, 1) = (value)preg;
   Field(res, 2) = (value)nmatch;
-  Field(res, 3) = (value)(malloc(nmatch * sizeof(regmatch_t)));
+  Field(res, 3) = (value)pmatch;
   return res;
 }
 
@@ -79,7 +86,7 @@ value regex_alloc(regex_t* preg, int nmatch) {
 char* regerrorstring(int errcode, regex_t* preg) {
   /* Get the error message size: */
   int n = regerror(errcode, preg, NULL, 0);
-  char* errmsg = (char*)(malloc(n));
+  char* errmsg = stat_alloc(n);
   /* Get the error message itself: */
   regerror(errcode, preg, errmsg, n);
   return errmsg;
@@ -115,7 +122,7 @@ EXTERNML value mregex_getflags(value dummy) {
 /* ML type: string -> word -> regex */
 
 EXTERNML value mregex_regcomp(value patval, value cflagsval) {
-  regex_t* preg = (regex_t*)(malloc(sizeof(regex_t)));
+  regex_t* preg = (regex_t*)(stat_alloc(sizeof(regex_t)));
   char* pat = String_val(patval);
   int cflags = Long_val(cflagsval);
   int comperror = regcomp(preg, pat, cflags);
@@ -250,7 +257,12 @@ EXTERNML value mregex_regmatch_sus(value patval, value cflagsval,
     int nmatch = maxnmatch(patval);
     regmatch_t* pmatch = (regmatch_t*)(malloc(nmatch * sizeof(regmatch_t)));
     int eflags = Long_val(eflagsval);
-    value res = regmatch_sus(&patbuf, nmatch, pmatch, eflags, susval);
+    value res;
+    if (pmatch == NULL) {
+      regfree(&patbuf);
+      raise_out_of_memory();
+    }
+    res = regmatch_sus(&patbuf, nmatch, pmatch, eflags, susval);
     free(pmatch);
     regfree(&patbuf);
     return res;
-- 
2.43.0


From 4863b6624b54ec417de1b90f7bf006e03ad6994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 17/45] fix: close_out reports a failing close; check lseek
 when reading the bytecode trailer

---
 src/runtime/io.c   | 4 +++-
 src/runtime/main.c | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f14e531..fea38af 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -199,9 +199,11 @@ value close_out(struct channel * channel)     /* ML */
 {
   if ((unsigned)(channel->fd) >= 3) 
     {
+      int retcode;
       flush(channel);
-      close(channel->fd);
+      retcode = close(channel->fd);
       stat_free((char *) channel);
+      if (retcode == -1) sys_error(NULL);
     }
   return Atom(0);
 }
diff --git a/src/runtime/main.c b/src/runtime/main.c
index 5f494a9..4c1d072 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -64,7 +64,8 @@ static int read_trailer(int fd, struct exec_trailer * trail)
 {
   unsigned char buffer[TRAILER_SIZE];
 
-  lseek(fd, (long) -TRAILER_SIZE, 2);
+  if (lseek(fd, (long) -TRAILER_SIZE, 2) == -1)
+    return TRUNCATED_FILE;
   if (read(fd, (char*)buffer, TRAILER_SIZE) < TRAILER_SIZE) 
     return TRUNCATED_FILE;
   trail->code_size = read_size(buffer);
@@ -227,8 +228,9 @@ int main(int argc, char * argv[])
     init_stack();
     init_atoms();
 
-    lseek(fd, - (long) (TRAILER_SIZE + trail.code_size + trail.data_size
-                        + trail.symbol_size + trail.debug_size), 2);
+    if (lseek(fd, - (long) (TRAILER_SIZE + trail.code_size + trail.data_size
+                            + trail.symbol_size + trail.debug_size), 2) == -1)
+      fatal_error("Fatal error: truncated bytecode file.\n");
 
     code_size = trail.code_size;
 
-- 
2.43.0


From 5805248305a6b1a70dbd8f05e982c0a76534cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 18/45] fix: the product ~2^k * 2^k equal to the least int does
 not overflow

---
 src/runtime/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index a753adf..063af33 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1448,7 +1448,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if( x < 0 ) { x = -x; isNegative = 1; }
         if( y < 0 ) { y = -y; isNegative = !isNegative; }
         if( y > x ) { tmp = y; y = x; x = tmp; }
-        if( y > MaxChunk ) 
+        if( y > MaxChunk + 1 ) 
 	  goto raise_overflow;
         if( x <= MaxChunk )
           { accu = Val_long(isNegative?(-(x * y)):(x * y)); }
-- 
2.43.0


From e9ae11ec53687c7bee73a4051ad72fad11e0e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 19/45] fix: real-to-int conversions accept the least int,
 reject NaN and 2^62

---
 src/runtime/mosml.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 47208e2..d86806e 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -144,7 +144,7 @@ value sml_floor(value f)              /* ML */
     }
   else
     { 
-      if( r < ((double) Min_long) ) goto raise_floor;
+      if( !(r >= ((double) Min_long)) ) goto raise_floor;
       i = (long) r;
       if( r < ((double) i) ) i -= 1;
     }
@@ -168,7 +168,8 @@ value sml_ceil(value f)              /* ML */
       if( r > ((double) i) ) i += 1;
     }
   else
-    { if( r <= ((double) (Min_long-1)) ) goto raise_ceil;
+    { if( !(r >= ((double) Min_long) || r > ((double) (Min_long-1))) )
+        goto raise_ceil;
       i = (long) r;
     }
   v = Val_long(i);
@@ -207,9 +208,10 @@ value sml_round(value f)              /* ML */
   if( Long_val(v) != i )  goto raise_round; 
 #else
   r = rint(Double_val(f));
-  if ((r > (double) (Max_long)) || (r < (double)(Min_long))) goto raise_round;
+  if (!(r <= (double) (Max_long) && r >= (double)(Min_long))) goto raise_round;
   i = (long) r;
   v = Val_long(i);
+  if( Long_val(v) != i )  goto raise_round;
 #endif
 
   return v;
@@ -224,7 +226,8 @@ value sml_trunc(value f)              /* ML */
   long i;
   value v;
   r = Double_val(f);
-  if ((r >= (double) (Max_long+1)) || (r <= (double)(Min_long-1))) 
+  if (!(r < (double) (Max_long+1)
+        && (r >= (double) Min_long || r > (double) (Min_long-1))))
     goto raise_trunc;
   i = (long) r;
   v = Val_long(i);
-- 
2.43.0


From af89f0ad7ccd2740b3e29067bfb74301a801a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 20/45] fix: the value writers and the reader agree on integers
 that need more than 32 bits, and reject sizes that do not fit

---
 src/runtime/extern.c   | 13 +++++++++++++
 src/runtime/externcp.c | 26 +++++++++++++++++++++++++-
 src/runtime/intern.c   |  2 +-
 src/runtime/intext.h   |  1 +
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 4970291..9a4e5b1 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -141,6 +141,19 @@ value extern_val(chan, v)       /* ML */
   extern_table_used = 0;
   res = emit_all(v);
   stat_free((char *) extern_table);
+#ifdef SIXTYFOUR
+  if (extern_pos == 0 && (value) (int32) res != (value) res) {
+    stat_free((char *) extern_block);
+    extern_compact_int(chan, v);
+    return Val_unit;
+  }
+  if (extern_pos >= (1L << 32) / sizeof(unsigned long)) {
+    /* The size of the block does not fit in the 32 bits that putblock
+       (and the header) have for it. */
+    stat_free((char *) extern_block);
+    failwith("output_value: object too big");
+  }
+#endif
   putword(chan, Extern_magic_number);
   putword(chan, extern_pos);
   if (extern_pos == 0)
diff --git a/src/runtime/externcp.c b/src/runtime/externcp.c
index 7514d38..ae1c488 100644
--- a/src/runtime/externcp.c
+++ b/src/runtime/externcp.c
@@ -21,6 +21,12 @@ static byteoffset_t obj_counter;    /* Number of objects emitted so far */
 static unsigned long size_32;  /* Size in words of 32-bit block for struct. */
 static unsigned long size_64;  /* Size in words of 64-bit block for struct. */
 
+static void object_too_big(void)
+{
+  stat_free((char *) extern_table);
+  failwith("output_compact_value: object too big");
+}
+
 static void emit_compact(struct channel * chan, value v)
 {
  tailcall:
@@ -82,6 +88,9 @@ static void emit_compact(struct channel * chan, value v)
         } else if (len < 0x100) {
           output_number(chan, CODE_STRING8, len, 8);
         } else {
+#ifdef SIXTYFOUR
+          if (len >= (1UL << 32)) object_too_big();
+#endif
           output_number(chan, CODE_STRING32, len, 32);
         }
         putblock(chan, String_val(v), len);
@@ -115,6 +124,9 @@ static void emit_compact(struct channel * chan, value v)
         if (tag < 16 && sz < 8) {
           putch(chan, PREFIX_SMALL_BLOCK + tag + (sz << 4));
         } else {
+#ifdef SIXTYFOUR
+          if (hd >= (1UL << 32)) object_too_big();
+#endif
           output_number(chan, CODE_BLOCK32, hd, 32);
         }
         size_32 += 1 + sz;
@@ -128,6 +140,18 @@ static void emit_compact(struct channel * chan, value v)
   }
 }
 
+/* An integer that the plain format, which writes it in one 32-bit word,
+   cannot represent. */
+
+void extern_compact_int(struct channel * chan, value v)
+{
+  putword(chan, Compact_magic_number);
+  putword(chan, 0);
+  putword(chan, 0);
+  putword(chan, 0);
+  emit_compact(chan, v);
+}
+
 value extern_compact_val(struct channel * chan, value v) /* ML */
 {
   value start_loc, final_loc;
@@ -147,7 +171,7 @@ value extern_compact_val(struct channel * chan, value v) /* ML */
     /* The object is so big its size cannot be written in the header.
        Besides, some of the block sizes or string lengths or shared offsets
        it contains may have overflowed the 32 bits used to write them. */
-    failwith("output_compact_value: object too big");
+    object_too_big();
   }
 #endif
   final_loc = pos_out(chan);
diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index af7f408..50f2a13 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -444,7 +444,7 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
 
   whsize = getword(chan);
   if (whsize == 0) {
-    res = (value) getword(chan);
+    res = (value) (int32) getword(chan);
     if (Is_long(res))
       return res;
     else
diff --git a/src/runtime/intext.h b/src/runtime/intext.h
index 9fb24e8..7b9058f 100644
--- a/src/runtime/intext.h
+++ b/src/runtime/intext.h
@@ -86,6 +86,7 @@ void resize_extern_table (void);
 
 value extern_val (struct channel *, value);
 value extern_compact_val (struct channel *, value);
+void extern_compact_int (struct channel *, value);
 value intern_val (struct channel *);
 value intern_compact_val (struct channel *);
 
-- 
2.43.0


From 2f646ff94df76718a464aa92ef19ec77854b519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 21/45] fix: a value file that ends early raises an exception
 and leaves the heap intact

---
 src/runtime/intern.c   | 16 ++++++++++------
 src/runtime/interncp.c | 35 ++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index 50f2a13..3992e5a 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -481,10 +481,12 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* The block keeps its header until everything has been read, so that
+       the heap is well-formed if a read raises. */
+    if (really_getblock(chan, (char *) &hd, sizeof(hd)) == 0 ||
+        really_getblock(chan, (char *) res, bhsize - sizeof(hd)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_64_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
@@ -536,10 +538,12 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* The block keeps its header until everything has been read, so that
+       the heap is well-formed if a read raises. */
+    if (really_getblock(chan, (char *) &hd, sizeof(hd)) == 0 ||
+        really_getblock(chan, (char *) res, bhsize - sizeof(hd)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_32_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
diff --git a/src/runtime/interncp.c b/src/runtime/interncp.c
index 2a0904b..f23559a 100644
--- a/src/runtime/interncp.c
+++ b/src/runtime/interncp.c
@@ -15,6 +15,7 @@ static value * intern_obj_table;
 static unsigned int intern_color;
 static header_t intern_header;
 static value intern_block;
+static header_t intern_first_header;
 
 static long input_bytes(struct channel * chan, int nbytes, int sign_extend)
 {
@@ -28,6 +29,17 @@ static long input_bytes(struct channel * chan, int nbytes, int sign_extend)
   return res;
 }
 
+/* The block that is being filled keeps its own header until the whole value
+   has been read, so that the heap is well-formed if a read raises. */
+
+static void store_header(header_t hd)
+{
+  if (intern_ptr == (header_t *) Hp_val(intern_block))
+    intern_first_header = hd;
+  else
+    *intern_ptr = hd;
+}
+
 static void read_compact(struct channel * chan, value * dest)
 {
   unsigned int code;
@@ -52,7 +64,7 @@ static void read_compact(struct channel * chan, value * dest)
         *dest = v;
         intern_obj_table[obj_counter++] = v;
         dest = (value *) (intern_ptr + 1);
-        *intern_ptr = Make_header(size, tag, intern_color);
+        store_header(Make_header(size, tag, intern_color));
         intern_ptr += 1 + size;
         for(/*nothing*/; size > 1; size--, dest++)
           read_compact(chan, dest);
@@ -70,12 +82,13 @@ static void read_compact(struct channel * chan, value * dest)
       size = (len + sizeof(value)) / sizeof(value);
       v = Val_hp(intern_ptr);
       intern_obj_table[obj_counter++] = v;
-      *intern_ptr = Make_header(size, String_tag, intern_color);
+      store_header(Make_header(size, String_tag, intern_color));
       intern_ptr += 1 + size;
       Field(v, size - 1) = 0;
       ofs_ind = Bsize_wsize(size) - 1;
       Byte(v, ofs_ind) = ofs_ind - len;
-      really_getblock(chan, String_val(v), len);
+      if (really_getblock(chan, String_val(v), len) == 0)
+        failwith("intern : truncated object");
     } else {
       switch(code) {
       case CODE_INT8:
@@ -92,8 +105,6 @@ static void read_compact(struct channel * chan, value * dest)
         v = Val_long(input_bytes(chan, 8, 1));
         break;
 #else
-        stat_free((char *) intern_obj_table);
-        Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
         failwith("input_value: integer too large");
         break;
 #endif
@@ -122,15 +133,14 @@ static void read_compact(struct channel * chan, value * dest)
         goto read_string;
       case CODE_DOUBLE:
         if (sizeof(double) != 8) {
-          stat_free((char *) intern_obj_table);
-          Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
           invalid_argument("input_value: non-standard floats");
         }
         v = Val_hp(intern_ptr);
         intern_obj_table[obj_counter++] = v;
-        *intern_ptr = Make_header(Double_wosize, Double_tag, intern_color);
+        store_header(Make_header(Double_wosize, Double_tag, intern_color));
         intern_ptr += 1 + Double_wosize;
-        really_getblock(chan, (char *) v, 8);
+        if (really_getblock(chan, (char *) v, 8) == 0)
+          failwith("intern : truncated object");
 #ifndef MOSML_BIG_ENDIAN
         Reverse_double(v);
 #endif
@@ -164,10 +174,17 @@ value intern_compact_val(struct channel * chan)
     intern_color = Color_hd(intern_header);
     Assert (intern_color == White || intern_color == Black);
     intern_ptr = (header_t *) Hp_val(intern_block);
+    intern_first_header = intern_header;
     obj_counter = 0;
+    if (intern_obj_table != NULL) {     /* left by a read that raised */
+      stat_free((char *) intern_obj_table);
+      intern_obj_table = NULL;
+    }
     intern_obj_table = (value *) stat_alloc(num_objects * sizeof(value));
     read_compact(chan, &res);
+    Hd_val(intern_block) = intern_first_header;
     stat_free((char *) intern_obj_table);
+    intern_obj_table = NULL;
   }
   return res;
 }
-- 
2.43.0


From 9db685196cc8f19c158e704de83c80c759c46185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 22/45] fix: reading a file of a 32-bit system with a block of
 2^21 words or more

---
 src/runtime/intern.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index 3992e5a..8aeb7f8 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -100,7 +100,7 @@ void rev_pointers_32(value32 * p, mlsize_t size)
   q = p + size;
   while (p < q) {
     Reverse_int32(p);
-    hd = (header_t) *p++;
+    hd = (header_t) (uint32) *p++;
     n = Wosize_hd(hd);
     switch(Tag_hd(hd)) {
     case String_tag:
@@ -130,7 +130,7 @@ static mlsize_t size_after_expansion(value32 * p, mlsize_t len)
   mlsize_t n;
 
   for (q = p + len, res = 0; p < q; /*nothing*/) {
-    hd = (header_t) *p++;
+    hd = (header_t) (uint32) *p++;
     res++;
     n = Wosize_hd(hd);
     switch(Tag_hd(hd)) {
@@ -167,7 +167,7 @@ static void expand_block(value32 * source, value * dest, mlsize_t source_len, ml
      The pointers contained inside blocks are not resolved. */
 
   for (p = source, q = source + source_len, d = dest; p < q; /*nothing*/) {
-    hd = (header_t) *p++;
+    hd = (header_t) (uint32) *p++;
     sz = Wosize_hd(hd);
     tag = Tag_hd(hd);
     forward_addr = (uint32 *) p;
-- 
2.43.0


From 5e15c9828d0ec90282d466abd08b396d0e555f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 23/45] fix: output_value refuses weak arrays instead of
 following their empty cells

---
 src/runtime/extern.c   | 1 +
 src/runtime/externcp.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 9a4e5b1..c85b715 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -106,6 +106,7 @@ byteoffset_t emit_all(value root)
     case Double_tag:
       read_pos += sz;
       break;
+    case Weak_tag:
     case Abstract_tag:
     case Final_tag:
       invalid_argument("output_value: abstract value");
diff --git a/src/runtime/externcp.c b/src/runtime/externcp.c
index ae1c488..eae50f0 100644
--- a/src/runtime/externcp.c
+++ b/src/runtime/externcp.c
@@ -112,6 +112,7 @@ static void emit_compact(struct channel * chan, value v)
         size_64 += 1 + sizeof(double) / 8;
         break;
       }
+      case Weak_tag:
       case Abstract_tag:
       case Final_tag:
         invalid_argument("output_compact_value: abstract value");
-- 
2.43.0


From e60adbfb3798f116ab31a73810a005a4cb75e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 24/45] fix: a large write after seeking back to the start of
 the buffer overwrites the buffered bytes, which are not written again

---
 src/runtime/io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index fea38af..e96c9cc 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -144,6 +144,7 @@ void putblock(struct channel * channel, char * p, unsigned n)
   if (channel->curr == channel->buff && n >= m) {
     really_write(channel->fd, p, n);
     channel->offset += n;
+    channel->max = channel->buff;       /* buffered bytes were overwritten */
   } else if (n <= m) {
     bcopy(p, channel->curr, n);
     channel->curr += n;
-- 
2.43.0


From 858d49630ad38f861cfbc0e93a62da22c742eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 25/45] fix: flush does not move the position set by seek_out

---
 src/runtime/io.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index e96c9cc..698e14e 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -102,10 +102,16 @@ value flush(struct channel * channel)            /* ML */
   int n;
   n = channel->max - channel->buff;
   if (n > 0) {
+    long pos = channel->offset + (channel->curr - channel->buff);
     really_write(channel->fd, channel->buff, n);
     channel->offset += n;
     channel->curr = channel->buff;
     channel->max  = channel->buff;
+    if (pos != channel->offset) {
+      /* The position had been moved back inside the buffer by seek_out. */
+      if (lseek(channel->fd, pos, 0) != pos) sys_error(NULL);
+      channel->offset = pos;
+    }
   }
   return Atom(0);
 }
-- 
2.43.0


From 11f5bc1520c7665bab8fa026ca5447e82e6490f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 26/45] fix: writing a block of 2^31 bytes or more writes all
 of it

---
 src/runtime/io.c | 10 +++++-----
 src/runtime/io.h |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 698e14e..528fbde 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -78,9 +78,9 @@ value channel_size(struct channel * channel)      /* ML */
 
 /* Output */
 
-static void really_write(int fd, char * p, int n)
+static void really_write(int fd, char * p, unsigned long n)
 {
-  int retcode;
+  long retcode;
   while (n > 0) {
 #ifdef HAS_UI
     retcode = ui_write(fd, p, n);
@@ -142,9 +142,9 @@ value output_int(struct channel * channel, value w)    /* ML */
   return Atom(0);
 }
 
-void putblock(struct channel * channel, char * p, unsigned n)
+void putblock(struct channel * channel, char * p, unsigned long n)
 {
-  unsigned m;
+  unsigned long m;
 
   m = channel->end - channel->curr;
   if (channel->curr == channel->buff && n >= m) {
@@ -177,7 +177,7 @@ value output(value channel, value buff, value start, value length) /* ML */
 {
   putblock((struct channel *) channel,
            &Byte(buff, Long_val(start)),
-           (unsigned) Long_val(length));
+           (unsigned long) Long_val(length));
   return Atom(0);
 }
 
diff --git a/src/runtime/io.h b/src/runtime/io.h
index 50de8e9..029d80c 100644
--- a/src/runtime/io.h
+++ b/src/runtime/io.h
@@ -39,7 +39,7 @@ struct channel {
 struct channel * open_descr (int);
 value flush (struct channel *);
 void putword (struct channel *, uint32);
-void putblock (struct channel *, char *, unsigned);
+void putblock (struct channel *, char *, unsigned long);
 unsigned char refill (struct channel *);
 uint32 getword (struct channel *);
 int getblock (struct channel *, char *, unsigned, int);
-- 
2.43.0


From cb29f736594b97b0527789c1a5d8abc64522d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 27/45] fix: reading into a string of 2^32 bytes or more is not
 taken for end of file

---
 src/runtime/io.c | 10 +++++-----
 src/runtime/io.h |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 528fbde..4cfeaae 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -254,7 +254,7 @@ void nonblocking_mode(int fd, int nonblocking) {
    problem in practice, since reads on an fd are likely to be all
    blocking or all non-blocking.  sestoft 2000-03-15 */
 
-static int really_read(int fd, char * p, unsigned n, int nonblocking)
+static int really_read(int fd, char * p, unsigned long n, int nonblocking)
 {
   int retcode;
 
@@ -370,7 +370,7 @@ value input_int(struct channel * channel)        /* ML */
   return Val_long(i);
 }
 
-int getblock(struct channel * channel, char * p, unsigned n,
+int getblock(struct channel * channel, char * p, unsigned long n,
              int nonblocking)
 {
   unsigned m, l;
@@ -413,7 +413,7 @@ int really_getblock(struct channel * chan, char * p, unsigned long n)
 {
   unsigned r;
   while (n > 0) {
-    r = (unsigned)getblock(chan, p, (unsigned) n,  /* nonblocking = */ 0);
+    r = (unsigned)getblock(chan, p, n,  /* nonblocking = */ 0);
     if (r == 0) return 0;
     p += r;
     n -= r;
@@ -425,14 +425,14 @@ value input(value channel, value buff, value start, value length) /* ML */
 {
   return Val_long(getblock((struct channel *) channel,
                            &Byte(buff, Long_val(start)),
-                           (unsigned) Long_val(length),
+                           (unsigned long) Long_val(length),
                            /* nonblocking = */ 0));
 }
 
 value input_nonblocking(value channel, value buff, value start, value length) /* ML */
 { int n = getblock((struct channel *) channel,
                    &Byte(buff, Long_val(start)),
-                   (unsigned) Long_val(length),
+                   (unsigned long) Long_val(length),
 	           /* nonblocking = */ 1);
   if (n == -1)		/* Non-blocking read returned no data */ 
     return NONE;
diff --git a/src/runtime/io.h b/src/runtime/io.h
index 029d80c..f2d6f5e 100644
--- a/src/runtime/io.h
+++ b/src/runtime/io.h
@@ -42,7 +42,7 @@ void putword (struct channel *, uint32);
 void putblock (struct channel *, char *, unsigned long);
 unsigned char refill (struct channel *);
 uint32 getword (struct channel *);
-int getblock (struct channel *, char *, unsigned, int);
+int getblock (struct channel *, char *, unsigned long, int);
 int really_getblock (struct channel *, char *, unsigned long);
 value close_in (struct channel *);
 void close_stdouterr(void);
-- 
2.43.0


From ca479330fd61d7aed3d791b23439d57c84420d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 28/45] fix: a channel on an inherited descriptor starts at the
 position the file is at

---
 src/runtime/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 4cfeaae..0046007 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -42,12 +42,14 @@ static struct channel *std_channel[3] = {NULL, NULL, NULL};
 struct channel * open_descr(int fd)
 {
   struct channel * channel;
+  long pos;
 
   if( (unsigned)fd < 3 && std_channel[fd] != NULL )
     return std_channel[fd];
   channel = (struct channel *) stat_alloc(sizeof(struct channel));
   channel->fd = fd;
-  channel->offset = 0;
+  pos = lseek(fd, 0, 1);                /* an inherited file may be anywhere */
+  channel->offset = pos == -1 ? 0 : pos;
   channel->curr = channel->max = channel->buff;
   channel->end = channel->buff + IO_BUFFER_SIZE;
   if( (unsigned)fd < 3 )
-- 
2.43.0


From c9fcd64c03aceb3a17950b69f1a1495189737164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 29/45] fix: closing standard input leaves no dangling channel
 behind

---
 src/runtime/io.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 0046007..8255473 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -206,7 +206,10 @@ value pos_out(struct channel * channel)          /* ML */
 
 value close_out(struct channel * channel)     /* ML */
 {
-  if ((unsigned)(channel->fd) >= 3) 
+  if (channel->fd == 0)
+    /* A file opened after standard input was closed. */
+    flush(channel);
+  else if ((unsigned)(channel->fd) >= 3) 
     {
       int retcode;
       flush(channel);
@@ -468,8 +471,19 @@ value pos_in(struct channel * channel)           /* ML */
 
 value close_in(struct channel * channel)     /* ML */
 {
-  close(channel->fd);
-  stat_free((char *) channel);
+  int fd = channel->fd;
+
+  if (fd == -1) return Atom(0);         /* a standard channel, closed before */
+  close(fd);
+  if ((unsigned)fd < 3) {
+    /* Other streams may share the channel: it stays, but cannot be read,
+       and is not the one for the next file that gets this descriptor. */
+    std_channel[fd] = NULL;
+    channel->fd = -1;
+    channel->offset = 0;
+    channel->curr = channel->max = channel->buff;
+  } else
+    stat_free((char *) channel);
   return Atom(0);
 }
 
-- 
2.43.0


From be0ed99b07cb1632b7f445e2cb8a8a3ffe308988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 30/45] fix: seeking to position ~1 fails instead of being
 taken for done

---
 src/runtime/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 8255473..c9c492a 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -193,7 +193,7 @@ value seek_out(struct channel * channel, value pos)    /* ML */
     channel->curr = channel->buff + dest - channel->offset;
   } else {
     flush(channel);
-    if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
+    if (lseek(channel->fd, dest, 0) == -1) sys_error(NULL);
     channel->offset = dest;
   }
   return Atom(0);
@@ -457,7 +457,7 @@ value seek_in(struct channel * channel, value pos)     /* ML */
       dest <= channel->offset) {
     channel->curr = channel->max - (channel->offset - dest);
   } else {
-    if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
+    if (lseek(channel->fd, dest, 0) == -1) sys_error(NULL);
     channel->offset = dest;
     channel->curr = channel->max = channel->buff;
   }
-- 
2.43.0


From 8800985f1d1744ab11cc94b17ce7608c0491dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 31/45] fix: the text of a formatted real is not cut to, or
 written past, 512 bytes

---
 src/runtime/mosml.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index d86806e..6d671b7 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1172,22 +1172,22 @@ value sml_strftime (value fmt, value v) /* ML */
 
 value sml_general_string_of_float(value fmt, value arg)    /* ML */
 {
-#define BUFSIZE 512
-  char format_buffer[BUFSIZE];
-
-  /* Unfortunately there seems to be no way to ensure that this does not
-   * crash by overflowing the format_buffer (e.g. when specifying a huge 
-   * number of decimal digits in the fixed-point format).  Well, we might
-   * use snprintf if universally supported?
-   */
+  char * format_buffer;
+  int size;
+  value res;
 
   double x = Double_val(arg);
   if (x == -0.0) x = 0.0;
-  sprintf(format_buffer, String_val(fmt), x);
+  size = snprintf(NULL, 0, String_val(fmt), x);
+  if (size < 0)
+    failwith("sml_general_string_of_float");
+  format_buffer = stat_alloc((asize_t)size + 1);
+  snprintf(format_buffer, (asize_t)size + 1, String_val(fmt), x);
 
   mkSMLMinus(format_buffer);
-  return copy_string(format_buffer);
-#undef BUFSIZE
+  res = copy_string(format_buffer);
+  stat_free(format_buffer);
+  return res;
 }
 
 value sml_filesize(value path)          /* ML */
-- 
2.43.0


From 5ee86f61981d5927a9c475ad33a573843dbeb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 32/45] fix: format_int and format_float size their buffer by
 the text, not by the format

---
 src/runtime/floats.c | 27 +++++++--------------------
 src/runtime/ints.c   | 19 +++++++------------
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/src/runtime/floats.c b/src/runtime/floats.c
index 7443ea8..3dc8f35 100644
--- a/src/runtime/floats.c
+++ b/src/runtime/floats.c
@@ -48,32 +48,19 @@ void Store_double_val(value val, double dbl)
 value format_float(value fmt, value arg)    /* ML */
 {
   char format_buffer[64];
-  int prec, i;
-  char * p;
+  int size;
   char * dest;
   value res;
 
-  prec = 64;
-  for (p = String_val(fmt); *p != 0; p++) {
-    if (*p >= '0' && *p <= '9') {
-      i = atoi(p) + 15;
-      if (i > prec) prec = i;
-      break;
-    }
-  }
-  for( ; *p != 0; p++) {
-    if (*p == '.') {
-      i = atoi(p+1) + 15;
-      if (i > prec) prec = i;
-      break;
-    }
-  }
-  if (prec <= sizeof(format_buffer)) {
+  size = snprintf(NULL, 0, String_val(fmt), Double_val(arg));
+  if (size < 0)
+    failwith("format_float");
+  if (size < sizeof(format_buffer)) {
     dest = format_buffer;
   } else {
-    dest = stat_alloc(prec);
+    dest = stat_alloc((asize_t)size + 1);
   }
-  sprintf(dest, String_val(fmt), Double_val(arg));
+  snprintf(dest, (asize_t)size + 1, String_val(fmt), Double_val(arg));
   res = copy_string(dest);
   if (dest != format_buffer) {
     stat_free(dest);
diff --git a/src/runtime/ints.c b/src/runtime/ints.c
index b3fe84f..bb63da9 100644
--- a/src/runtime/ints.c
+++ b/src/runtime/ints.c
@@ -54,24 +54,19 @@ value int_of_string(value s)          /* ML */
 value format_int(value fmt, value arg)      /* ML */
 {
   char format_buffer[32];
-  int prec;
-  char * p;
+  int size;
   char * dest;
   value res;
 
-  prec = 32;
-  for (p = String_val(fmt); *p != 0; p++) {
-    if (*p >= '0' && *p <= '9') {
-      prec = atoi(p) + 5;
-      break;
-    }
-  }
-  if (prec <= sizeof(format_buffer)) {
+  size = snprintf(NULL, 0, String_val(fmt), Long_val(arg));
+  if (size < 0)
+    failwith("format_int");
+  if (size < sizeof(format_buffer)) {
     dest = format_buffer;
   } else {
-    dest = stat_alloc(prec);
+    dest = stat_alloc((asize_t)size + 1);
   }
-  sprintf(dest, String_val(fmt), Long_val(arg));
+  snprintf(dest, (asize_t)size + 1, String_val(fmt), Long_val(arg));
   res = copy_string(dest);
   if (dest != format_buffer) {
     stat_free(dest);
-- 
2.43.0


From 495a7e09d069f5df77aa566a2b19c08046daab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 33/45] fix: string_mlval and mlval_string lay out their length
 word for 64-bit words

---
 src/runtime/mosml.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 6d671b7..4b08ee2 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1366,15 +1366,15 @@ value string_mlval(value val)	/* ML */
      not used from now on. */
   if (extern_pos == 0)
     {
-      s = alloc_string(8);
+      s = alloc_string(2 * sizeof(asize_t));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
       ((asize_t *)s)[1] = (asize_t)res;    
     }
   else
     {
-      s = alloc_string(4 + extern_pos * sizeof(unsigned long));
+      s = alloc_string(sizeof(asize_t) + extern_pos * sizeof(unsigned long));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
-      bcopy((char *) extern_block, &Byte(s, 4), 
+      bcopy((char *) extern_block, &Byte(s, sizeof(asize_t)), 
 	    extern_pos * sizeof(unsigned long));
     }
   stat_free((char *) extern_block);
@@ -1391,9 +1391,13 @@ value mlval_string(value s)	/* ML */
   color_t color;
   header_t hd;
 
+  if (string_length(s) < sizeof(mlsize_t))
+    failwith ("mlval_string: truncated object");
   whsize = ((mlsize_t *)s)[0];
 
   if (whsize == 0) {
+    if (string_length(s) < 2 * sizeof(mlsize_t))
+      failwith ("mlval_string: truncated object");
     res = (value) ((mlsize_t *)s)[1];
     if (Is_long(res))
       return res;
@@ -1409,11 +1413,11 @@ value mlval_string(value s)	/* ML */
   hd = Hd_val (res);
   color = Color_hd (hd);
   Assert (color == White || color == Black);
-  if (bhsize + 4 > string_length(s)) {
+  if (bhsize + sizeof(mlsize_t) > string_length(s)) {
     Hd_val (res) = hd;                      /* Avoid confusing the GC. */
     failwith ("mlval_string: truncated object");
   }
-  bcopy(&Byte(s, 4), Hp_val(res), bhsize);
+  bcopy(&Byte(s, sizeof(mlsize_t)), Hp_val(res), bhsize);
   adjust_pointers((value*)(Hp_val (res)), whsize, color);
 
   return res;
-- 
2.43.0


From f2c5a1679f14c2e9b2c2a02d13abac709eb4ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 34/45] fix: searchpath skips a path component that does not
 fit its buffer

---
 src/runtime/sys.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index f3311a3..9cd40fa 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -339,6 +339,7 @@ char * searchpath(char * name)
   char * path;
   char * p;
   char * q;
+  asize_t n;
 
   for (p = name; *p != 0; p++) {
     if (*p == '/') return name;
@@ -346,17 +347,15 @@ char * searchpath(char * name)
   path = getenv("PATH");
   if (path == 0) return 0;
   while(1) {
-    p = fullname;
-    while (*path != 0 && *path != ':') {
-      *p++ = *path++;
+    q = path;
+    while (*path != 0 && *path != ':') path++;
+    n = path - q;
+    if (n + strlen(name) + 2 <= sizeof(fullname)) {
+      bcopy(q, fullname, n);
+      if (n > 0) fullname[n++] = '/';
+      strcpy(fullname + n, name);
+      if (access(fullname, 1) == 0) return fullname;
     }
-    if (p != fullname) *p++ = '/';
-    q = name;
-    while (*q != 0) {
-      *p++ = *q++;
-    }
-    *p = 0;
-    if (access(fullname, 1) == 0) return fullname;
     if (*path == 0) return 0;
     path++;
   }
-- 
2.43.0


From ff390d30b1bb06a9fb07557650333593443495a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 35/45] fix: a socket file name that does not fit in the
 address is refused

---
 src/dynlibs/msocket/msocket.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index 8464757..4fb5601 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -126,13 +126,14 @@ static value newinaddr(s_addr_t sa) {
 
 /* Maps a : addr to s : union saddr */
 static void make_saddr(union saddr *s, value a) {
-  int size = Int_val(Size_addrval(a));
-
   switch(Int_val(Nspace_addrval(a))) {
   case AF_UNIX:
 #ifndef WIN32
+    if (string_length(Data_addrval(a)) >= sizeof(s->sockaddr_unix.sun_path))
+      failwith("Socket file name too long");
     s->sockaddr_unix.sun_family = AF_UNIX;
-    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, size + 1);
+    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, 
+	  string_length(Data_addrval(a)) + 1);
 #else
     failwith("AF_UNIX not implemented");
 #endif
-- 
2.43.0


From dd4a62d64c073bfd552e4e8ac4f28b70a55962da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 36/45] fix: select refuses a descriptor that an fd_set cannot
 hold

---
 src/dynlibs/msocket/msocket.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index 4fb5601..622424c 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -644,7 +644,10 @@ static void vec_to_fdset(value sockv, fd_set *fds) {
 
   FD_ZERO(fds);
   for(i = 0; i < vlen; i++) {
-    FD_SET(Sock_val(Field(sockv, i)), fds);
+    int fd = Sock_val(Field(sockv, i));
+    if (fd < 0 || fd >= FD_SETSIZE)
+      failwith("Socket descriptor out of range for select");
+    FD_SET(fd, fds);
   } 
 }
 
-- 
2.43.0


From d1c7247e4d06176caca23112e9dd339b7f017857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 37/45] fix: a long gdbm error message is cut to the buffer

---
 src/dynlibs/mgdbm/mgdbm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynlibs/mgdbm/mgdbm.c b/src/dynlibs/mgdbm/mgdbm.c
index d81f86a..302b37e 100644
--- a/src/dynlibs/mgdbm/mgdbm.c
+++ b/src/dynlibs/mgdbm/mgdbm.c
@@ -70,7 +70,7 @@ value string_datum(datum val)
 void mgdbm_fatal(char *msg)
 {
   char buf[256] = "Gdbm error: ";
-  strcat(buf, msg);
+  strncat(buf, msg, sizeof(buf) - strlen(buf) - 1);
   failwith(buf);
 }
 
-- 
2.43.0


From f0757cf15658f91a046da51fa1d82712a7e6dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 38/45] fix: md5sum takes strings of 2 GB and more

---
 src/runtime/md5sum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/md5sum.c b/src/runtime/md5sum.c
index 2a33496..1e901d7 100644
--- a/src/runtime/md5sum.c
+++ b/src/runtime/md5sum.c
@@ -167,7 +167,7 @@ EXTERN value md5sum(value str)     /* ML */
 {
 	byte *buf;
 	byte digest[16], pr64[25];
-	int n, len, start;
+	long n, len, start;
 	MD5state *s;
 
 	s = nil;
-- 
2.43.0


From 513af16001a81cc768db206837f40ea191f5da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 39/45] fix: cfs allocates its copy by the full string length

---
 src/dynlibs/interface/cside.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynlibs/interface/cside.c b/src/dynlibs/interface/cside.c
index b767769..86b5c46 100644
--- a/src/dynlibs/interface/cside.c
+++ b/src/dynlibs/interface/cside.c
@@ -64,7 +64,7 @@ EXTERNML value cfr(value v)
 EXTERNML value cfs(value v)
 {
   char *oldp, *newp, *q;
-  int len;
+  mlsize_t len;
   oldp = String_val(v);		/* Null-terminated heap-allocated string */
   len = string_length(v);	/* Much faster than strlen */
   
-- 
2.43.0


From c712e7428cb63792c7475d7afd3cb28986e0bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:53 +0000
Subject: [PATCH 40/45] fix: the argument vector of execve is allocated by the
 full vector length

---
 src/dynlibs/munix/munix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/munix/munix.c b/src/dynlibs/munix/munix.c
index 28fcf32..a470732 100644
--- a/src/dynlibs/munix/munix.c
+++ b/src/dynlibs/munix/munix.c
@@ -77,8 +77,8 @@ void failure() {
 }
 
 char** mkcharptrvec(value strvec) {
-  int i;
-  int argc = Wosize_val(strvec);
+  mlsize_t i;
+  mlsize_t argc = Wosize_val(strvec);
   char **argv = (char**) malloc((argc + 1) * sizeof(char*));
   if (argv == (char**)NULL)
     failwith("mkcharptrvec: malloc failed");
-- 
2.43.0


From 0d87aaa97a8a7a25a343b50d43d2ac8e48b1a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 41/45] fix: realloc_global keeps the size of a table of 2^32
 globals or more

---
 src/runtime/meta.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/meta.c b/src/runtime/meta.c
index 64ef9f8..3f192fc 100644
--- a/src/runtime/meta.c
+++ b/src/runtime/meta.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include "config.h"
 #include "alloc.h"
+#include "fail.h"
 #include "globals.h"
 #include "major_gc.h"
 #include "memory.h"
@@ -58,8 +59,10 @@ value realloc_global(size)      /* ML */
 
   requested_size = Long_val(size);
   actual_size = Wosize_val(global_data);
+  if (requested_size > Max_wosize)
+    raise_out_of_memory();
   if (requested_size >= actual_size) {
-    requested_size = (requested_size + 0x100) & 0xFFFFFF00;
+    requested_size = (requested_size + 0x100) & ~(mlsize_t)0xFF;
     new_global_data = alloc_shr(requested_size, 0);
     for (i = 0; i < actual_size; i++)
       initialize(&Field(new_global_data, i), Field(global_data, i));
-- 
2.43.0


From a6367c445ef1993feb9bd926e671c35b6e940897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 42/45] fix: exception Graphic bears its own name

---
 src/runtime/sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index 9cd40fa..bc1f218 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -47,7 +47,7 @@ char * error_message(void)
 char* globalexn[] = { 
        "Out_of_memory",
        "Invalid_argument",
-       "Graphic_failure",
+       "Graphic",
        "SysErr",
        "Fail",
        "Size",
-- 
2.43.0


From 0961d78783981a985e6e30228a8081ec73e66702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 43/45] fix: Nonstdio.seek_in tests that the stream is open
 when it seeks, not when it is partially applied

---
 src/mosmllib/Nonstdio.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Nonstdio.sml b/src/mosmllib/Nonstdio.sml
index f22c47c..3584e30 100644
--- a/src/mosmllib/Nonstdio.sml
+++ b/src/mosmllib/Nonstdio.sml
@@ -209,12 +209,12 @@ fun input_value is =
       input_value_ ic
   end;
 
-fun seek_in is =
+fun seek_in is pos =
   let val ref {closed, ic} = fromI is in
     if closed then
       raiseClosed "seek_in" ""
     else
-      seek_in_ ic
+      seek_in_ ic pos
   end;
 
 fun pos_in is =
-- 
2.43.0


From 9682bc5a8476f4a7388e6697a8b3d5eec0131412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 44/45] fix: TextIO.scanStream does not read a stream that the
 scanning function has closed

---
 src/mosmllib/TextIO.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/TextIO.sml b/src/mosmllib/TextIO.sml
index 60ebaaa..4c55b28 100644
--- a/src/mosmllib/TextIO.sml
+++ b/src/mosmllib/TextIO.sml
@@ -225,7 +225,7 @@ fun scanStream scan (instrm as ref {closed, ic, name}) =
 		else				(* no longer in buffer  *)
 		    raise Fail "scanStream: backtracking too far"
 	    else	        (* charno = !read; read a new character *)
-		if closed then NONE
+		if #closed (!instrm) then NONE (* scan may close instrm *)
 		else (let val c = input_char_ ic
 		      in (update_ buf (charno mod 512) c;
 			  read := !read + 1;
-- 
2.43.0


From c4c2dfa8471b13f5ed1a865e2430dffb70e18d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 45/45] fix: mark an output stream closed before its channel is
 freed by a close that may raise

---
 src/mosmllib/BasicIO.sml | 5 ++++-
 src/mosmllib/TextIO.sml  | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mosmllib/BasicIO.sml b/src/mosmllib/BasicIO.sml
index 23e004d..85de425 100644
--- a/src/mosmllib/BasicIO.sml
+++ b/src/mosmllib/BasicIO.sml
@@ -192,7 +192,10 @@ fun output (os, s) = outputc os s;
 
 fun close_out (os as ref {closed, oc}) =
   if closed then () else
-    (caml_close_out oc; os := {closed = true, oc=oc}; ());
+    (caml_flush oc;
+     os := {closed = true, oc=oc};
+     (* Frees the channel also when it raises: *)
+     caml_close_out oc);
 
 fun flush_out (os as ref {closed, oc}) =
   if closed then
diff --git a/src/mosmllib/TextIO.sml b/src/mosmllib/TextIO.sml
index 4c55b28..c53f53c 100644
--- a/src/mosmllib/TextIO.sml
+++ b/src/mosmllib/TextIO.sml
@@ -311,9 +311,10 @@ fun openOut (s : string) : outstream =
 
 fun closeOut (os as ref {closed, oc, name}) =
     if closed then () 
-    else (caml_close_out oc; 
+    else (caml_flush oc;
 	  os := {closed = true, oc=oc, name=name}; 
-	  ());
+	  (* Frees the channel also when it raises: *)
+	  caml_close_out oc);
 
 fun flushOut (os as ref {closed, oc, name}) =
   if closed then
-- 
2.43.0

