From a3a01fbb52c7542e27e00f2bbc552fabed0951df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 01/64] fix: && and || yield 0 or 1, not their second operand

---
 c.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c.c b/c.c
index 203f0e5..87e2baa 100644
--- a/c.c
+++ b/c.c
@@ -3041,6 +3041,16 @@ node_t *compile_booltest(node_t *prn, node_t *pan)
   return pan;
 }
 
+/* compile x to serve as a 0/1 value of a logical operator */
+static node_t *compile_boolval(node_t *prn, node_t *pan)
+{
+  inscode_t ic; numval_t v;
+  pan = compile_booltest(prn, pan);
+  asm_getbk(&pan->data, &ic);
+  if (ic.in >= IN_I32_EQZ && ic.in <= IN_F64_GE) return pan; /* 0/1 already */
+  return compile_binary(prn, pan, TT_NE, compile_numlit(prn, TS_INT, (v.i = 0, &v)));
+}
+
 /* compile x to serve as an integer selector */
 node_t *compile_intsel(node_t *prn, node_t *pan)
 {
@@ -3803,9 +3813,11 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       node_t *pan2 = expr_compile(ndcref(pn, 1), prib, NULL);
       switch (pn->op) {
         case TT_AND_AND: {
+          pan2 = compile_boolval(pn, pan2);
           pcn = compile_cond(pn, pan1, pan2, compile_numlit(pn, TS_INT, (v.i = 0, &v)));
         } break;
         case TT_OR_OR: {
+          pan2 = compile_boolval(pn, pan2);
           pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), pan2);
         } break;
         default: { /* normal binary */
-- 
2.43.0


From 5743b3d33e0d18fdbb6286e6a3ebbff05a84bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 02/64] fix: constant-fold shifts with the shift count masked
 as at run time

Counts of 64 and over left the result uninitialized; counts of 32..63 on
32-bit operands gave results different from those of the instructions.
---
 c.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 87e2baa..9e77275 100644
--- a/c.c
+++ b/c.c
@@ -259,6 +259,12 @@ static long long integral_sext(ts_t ts, long long i)
   return i;
 }
 
+/* mask applied to shift counts by wasm shift instructions */
+static int integral_shift_mask(ts_t ts)
+{
+  return (ts == TS_LLONG || ts == TS_ULLONG) ? 63 : 31;
+}
+
 static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
 {
   assert(pnv);
@@ -427,8 +433,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   pvz->u = integral_mask(tz, x << (y & integral_shift_mask(tz))); break;
+        case TT_SHR:   pvz->u = integral_mask(tz, x >> (y & integral_shift_mask(tz))); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -449,8 +455,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SHL:   pvz->i = integral_sext(tz, x << (y & integral_shift_mask(tz))); break;
+        case TT_SHR:   pvz->i = integral_sext(tz, x >> (y & integral_shift_mask(tz))); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
-- 
2.43.0


From 48fa5956c9a9c5a0d3778752639f212c5e7df1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 03/64] fix: do not divide the minimum integer by -1 while
 folding constants

The compiler was killed by SIGFPE on (-9223372036854775807LL-1)/-1.
---
 c.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 9e77275..b83b05e 100644
--- a/c.c
+++ b/c.c
@@ -453,8 +453,18 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        case TT_SLASH: 
+          if (y == 0) tz = TS_VOID; 
+          else if (y == -1) { /* negation; traps at run time on overflow */
+            long long z = integral_sext(tz, (long long)(0 - (unsigned long long)x));
+            if (x != 0 && z == x) tz = TS_VOID; else pvz->i = z;
+          } else pvz->i = integral_sext(tz, x / y); 
+          break;
+        case TT_REM:
+          if (y == 0) tz = TS_VOID; 
+          else if (y == -1) pvz->i = 0; /* never traps at run time */
+          else pvz->i = integral_sext(tz, x % y); 
+          break;
         case TT_SHL:   pvz->i = integral_sext(tz, x << (y & integral_shift_mask(tz))); break;
         case TT_SHR:   pvz->i = integral_sext(tz, x >> (y & integral_shift_mask(tz))); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
-- 
2.43.0


From ca824141bd25e0842c8a1c7b6a52b6ffbddf9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 04/64] fix: a folded ?: has the common arithmetic type of its
 branches

---
 c.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index b83b05e..a615964 100644
--- a/c.c
+++ b/c.c
@@ -956,8 +956,13 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       seval_t r; bool ok = false; int cond;
       assert(ndlen(pn) == 3);
       if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
+        seval_t rx; /* other branch */
+        ok = static_eval(ndref(pn, cond ? 1 : 2), prib, &r);
+        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, cond ? 2 : 1), prib, &rx) && ts_numerical(rx.ts)) {
+          /* result type is common type of both branches */
+          ts_t tz = ts_arith_common(r.ts, rx.ts);
+          numval_convert(tz, r.ts, &r.val); r.ts = tz;
+        }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
       return ok;
-- 
2.43.0


From 09bb8912184097adbb63a7926fb5ff404f845315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 05/64] fix: cast from float to bool compares with zero

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index a615964..b6471d0 100644
--- a/c.c
+++ b/c.c
@@ -2380,6 +2380,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From b2d92095e2c989b94a85e092a09858d6b7e73702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 06/64] fix: load, store and take the address of v128 values
 through pointers

Dereferencing a v128_t pointer (or accessing a v128_t field) aborted the
compiler.
---
 c.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index b6471d0..3590911 100644
--- a/c.c
+++ b/c.c
@@ -2511,6 +2511,11 @@ static inscode_t *asm_load(ts_t tsto, ts_t tsfrom, unsigned off, icbuf_t *pdata)
         case TS_DOUBLE: in = IN_F64_LOAD; align = 3; break;
         default:;
       } break;
+    case TS_V128:
+      switch (tsfrom) {
+        case TS_V128:   in = IN_V128_LOAD; align = 4; break;
+        default:;
+      } break;
     default: assert(false);
   }
   assert(in);
@@ -2530,6 +2535,7 @@ static void asm_instr_load_to_store(const inscode_t *plic, inscode_t *psic)
     case IN_I64_LOAD: in = IN_I64_STORE; break;
     case IN_F32_LOAD: in = IN_F32_STORE; break;
     case IN_F64_LOAD: in = IN_F64_STORE; break;
+    case IN_V128_LOAD: in = IN_V128_STORE; break;
     case IN_I32_LOAD8_S:  case IN_I32_LOAD8_U:  in = IN_I32_STORE8; break;
     case IN_I32_LOAD16_S: case IN_I32_LOAD16_U: in = IN_I32_STORE16; break;
     case IN_I64_LOAD8_S:  case IN_I64_LOAD8_U:  in = IN_I64_STORE8; break;
@@ -2824,7 +2830,7 @@ static int acode_rval_load(node_t *pan)
 {
   if (pan->nt == NT_ACODE && icblen(&pan->data) >= 1) {
     instr_t in = icbref(&pan->data, icblen(&pan->data)-1)->in;
-    return (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) ? in : 0;
+    return ((in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) || in == IN_V128_LOAD) ? in : 0;
   } 
   return 0;
 }
-- 
2.43.0


From 9f1c7d849f6a0c2982d7272015c186fc45912d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 07/64] fix: accept v128 as the type of a conditional
 expression

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 3590911..58f8ad7 100644
--- a/c.c
+++ b/c.c
@@ -3132,7 +3132,7 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
     /* fixme: 'if'-'else' block is needed */
     unsigned bt = ts_to_blocktype(pctn->ts);
     if (!bt) neprintf(prn, "impossible type of logical operator result"); 
-    assert(bt == BT_VOID || (bt >= VT_F64 && bt <= VT_I32));
+    assert(bt == BT_VOID || (bt >= VT_V128 && bt <= VT_I32));
     acode_swapin(pcn, pan1);
     acode_pushin_uarg(pcn, IN_IF, bt);
     acode_swapin(pcn, pan2);
-- 
2.43.0


From bc61006acc19b8bab26bfe374acf4dbcd6039a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 08/64] fix: do not overflow int while measuring the range of
 switch cases

---
 c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 58f8ad7..7346610 100644
--- a/c.c
+++ b/c.c
@@ -3510,7 +3510,8 @@ static node_t *compile_branch(node_t *prn, node_t *pan, sym_t lname)
 /* try to compile switch to a jump table (br_table) or return NULL if too sparse */
 static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t *pcv, size_t cc)
 {
-  size_t i, ti; sym_t dlname; int off, curidx, idx;
+  size_t i, ti; sym_t dlname; int off; 
+  long long curidx, idx; /* case range may not fit into int */
   const node_t *pni, *psn, *pgn; node_t *pcn; size_t dfillc = 0;
   assert(cc >= 1); /* default goto, followed by 0 or more case gotos */
   if (cc < 3) return NULL; /* we need at least 2 cases */
@@ -3531,7 +3532,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
-    idx = (int)psn->val.i - off; assert(idx >= 0);
+    idx = (long long)(int)psn->val.i - off; assert(idx >= 0);
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
       ++curidx; ++dfillc;
-- 
2.43.0


From 63e4123d4689827853425fd498f0de743d8152d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 09/64] fix: failure to write the output file is a fatal error

Errors of fwrite/fputs/fclose on the output were ignored, so a truncated
module could be left with exit code 0.
---
 c.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 7346610..001ec67 100644
--- a/c.c
+++ b/c.c
@@ -4619,6 +4619,14 @@ void compile_module_to_wat(const char *ifname, wat_module_t *pwm)
   fini_compiler();
 }
 
+/* flush and close output file; file errors are fatal */
+static void close_output(const char *fname, FILE *pf)
+{
+  bool err = fflush(pf) != 0 || ferror(pf);
+  if (fclose(pf) != 0) err = true;
+  if (err) eprintf("cannot write output file %s:", fname);
+}
+
 int main(int argc, char **argv)
 {
   int opt; char *eoarg;
@@ -4685,10 +4693,11 @@ int main(int argc, char **argv)
       FILE *pf = fopen(ofile_arg, "w");
       if (!pf) eprintf("cannot open output file %s:", ofile_arg);
       write_wat_module(&wm, pf);
-      fclose(pf);
+      close_output(ofile_arg, pf);
       logef("# object module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output("-", stdout);
     }
     wat_module_fini(&wm);   
   } else {
@@ -4716,10 +4725,10 @@ int main(int argc, char **argv)
       FILE *pf;
       if (strsuf(ofile_arg, ".wasm")) {
         wasm_module_t wbm;
-        pf = fopen(ofile_arg, "wb");
-        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         wasm_module_init(&wbm);
         wat_to_wasm(&wm, &wbm);
+        pf = fopen(ofile_arg, "wb");
+        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wasm_module(&wbm, pf);
         wasm_module_fini(&wbm);
       } else {
@@ -4727,10 +4736,11 @@ int main(int argc, char **argv)
         if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wat_module(&wm, pf);
       }
-      fclose(pf);
+      close_output(ofile_arg, pf);
       logef("# executable module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output("-", stdout);
     }
 
     wat_module_fini(&wm);
-- 
2.43.0


From 34e04fde27543be2292c009b257dfce961283318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 10/64] fix: failure to read an input file is a fatal error

A read error was taken for the end of file, so an unreadable source (a
directory, for one) compiled to an empty module with exit code 0.
---
 l.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/l.c b/l.c
index 3c81122..c720f9c 100644
--- a/l.c
+++ b/l.c
@@ -1226,6 +1226,7 @@ char *fgetlb(cbuf_t *pcb, FILE *fp)
   assert(fp); assert(pcb);
   cbclear(pcb);
   line = fgets(buf, 256, fp); /* sizeof(buf) */
+  if (!line && ferror(fp)) eprintf("error reading input file:");
   if (!line) return NULL;
   len = strlen(line);
   if (len > 0 && line[len-1] == '\n') {
@@ -1236,6 +1237,7 @@ char *fgetlb(cbuf_t *pcb, FILE *fp)
     if (len > 0 && line[len-1] == '\r') line[len-1] = 0;
     cbputs(line, pcb);
     line = fgets(buf, 256, fp); /* sizeof(buf) */
+    if (!line && ferror(fp)) eprintf("error reading input file:");
     if (!line) break;
     len = strlen(line);
     if (len > 0 && line[len-1] == '\n') {
-- 
2.43.0


From b37a3c77b1fafabf0d901bdd6b08e1b53709a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 11/64] fix: backslash-newline joins lines without changing the
 tokens around it

a-\<newline>b was read as a - - b, and 1\<newline>; as 1 1 ;
---
 p.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p.c b/p.c
index a586a92..5875039 100644
--- a/p.c
+++ b/p.c
@@ -231,6 +231,7 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       pw->inateof = true;
     } else {
       size_t pos = buflen(pp) + pw->discarded;
+      bool spliced = !cbempty(pp) && cbdata(pp)[cblen(pp)-1] != '\n'; /* prev. line ended in backslash */
       unsigned long ch = 0; char *ln = line; 
       while (*ln) {
         ch = unutf8((unsigned char **)&ln);
@@ -246,6 +247,10 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       *(size_t*)bufnewbk(&pw->lsposs) = pos;
       *ptbase = cbdata(pp);
       *pendi = (int)cblen(pp);
+      if (spliced) { /* no newline between spliced lines: continue with actual char */
+        if (pw->curi < *pendi) c = (*ptbase)[pw->curi++];
+        else c = fetchline(pw, ptbase, pendi);
+      }
     }
   }
   return c;  
-- 
2.43.0


From 24d065757f43c382ebfe84b90f6067812fad0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 12/64] fix: v128 in object files and in global variables

Object files with v128 parameters, locals or globals were written but
could not be read back; a zero-initialized v128 global aborted the linker.
---
 w.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 1234fc5..b0e8322 100644
--- a/w.c
+++ b/w.c
@@ -3214,6 +3214,7 @@ static valtype_t parse_valtype(sws_t *pw)
     else if (streql(pw->tokstr, "f32")) vt = VT_F32;
     else if (streql(pw->tokstr, "i64")) vt = VT_I64;
     else if (streql(pw->tokstr, "i32")) vt = VT_I32;
+    else if (streql(pw->tokstr, "v128")) vt = VT_V128;
     /* else if (streql(pw->tokstr, "funcref")) vt = RT_FUNCREF; */
     /* else if (streql(pw->tokstr, "externref")) vt = RT_EXTERNREF; */
     if (vt != VT_UNKN) { dropt(pw); return vt; }
@@ -4085,6 +4086,7 @@ size_t watify_wat_module(wat_module_t* pm)
           case VT_F32: pe->ic.in = IN_F32_CONST; break;
           case VT_I64: pe->ic.in = IN_I64_CONST; break;
           case VT_I32: pe->ic.in = IN_I32_CONST; break;
+          case VT_V128: pe->ic.in = IN_V128_CONST; break;
           default:;
         }
       } else if (pe->ic.in == IN_REF_DATA) {
@@ -4464,7 +4466,7 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         if (import) pe->imported = true;
         else pe->exported = pie->exported;
         pe->vt = pie->vt; pe->mut = pie->mut;
-        assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
+        assert((IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST) || pie->ic.in == IN_V128_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
         icbnewbk(&pe->code)->in = IN_END; 
       } break;
-- 
2.43.0


From 20d72c825bdeda013dee014c57c0c82415b1935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 13/64] fix: getenv returns the value of the named variable,
 not of another one

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..39a3248 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -485,7 +485,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (strncmp(name, *env, len) == 0 && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From 3b8c7a7af006c346ac2071d0af3d0c657eeb2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 14/64] fix: stat sets st_mode instead of or-ing it with
 uninitialized bits

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..c73aff8 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -30,6 +30,7 @@ static void to_public_stat(const filestat_t *in, struct stat *out)
   timestamp_to_timespec(in->atim, &out->st_atime, &out->st_atime_ns);
   timestamp_to_timespec(in->mtim, &out->st_mtime, &out->st_mtime_ns);
   timestamp_to_timespec(in->ctim, &out->st_ctime, &out->st_ctime_ns);
+  out->st_mode = 0;
   switch (in->filetype) {
     case FILETYPE_BLOCK_DEVICE:
       out->st_mode |= S_IFBLK;
-- 
2.43.0


From 399a379d26c5b9249b9ca1d2715b5d9c3f61eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 15/64] fix: strndup does not write past its copy of a string
 shorter than n

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..d01f6ea 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -232,7 +232,7 @@ char *strndup(const char *s, size_t n)
   char *d = malloc(l);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l-1] = '\0';
   return d;
 }
 
-- 
2.43.0


From f6f05c0e4bbb0df1ad7dbaab67b6f5389085bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 16/64] fix: strrchr finds the terminator, strstr and memmem
 the empty needle

---
 lib/src/string.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index d01f6ea..52638ed 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -53,7 +53,9 @@ void *memmem(const void *haystack, size_t n, const void *needle, size_t m)
   const unsigned char *y = (const unsigned char *)haystack;
   const unsigned char *x = (const unsigned char *)needle;
   size_t j, k, l;
-  if (m > n || !m || !n)
+  if (!m) 
+    return (void *)haystack;
+  if (m > n)
     return NULL;
   if (1 != m) {
     if (x[0] == x[1]) { 
@@ -265,6 +267,7 @@ char *strrchr(const char *s, int c)
     if (*s == (char)c) found = s;
     s++;
   }
+  if ((char)c == '\0') found = s; /* terminator is a part of the string */
   return (char *)found;
 }
 
-- 
2.43.0


From 343d1d03a953261a42323b22ad6d3337c889fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 17/64] fix: isspace knows vertical tab and form feed, iscntrl
 is not true past ASCII

---
 lib/src/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..a2daf76 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 int isupper(int c)
-- 
2.43.0


From 24021f82847a9129feae672c8ece97509ee251f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 18/64] fix: rand does not return negative numbers

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 39a3248..040556e 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -412,7 +412,7 @@ static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 
 int rand(void)
 {
-  return (int)jrand48(rand48_seed) >> 1;
+  return (int)((unsigned)jrand48(rand48_seed) >> 1);
 }
 
 void srand(unsigned seedval)
-- 
2.43.0


From b9168ec949c5b2ace57b778ec83908ab9d31c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 19/64] fix: mblen and mbtowc accept null pointers

---
 lib/src/stdlib.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 040556e..0b96493 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -766,15 +766,15 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   int c0, c, nc; long l;
   struct utf8_table *t;
-  { c0 = *ip; l = c0; nc = 0;
-    if (!s) return 0;
+  { if (!s) return 0;
     if (!n) goto ilseq;
+    c0 = *ip; l = c0; nc = 0;
     for (t = utf8_table; t->cmask; t++) {
       nc++;
       if ((c0 & t->cmask) == t->cval) {
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
-        *p = (wchar_t)l;
+        if (p) *p = (wchar_t)l;
         return nc;
       }
       if (n <= nc) goto ilseq;
-- 
2.43.0


From 88d8bc38c13ba15a37c085aff274b5f026444082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 20/64] fix: strftime stays inside its buffer and returns the
 length it wrote

---
 lib/src/time.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..14299dd 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -351,7 +351,8 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
   char *ptr = s; size_t count = 0;
 
   tzset();
-  do {
+  if (smax == 0) return 0;
+  while (*fmt) {
     if (*fmt == '%') {
       const char *addstr = NULL;
       int addlen = -1;
@@ -418,7 +419,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
@@ -471,18 +472,19 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
       if (addstr == NULL) addstr = addval;
       if (*addstr != '\0') {
         size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
-        strncpy(ptr, addstr, len);
+        if (len >= smax - count) return 0;
+        memcpy(ptr, addstr, len);
         ptr += len;
         count += len;
       }
-      ++fmt;
+      if (*fmt) ++fmt;
     } else {
-      if (count <= smax) *ptr++ = *fmt;
-      ++fmt;
+      if (smax - count <= 1) return 0;
+      *ptr++ = *fmt++;
+      ++count;
     }
-  } while (fmt[-1] != '\0');
+  }
 
-  if (count > smax) count = 0;
+  *ptr = '\0';
   return count;
 }
-- 
2.43.0


From d4a50ab66526d68f7ebd539f8d89695da224328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 21/64] fix: spelling of September

---
 lib/src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 14299dd..f83b812 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -52,7 +52,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
-- 
2.43.0


From 9e5e8f0fe5c113e4dd747545b66e1d92da4b0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 22/64] fix: strftime: %x is the date and %X the time

---
 lib/src/time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index f83b812..91d5d92 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -382,7 +382,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %d %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
@@ -439,10 +439,10 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[1] = '0' + (tp->tm_wday % 10);
           addval[2] = '\0';
           break;
-        case 'X':
+        case 'x':
           strftime(addval, 80, "%d.%m.%Y", tp);
           break;
-        case 'x':
+        case 'X':
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-- 
2.43.0


From 943c258e66752201d6a9b98c8ea6f9c9730959eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 23/64] fix: a failed realloc leaves the old block alone, also
 for sizes near SIZE_MAX

---
 lib/src/stdlib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 0b96493..1bcf618 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -653,13 +653,14 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
+        if (np == NULL) return NULL; /* p stays valid */
+        memcpy(np, p, n < orgn ? n : orgn);
         pushblock(bi, pb);
         return np;
       }
-- 
2.43.0


From 2fce4ef332468de81285852ab2f7fc55dd952e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 24/64] fix: calloc accepts members of size zero

---
 lib/src/stdlib.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 1bcf618..4d0ccef 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -690,8 +690,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (sz == 0 || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
-- 
2.43.0


From 75adbae043e34e65a7c2710afd1cb7c71cd87a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 25/64] fix: fputs reports failure to write

---
 lib/src/stdio.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..e655a3b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -284,7 +284,7 @@ int fputs(const char *s, FILE *fp)
 {
   ssize_t ndone = 0, n;
   unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
+  if (wrtchk(fp) != 0) return EOF;
   if ((fp->flags & _IONBF) == 0) {
     for (;; s += n) {
       while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
@@ -302,7 +302,10 @@ int fputs(const char *s, FILE *fp)
   } else {
     /* write out to an unbuffered file */
     size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
+    if (write(fp->fd, s, cnt) != (ssize_t)cnt) {
+      fp->flags |= _IOERR;
+      return EOF;
+    }
     return (int)cnt;
   }
   return 0; /* unreacheable */
-- 
2.43.0


From 42a91c8b7ea5d9b6080e05cd0e56e02429881690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 26/64] fix: fflush(NULL) flushes all output streams

---
 lib/src/stdio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index e655a3b..82e263f 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -319,6 +319,13 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
+  if (fp == NULL) { /* flush all output streams */
+    int res = 0; 
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp) {
+      if ((fp->flags & _IOWRT) && fflush(fp) == EOF) res = EOF;
+    }
+    return res;
+  }
   if (!(fp->flags & _IOWRT)) {
     fp->cnt = 0;
     return 0;
-- 
2.43.0


From cfe148876aac82cd29dfb97426f7f10a744f01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 27/64] fix: fgetpos, fseek and fsetpos report failure

---
 lib/src/stdio.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 82e263f..2431a46 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -381,7 +381,7 @@ int ungetc(int c, FILE *fp)
 
 int fseek(FILE *fp, long offset, int origin)
 {
-  ssize_t c; long p;
+  ssize_t c; long p = -1;
   fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
     if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
@@ -449,7 +449,8 @@ int fgetpos(FILE *fp, fpos_t *ptr)
       adjust = fp->ptr - fp->base;
   } else return -1;
   offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
+  if (offset < 0) return -1;
+  offset += adjust;
   *ptr = offset;
   return 0;
 }
@@ -457,7 +458,7 @@ int fgetpos(FILE *fp, fpos_t *ptr)
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
+  ssize_t c; off_t offset = *ptr, p = -1;
   fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
     if (fp->base != NULL && !(fp->flags & _IONBF)) {
-- 
2.43.0


From 282ff4c1c7eff9e404796c582429b8fcc5615c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 28/64] fix: printf of floats does not read past the table of
 powers of ten

---
 lib/src/stdio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 2431a46..3c27c72 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1228,6 +1228,7 @@ static size_t _ftoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double
     buf[len++] = '0';
     --prec;
   }
+  if (prec > 9U) prec = 9U; /* buf is full */
   
   int whole = (int)value;
   double tmp = (value - whole) * pow10[prec];
-- 
2.43.0


From 061474c288255f224315b6aeebc586db3b5d7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 29/64] fix: printf respects precision of left-justified
 integers

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 3c27c72..e97e385 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1142,9 +1142,9 @@ static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, con
 /* internal itoa format */
 static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
+  while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
   if (!(flags & FLAGS_LEFT)) {
     if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
     while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
   }
   if (flags & FLAGS_HASH) {
-- 
2.43.0


From 979d59e7fcba1dcc9c2919627377e27d200876e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 30/64] fix: exponent of zero printed with %e and %g

---
 lib/src/stdio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index e97e385..75d6579 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1314,6 +1314,7 @@ static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double
   conv.F *= 1 + 2 * z / (2 - z + (z2 / (6 + (z2 / (10 + z2 / 14)))));
   /* correct for rounding errors */
   if (value < conv.F) { --expval; conv.F /= 10; }
+  if (value == 0) expval = 0;
 
   /* the exponent format is "%+03d" and largest value is "307", so set aside 4-5 characters */
   unsigned int minwidth = ((expval < 100) && (expval > -100)) ? 4U : 5U;
@@ -1321,7 +1322,7 @@ static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double
   /* in "%g" mode, "prec" is the number of *significant figures* not decimals */
   if (flags & FLAGS_ADAPT_EXP) {
     /* do we want to fall-back to "%f" mode? */
-    if ((value >= 1e-4) && (value < 1e6)) {
+    if ((value == 0) || (value >= 1e-4) && (value < 1e6)) {
       if ((int)prec > expval) prec = (unsigned)((int)prec - expval - 1);
       else prec = 0;
       flags |= FLAGS_PRECISION; /* make sure _ftoa respects precision */
-- 
2.43.0


From 5dea4d9630891efb577e9929cde1ac2b98d1e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 31/64] fix: operands of v128 lane accesses are printed with
 the type their format names

---
 w.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/w.c b/w.c
index b0e8322..99fec17 100644
--- a/w.c
+++ b/w.c
@@ -1783,8 +1783,8 @@ char *format_inscode(inscode_t *pic, cbuf_t *pcb)
       }
       break;
     case INSIG_X_Y:
-      if (pic->id) cbputf(pcb, " $%s %u", symname(pic->id), pic->arg2.u); 
-      else cbputf(pcb, " %lld %u", pic->arg.i, pic->arg2.u); 
+      if (pic->id) cbputf(pcb, " $%s %u", symname(pic->id), (unsigned)pic->arg2.u); 
+      else cbputf(pcb, " %lld %u", pic->arg.i, (unsigned)pic->arg2.u); 
       break;
     case INSIG_F32: {
       char buf[32]; float f = pic->arg.f;
@@ -1812,11 +1812,11 @@ char *format_inscode(inscode_t *pic, cbuf_t *pcb)
       }
     } break;
     case INSIG_MEMARG:
-      if (pic->id) cbputf(pcb, " $%s %u", symname(pic->id), pic->arg2.u); 
+      if (pic->id) cbputf(pcb, " $%s %u", symname(pic->id), (unsigned)pic->arg2.u); 
       else cbputf(pcb, " offset=%llu align=%u", pic->arg.u, 1<<(int)pic->arg2.u); 
       break;
     case INSIG_MEMARG_LANEIDX: {
-      cbputf(pcb, " offset=%llu align=%u", pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
+      cbputf(pcb, " offset=%llu align=%u", (unsigned long long)pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
       if (pic->id) cbputf(pcb, " $%s", symname(pic->id)); 
       else cbputf(pcb, " %llu", pic->arg.u); 
     } break;      
-- 
2.43.0


From 49632e236758ddd25843d4fd79ad4c1ce5c7494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 32/64] fix: shifts have the promoted type of their left
 operand

---
 c.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 001ec67..c61bfd6 100644
--- a/c.c
+++ b/c.c
@@ -208,6 +208,14 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   return TS_INT;
 }
 
+/* type of binary operation on ts1 and ts2: shifts have the promoted type of their left operand */
+static ts_t ts_arith_binary(tt_t op, ts_t ts1, ts_t ts2)
+{
+  ts_t ts = ts_arith_common(ts1, ts2);
+  if ((op == TT_SHL || op == TT_SHR) && ts != TS_DOUBLE && ts != TS_FLOAT) return ts_integral_promote(ts1);
+  return ts;
+}
+
 /* ts2 can be promoted up to ts1 with implicit cast */
 static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
@@ -386,7 +394,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
-  ts_t tz = ts_arith_common(tx, ty);
+  ts_t tz = ts_arith_binary(op, tx, ty);
   numval_t vx = *pvx, vy = *pvy; 
   numval_convert(tz, tx, &vx); numval_convert(tz, ty, &vy);
   switch (tz) {
@@ -2968,7 +2976,7 @@ static node_t *compile_binary(node_t *prn, node_t *pan1, tt_t op, node_t *pan2)
     if (ts2 == TS_ENUM) ts2 = TS_INT;
   }
   if (ts_numerical(ts1) && ts_numerical(ts2)) {
-    ts_t rts = ts_arith_common(ts1, ts2); 
+    ts_t rts = ts_arith_binary(op, ts1, ts2); 
     node_t rtn = mknd(), *prtn, *pcn = npnewcode(prn); ndsettype(&rtn, rts);
     if (rts != ts1) pan1 = compile_cast(prn, &rtn, pan1); /* fixme: constant fold oportunity */
     if (rts != ts2) pan2 = compile_cast(prn, &rtn, pan2); /* fixme: constant fold oportunity */
-- 
2.43.0


From 72cacc5fcc84c98c77621f71019d857803ecaaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 33/64] fix: the common type of long and unsigned int is
 unsigned long

---
 c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index c61bfd6..d518d67 100644
--- a/c.c
+++ b/c.c
@@ -203,7 +203,9 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   if (ts1 == TS_ULLONG || ts2 == TS_ULLONG) return TS_ULLONG;
   if (ts1 == TS_LLONG  || ts2 == TS_LLONG)  return TS_LLONG;
   if (ts1 == TS_ULONG  || ts2 == TS_ULONG)  return TS_ULONG;
-  if (ts1 == TS_LONG   || ts2 == TS_LONG)   return TS_LONG;
+  if (ts1 == TS_LONG   || ts2 == TS_LONG) { /* wasm32: long can't hold all values of unsigned int */
+    return (ts1 == TS_UINT || ts2 == TS_UINT) ? TS_ULONG : TS_LONG;
+  }
   if (ts1 == TS_UINT   || ts2 == TS_UINT)   return TS_UINT;
   return TS_INT;
 }
@@ -221,6 +223,7 @@ static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
   assert(ts_numerical_or_enum(ts1) && ts_numerical_or_enum(ts2));
   if (ts1 == ts2) return true;
+  if (ts1 == TS_LONG && ts2 == TS_UINT) return true; /* same size */
   return ts_arith_common(ts1, ts2) == ts1;
 }
 
-- 
2.43.0


From aaaf5d203ed6860e9d5c4c1c92eef9260005128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 34/64] fix: address-taken narrow parameters have the size they
 are declared with

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index d518d67..b67301a 100644
--- a/c.c
+++ b/c.c
@@ -2171,6 +2171,7 @@ static void fundef_wasmify(node_t *pdn)
             psn = ndinsbk(pni, NT_IDENTIFIER); psn->name = hname;
             pni = ndinsfr(pbn, NT_VARDECL); pni->sc = SC_AUTO;
             pni->name = name; ndcpy(ndnewbk(pni), ptni);
+            if (cast != TS_VOID && cast != TS_ENUM) ndref(pni, 0)->ts = cast; /* as declared */
             pdni->name = pvi->name = pvi->reg = hname;
             pdni->sc = SC_NONE;
           } else {
-- 
2.43.0


From 85c560a7645d9bd3236fd2389eb6c3af4bc71d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 35/64] fix: values of functions returning narrow types are
 converted to their type

---
 c.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index b67301a..ba638c9 100644
--- a/c.c
+++ b/c.c
@@ -2044,11 +2044,17 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
       else assert(pil[1] == 0); /* not a break/continue target */
     } break;
     case NT_RETURN: {
-      sym_t rp = intern("rp$"), bp = intern("bp$"); 
+      sym_t rp = intern("rp$"), bp = intern("bp$"), rv = intern("rv$"); 
       vi_t *prvi, *pbvi; node_t *psn;
       if (ndlen(pn) > 0) {
+        vi_t *pvi = bufbsearch(pvib, &rv, &sym_cmp);
         assert(ndlen(pn) == 1);
         expr_wasmify(ndref(pn, 0), pvib, plib);
+        psn = ndref(pn, 0);
+        if (pvi && !(psn->nt == NT_CAST && ndref(psn, 0)->ts == pvi->cast)) { /* add narrowing cast */
+          node_t cn = mknd(); ndset(&cn, NT_TYPE, -1, -1); cn.ts = pvi->cast;
+          wrap_expr_cast(psn, &cn); ndfini(&cn);
+        }
       }
       prvi = bufbsearch(pvib, &rp, &sym_cmp);
       pbvi = bufbsearch(pvib, &bp, &sym_cmp);
@@ -2178,6 +2184,9 @@ static void fundef_wasmify(node_t *pdn)
             pvi->name = pvi->reg = name;
           }
           pvi->sc = SC_REGISTER; pvi->cast = cast;
+        } else if (i == 0 && cast != TS_VOID && cast != TS_ENUM) { /* narrow return value */
+          vi_t *pvi = bufnewbk(&vib); pvi->name = intern("rv$");
+          pvi->sc = SC_REGISTER; pvi->cast = cast;
         }
       } break;
       case TS_ARRAY: case TS_STRUCT: case TS_UNION: { 
-- 
2.43.0


From 48037d3546575515d5aa68803f6ee1ad8205ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 36/64] fix: values stored to bool objects in memory are
 converted to 0 or 1

---
 c.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index ba638c9..4406e32 100644
--- a/c.c
+++ b/c.c
@@ -3261,6 +3261,14 @@ static node_t *compile_subscript(node_t *prn, node_t *pana, node_t *pani)
   return NULL; /* never */
 }
 
+/* check if this memory load fetches from a pointer to bool */
+static bool acode_rval_loads_bool(node_t *pan)
+{
+  node_t *ppn = ndlen(pan) == 2 ? ndref(pan, 1) : NULL;
+  return ppn && ppn->nt == NT_ACODE && acode_type(ppn)->ts == TS_PTR 
+    && ndref(acode_type(ppn), 0)->ts == TS_BOOL;
+}
+
 /* compile ++x --x x++ x-- and assignments; ptn is cast type or NULL */
 static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op, node_t *pvn, bool post)
 {
@@ -3295,7 +3303,7 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
   } else if (acode_rval_load(pan)) {
     /* pan code ends in one of IN_I32_LOAD..IN_I64_LOAD32_U instructions */
     sym_t pname = rpalloc(VT_I32); /* function-unique register name (wasm32) */
-    node_t *ptn, *pdn;
+    node_t *ptn, *pdn; bool boolval = acode_rval_loads_bool(pan);
     asm_popbk(&pan->data, &lic); /* now pointer is on stack, save it as p$ */
     /* if 'post' ptr val stays on stack, dropped otherwise */
     acode_pushin_id(pan, post ? IN_LOCAL_TEE : IN_LOCAL_SET, pname);
@@ -3314,6 +3322,8 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
       neprintf(prn, "can't modify lval: impossible narrowing cast");
     if (pctn && !same_type(pctn, acode_type(pvn)))
       pvn = compile_cast(prn, pctn, pvn); 
+    if (boolval && acode_type(pvn)->ts != TS_BOOL) /* only 0 and 1 can be stored */
+      pvn = compile_cast(prn, ndsettype(npalloc(), TS_BOOL), pvn); 
     if (!same_type(acode_type(pan), acode_type(pvn))) 
       pvn = compile_cast(prn, acode_type(pan), pvn); 
     acode_swapin(pan, pvn);
-- 
2.43.0


From cb951b19dfdcc0e43768b424a38ab118fee59502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 37/64] fix: arguments are converted to narrow parameter types

---
 c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 4406e32..50af6d1 100644
--- a/c.c
+++ b/c.c
@@ -3383,9 +3383,10 @@ static node_t *compile_call(node_t *prn, node_t *pfn, buf_t *pab, node_t *pdn)
   }
   for (i = 0; i < buflen(pab) && (!etc || i < ndlen(pftn)-2); ++i) {
     node_t **ppani = bufref(pab, i), *pani = *ppani;
-    node_t *ptni = acode_type(pani), *pftni = ndref(pftn, i+1);
+    node_t *ptni = acode_type(pani), *pftni = ndref(pftn, i+1), *pdtni;
     node_t nd; bool nd_inited = false;
     if (pftni->nt == NT_VARDECL) pftni = ndref(pftni, 0);
+    pdtni = pftni; /* declared type */
     /* see if we need to promote param type */
     if (ts_numerical(pftni->ts) && pftni->ts < TS_INT) {
       ndicpy(&nd, pftni); nd_inited = true;
@@ -3394,7 +3395,7 @@ static node_t *compile_call(node_t *prn, node_t *pfn, buf_t *pab, node_t *pdn)
     if (!assign_compatible(pftni, ptni)) {
       n2eprintf(pani, prn, "can't pass argument[%d]: unexpected type", i);
     }
-    if (!same_type(pftni, ptni)) pani = compile_cast(prn, pftni, pani);
+    if (!same_type(pdtni, ptni)) pani = compile_cast(prn, pdtni, pani);
     acode_swapin(pcn, pani); /* leaves arg on stack */
     if (nd_inited) ndfini(&nd);
   }
-- 
2.43.0


From 5f9e47f2a331de86b9f37653025414df35544609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 38/64] fix: test the whole value of a constant condition, not
 its low 32 bits

---
 c.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/c.c b/c.c
index 50af6d1..3cc4ba7 100644
--- a/c.c
+++ b/c.c
@@ -802,6 +802,18 @@ static sym_t intern_strlit(node_t *pn)
   return pn->name;
 }
 
+/* evaluate truth value of numerical expression pn statically */
+static bool arithmetic_eval_to_bool(node_t *pn, buf_t *prib, bool *prb)
+{
+  seval_t r; bool ok = false;
+  if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    *prb = r.val.u != 0;
+    ok = true;
+  }
+  return ok;
+}
+
 /* evaluate pn expression statically, putting result into pr */
 bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
 {
@@ -964,9 +976,9 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t r; bool ok = false, cond;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
+      if (arithmetic_eval_to_bool(ndref(pn, 0), prib, &cond)) {
         seval_t rx; /* other branch */
         ok = static_eval(ndref(pn, cond ? 1 : 2), prib, &r);
         if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, cond ? 2 : 1), prib, &rx) && ts_numerical(rx.ts)) {
@@ -1039,14 +1051,14 @@ bool arithmetic_eval(node_t *pn, buf_t *prib, node_t *prn)
 static void check_static_assert(node_t *pn, buf_t *prib)
 {
   if (pn->intr == INTR_SASSERT) {
-    node_t *pen, *psn; int res;
+    node_t *pen, *psn; bool res;
     assert(ndlen(pn) == 1 || ndlen(pn) == 2);
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!arithmetic_eval_to_bool(pen, prib, &res))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
-    if (res == 0) {
+    if (!res) {
       if (!psn) neprintf(pn, "static_assert failed");
       else neprintf(pn, "static_assert failed (%s)", cbdata(&psn->data));
     }
-- 
2.43.0


From c09c5d8cc990a3eab96a83401c6f830bbc1cc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 39/64] fix: accept static initializers of unions

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 3cc4ba7..b731a8e 100644
--- a/c.c
+++ b/c.c
@@ -1210,7 +1210,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (ptn->ts == TS_UNION) { ++j; break; } /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From 9c740319ca62e104b093ba514876280b43e39940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 40/64] fix: diagnose void dereference, unsupported locals and
 bad aggregate initialisers instead of aborting

---
 c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index b731a8e..0374d8b 100644
--- a/c.c
+++ b/c.c
@@ -1296,7 +1296,6 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
     }
   } else {
-    assert(false);
     neprintf(pdn, "valid initializer expected");
   }
   return pd;
@@ -2251,8 +2250,7 @@ static void fundef_wasmify(node_t *pdn)
         ndrem(pbn, i); 
       } break;
       default: {
-        assert(false);
-        ++i;
+        neprintf(pdni, "local variables of type %s are not supported", ts_name(ptni->ts));
       } break;
     }
   }
@@ -3191,6 +3189,8 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
     /* {func_t* | x} => {func_t | x} */
     lift_arg0(patn);
     return pan;
+  } else if (petn->ts == TS_VOID) {
+    neprintf(prn, "cannot dereference void pointer");
   } else { 
     /* {scalar_t* | x} => {IP(scalar_t) | {scalar_t* | x} fetch} */
     ts_t oets = petn->ts, pets = ts_numerical(oets) ? ts_integral_promote(oets) : oets;
-- 
2.43.0


From 080bf1532416d121f34c84345d8eb050f58351b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 41/64] fix: an address is not an initialiser for a non-pointer
 global

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 0374d8b..40c3774 100644
--- a/c.c
+++ b/c.c
@@ -1370,6 +1370,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
             asm_numerical_const(r.ts == TS_PTR ? TS_UINT : r.ts, &r.val, &pg->ic); /* wasm32 */
           } else {
             const node_t *pimn = lookup_global(r.id); inscode_t *pic = &pg->ic;
+            if (ptn->ts != TS_PTR) neprintf(pdn, "unexpected initializer for a non-pointer type");
             if (!pimn) neprintf(pdn, "unknown identifier in address initializer");
             assert(pimn->nt == NT_IMPORT && pimn->name != 0 && ndlen(pimn) == 1);
             pic->in = ndcref(pimn, 0)->ts == TS_FUNCTION ? IN_REF_FUNC : IN_REF_DATA; 
-- 
2.43.0


From d2450c906a400e8c57889998d4a4f083344128a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 42/64] fix: pointers cannot be cast to floating types

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 40c3774..8c4d6ed 100644
--- a/c.c
+++ b/c.c
@@ -2362,7 +2362,7 @@ static bool cast_compatible(const node_t *ptpn, const node_t *ptan)
   if (ptpn->ts == TS_PTR && ts_numerical(ptan->ts))
     return ts_arith_common(ptan->ts, TS_ULONG) == TS_ULONG; /* can be promoted up to ULONG */
   if (ts_numerical(ptpn->ts) && ptan->ts == TS_PTR)
-    return ts_arith_common(ptpn->ts, TS_LONG) == ptpn->ts; /* LONG and up */
+    return ptpn->ts != TS_FLOAT && ptpn->ts != TS_DOUBLE && ts_arith_common(ptpn->ts, TS_LONG) == ptpn->ts; /* LONG and up */
   /* the rest must be compatible */
   return assign_compatible(ptpn, ptan);
 }
-- 
2.43.0


From 7b2ee1e6bb6495571d68ebf08247581c498d2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 43/64] fix: integer constant expressions cannot have floating
 type

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 8c4d6ed..8baf5f4 100644
--- a/c.c
+++ b/c.c
@@ -1014,7 +1014,7 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
 bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
 {
   seval_t r; bool ok = false;
-  if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+  if (static_eval(pn, prib, &r) && ts_numerical(r.ts) && r.ts != TS_FLOAT && r.ts != TS_DOUBLE) {
     numval_convert(TS_INT, r.ts, &r.val);
     *pri = (int)r.val.i;
     ok = true;
-- 
2.43.0


From ab2184095cb4e9561f4414e8eb9c20df36cca33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 44/64] fix: references between data may be forward or circular

---
 w.c | 68 +++++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/w.c b/w.c
index 99fec17..5d40b62 100644
--- a/w.c
+++ b/w.c
@@ -4012,32 +4012,6 @@ size_t watify_wat_module(wat_module_t* pm)
         align = pd->align, n = addr % align;
         if (n > 0) addr += align - n;
         if (n > 0) bufresize(&dseg, buflen(&dseg) + (align-n));
-        if (icblen(&pd->code) > 0) { /* patch pd->data */
-          size_t i; cbuf_t cb = mkcb(); bool gotarg = false;
-          for (i = 0; i < icblen(&pd->code); ++i) {
-            modid_t mi; dpme_t *pdpme; size_t off; 
-            inscode_t *pic = icbref(&pd->code, i);
-            if (!gotarg && pic->in == IN_REF_DATA) {
-              unsigned address;
-              mi.mod = pic->arg2.mod; mi.id = pic->id;
-              pdpme = bufsearch(&dpmap, &mi, &modid_cmp); /* linear, still adding to it */
-              if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
-                mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
-              address = (unsigned)((long long)pdpme->address + pic->arg.i);
-              bufclear(&cb); binuint(address, &cb); /* wasm32 */
-              gotarg = true;
-            } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
-              off = (size_t)pic->arg.u; assert(pic->id == 0);
-              if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
-                eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
-              memcpy(cbdata(&pd->data) + off, cbdata(&cb), 4); /* wasm32 */
-              gotarg = false;
-            } else {
-              eprintf("internal error in data patch");
-            }
-          }
-          cbfini(&cb);
-        }
         cbcat(&dseg, &pd->data);
         curaddr = addr + buflen(&pd->data);
       }
@@ -4045,7 +4019,11 @@ size_t watify_wat_module(wat_module_t* pm)
       pme->mod = pd->mod; pme->id = pd->id;
       pme->address = addr;
       vverbosef("  addr = %u\n", (unsigned)addr);
-      watiefini(pd); bufrem(&pm->exports, i);
+      if (icblen(&pd->code) > 0) { /* refs are patched below */
+        ++i;
+      } else {
+        watiefini(pd); bufrem(&pm->exports, i);
+      }
     } else {
       ++i;
     }
@@ -4054,6 +4032,42 @@ size_t watify_wat_module(wat_module_t* pm)
   /* prepare dpmap for binary search */
   bufqsort(&dpmap, &modid_cmp);
   
+  /* all addresses are known: patch refs in data (may be forward or circular) */
+  for (i = 0; i < watieblen(&pm->exports); /* del or bumpi */) {
+    watie_t *pd = watiebref(&pm->exports, i);
+    if (pd->iek == IEK_DATA) {
+      dpme_t *pme = bufbsearch(&dpmap, pd, &modid_cmp);
+      size_t j, base = pme->address - g_sdbaddr;
+      cbuf_t cb = mkcb(); bool gotarg = false;
+      for (j = 0; j < icblen(&pd->code); ++j) {
+        modid_t mi; dpme_t *pdpme; size_t off; 
+        inscode_t *pic = icbref(&pd->code, j);
+        if (!gotarg && pic->in == IN_REF_DATA) {
+          unsigned address;
+          mi.mod = pic->arg2.mod; mi.id = pic->id;
+          pdpme = bufbsearch(&dpmap, &mi, &modid_cmp);
+          if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
+            mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
+          address = (unsigned)((long long)pdpme->address + pic->arg.i);
+          bufclear(&cb); binuint(address, &cb); /* wasm32 */
+          gotarg = true;
+        } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
+          off = (size_t)pic->arg.u; assert(pic->id == 0);
+          if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
+            eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
+          memcpy(cbdata(&dseg) + base + off, cbdata(&cb), 4); /* wasm32 */
+          gotarg = false;
+        } else {
+          eprintf("internal error in data patch");
+        }
+      }
+      cbfini(&cb);
+      watiefini(pd); bufrem(&pm->exports, i);
+    } else {
+      ++i;
+    }
+  }
+  
   /* patch IN_REF_{DATA,FUNC}s, memory export, zero globals */
   for (i = 0; i < watieblen(&pm->exports); ++i) {
     watie_t *pe = watiebref(&pm->exports, i);
-- 
2.43.0


From 458493f6ec6a37eb25118258dae246b77d8b97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 45/64] fix: strncasecmp orders letters folded to lower case,
 as strcasecmp does

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 52638ed..2348901 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -184,7 +184,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
-- 
2.43.0


From 7fec1bb4eb115735a72ac3e0eccffa3f06710ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 46/64] fix: mbtowc and mblen return 0 for the null character

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 4d0ccef..9109afd 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -775,7 +775,7 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
         if (p) *p = (wchar_t)l;
-        return nc;
+        return l ? nc : 0;
       }
       if (n <= nc) goto ilseq;
       ip++;
-- 
2.43.0


From 5d5f597da8d3b55ee7b6065f44dc60f6152a200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 47/64] fix: strtol and relatives clamp out-of-range values,
 set ERANGE and leave the end pointer at the start without a conversion

---
 lib/src/stdlib.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 9109afd..8952414 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -5,6 +5,7 @@
 #include <stddef.h>
 #include <stdbool.h>
 #include <errno.h>
+#include <limits.h>
 #include <ctype.h>
 #include <math.h>
 #include <unistd.h>
@@ -325,9 +326,10 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, bool sgn, uintmax_t max)
 {
-  int minus = 0; uintmax_t v = 0; int d;
+  const char *start = nptr;
+  int minus = 0, any = 0, over = 0; uintmax_t v = 0; int d;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
   if (n) {
     char c = *nptr;
@@ -338,61 +340,69 @@ static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
     }
   }
   if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
+    if (n >= 3 && nptr[0] == '0' &&
+        (nptr[1] == 'x' || nptr[1] == 'X') &&
+        (d = digitval(nptr[2])) >= 0 && d < 16) {
       n -= 2; nptr += 2; base = 16;
     } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
+      base = 8;
     } else {
       base = 10;
     }
   } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
+    if (n >= 3 && nptr[0] == '0' &&
+        (nptr[1] == 'x' || nptr[1] == 'X') &&
+        (d = digitval(nptr[2])) >= 0 && d < 16) {
       n -= 2; nptr += 2;
     }
   }
+  if (sgn && minus) max += 1; /* the magnitude of the minimum */
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
-    n--; nptr++;
+    if (v > (max - (uintmax_t)d) / (uintmax_t)base) over = 1;
+    else v = v * base + d;
+    n--; nptr++; any = 1;
+  }
+  if (endptr) *endptr = (char *)(any ? nptr : start);
+  if (over) {
+    errno = ERANGE;
+    return (sgn && minus) ? -max : max;
   }
-  if (endptr) *endptr = (char *)nptr;
   return minus ? -v : v;
 }
 
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return (intmax_t)strntoumax(nptr, endptr, base, n, true, INTMAX_MAX);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, true, INTMAX_MAX);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntoumax(nptr, endptr, base, ~(size_t)0, true, LONG_MAX);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0, true, LLONG_MAX);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, false, ULONG_MAX);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0, false, ULLONG_MAX);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, false, UINTMAX_MAX);
 }
 
 static unsigned short rand48_seed[3]; 
-- 
2.43.0


From 7f2aa607a0c369d5d71ae84b4ac25fe3eff51010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 48/64] fix: mbstowcs and wcstombs terminate the result and
 respect the size of the destination

---
 lib/src/stdlib.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 8952414..4ad0c3a 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -832,16 +832,17 @@ size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   while (*ip && n > 0) {
     if (*ip & 0x80) {
-      int size = mbtowc(op, (const char *)ip, n);
+      int size = mbtowc(op, (const char *)ip, MB_CUR_MAX);
       if (size == -1) { /* ignore character and move on */
-        ip++; n--;
+        ip++;
       } else {
-        op++; ip += size; n -= size;
+        op++; ip += size; n--;
       }
     } else {
       *op++ = *ip++; n--;
     }
   }
+  if (n > 0) *op = 0;
   return op - pwcs;
 }
 
@@ -852,15 +853,13 @@ size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen)
   while (*ip && maxlen > 0) {
     if (*ip > 0x7f) {
       int size = wctomb_chk(op, *ip, maxlen);
-      if (size == -1) { /* ignore character and move on */
-        maxlen--;
-      } else {
-        op += size; maxlen -= size;
-      }
+      if (size == -1) break; /* does not fit */
+      op += size; maxlen -= size;
     } else {
-      *op++ = (unsigned char)*ip;
+      *op++ = (unsigned char)*ip; maxlen--;
     }
     ip++;
   }
+  if (maxlen > 0) *op = 0;
   return op - (unsigned char *)s;
 }
-- 
2.43.0


From a354287882f08819b3e14c2ecc863c8202a8d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 49/64] fix: scanf keeps the leading zero of a number

---
 lib/src/stdio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 75d6579..52b5f6b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -642,13 +642,13 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
         if (c == 'x' || c == 'X') {
           (*in)(data, (*pidx)++, maxlen, true);
-          base = 16; dc = 0;
+          base = 16; dc = 0; --len;
         }
         else base = 8;
       }
@@ -657,13 +657,13 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
         if (c == 'x' || c == 'X') {
           (*in)(data, (*pidx)++, maxlen, true);
-          dc = 0;
+          dc = 0; --len;
         }
       }
     }
-- 
2.43.0


From bd4cc6595029c176a54d6f2d34e0d63f0f494df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 50/64] fix: sscanf reads bytes above 0x7f as characters

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 52b5f6b..db34bc8 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -589,7 +589,7 @@ typedef int(*in_fct_t)(void *data, size_t idx, size_t maxlen, bool get);
 /* internal buffer input */
 static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 {
-  if (idx < maxlen) return ((char*)data)[idx];
+  if (idx < maxlen) return ((unsigned char*)data)[idx];
   return EOF;
 }
 
-- 
2.43.0


From 23f6d22f014eac80a4854360e6b78aa171c1884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 51/64] fix: %c writes the null character to streams

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index db34bc8..bf09f6a 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1122,7 +1122,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
 /* output the specified string in reverse, taking care of any zero-padding */
@@ -1607,7 +1607,7 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out == &_out_buffer) (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From 5ae6d9f30dbcb115a8884aa1ad1541e3f196c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 52/64] fix: a negative precision argument of printf counts as
 omitted

---
 lib/src/stdio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index bf09f6a..022405b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1478,6 +1478,7 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
       } else if (*format == '*') {
         const int prec = (int)va_arg(va, int);
         precision = prec > 0 ? (unsigned int)prec : 0U;
+        if (prec < 0) flags &= ~FLAGS_PRECISION; /* as if omitted */
         ++format;
       }
     }
-- 
2.43.0


From 16062ee39ae80f95a6c991a40f871fc6d4416dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 53/64] fix: %s and snscanf do not read past the precision or
 count

---
 lib/src/stdio.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 022405b..118bb44 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -552,7 +552,7 @@ static bool _is_hex_digit(char ch)
 static unsigned int _strnlen_s(const char* str, size_t maxsize)
 {
   const char* s;
-  for (s = str; *s && maxsize--; ++s);
+  for (s = str; maxsize-- && *s; ++s);
   return (unsigned int)(s - str);
 }
 
@@ -1573,12 +1573,11 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
       } break;
       case 's': {
         const char* p = va_arg(va, char*);
-        unsigned int l = _strnlen_s(p, precision ? precision : (size_t)-1);
-        if (flags & FLAGS_PRECISION) l = (l < precision ? l : precision);
+        unsigned int l = _strnlen_s(p, (flags & FLAGS_PRECISION) ? precision : (size_t)-1);
         if (!(flags & FLAGS_LEFT)) {
           while (l++ < width) (*out)(' ', data, idx++, maxlen);
         }
-        while (*p != 0 && (!(flags & FLAGS_PRECISION) || precision--)) {
+        while ((!(flags & FLAGS_PRECISION) || precision--) && *p != 0) {
           (*out)(*(p++), data, idx++, maxlen);
         }
         if (flags & FLAGS_LEFT) {
-- 
2.43.0


From b9a8206a448c51bcc40527436ba4947ff743d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 54/64] fix: integer conversions of printf are not limited to
 32 characters and follow the rules for # and 0

---
 lib/src/stdio.c | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 118bb44..cc9eba2 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1070,8 +1070,8 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 /* derived from: https://github.com/mpaland/printf (c) Marco Paland (info@paland.com) */
 
 /* 'ntoa' conversion buffer size, this must be big enough to hold one converted
- * integer number including padded zeros (dynamically created on stack) */
-#define PRINTF_NTOA_BUFFER_SIZE    32U
+ * integer number (dynamically created on stack) */
+#define PRINTF_NTOA_BUFFER_SIZE    64U
 
 /* 'ftoa' conversion buffer size, this must be big enough to hold one converted
  * float number including padded zeros (dynamically created on stack) */
@@ -1142,26 +1142,30 @@ static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, con
 /* internal itoa format */
 static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
-  while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  if (!(flags & FLAGS_LEFT)) {
-    if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
+  const size_t start_idx = idx; size_t zeros = 0U, plen = 0U; char pfx[3];
+  if (negative) pfx[plen++] = '-';
+  else if (flags & FLAGS_PLUS) pfx[plen++] = '+';
+  else if (flags & FLAGS_SPACE) pfx[plen++] = ' ';
   if (flags & FLAGS_HASH) {
-    if (!(flags & FLAGS_PRECISION) && len && ((len == prec) || (len == width))) {
-      --len; if (len && (base == 16U)) --len;
+    if (base == 8U) { /* the first digit must be zero */
+      if (prec <= len && !(len && buf[len-1] == '0')) prec = (unsigned int)len + 1U;
+    } else {
+      pfx[plen++] = '0';
+      pfx[plen++] = base == 2U ? 'b' : (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
     }
-    if ((base == 16U) && !(flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'x';
-    else if ((base == 16U) && (flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'X';
-    else if ((base == 2U) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'b';
-    if (len < PRINTF_NTOA_BUFFER_SIZE) buf[len++] = '0';
   }
-  if (len < PRINTF_NTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+'; 
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  if (prec > len) zeros = prec - len;
+  if ((flags & FLAGS_ZEROPAD) && !(flags & FLAGS_LEFT) && width > plen + zeros + len) zeros = width - plen - len;
+  if (!(flags & FLAGS_LEFT)) {
+    size_t i; for (i = plen + zeros + len; i < width; i++) (*out)(' ', data, idx++, maxlen);
   }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  for (size_t i = 0; i < plen; i++) (*out)(pfx[i], data, idx++, maxlen);
+  while (zeros) { (*out)('0', data, idx++, maxlen); --zeros; }
+  while (len) (*out)(buf[--len], data, idx++, maxlen);
+  if (flags & FLAGS_LEFT) {
+    while (idx - start_idx < width) (*out)(' ', data, idx++, maxlen);
+  }
+  return idx;
 }
 
 /* internal itoa for 'long' type */
@@ -1169,7 +1173,7 @@ static size_t _ntoa_long(out_fct_t out, void *data, size_t idx, size_t maxlen, u
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8U) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
@@ -1185,7 +1189,7 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8U) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
-- 
2.43.0


From c8179551f1e85fed23b96a1f3ff0928dd07f6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 55/64] fix: scanf returns 0 and not EOF when a scan set
 matches nothing

---
 lib/src/stdio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index cc9eba2..9ab9c25 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -972,7 +972,8 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
             ++i; (*in)(data, idx++, maxlen, true);
           }
         }
-        if (!i || (t == 'c' && i != width)) 
+        if (!i) return matchc; /* matching failure */
+        if (t == 'c' && i != width) 
           return matchc ? matchc : EOF;
         if (t != 'c') {
           if (s) s[i] = 0;
-- 
2.43.0


From 4a5ff4b628d3c3f4a3dde95302425463c75d16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 56/64] fix: ungetc pushes one character back at any position,
 clears end-of-file and does not write through a null buffer

---
 lib/src/stdio.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 9ab9c25..1b3d563 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -370,13 +370,19 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
+  if (c == EOF) return EOF;
+  if (!(fp->flags & _IOREAD)) {
+    if ((fp->flags & (_IORW|_IOWRT)) != _IORW) return EOF; /* not reading */
+    fp->flags |= _IOREAD;
+  }
+  if (fp->base == NULL) addbuf(fp);
+  if (fp->ptr <= fp->base) {
+    if (fp->cnt > 0) return EOF; /* no room */
+    fp->ptr = fp->base + 1; fp->cnt = 0;
   }
+  fp->flags &= ~_IOEOF;
   *--fp->ptr = c; ++fp->cnt;
-  return c;
+  return (unsigned char)c;
 }
 
 int fseek(FILE *fp, long offset, int origin)
@@ -388,7 +394,7 @@ int fseek(FILE *fp, long offset, int origin)
       c = fp->cnt; p = offset;
       if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
       else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+      if (!(fp->flags & _IORW) && c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
@@ -464,7 +470,7 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
     if (fp->base != NULL && !(fp->flags & _IONBF)) {
       c = fp->cnt; p = offset;
       p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+      if (!(fp->flags & _IORW) && c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
-- 
2.43.0


From 2c079b887436b5c7b030ce493db4f2bc341a3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 57/64] fix: an update stream can be read after fflush

---
 lib/src/stdio.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 1b3d563..c9aa08c 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -334,6 +334,9 @@ int fflush(FILE *fp)
          (fp->base != NULL) && (fp->ptr > fp->base)) {
     writebuf(fp);
   }
+  if (fp->flags & _IORW) { /* may be read next */
+    fp->flags &= ~_IOWRT; fp->cnt = 0;
+  }
   return ferror(fp) ? EOF : 0;
 }
 
-- 
2.43.0


From d0dfeb3df438cac75509d55ff268e5ee202278a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 58/64] fix: fwrite to a line-buffered stream looks for
 newlines in what it writes

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index c9aa08c..55db662 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -271,7 +271,7 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
     /* done; flush if linebuffered with a newline */
     if ((nleft -= n) == 0) { 
       if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', count*size) != NULL)) 
+        if ((fp->flags & _IONBF) || (memchr(buf, '\n', count*size) != NULL)) 
           writebuf(fp);
       }
       return (count);
-- 
2.43.0


From 021ee8b9757528e6ac627ba22da3373fdbb34d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 59/64] fix: unused halves of split blocks were not marked as
 free and never joined with their sibling

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 4ad0c3a..1562ecd 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -597,6 +597,7 @@ static header_t *pullblock(size_t bi)
       header_t *pb2 = (header_t *)((char*)pb + BI2BLKSZ(bi));
       if ((pbi = buckets[bi]) != NULL) pbi->free.prev = pb2;
       pb2->free.next = pbi; pb2->free.prev = NULL;
+      (pb2+1)->used.bi = (uint8_t)bi; /* bi mark */
       buckets[bi] = pb2;
     }
     return pb;
-- 
2.43.0


From 663e3a86413ece4c2f63011e761928c7e50fac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 60/64] fix: requests for more than 1 GB failed an assertion
 instead of returning a null pointer

---
 lib/src/unistd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/unistd.c b/lib/src/unistd.c
index 1f65898..ca71eeb 100644
--- a/lib/src/unistd.c
+++ b/lib/src/unistd.c
@@ -140,7 +140,7 @@ int isatty(int fd)
 
 void *sbrk(intptr_t inc) /* inc should be a multiple of 64K */
 {
-  assert(inc >= 0 && (inc & 0xFFFF) == 0);
+  assert((inc & 0xFFFF) == 0);
   if (!inc) return (void *)asm(memory.size, i32.const 16, i32.shl);
   size_t new = (size_t)inc >> 16;
   size_t old = (size_t)asm(i32.const 0, local.get new, memory.grow);
-- 
2.43.0


From 4144e678533bc11a0bedfbdf604734cbc9f6d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 61/64] fix: streams were closed before functions registered
 with atexit were called

---
 lib/src/stdio.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 55db662..18052cb 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -4,6 +4,7 @@
 #include <ctype.h>
 #include <string.h>
 #include <stdlib.h>
+#include <sys/crt.h>
 #include <stdint.h>
 #include <fcntl.h>
 #include <unistd.h>
@@ -46,7 +47,12 @@ static void initialize(void)
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    /* streams are closed after all functions registered with atexit are called */
+    if (atexit(&closeall) == 0) {
+      size_t i;
+      for (i = onterm_count - 1; i > 0; --i) onterm_funcs[i] = onterm_funcs[i - 1];
+      onterm_funcs[0] = &closeall;
+    }
     initialized = true;
   }
 }
-- 
2.43.0


From 522ed1f12f9c5279e91e01dec7a09b3fa2f4431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 62/64] fix: mktime was wrong after 2038 and in 1900, ignored
 months out of range and did not set the other fields

---
 lib/src/time.c | 55 ++++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 91d5d92..e9cf9a1 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -14,29 +14,11 @@
 #define DAYS_PER_100Y (365*100 + 24)
 #define DAYS_PER_4Y   (365*4   + 1)
 #define DAYS_PER_WEEK 7
-/* year range is from 1901 to 2038, so no century can occur which is not a leap year
- * #define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0)) */
-#define is_leap(y)  ((y) % 4 == 0)
 
 static int days_in_month[] = {
   31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29
 };
 
-static const int mon_days[] = {
-  31,
-  31 + 28,
-  31 + 28 + 31,
-  31 + 28 + 31 + 30,
-  31 + 28 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30 + 31
-};
-
 static const char *wday_name[7] = {
   "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"
 };
@@ -259,26 +241,29 @@ void tzset(void)
 
 time_t mktime(struct tm *tm)
 {
-  long tyears, tdays, leaps, utc_hrs;
-  int leap_year;
+  long long years, eras, days, t;
+  int months, remyears;
 
   tzset();
-  leap_year = is_leap(tm->tm_year + 1900);
-  tyears = tm->tm_year - 70;
-  leaps = (tyears + 2) / 4;
-  if (tyears < 0) {
-    leaps = (tyears - 2) / 4;
-    if (leap_year && tm->tm_mon > 1) ++leaps;
-  } else {
-    leaps = (tyears + 2) / 4; /* no of next two lines until year 2100. */
-    if (leap_year && (tm->tm_mon == 0 || tm->tm_mon == 1)) --leaps;
+  /* years are counted from March so that a leap day is the last one */
+  years = tm->tm_year + 1900LL + tm->tm_mon / 12;
+  months = tm->tm_mon % 12 - 2;
+  if (months < 0) { months += 12; --years; }
+  if (months < 0) { months += 12; --years; }
+  eras = years / 400;
+  remyears = (int)(years % 400);
+  if (remyears < 0) { remyears += 400; --eras; }
+  days = eras * DAYS_PER_400Y + remyears * 365 + remyears / 4 - remyears / 100;
+  days += (months * 153 + 2) / 5 - 719468 - 1LL; /* since 1970-01-00 */
+  days += tm->tm_mday;
+
+  t = days * 86400LL + tm->tm_hour * 3600LL + tm->tm_min * 60LL + tm->tm_sec;
+  if (secs_to_tm(t, tm) < 0) {
+    errno = EOVERFLOW;
+    return (time_t)-1LL;
   }
-  tdays = (tm->tm_mon > 0) ? mon_days[tm->tm_mon - 1] : 0;
-  tdays += tm->tm_mday - 1; /* days of month passed. */
-  tdays += (tyears * 365) + leaps;
-  utc_hrs = tm->tm_hour;
-
-  return (tdays * 86400L) + (utc_hrs * 3600L) + ((long)tm->tm_min * 60L) + (long)tm->tm_sec + timezone;
+  tm->tm_isdst = 0;
+  return (time_t)(t + timezone);
 }
 
 char *asctime_r(const struct tm *ptm, char *buf)
-- 
2.43.0


From 764094fe6935d393fe5f9b89595fceb513ba1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 63/64] fix: strftime's %y was not a number for years before
 1900

---
 lib/src/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index e9cf9a1..1c923f3 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -431,8 +431,8 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
+          addval[0] = '0' + (((tp->tm_year + 1900) % 100) / 10);
+          addval[1] = '0' + (((tp->tm_year + 1900) % 100) % 10);
           addval[2] = '\0';
           break;
         case 'Y':
-- 
2.43.0


From 162549c4ed0946c44388ce004cbd07de08247686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 64/64] fix: strftime's %w wrote two digits

---
 lib/src/time.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 1c923f3..45312b9 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -420,9 +420,8 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
+          addval[0] = '0' + tp->tm_wday;
+          addval[1] = '\0';
           break;
         case 'x':
           strftime(addval, 80, "%d.%m.%Y", tp);
-- 
2.43.0

