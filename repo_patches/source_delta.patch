From 5fb20469846a046aa4d1fece3a9acb0b49f9a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 001/106] fix: unsigned-to-signed conversion fusion must keep
 the overflow test

TEST(n,p) o COPY(m,n) and TEST_INF(p) o COPY_INF(m) take an unsigned m-bit value
to a signed p-bit type; they are a plain COPY only when p > m, and otherwise
need TESTU(m,p).  Previously Int.fromLarge(Word.toLargeInt w) silently returned
a negative number instead of raising Overflow.
---
 base/compiler/CPS/opt/contract-prim.sml | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/base/compiler/CPS/opt/contract-prim.sml b/base/compiler/CPS/opt/contract-prim.sml
index 1d35189..d9d0060 100644
--- a/base/compiler/CPS/opt/contract-prim.sml
+++ b/base/compiler/CPS/opt/contract-prim.sml
@@ -234,11 +234,16 @@ structure ContractPrim : sig
                               (* TEST(n,p) o TEST(∞,n) ==> TEST(∞, p) *)
                               Arith(P.TEST_INF p, [u, f])
                           | PUREinfo(P.COPY{from=m, ...}, [u]) =>
-                              if (p >= m)
-                                (* TEST(n,p) o COPY(m,n) ==> COPY(m, p) if (p >= m) *)
+                              if (m = n)
+                                (* TEST(n,p) o COPY(n,n) ==> TEST(n, p) *)
+                                then Arith(P.TEST{from=m, to=p}, [u])
+                              else if (p > m)
+                                (* TEST(n,p) o COPY(m,n) ==> COPY(m, p) if (p > m) *)
                                 then mkCOPY(m, p, u)
-                                (* TEST(n,p) o COPY(m,n) ==> TEST(m, p) if (p < m) *)
-                                else Arith(P.TEST{from=m, to=p}, [u])
+                                (* the result of the COPY is non-negative, so
+                                 * TEST(n,p) o COPY(m,n) ==> TESTU(m, p) if (p <= m)
+                                 *)
+                                else Arith(P.TESTU{from=m, to=p}, [u])
                           | PUREinfo(P.EXTEND{from=m, ...}, [u]) =>
                               if (p >= m)
                                 (* TEST(n,p) o EXTEND(m,n) ==> EXTEND(m, p) if (p >= m) *)
@@ -281,11 +286,11 @@ structure ContractPrim : sig
              * `Core.testInf` function).
              *)
             | (P.TEST_INF p, VAR v::_) => (case #info(get v)
-                 of PUREinfo(P.COPY_INF m, u::_) => if (p >= m)
-                      (* TEST(∞,p) o COPY(m,∞) ==> COPY(m,p) when (p >= m) *)
+                 of PUREinfo(P.COPY_INF m, u::_) => if (p > m)
+                      (* TEST(∞,p) o COPY(m,∞) ==> COPY(m,p) when (p > m) *)
                       then mkCOPY(m, p, u)
-                      (* TEST(∞,p) o COPY(m,∞) ==> TEST(m,p) when (p < m) *)
-                      else Arith(P.TEST{from=m, to=p}, [u])
+                      (* TEST(∞,p) o COPY(m,∞) ==> TESTU(m,p) when (p <= m) *)
+                      else Arith(P.TESTU{from=m, to=p}, [u])
                   | PUREinfo(P.EXTEND_INF m, u::_) => if (p >= m)
                       (* TEST(∞,p) o EXTEND(m,∞) ==> EXTEND(m,p) when (p >= m) *)
                       then Pure(P.EXTEND{from=m, to=p}, [u])
-- 
2.43.0


From 42403182102d48b5242c0caade999eda83291b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 002/106] fix: TESTU o EXTEND fusion must not drop the overflow
 test

A sign-extended negative value is out of range for the unsigned test, so
TESTU(n,p) o EXTEND(m,n) is not EXTEND(m,p).
---
 base/compiler/CPS/opt/contract-prim.sml | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/compiler/CPS/opt/contract-prim.sml b/base/compiler/CPS/opt/contract-prim.sml
index d9d0060..8a27486 100644
--- a/base/compiler/CPS/opt/contract-prim.sml
+++ b/base/compiler/CPS/opt/contract-prim.sml
@@ -273,10 +273,12 @@ structure ContractPrim : sig
                         (* TESTU(n,p) o COPY(m,n) ==> TESTU(m, p) if (p <= m) *)
                         else Arith(P.TESTU{from=m, to=p}, [u])
                   | PUREinfo(P.EXTEND{from=m, ...}, [u]) =>
-                      if (p >= m)
-                        (* TESTU(n,p) o EXTEND(m,n) ==> EXTEND(m, p) if (p >= m) *)
-                        then Pure(P.EXTEND{from=m, to=p}, [u])
-                        (* TESTU(n,p) o EXTEND(m,n) ==> TESTU(m, p) if (p < m) *)
+                      if (p > m)
+                        (* the test is still needed when the result of the EXTEND is
+                         * negative, so there is no fusion if (p > m)
+                         *)
+                        then None
+                        (* TESTU(n,p) o EXTEND(m,n) ==> TESTU(m, p) if (p <= m) *)
                         else Arith(P.TESTU{from=m, to=p}, [u])
                   | _ => None
                 (* end case *))
-- 
2.43.0


From 9c4bf31afd653f5f74775235345959b3b3fc67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 003/106] fix: TRUNC o EXTEND fusion must clear the bits above
 a small word size

Word types smaller than the default int are kept zero extended, so a truncation
to such a type may not be replaced by a sign extension (for example
Word32.fromLarge(Word8.toLargeX 0wxff) printed 0wx7FFFFFFFFFFFFFFF).
---
 base/compiler/CPS/opt/contract-prim.sml | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/compiler/CPS/opt/contract-prim.sml b/base/compiler/CPS/opt/contract-prim.sml
index 8a27486..804cbb3 100644
--- a/base/compiler/CPS/opt/contract-prim.sml
+++ b/base/compiler/CPS/opt/contract-prim.sml
@@ -472,7 +472,12 @@ structure ContractPrim : sig
                                 (* TRUNC(n,p) o COPY(m,n) ==> TRUNC(m,p) if (p < m) *)
                                 else Pure(P.TRUNC{from=m, to=p}, [u])
                           | PUREinfo(P.EXTEND{from=m, to=n}, arg) =>
-                              if (p >= m)
+                              if (p >= m) andalso (p < Target.defaultIntSz)
+                                (* the bits above p must be zero, but EXTEND(m,p) would
+                                 * set them when the argument is negative
+                                 *)
+                                then None
+                              else if (p >= m)
                                 (* TRUNC(n,p) o EXTEND(m,n) ==> EXTEND(m,p) if (p >= m) *)
                                 then Pure(P.EXTEND{from=m, to=p}, arg)
                                 (* TRUNC(n,p) o EXTEND(m,n) ==> TRUNC(m,p) if (p < m) *)
@@ -507,7 +512,11 @@ structure ContractPrim : sig
                       then mkCOPY(m, p, u)
                       (* TRUNC(∞,p) o COPY(m,∞) ==> TRUNC(m,p) when (m > p) *)
                       else Pure(P.TRUNC{from=m, to=p}, [u])
-                  | PUREinfo(P.EXTEND_INF m, [u, _]) => if (p >= m)
+                  | PUREinfo(P.EXTEND_INF m, [u, _]) =>
+                      if (p >= m) andalso (p < Target.defaultIntSz)
+                        (* the bits above p must be zero *)
+                        then None
+                      else if (p >= m)
                       (* TRUNC(∞,p) o EXTEND(m,∞) ==> EXTEND(m,p) when (p >= m) *)
                       then Pure(P.EXTEND{from=m, to=p}, [u])
                       (* TRUNC(∞,p) o EXTEND(m,∞) ==> TRUNC(m,p) when (m > p) *)
-- 
2.43.0


From 9a6588e8852b811d77935d96522a908ee434ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 004/106] fix: Int32.abs must raise Overflow for the smallest
 integer on 64-bit targets

---
 base/system/smlnj/init/target64-inline.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/smlnj/init/target64-inline.sml b/base/system/smlnj/init/target64-inline.sml
index 809777a..e69ef03 100644
--- a/base/system/smlnj/init/target64-inline.sml
+++ b/base/system/smlnj/init/target64-inline.sml
@@ -191,6 +191,7 @@ structure InlineT =
         val op div  : int32 * int32 -> int32  = i32chk InLine.int32_div
         val op mod  : int32 * int32 -> int32  = InLine.int32_mod
         val ~       : int32 -> int32          = i32chk InLine.int32_neg
+        val abs     : int32 -> int32          = i32chk InLine.int32_abs
         val op <    : int32 * int32 -> bool   = InLine.int32_lt
         val op <=   : int32 * int32 -> bool   = InLine.int32_le
         val op >    : int32 * int32 -> bool   = InLine.int32_gt
@@ -201,7 +202,6 @@ structure InlineT =
 
         val min     : int32 * int32 -> int32  = InLine.int32_min
         val max     : int32 * int32 -> int32  = InLine.int32_max
-        val abs     : int32 -> int32          = InLine.int32_abs
       end
 
     structure Int64 =
-- 
2.43.0


From 1c1fab4579f77d8fc667a8cbce862cc65e86017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:48 +0000
Subject: [PATCH 005/106] fix: maxInt - x must raise Overflow when x is
 negative

The tagged constant 2*maxInt+2 wraps around, so the subtraction did not trap.
---
 base/compiler/CodeGen/main/mlrisc-gen-fn.sml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
index 2a35c20..323848c 100644
--- a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
+++ b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
@@ -724,7 +724,11 @@ functor MLRiscGen (
 		| tagIntAdd (addOp, w, v as C.NUM _) = tagIntAdd(addOp, v, w)
 		| tagIntAdd (addOp, v, w) = addOp(ity, regbind v, stripTag(regbind w))
 
-	      fun tagIntSub (subOp, C.NUM{ival=k, ...}, w) = subOp(ity, LI(k+k+2), regbind w)
+	      fun tagIntSub (subOp, v as C.NUM{ival=k, ...}, w) =
+		  (* 2*k+2 is not representable when k is the largest tagged integer *)
+		    if (k+k+2 = IntInf.<<(1, Word.fromInt Target.defaultIntSz))
+		      then addTag(subOp(ity, regbind v, regbind w))
+		      else subOp(ity, LI(k+k+2), regbind w)
 		| tagIntSub (subOp, v, C.NUM{ival=k, ...}) = subOp(ity, regbind v, LI(k+k))
 		| tagIntSub (subOp, v, w) = addTag(subOp(ity, regbind v, regbind w))
 
-- 
2.43.0


From 0a9f5930eb8c68d7b9415ca474a33ca3f956ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:27 +0000
Subject: [PATCH 006/106] fix: Int64.rem and Int64.mod of minInt by ~1 are 0,
 not Overflow

---
 base/compiler/FLINT/trans/transprim.sml | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/base/compiler/FLINT/trans/transprim.sml b/base/compiler/FLINT/trans/transprim.sml
index fd02ce3..e558f29 100644
--- a/base/compiler/FLINT/trans/transprim.sml
+++ b/base/compiler/FLINT/trans/transprim.sml
@@ -416,6 +416,23 @@ structure TransPrim : sig
 			end
 		   | NONE => (warn "no access to Div exception"; oper)
 		end
+	(* signed remainder operators.  For machine-sized integers, the hardware divide
+	 * traps on the smallest integer and ~1, but the remainder by ~1 is always 0.
+	 *)
+	  fun inlrem (nk as PO.INT sz, po, lt, ts) =
+		if (sz <= Tgt.defaultIntSz)
+		  then inldiv (nk, po, lt, ts)
+		  else let
+		    val { lt_argpair, zero, negOne, equal, ... } = inlops nk
+		    val oper = inldiv (nk, po, lt, ts)
+		    in
+		      mkFn lt_argpair (fn z =>
+			mkCOND (
+			  mkApp2 (equal, L.SELECT(1, z), negOne),
+			  zero,
+			  L.APP(oper, z)))
+		    end
+	    | inlrem (nk, po, lt, ts) = inldiv (nk, po, lt, ts)
 	(* inline min/max *)
 	  fun inlminmax (nk, ismax) = let
 		val { lt_argpair, less, greater, lt_cmp, ... } = inlops nk
@@ -503,13 +520,13 @@ structure TransPrim : sig
 	     of PO.INLDIV(k as (PO.INT sz)) =>
 		  inldiv (k, PO.IARITH{oper=PO.IDIV, sz=sz}, lt, ts)
 	      | PO.INLMOD(k as (PO.INT sz)) =>
-		  inldiv (k, PO.IARITH{oper=PO.IMOD, sz=sz}, lt, ts)
+		  inlrem (k, PO.IARITH{oper=PO.IMOD, sz=sz}, lt, ts)
 	      | PO.INLQUOT(k as (PO.INT sz)) =>
 		  inldiv (k, PO.IARITH{oper=PO.IQUOT, sz=sz}, lt, ts)
 	      | PO.INLQUOT k =>
 		  inldiv (k, PO.PURE_ARITH{oper=PO.QUOT, kind=k}, lt, ts)
 	      | PO.INLREM(k as (PO.INT sz)) =>
-		  inldiv (k, PO.IARITH{oper=PO.IREM, sz=sz}, lt, ts)
+		  inlrem (k, PO.IARITH{oper=PO.IREM, sz=sz}, lt, ts)
 	      | PO.INLREM k =>
 		  inldiv (k, PO.PURE_ARITH{oper=PO.REM, kind=k}, lt, ts)
 	      | PO.INLLSHIFT k => inlineLogicalShift (lshiftOp, k)
-- 
2.43.0


From 168fab5dd86a78c4edf8acc3c0047d7fe81f6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:27 +0000
Subject: [PATCH 007/106] fix: scanners must skip all white space in the sense
 of Char.isSpace

The numeric scanners and StringCvt.skipWS did not skip \v, \f and \r.
---
 base/system/Basis/Implementation/pre-basis.sml | 3 +++
 base/system/Basis/Implementation/scan-util.sml | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/pre-basis.sml b/base/system/Basis/Implementation/pre-basis.sml
index 49e93d2..21b57fa 100644
--- a/base/system/Basis/Implementation/pre-basis.sml
+++ b/base/system/Basis/Implementation/pre-basis.sml
@@ -46,6 +46,9 @@ structure PreBasis =
 	  fun isWS (#" ") = true
 	    | isWS (#"\t") = true
 	    | isWS (#"\n") = true
+	    | isWS (#"\v") = true
+	    | isWS (#"\f") = true
+	    | isWS (#"\r") = true
 	    | isWS _ = false
 	  fun lp cs = (case (getc cs)
 		 of (SOME(c, cs')) => if (isWS c) then lp cs' else cs
diff --git a/base/system/Basis/Implementation/scan-util.sml b/base/system/Basis/Implementation/scan-util.sml
index 5e34344..1ea5f70 100644
--- a/base/system/Basis/Implementation/scan-util.sml
+++ b/base/system/Basis/Implementation/scan-util.sml
@@ -60,7 +60,7 @@ structure ScanUtil : sig
    * characters map to 255.
    *)
     val cvtTable = "\
-	  \\255\255\255\255\255\255\255\255\255\128\128\255\255\255\255\255\
+	  \\255\255\255\255\255\255\255\255\255\128\128\128\128\128\255\255\
 	  \\255\255\255\255\255\255\255\255\255\255\255\255\255\255\255\255\
 	  \\128\255\255\255\255\255\255\255\255\255\255\129\255\130\131\255\
 	  \\000\001\002\003\004\005\006\007\008\009\255\255\255\255\255\255\
-- 
2.43.0


From 5dbcc83a75c87bc205d8379eacebc605cb440fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:57 +0000
Subject: [PATCH 008/106] fix: compiler crash on a constant division that
 reduces to a quotient by ~1

The contracted operation was a signed non-trapping negation, which the code
generator does not implement.
---
 base/compiler/CPS/opt/contract-prim.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/compiler/CPS/opt/contract-prim.sml b/base/compiler/CPS/opt/contract-prim.sml
index 804cbb3..f304e08 100644
--- a/base/compiler/CPS/opt/contract-prim.sml
+++ b/base/compiler/CPS/opt/contract-prim.sml
@@ -336,7 +336,8 @@ structure ContractPrim : sig
             (***** QUOT *****)
             | (P.PURE_ARITH{oper=P.QUOT, ...}, v :: NUM{ival=1, ...} :: _) => Val v
             | (P.PURE_ARITH{oper=P.QUOT, kind}, v :: NUM{ival= ~1, ...} :: _) =>
-                Pure(P.PURE_ARITH{oper=P.NEG, kind=kind}, [v])
+                (* the code generators only support non-trapping negation for UINT *)
+                Pure(P.PURE_ARITH{oper=P.NEG, kind=P.UINT(sizeOfKind kind)}, [v])
             | (P.PURE_ARITH{oper=P.QUOT, ...}, _ :: NUM{ival=0, ...} :: _) => None
             | (P.PURE_ARITH{oper=P.QUOT, kind=P.UINT sz}, NUM i :: NUM j :: _) =>
                 Val(NUM{ival = CA.uDiv(sz, #ival i, #ival j), ty = #ty i})
-- 
2.43.0


From 095d1b44d1bd57f2c83873268e8636014a5ee267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 009/106] fix: amd64 division by a power of two must not modify
 its operand

The instruction sequences for signed division (and modulo or multiplication) by
a literal power of two negate or bias the dividend in place, which clobbered the
variable when the dividend was already in a register: (x quot 4, x) returned a
wrong second component for negative x, and x div ~2 a wrong quotient.
---
 MLRISC/amd64/mltree/amd64-gen.sml | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index 2255bcc..ceb5420 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -471,6 +471,14 @@ functor AMD64Gen (
 		r
 	      end
 
+	(* evaluate `e` into a fresh register, which the caller is free to modify *)
+	and genExprCopy e = let
+	      val r = newReg ()
+	      in
+		expr (e, r, []);
+		r
+	      end
+
 	and expr' (ty, e, dst, an) = let
               val dstOpnd = gpr (ty, dst)
 	      fun equalDst (I.Direct (_,r)) = CB.sameColor(r, dst)
@@ -613,7 +621,7 @@ functor AMD64Gen (
 		      | SOME(_, false, _, p) =>
 		          shift (ty, O.sarOp, T.REG (ty, getExpr e1), p)
 		      | SOME(_, true, _, p) => let
-			  val reg = getExpr e1
+			  val reg = genExprCopy e1
 			  in
 			    emit(I.UNARY { unOp = O.negOp ty, opnd = I.Direct (ty,reg) });
 			    shift (ty, O.sarOp, T.REG (ty, reg), p)
@@ -651,7 +659,7 @@ functor AMD64Gen (
 		      | SOME(_, false, a, _) =>
 		          binaryComm (ty, O.andOp, e1, T.LI (T.I.fromInt32 (ty, a - 1)))
 		      | SOME(_, true, a, _) => let
-			  val r1 = getExpr e1
+			  val r1 = genExprCopy e1
 			  val o1 = I.Direct (ty,r1)
 			  in
 			    emit (I.UNARY { unOp = O.negOp ty, opnd = o1 });
@@ -683,7 +691,7 @@ functor AMD64Gen (
 		     of SOME(n, isneg, a, p) =>
 		       if signed then
 			   let val label = Label.anon ()
-			       val reg1 = getExpr e1
+			       val reg1 = genExprCopy e1
 			       val opnd1 = I.Direct (ty,reg1)
 			   in
 			       if isneg then
@@ -822,7 +830,7 @@ functor AMD64Gen (
 
 	      fun multiply_notrap (ty, e1, e2 as T.LI n') = (case analyze n'
 		     of SOME(_, isneg, _, p) => let
-			  val r1 = getExpr e1
+			  val r1 = genExprCopy e1
 			  val o1 = I.Direct (ty,r1)
 			  in
 			    if isneg
-- 
2.43.0


From 8e12c736ec81f04239820db53caaa14dee724433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:37 +0000
Subject: [PATCH 010/106] fix: amd64 quotient of the smallest integer by a
 negative power of two

Negate the quotient instead of the dividend, whose negation overflows:
Int64.quot(minInt, ~2) returned a negative number.
---
 MLRISC/amd64/mltree/amd64-gen.sml | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index ceb5420..6a82305 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -694,10 +694,7 @@ functor AMD64Gen (
 			       val reg1 = genExprCopy e1
 			       val opnd1 = I.Direct (ty,reg1)
 			   in
-			       if isneg then
-				   emit (I.UNARY { unOp = O.negOp ty,
-						   opnd = opnd1 })
-			       else if setZeroBit e1 then ()
+			       if setZeroBit e1 then ()
 			       else emit (O.cmpOp ty { lsrc = opnd1,
 						   rsrc = I.Immed 0 });
 			       emit (I.JCC { cond = I.GE,
@@ -710,7 +707,14 @@ functor AMD64Gen (
 						    src = I.Immed (a - 1),
 						    dst = opnd1 });
 			       defineLabel label;
-			       shift (ty, O.sarOp, T.REG (ty, reg1), p)
+			       shift (ty, O.sarOp, T.REG (ty, reg1), p);
+			       (* negate the quotient, since negating the dividend
+				* might overflow.
+				*)
+			       if isneg
+				 then emit (I.UNARY { unOp = O.negOp ty,
+						      opnd = dstOpnd })
+				 else ()
 			   end
 		       else shift (ty, O.shrOp, e1, p)
 		     | NONE =>
-- 
2.43.0


From dcb5fcbc442d7128bc12d6be1d65eda6a487883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:20 +0000
Subject: [PATCH 011/106] fix: amd64 register allocator must not spill a 64-bit
 immediate move to memory

There is no such instruction, so the compiler failed with 'MOVABSQ unimplemented'
on programs that combine large literals with high register pressure.
---
 MLRISC/amd64/ra/amd64SpillInstr.sml | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/MLRISC/amd64/ra/amd64SpillInstr.sml b/MLRISC/amd64/ra/amd64SpillInstr.sml
index 8b5e335..1c674e0 100644
--- a/MLRISC/amd64/ra/amd64SpillInstr.sml
+++ b/MLRISC/amd64/ra/amd64SpillInstr.sml
@@ -125,6 +125,15 @@ functor AMD64SpillInstr (
 		      code=[mark (I.MOVE {mvOp=mvOp, src=src, dst=tmpOpnd}, an),
 		            I.move {mvOp=defaultMov, src=tmpOpnd64, dst=spillLoc}]}
 		   end
+		 (* a 64-bit immediate operand requires a register destination *)
+		 | I.MOVE {mvOp=I.MOVABSQ, src, dst} => let
+		   val tmpR = newReg ()
+		   val tmpOpnd64 = I.Direct (64, tmpR)
+		   in
+		     {proh=[tmpR], newReg=SOME tmpR,
+		      code=[mark (I.MOVE {mvOp=I.MOVABSQ, src=src, dst=tmpOpnd64}, an),
+		            I.move {mvOp=defaultMov, src=tmpOpnd64, dst=spillLoc}]}
+		   end
 		 (* spill is unnecessary *)
 		 | I.MOVE {mvOp, src as I.Direct (_, rs), dst} =>
 		   if CB.sameColor (rs, r) then {code=[], proh=[], newReg=NONE}
-- 
2.43.0


From a409f66f333247a1b95b6b6ba2f2a79e5b027901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 012/106] fix: IntInf.pow of 1 and ~1 with a negative exponent

---
 base/system/smlnj/init/target64-core-intinf.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/system/smlnj/init/target64-core-intinf.sml b/base/system/smlnj/init/target64-core-intinf.sml
index dac21d1..afede70 100644
--- a/base/system/smlnj/init/target64-core-intinf.sml
+++ b/base/system/smlnj/init/target64-core-intinf.sml
@@ -560,7 +560,8 @@ structure CoreIntInf :> sig
     fun natpow (_, 0) = [0w1]
       | natpow ([], n) = if InLine.int_lt (n, 0) then raise Assembly.Div else []
       | natpow (x, n) =
-	  if InLine.int_lt (n, 0) then []
+	  if InLine.int_lt (n, 0)
+	    then (case x of [0w1] => [0w1] | _ => [])
 	  else let fun exp (m, 0w0) = [0w1]
 		     | exp (m, 0w1) = m
 		     | exp (m, n) = let
@@ -580,7 +581,7 @@ structure CoreIntInf :> sig
 	    val BI { negative, digits } = concrete i
 	in
 	    abstract (bi { negative = negative andalso
-	                              InLine.int_eql (InLine.int_rem (n, 2), 1),
+	                              not (InLine.int_eql (InLine.int_rem (n, 2), 0)),
 			   digits = natpow (digits, n) })
 	end
 
-- 
2.43.0


From 20e62c7baafde83a0186e9abcae4f2b0b4a6f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 013/106] fix: IntInf.andb and IntInf.xorb lost a result of the
 form ~(2^(62*n))

---
 base/system/Basis/Implementation/int-inf.sml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/int-inf.sml b/base/system/Basis/Implementation/int-inf.sml
index a2b5288..b15d4e7 100644
--- a/base/system/Basis/Implementation/int-inf.sml
+++ b/base/system/Basis/Implementation/int-inf.sml
@@ -70,7 +70,11 @@ structure IntInfImp :> INT_INF = struct
         (* convert to ones's complement *)
         val ones = twos
 
-        fun loop ([], [], _, _, _) = []
+        fun loop ([], [], _, _, bz) =
+	    (* a negative result whose remaining digits are all zero is
+	     * ~(base^n), which needs one more digit.
+	     *)
+	      if sign andalso (bz = 0w0) then [0w1] else []
           | loop ([], y :: ys, bx, by, bz)  =
               loop1 (0w0, [], y, ys, bx, by, bz)
           | loop (x :: xs, [], bx, by, bz) =
-- 
2.43.0


From 36c02c071d3d23772addf31953dd0b5a3004130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 014/106] fix: IntInf.scan must check the first digit against
 the radix

---
 base/system/Basis/Implementation/int-inf.sml | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/system/Basis/Implementation/int-inf.sml b/base/system/Basis/Implementation/int-inf.sml
index b15d4e7..a11d37c 100644
--- a/base/system/Basis/Implementation/int-inf.sml
+++ b/base/system/Basis/Implementation/int-inf.sml
@@ -298,13 +298,13 @@ structure IntInfImp :> INT_INF = struct
 	sign (StringCvt.skipWS getchar s)
     end
 
-    fun bitscan (bits, xOkay) getchar = let
+    fun bitscan (bits, prefixPat) getchar = let
           fun dcons (0w0, []) = []
             | dcons (x, xs) = x :: xs
           val pos0 = CoreIntInf.baseBits - bits
           val maxVal = CoreIntInf.maxDigit
           val maxDigit = (0w1 << bits) - 0w1
-          val scanPrefix = ScanUtil.scanPrefix (ScanUtil.hexPat false) getchar
+          val scanPrefix = ScanUtil.scanPrefix (prefixPat false) getchar
           fun scan s = (case scanPrefix s
                  of SOME{neg, next, rest} => let
                       fun digloop (d, pos, nat, s) = let
@@ -389,9 +389,9 @@ structure IntInfImp :> INT_INF = struct
           end
 
     fun scan StringCvt.DEC = decscan
-      | scan StringCvt.HEX = bitscan (0w4, true)
-      | scan StringCvt.OCT = bitscan (0w3, false)
-      | scan StringCvt.BIN = bitscan (0w1, false)
+      | scan StringCvt.HEX = bitscan (0w4, ScanUtil.hexPat)
+      | scan StringCvt.OCT = bitscan (0w3, ScanUtil.octPat)
+      | scan StringCvt.BIN = bitscan (0w1, ScanUtil.binPat)
 
     val ~ = CoreIntInf.~
     val op + = CoreIntInf.+
-- 
2.43.0


From 99cbdfda29b120909493301be63fed591e4dfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 015/106] fix: IntInf.fmt HEX uses the digits A-F; Format's %x
 is lower case for words too

---
 base/system/Basis/Implementation/int-inf.sml |  2 +-
 smlnj-lib/Util/format.sml                    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/system/Basis/Implementation/int-inf.sml b/base/system/Basis/Implementation/int-inf.sml
index a11d37c..7d7c168 100644
--- a/base/system/Basis/Implementation/int-inf.sml
+++ b/base/system/Basis/Implementation/int-inf.sml
@@ -170,7 +170,7 @@ structure IntInfImp :> INT_INF = struct
     end
 
     fun fmt StringCvt.OCT = bitfmt (0w3, 0wx7, "01234567")
-      | fmt StringCvt.HEX = bitfmt (0w4, 0wxf, "0123456789abcdef")
+      | fmt StringCvt.HEX = bitfmt (0w4, 0wxf, "0123456789ABCDEF")
       | fmt StringCvt.BIN = bitfmt (0w1, 0wx1, "01")
       | fmt StringCvt.DEC = decfmt
 
diff --git a/smlnj-lib/Util/format.sml b/smlnj-lib/Util/format.sml
index 71df44f..edea99b 100644
--- a/smlnj-lib/Util/format.sml
+++ b/smlnj-lib/Util/format.sml
@@ -51,16 +51,16 @@ structure Format : FORMAT =
       | intToOctal (PosInt i) = LargeInt.fmt SC.OCT i
     fun intToStr MaxInt = maxInt10
       | intToStr (PosInt i) = LargeInt.toString i
-    fun intToHex MaxInt = maxInt16
-      | intToHex (PosInt i) = LargeInt.fmt SC.HEX i
-    fun intToHeX i = String.map Char.toUpper (intToHex i)
+    fun intToHeX MaxInt = maxInt16
+      | intToHeX (PosInt i) = LargeInt.fmt SC.HEX i
+    fun intToHex i = String.map Char.toLower (intToHeX i)
     end (* local *)
 
   (* word to string conversions *)
     val wordToOctal = LargeWord.fmt SC.OCT
     val wordToStr = LargeWord.fmt SC.DEC
-    val wordToHex = LargeWord.fmt SC.HEX
-    fun wordToHeX i = String.map Char.toUpper (wordToHex i)
+    val wordToHeX = LargeWord.fmt SC.HEX
+    fun wordToHex i = String.map Char.toLower (wordToHeX i)
 
     fun compileFormat str = let
 	  val split = SS.splitl (fn #"%" => false | _ => true)
-- 
2.43.0


From 17954b77b44acdf01a3c03f822f208227c53a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 016/106] fix: PackReal64Big and PackReal64Little used the
 opposite byte order on little-endian machines

---
 .../Basis/Implementation/pack-real64-big.sml  | 142 ++++++------------
 .../Implementation/pack-real64-little.sml     | 142 ++++++------------
 2 files changed, 86 insertions(+), 198 deletions(-)

diff --git a/base/system/Basis/Implementation/pack-real64-big.sml b/base/system/Basis/Implementation/pack-real64-big.sml
index 7e72c64..b9b2f1f 100644
--- a/base/system/Basis/Implementation/pack-real64-big.sml
+++ b/base/system/Basis/Implementation/pack-real64-big.sml
@@ -38,27 +38,14 @@ structure PackReal64Big : PACK_REAL =
           val bv = createW8Vec bytesPerElem
           fun update (i, w) = BV.update (bv, i, InlineT.Word8.fromLarge w)
           in
-            if InlineT.isBigEndian()
-              then (
-                (* big -> big *)
-                update (0, W64.rshiftl(w, 0w56));
-                update (1, W64.rshiftl(w, 0w48));
-                update (2, W64.rshiftl(w, 0w40));
-                update (3, W64.rshiftl(w, 0w32));
-                update (4, W64.rshiftl(w, 0w24));
-                update (5, W64.rshiftl(w, 0w16));
-                update (6, W64.rshiftl(w, 0w8));
-                update (7, w))
-              else (
-                (* little -> big *)
-                update (7, W64.rshiftl(w, 0w56));
-                update (6, W64.rshiftl(w, 0w48));
-                update (5, W64.rshiftl(w, 0w40));
-                update (4, W64.rshiftl(w, 0w32));
-                update (3, W64.rshiftl(w, 0w24));
-                update (2, W64.rshiftl(w, 0w16));
-                update (1, W64.rshiftl(w, 0w8));
-                update (0, w));
+            update (0, W64.rshiftl(w, 0w56));
+            update (1, W64.rshiftl(w, 0w48));
+            update (2, W64.rshiftl(w, 0w40));
+            update (3, W64.rshiftl(w, 0w32));
+            update (4, W64.rshiftl(w, 0w24));
+            update (5, W64.rshiftl(w, 0w16));
+            update (6, W64.rshiftl(w, 0w8));
+            update (7, w);
             bv
           end
 
@@ -66,25 +53,15 @@ structure PackReal64Big : PACK_REAL =
 	  then raise Subscript
 	  else let
             fun get i = InlineT.Word8.toLarge(BV.sub(bv, i))
-            val w = if InlineT.isBigEndian()
-                  then (* big -> big *)
-                    W64.orb(W64.lshift(get 0, 0w56),
-                    W64.orb(W64.lshift(get 1, 0w48),
-                    W64.orb(W64.lshift(get 2, 0w40),
-                    W64.orb(W64.lshift(get 3, 0w32),
-                    W64.orb(W64.lshift(get 4, 0w24),
-                    W64.orb(W64.lshift(get 5, 0w16),
-                    W64.orb(W64.lshift(get 6, 0w8),
-                    get 7)))))))
-                  else (* big -> little *)
-                    W64.orb(W64.lshift(get 7, 0w56),
-                    W64.orb(W64.lshift(get 6, 0w48),
-                    W64.orb(W64.lshift(get 5, 0w40),
-                    W64.orb(W64.lshift(get 4, 0w32),
-                    W64.orb(W64.lshift(get 3, 0w24),
-                    W64.orb(W64.lshift(get 2, 0w16),
-                    W64.orb(W64.lshift(get 1, 0w8),
-                    get 0)))))))
+            val w =
+                  W64.orb(W64.lshift(get 0, 0w56),
+                  W64.orb(W64.lshift(get 1, 0w48),
+                  W64.orb(W64.lshift(get 2, 0w40),
+                  W64.orb(W64.lshift(get 3, 0w32),
+                  W64.orb(W64.lshift(get 4, 0w24),
+                  W64.orb(W64.lshift(get 5, 0w16),
+                  W64.orb(W64.lshift(get 6, 0w8),
+                  get 7)))))))
             in
               fromBits w
             end
@@ -98,25 +75,15 @@ structure PackReal64Big : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BV.sub(bv, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* big -> big *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
-                        else (* big -> little *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 0, 0w56),
+                        W64.orb(W64.lshift(get 1, 0w48),
+                        W64.orb(W64.lshift(get 2, 0w40),
+                        W64.orb(W64.lshift(get 3, 0w32),
+                        W64.orb(W64.lshift(get 4, 0w24),
+                        W64.orb(W64.lshift(get 5, 0w16),
+                        W64.orb(W64.lshift(get 6, 0w8),
+                        get 7)))))))
                   in
                     fromBits w
                   end
@@ -131,25 +98,15 @@ structure PackReal64Big : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BA.sub(ba, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* big -> big *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
-                        else (* big -> little *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 0, 0w56),
+                        W64.orb(W64.lshift(get 1, 0w48),
+                        W64.orb(W64.lshift(get 2, 0w40),
+                        W64.orb(W64.lshift(get 3, 0w32),
+                        W64.orb(W64.lshift(get 4, 0w24),
+                        W64.orb(W64.lshift(get 5, 0w16),
+                        W64.orb(W64.lshift(get 6, 0w8),
+                        get 7)))))))
                   in
                     fromBits w
                   end
@@ -166,27 +123,14 @@ structure PackReal64Big : PACK_REAL =
                   fun update (i, w) = BA.update (ba, base ++ i, InlineT.Word8.fromLarge w)
                   val w = toBits r
                   in
-                    if InlineT.isBigEndian()
-                      then (
-                        (* big -> big *)
-                        update (0, W64.rshiftl(w, 0w56));
-                        update (1, W64.rshiftl(w, 0w48));
-                        update (2, W64.rshiftl(w, 0w40));
-                        update (3, W64.rshiftl(w, 0w32));
-                        update (4, W64.rshiftl(w, 0w24));
-                        update (5, W64.rshiftl(w, 0w16));
-                        update (6, W64.rshiftl(w, 0w8));
-                        update (7, w))
-                      else (
-                        (* little -> big *)
-                        update (7, W64.rshiftl(w, 0w56));
-                        update (6, W64.rshiftl(w, 0w48));
-                        update (5, W64.rshiftl(w, 0w40));
-                        update (4, W64.rshiftl(w, 0w32));
-                        update (3, W64.rshiftl(w, 0w24));
-                        update (2, W64.rshiftl(w, 0w16));
-                        update (1, W64.rshiftl(w, 0w8));
-                        update (0, w))
+                    update (0, W64.rshiftl(w, 0w56));
+                    update (1, W64.rshiftl(w, 0w48));
+                    update (2, W64.rshiftl(w, 0w40));
+                    update (3, W64.rshiftl(w, 0w32));
+                    update (4, W64.rshiftl(w, 0w24));
+                    update (5, W64.rshiftl(w, 0w16));
+                    update (6, W64.rshiftl(w, 0w8));
+                    update (7, w)
                   end
             end
 
diff --git a/base/system/Basis/Implementation/pack-real64-little.sml b/base/system/Basis/Implementation/pack-real64-little.sml
index 02a221f..1387eca 100644
--- a/base/system/Basis/Implementation/pack-real64-little.sml
+++ b/base/system/Basis/Implementation/pack-real64-little.sml
@@ -38,27 +38,14 @@ structure PackReal64Little : PACK_REAL =
           val bv = createW8Vec bytesPerElem
           fun update (i, w) = BV.update (bv, i, InlineT.Word8.fromLarge w)
           in
-            if InlineT.isBigEndian()
-              then (
-                (* big -> little *)
-                update (7, W64.rshiftl(w, 0w56));
-                update (6, W64.rshiftl(w, 0w48));
-                update (5, W64.rshiftl(w, 0w40));
-                update (4, W64.rshiftl(w, 0w32));
-                update (3, W64.rshiftl(w, 0w24));
-                update (2, W64.rshiftl(w, 0w16));
-                update (1, W64.rshiftl(w, 0w8));
-                update (0, w))
-              else (
-                (* little -> little *)
-                update (0, W64.rshiftl(w, 0w56));
-                update (1, W64.rshiftl(w, 0w48));
-                update (2, W64.rshiftl(w, 0w40));
-                update (3, W64.rshiftl(w, 0w32));
-                update (4, W64.rshiftl(w, 0w24));
-                update (5, W64.rshiftl(w, 0w16));
-                update (6, W64.rshiftl(w, 0w8));
-                update (7, w));
+            update (7, W64.rshiftl(w, 0w56));
+            update (6, W64.rshiftl(w, 0w48));
+            update (5, W64.rshiftl(w, 0w40));
+            update (4, W64.rshiftl(w, 0w32));
+            update (3, W64.rshiftl(w, 0w24));
+            update (2, W64.rshiftl(w, 0w16));
+            update (1, W64.rshiftl(w, 0w8));
+            update (0, w);
             bv
           end
 
@@ -66,25 +53,15 @@ structure PackReal64Little : PACK_REAL =
 	  then raise Subscript
 	  else let
             fun get i = InlineT.Word8.toLarge(BV.sub(bv, i))
-            val w = if InlineT.isBigEndian()
-                  then (* little -> big *)
-                    W64.orb(W64.lshift(get 7, 0w56),
-                    W64.orb(W64.lshift(get 6, 0w48),
-                    W64.orb(W64.lshift(get 5, 0w40),
-                    W64.orb(W64.lshift(get 4, 0w32),
-                    W64.orb(W64.lshift(get 3, 0w24),
-                    W64.orb(W64.lshift(get 2, 0w16),
-                    W64.orb(W64.lshift(get 1, 0w8),
-                    get 0)))))))
-                  else (* little -> little *)
-                    W64.orb(W64.lshift(get 0, 0w56),
-                    W64.orb(W64.lshift(get 1, 0w48),
-                    W64.orb(W64.lshift(get 2, 0w40),
-                    W64.orb(W64.lshift(get 3, 0w32),
-                    W64.orb(W64.lshift(get 4, 0w24),
-                    W64.orb(W64.lshift(get 5, 0w16),
-                    W64.orb(W64.lshift(get 6, 0w8),
-                    get 7)))))))
+            val w =
+                  W64.orb(W64.lshift(get 7, 0w56),
+                  W64.orb(W64.lshift(get 6, 0w48),
+                  W64.orb(W64.lshift(get 5, 0w40),
+                  W64.orb(W64.lshift(get 4, 0w32),
+                  W64.orb(W64.lshift(get 3, 0w24),
+                  W64.orb(W64.lshift(get 2, 0w16),
+                  W64.orb(W64.lshift(get 1, 0w8),
+                  get 0)))))))
             in
               fromBits w
             end
@@ -98,25 +75,15 @@ structure PackReal64Little : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BV.sub(bv, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* little -> big *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
-                        else (* little -> little *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 7, 0w56),
+                        W64.orb(W64.lshift(get 6, 0w48),
+                        W64.orb(W64.lshift(get 5, 0w40),
+                        W64.orb(W64.lshift(get 4, 0w32),
+                        W64.orb(W64.lshift(get 3, 0w24),
+                        W64.orb(W64.lshift(get 2, 0w16),
+                        W64.orb(W64.lshift(get 1, 0w8),
+                        get 0)))))))
                   in
                     fromBits w
                   end
@@ -131,25 +98,15 @@ structure PackReal64Little : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BA.sub(ba, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* little -> big *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
-                        else (* little -> little *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 7, 0w56),
+                        W64.orb(W64.lshift(get 6, 0w48),
+                        W64.orb(W64.lshift(get 5, 0w40),
+                        W64.orb(W64.lshift(get 4, 0w32),
+                        W64.orb(W64.lshift(get 3, 0w24),
+                        W64.orb(W64.lshift(get 2, 0w16),
+                        W64.orb(W64.lshift(get 1, 0w8),
+                        get 0)))))))
                   in
                     fromBits w
                   end
@@ -166,27 +123,14 @@ structure PackReal64Little : PACK_REAL =
                   fun update (i, w) = BA.update (ba, base ++ i, InlineT.Word8.fromLarge w)
                   val w = toBits r
                   in
-                    if InlineT.isBigEndian()
-                      then (
-                        (* big -> little *)
-                        update (7, W64.rshiftl(w, 0w56));
-                        update (6, W64.rshiftl(w, 0w48));
-                        update (5, W64.rshiftl(w, 0w40));
-                        update (4, W64.rshiftl(w, 0w32));
-                        update (3, W64.rshiftl(w, 0w24));
-                        update (2, W64.rshiftl(w, 0w16));
-                        update (1, W64.rshiftl(w, 0w8));
-                        update (0, w))
-                      else (
-                        (* little -> little *)
-                        update (0, W64.rshiftl(w, 0w56));
-                        update (1, W64.rshiftl(w, 0w48));
-                        update (2, W64.rshiftl(w, 0w40));
-                        update (3, W64.rshiftl(w, 0w32));
-                        update (4, W64.rshiftl(w, 0w24));
-                        update (5, W64.rshiftl(w, 0w16));
-                        update (6, W64.rshiftl(w, 0w8));
-                        update (7, w))
+                    update (7, W64.rshiftl(w, 0w56));
+                    update (6, W64.rshiftl(w, 0w48));
+                    update (5, W64.rshiftl(w, 0w40));
+                    update (4, W64.rshiftl(w, 0w32));
+                    update (3, W64.rshiftl(w, 0w24));
+                    update (2, W64.rshiftl(w, 0w16));
+                    update (1, W64.rshiftl(w, 0w8));
+                    update (0, w)
                   end
             end
 
-- 
2.43.0


From 884d7e6feb5b9865bb6229861f6ffdad3c1af472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 017/106] fix: Real.floor must raise Overflow for 2^62 and the
 reals just outside the range of int

---
 base/system/smlnj/init/target64-inline.sml | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/system/smlnj/init/target64-inline.sml b/base/system/smlnj/init/target64-inline.sml
index e69ef03..d1d153d 100644
--- a/base/system/smlnj/init/target64-inline.sml
+++ b/base/system/smlnj/init/target64-inline.sml
@@ -97,14 +97,12 @@ structure InlineT =
  * the CPS code generator.  Can also use InLine.round_real64_to_int.
  *)
 	local
-	(* the minInt (~4611686018427387904) and maxInt (4611686018427387904)
-	 * values converted to reals (with loss of precision).
-	 *)
-	  val rminInt = ~4611686018427390000.0
-	  val rmaxInt = 4611686018427390000.0
+	(* minInt (~2^62) and maxInt+1 (2^62) as reals *)
+	  val rminInt = ~4611686018427387904.0
+	  val rmaxInt = 4611686018427387904.0
 	in
 	fun floor (x : real) =
-	      if InLine.real64_le(rminInt, x) andalso InLine.real64_le(x, rmaxInt)
+	      if InLine.real64_le(rminInt, x) andalso InLine.real64_lt(x, rmaxInt)
 		then Assembly.A.floor x
 	      else if InLine.real64_eql(x, x)
 		then raise Assembly.Overflow
-- 
2.43.0


From 9d5986625a0e0c7edefff538a460277d5c0bf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 018/106] fix: round and ceil of reals for which x+0.5 or x+1.0
 is not exact

---
 base/system/smlnj/init/pervasive.sml | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/system/smlnj/init/pervasive.sml b/base/system/smlnj/init/pervasive.sml
index 4024c82..1f259f9 100644
--- a/base/system/smlnj/init/pervasive.sml
+++ b/base/system/smlnj/init/pervasive.sml
@@ -171,17 +171,22 @@ val real = R64.from_int
 
 val floor = R64.floor
 
-fun ceil x = Int.- (~1, floor (R64.~ (x + 1.0)))
+fun ceil x = let
+      val fl = floor x
+      in
+	if R64.< (R64.from_int fl, x) then Int.+ (fl, 1) else fl
+      end
 
 fun trunc x = if R64.< (x, 0.0) then ceil x else floor x
 
 fun round x = let
     (* ties go to the nearest even number *)
-      val fl = floor(x+0.5)
-      val cl = ceil(x-0.5)
+      val fl = floor x
+      val frac = R64.- (x, R64.from_int fl)
       in
-	if fl=cl then fl
-	else if Word.andb(Word.fromInt fl, 0w1) = 0w1 then cl
+	if R64.< (frac, 0.5) then fl
+	else if R64.< (0.5, frac) then Int.+ (fl, 1)
+	else if Word.andb(Word.fromInt fl, 0w1) = 0w1 then Int.+ (fl, 1)
 	else fl
       end
 
-- 
2.43.0


From 1feb6aa9e3e254a057b924b30aa048f6f808b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 019/106] fix: Real.realFloor and friends for reals of
 magnitude 2^52 and more, and the sign of a zero result

---
 base/system/Basis/Implementation/Real/real64.sml | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index 2de9ef4..a86bcbd 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -69,11 +69,18 @@ structure Real64Imp : REAL =
      * May be applied to inf's and nan's.
      *)
       fun realround mode x = let
-	    val saveMode = IEEEReal.getRoundingMode ()
+	    fun rnd () = let
+		  val saveMode = IEEEReal.getRoundingMode ()
+		  in
+		    IEEEReal.setRoundingMode mode;
+		    (if x>=0.0 then x+maxInt-maxInt else x-maxInt+maxInt)
+		      before IEEEReal.setRoundingMode saveMode
+		  end
+	  (* the result has the sign of x, even when it is zero *)
+	    fun setSign y = if InlineT.Real64.signBit x = InlineT.Real64.signBit y then y else ~y
 	    in
-	      IEEEReal.setRoundingMode mode;
-	      (if x>=0.0 then x+maxInt-maxInt else x-maxInt+maxInt)
-		before IEEEReal.setRoundingMode saveMode
+	    (* reals with a magnitude of at least 2^52 are integral (or inf or nan) *)
+	      if ~maxInt < x andalso x < maxInt then setSign (rnd ()) else x
 	    end
     in
     val realFloor = realround IEEEReal.TO_NEGINF
-- 
2.43.0


From 3c3a6eefeee78144f976f0f4de49b4bdfb6c41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 020/106] fix: Real.fromManExp with a subnormal or a negative
 zero result

---
 base/system/Basis/Implementation/Real/real64.sml | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index a86bcbd..d47b8ed 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -191,10 +191,9 @@ structure Real64Imp : REAL =
                                  in f(e-1020,  Assembly.A.scalb(m,1020))
                                 end
                     else if e < ~1020
-                         then if e < ~1200 then 0.0
-                           else let fun f(i,x) = if i=0 then x else f(i-1, x*0.5)
-                                 in f(1020-e, Assembly.A.scalb(m, ~1020))
-                                end
+                         then if e < ~1100 then if m>0.0 then 0.0 else ~0.0
+                           (* one multiplication by 2^~128, so that there is one rounding *)
+                           else Assembly.A.scalb(m, e+128) * Assembly.A.scalb(1.0, ~128)
                          else Assembly.A.scalb(m,e)  (* This is the common case! *)
                   else let
                     val {man=m', exp=e'} = toManExp m
-- 
2.43.0


From f587c602421a3f015f2bcf6349a2db066440923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 021/106] fix: Real.rem must not round the quotient, and rem(x,
 inf) is x

---
 .../Basis/Implementation/Real/real64.sml       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index d47b8ed..777ba0d 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -248,7 +248,23 @@ structure Real64Imp : REAL =
 
     fun realMod x = #frac (split x)
 
-    fun rem(x,y) = y * #frac(split(x/y))
+  (* x - n*y, where n = trunc(x/y); computed without rounding *)
+    fun rem (x, y) = let
+	(* assume 0 <= r and 0 < m; note that r-m is exact when m <= r < m+m *)
+	  fun reduce (r : real, m) = if (r < m)
+		then r
+		else let
+		  val r' = reduce (r, m+m)
+		  in
+		    if (r' < m) then r' else r' - m
+		  end
+	  in
+	    if isNan x then x
+	    else if isNan y then y
+	    else if not(isFinite x) orelse (y == 0.0) then fromBits 0wx7FF8000000000000
+	    else if not(isFinite y) then x
+	    else copySign (reduce (abs x, abs y), x)
+	  end
 
     fun checkFloat x = if x>negInf andalso x<posInf then x
                        else if isNan x then raise General.Div
-- 
2.43.0


From a8d02237a14a87cc8427271cb282328f4819aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 022/106] fix: Real.nextAfter must step through the subnormals,
 and from zero towards infinity

---
 .../system/Basis/Implementation/Real/real64.sml | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index 777ba0d..1015dab 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -297,26 +297,23 @@ structure Real64Imp : REAL =
             fun stepDn () = let
                   val ef = W64.andb(rBits, expAndFracMask) - 0w1
                   in
-                    if (ef < 0wx0010000000000000)
-                      (* underflow, so return ±zero *)
-                      then fromBits rSign
-                      else fromBits(W64.orb(rSign, ef))
+                    fromBits(W64.orb(rSign, ef))
                   end
             in
               if (rExp = expMask)
                 then r  (* r is either a NaN or infinity so return it *)
+              else if (tExp = expMask) andalso (tFrac <> 0w0)
+                then t (* t is a NaN, so return it *)
+              else if (W64.orb(rExp, rFrac) = 0w0)
+                (* rExp = 0 && rFrac = 0 ==> r = ±0.0 *)
+                then fromBits(W64.orb(tSign, 0w1)) (* ± minimum subnormal *)
               else if (tExp = expMask)
-                then if (tFrac <> 0w0)
-                  then t (* t is a NaN, so return it *)
-                  else if (rSign = tSign)
+                then if (rSign = tSign)
                     (* t is infinity with the same sign as r, so make r bigger *)
                     then stepUp ()
                     (* t is infinity with the opposite sign as r, so make r smaller *)
                     else stepDn ()
               (* both r and t are normal/subnormal numbers *)
-              else if (W64.orb(rExp, rFrac) = 0w0)
-                (* rExp = 0 && rFrac = 0 ==> r = ±0.0 *)
-                then fromBits(W64.orb(tSign, 0w1)) (* ± minimum subnormal *)
               (* bit r and t are non-zero normal/subnormal numbers *)
               else if (rSign <> tSign)
                 (* when different signs, move `r` toward 0 *)
-- 
2.43.0


From 0154eb77ee8461988b01715e9ae82b3686838ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 023/106] fix: Real.fromString must round numbers below the
 smallest subnormal or above the largest real to the nearest real

---
 base/system/Basis/Implementation/Real/float-rep.sml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/float-rep.sml b/base/system/Basis/Implementation/Real/float-rep.sml
index 52f058d..1a2a7a1 100644
--- a/base/system/Basis/Implementation/Real/float-rep.sml
+++ b/base/system/Basis/Implementation/Real/float-rep.sml
@@ -104,12 +104,12 @@ structure FloatRep : sig
      * (see https://en.wikipedia.org/wiki/Double-precision_floating-point_format)
      *)
     val limits64 = {
-            minSubnormal = (* 0000 0000 0000 0001 == 4.9406564584124654 × 10^−324 *)
-              mkDecimalRep ([4,9,4,0,6,5,6,4,5,8,4,1,2,4,6,5,4], ~324),
+            minSubnormal = (* more than half of 0000 0000 0000 0001, which rounds to that value *)
+              mkDecimalRep ([2,4,7,0,3,2,8,2,2,9,2,0,6,2,3,2,8], ~324),
             minNormal = (* 0010 0000 0000 0000 == 2.2250738585072014 × 10^−308 *)
               mkDecimalRep ([2,2,2,5,0,7,3,8,5,8,5,0,7,2,0,1,4], ~308),
-            maxNormal = (* 7fef ffff ffff ffff == 1.7976931348623157 × 10^308 *)
-              mkDecimalRep ([1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7], 308),
+            maxNormal = (* largest 17-digit number that rounds to 7fef ffff ffff ffff *)
+              mkDecimalRep ([1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8], 308),
             maxDigits = 17
           }
 
-- 
2.43.0


From af9f80883530e1c8db2fcafa91a924c73434cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 024/106] fix: Real.fromLargeInt must round only once

---
 .../Target64Bit/intinf-to-real64.sml          | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml b/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
index 715a4ff..46ac8b4 100644
--- a/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
+++ b/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
@@ -17,8 +17,6 @@ structure IntInfToReal64 : sig
     fun w2r w = fromInt64(InlineT.Int64.fromLarge(InlineT.Word.toLargeInt w))
     val baseBits = InlineT.Word.toIntX CoreIntInf.baseBits
 
-    val rbase = w2r CoreIntInf.base
-
   (* some protection against insanity... *)
     val _ = if baseBits <> 62
 	  then raise Fail "unexpected baseBits in intinf implementation"
@@ -28,17 +26,28 @@ structure IntInfToReal64 : sig
 	  val CoreIntInf.BI{ negative, digits } = CoreIntInf.concrete x
 	  fun dosign (x : real) = if negative then ~x else x
 	(* We need at most two "big digits" to get 53 bits of precision...
-	 * (See insanity insurance above.)
+	 * (See insanity insurance above.)  To round just once, we take the leading
+	 * 62 bits and set the lowest of them when one of the remaining bits is set.
 	 *)
-	  fun calc (k, d1, d2, []) =
-		dosign (Assembly.A.scalb (w2r d1 + rbase * w2r d2, k))
-	    | calc (k, _, d1, d2 :: r) = calc (k + baseBits, d1, d2, r)
+	  fun shiftFor (d, s : word) = if InlineT.Word.andb(d, 0wx2000000000000000) = 0w0
+		then shiftFor (InlineT.Word.lshift(d, 0w1), InlineT.Word.+(s, 0w1))
+		else s
+	  fun calc (k, sticky, d1, d2, []) = let
+		val s = shiftFor (d2, 0w0)
+		val t = InlineT.Word.-(0w62, s)
+		val w = InlineT.Word.orb(InlineT.Word.lshift(d2, s), InlineT.Word.rshiftl(d1, t))
+		val sticky = sticky orelse InlineT.Word.lshift(InlineT.Word.rshiftl(d1, t), t) <> d1
+		val w = if sticky then InlineT.Word.orb(w, 0w1) else w
+		in
+		  dosign (Assembly.A.scalb (w2r w, InlineT.Int.-(k, InlineT.Word.toIntX s)))
+		end
+	    | calc (k, sticky, d0, d1, d2 :: r) =
+		calc (InlineT.Int.+(k, baseBits), sticky orelse d0 <> 0w0, d1, d2, r)
 	  in
 	    case digits
 	     of [] => 0.0
 	      | [d] => dosign (w2r d)
-	      | [d1, d2] => dosign (w2r d1 + rbase * w2r d2)
-	      | d1 :: d2 :: r => calc (0, d1, d2, r)
+	      | d1 :: d2 :: r => calc (baseBits, false, d1, d2, r)
 	    (* end case *)
 	  end
 
-- 
2.43.0


From c8eb0f9c98f0ddb3835d15e9de2d1587762ce74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:30 +0000
Subject: [PATCH 025/106] fix: GC invocation code must not be shared between
 functions with different numbers of roots

---
 base/compiler/CodeGen/cpscompile/invokegc.sml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/compiler/CodeGen/cpscompile/invokegc.sml b/base/compiler/CodeGen/cpscompile/invokegc.sml
index 699a7a6..abc979b 100644
--- a/base/compiler/CodeGen/cpscompile/invokegc.sml
+++ b/base/compiler/CodeGen/cpscompile/invokegc.sml
@@ -712,10 +712,10 @@ functor InvokeGC (
 	    | eqF (T.FLOAD(_,ea1,_), T.FLOAD(_,ea2,_)) = eqEA(ea1, ea2)
 	    | eqF _ = false
 	  in
-	    ListPair.all eqR (b1, b2)
+	    ListPair.allEq eqR (b1, b2)
 	      andalso eqR(ret1, ret2)
-	      andalso ListPair.all eqR (i1, i2)
-	      andalso ListPair.all eqF (f1, f2)
+	      andalso ListPair.allEq eqR (i1, i2)
+	      andalso ListPair.allEq eqF (f1, f2)
 	  end
       | sameCallingConvention _ = false
 
-- 
2.43.0


From cb83eceb5f9b8fccb0180c42ba013606a7cc859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 026/106] fix: the shortest decimal of a real must lie inside
 its rounding interval

---
 base/system/Basis/Implementation/Real/real64-to-frep.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64-to-frep.sml b/base/system/Basis/Implementation/Real/real64-to-frep.sml
index 3012ee6..1e07763 100644
--- a/base/system/Basis/Implementation/Real/real64-to-frep.sml
+++ b/base/system/Basis/Implementation/Real/real64-to-frep.sml
@@ -73,7 +73,7 @@ structure Real64ToFRep : sig
                     else (i, a, b, c, digit, allAZero, allBZero)
                 end
           val (i, a, b, c, digit, allAZero, allBZero) =
-                iter1 (0, a, b, if acceptBounds then c - 1 else c, 0, true, true)
+                iter1 (0, a, b, if acceptBounds then c else c - 1, 0, true, true)
           fun iter2 (i, a, b, c, digit, allBZero) = let
                 val (aq10, ar10) = IntInf.quotRem (a, 10)
                 in
@@ -93,7 +93,7 @@ structure Real64ToFRep : sig
           val isTie = (digit = 5) andalso allBZero
           val breakTieDown = (IntInf.andb(b, 1) = 0)
           val wantRoundDown = (digit < 5) orelse (isTie andalso breakTieDown)
-          val roundDown = (wantRoundDown andalso (allAZero orelse a <> b))
+          val roundDown = (wantRoundDown andalso ((acceptBounds andalso allAZero) orelse a <> b))
                 orelse (b+1 > c)
           in
             if roundDown then (b, i) else (b+1, i)
-- 
2.43.0


From 3f4b8c6168faceb634d2f7c869a0a25bff0c6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 027/106] fix: real literals must be rounded to the nearest
 real, also when the result is subnormal

---
 .../compiler/Basics/reals/real-to-bits-fn.sml | 215 ++++++------------
 1 file changed, 66 insertions(+), 149 deletions(-)

diff --git a/base/compiler/Basics/reals/real-to-bits-fn.sml b/base/compiler/Basics/reals/real-to-bits-fn.sml
index 86298c6..e3cc692 100644
--- a/base/compiler/Basics/reals/real-to-bits-fn.sml
+++ b/base/compiler/Basics/reals/real-to-bits-fn.sml
@@ -156,109 +156,60 @@ functor RealToBitsFn (FP : IEEE_FLOAT_PARAMS) : REAL_TO_BITS =
             List.tabulate (numMantBytes, layout)
           end
 
-  (* Use more than the required precision, then round at the end.  We need bits
-   * for the mantissa, plus bits for the bias, plus bits for one additional decimal
-   * digit.
-   *)
-    val precision = FP.significant + expWidth + 4
-
   (* the number of bits needed to represent a positive IntInf.int *)
     fun numBitsForInt n = IntInf.log2 n + 1
 
-  (* A float is a WHOLE "fraction" and an exponent base TWO. *)
-    type float = {frac : IntInf.int, exp : int}
-
-  (* round a float to n significant binary digits *)
-    fun round (float as {frac, exp}, n) = let
-          val shift = numBitsForInt frac + 1 - n
-          in
-            if shift <= 0
-              then float
-              else {
-                  frac = if (IntInf.andb(frac, IntInf.<<(1, W.fromInt(shift-1))) = 0)
-                      then IntInf.~>>(frac, W.fromInt shift)
-                      else IntInf.~>>(frac, W.fromInt shift) + 1,
-                  exp = exp + shift
-                }
-          end
-
-  (* float values ten and one tenth, to the correct precision. *)
-    val ten : float = {frac = 5, exp = 1}
-    val tenth : float = let
-          fun mk 1 = {frac = 1, exp = ~4}
-            | mk n = let
-                val {frac, exp} = mk (n-1)
-                val tenthBit = (case n mod 4
-                       of 0 => 0
-                        | 1 => 1
-                        | 2 => 1
-                        | _ => 0
-                      (* end case *))
-                val f = 2 * frac + tenthBit
-                val e = exp - 1
-                in
-                  {frac = f, exp = e}
-                end
+  (* Convert a literal (a list of decimal digits and a decimal exponent) to the nearest
+   * representable float, where ties are rounded to even.  The result is `SOME{frac, exp}`,
+   * where `frac` is a whole number and `exp` is the exponent base two; `frac` has fewer than
+   * `FP.significant` bits when the result is subnormal or zero.  We return `NONE` when the
+   * magnitude of the literal is too large.
+   *)
+    fun toFloat (digits, exp : IntInf.int) = let
+        (* convert the digits to a IntInf.int and adjust the exponent *)
+          fun doDigit (d, (m, e)) = (IntInf.fromInt d + 10*m, e-1)
+          val (frac_10, exp_10) = List.foldl doDigit (0, exp) digits
+        (* decimal digits to the left of the decimal point *)
+          val magnitude = exp_10 + IntInf.fromInt(List.length digits)
+        (* smallest exponent of the least significant bit *)
+          val minExp' = minExp - FP.significant + 1
           in
-            round (mk (precision+1), precision)
-          end
-
-  (* Multiplies two floats together to the correct precision *)
-    fun mult ({frac=f1, exp=e1} : float, {frac=f2, exp=e2}) =
-          round ({frac = f1 * f2, exp = e1 + e2}, precision)
-
-    local
-    (* a cache of powers of 10 *)
-      datatype cache = C of float option array ref
-      fun newCache f0 = let
-            val arr = Array.array(16, NONE)
-            in
-              Array.update (arr, 0, SOME f0);
-              C(ref arr)
-            end
-      fun grow (C(cache as ref arr), sz) = let
-            val sz = Int.max(sz+1, 2*Array.length arr)
-            val newArr = Array.array(sz, NONE)
-            in
-              Array.appi (fn (i, f) => Array.update(newArr, i, f)) arr;
-              cache := newArr
-            end
-      fun access (cache as C(ref arr), n) =
-            if (n < Array.length arr)
-              then let
-                fun get i = (case Array.sub(arr, i)
-                       of NONE => let
-                            val prev = get (i-1)
-                            val flt = mult(prev, prev)
-                            in
-                              Array.update(arr, n, SOME flt);
-                              flt
-                            end
-                        | SOME flt => flt
+            if (frac_10 = 0) orelse (magnitude < IntInf.fromInt(minExp' div 3 - 1))
+              then SOME{frac = 0, exp = minExp'}
+            else if (magnitude > IntInf.fromInt(List.length digits + maxExp))
+              then NONE
+              else let
+              (* the literal as the exact quotient num/denom *)
+                val (num, denom) = if (exp_10 < 0)
+                      then (frac_10, IntInf.pow(10, IntInf.toInt(~exp_10)))
+                      else (frac_10 * IntInf.pow(10, IntInf.toInt exp_10), 1)
+                fun scale (n, e) = IntInf.<<(n, W.fromInt e)
+                fun quotRem e = if (e < 0)
+                      then IntInf.quotRem (scale(num, ~e), denom)
+                      else IntInf.quotRem (num, scale(denom, e))
+              (* an estimate for the exponent of the least significant bit; it is exact
+               * or one too small.
+               *)
+                val exp = Int.max(
+                      minExp',
+                      numBitsForInt num - numBitsForInt denom - FP.significant)
+                val exp = if numBitsForInt(IntInf.max(#1(quotRem exp), 1)) > FP.significant
+                      then exp+1
+                      else exp
+                val (q, r) = quotRem exp
+                val half = IntInf.compare(
+                      2*r, if (exp < 0) then denom else scale(denom, exp))
+                val frac = (case half
+                       of LESS => q
+                        | EQUAL => if IntInf.andb(q, 1) = 0 then q else q+1
+                        | GREATER => q+1
                       (* end case *))
                 in
-                  get n
+                  if (frac > 0) andalso (maxExp < exp + numBitsForInt frac - 1)
+                    then NONE
+                    else SOME{frac = frac, exp = exp}
                 end
-              else (grow (cache, n); access (cache, n))
-      val pos10 = newCache ten          (* 10^2^n *)
-      val neg10 = newCache tenth        (* 10^-2^n *)
-(* FIXME: we should check for too large exponents to avoid having the table blow up on bad inputs *)
-      fun pow10_2 0 = {frac = 1, exp = 0}
-        | pow10_2 n = if (n > 0) then access(pos10, n - 1) else access(neg10, ~n - 1)
-    in
-    fun raiseToPower (f, 0) = f
-      | raiseToPower (f, e) = let
-          val (sign, e) = if (e < 0) then (~1, ~e) else (1, e)
-          fun power (f, p) = mult (f, pow10_2 (sign * p))
-          fun raisep (f, 0w0, _) = f
-            | raisep (f, e, p) =
-              if W.andb(e, 0w1) = 0w1
-                then raisep (power(f, p), W.>>(e, 0w1), p+1)
-                else raisep(f, W.>>(e, 0w1), p+1)
-          in
-            raisep (f, W.fromInt(abs e), 1)
           end
-    end (* local *)
 
   (* Take an IntInf.int representing the fractional part of a float and return a
    * function that will generate the mantissa bits.  The function is called with
@@ -369,33 +320,14 @@ functor RealToBitsFn (FP : IEEE_FLOAT_PARAMS) : REAL_TO_BITS =
             | RealLit.NegInf => IEEEReal.INF
             | RealLit.QNaN => IEEEReal.NAN
             | RealLit.Flt{isNeg, digits=[], exp} => IEEEReal.ZERO
-            | RealLit.Flt{isNeg, digits, exp} => let
-              (* convert the digits to a IntInf.int and adjust the exponent *)
-                val (frac_10, exp_10) = let
-                      fun doDigit (d, (m, e)) = (IntInf.fromInt d + 10*m, e-1)
-                      val (frac, exp) = List.foldl doDigit (0, exp) digits
-                      in
-                        (frac, IntInf.toInt exp)
-                      end
-              (* convert to base 2 *)
-                val flt = raiseToPower (round({frac=frac_10, exp=0}, precision), exp_10)
-                val {frac, exp} = round(flt, FP.significant+1)
-              (* adjust exp for size of fraction *)
-                val exp = exp + numBitsForInt frac - 1
-                in
-                  if (exp < minExp)
-                    then let
-                      val diff = Word.fromInt(minExp - exp)
-                      val frac = IntInf.~>>(frac, diff)
-                      in
-                        if frac > 0
-                          then IEEEReal.SUBNORMAL
-                          else IEEEReal.ZERO
-                      end
-                  else if (maxExp < exp)
-                    then IEEEReal.INF
-                    else IEEEReal.NORMAL
-                end
+            | RealLit.Flt{isNeg, digits, exp} => (case toFloat (digits, exp)
+                 of NONE => IEEEReal.INF
+                  | SOME{frac, ...} => if (frac = 0)
+                        then IEEEReal.ZERO
+                      else if (numBitsForInt frac < FP.significant)
+                        then IEEEReal.SUBNORMAL
+                        else IEEEReal.NORMAL
+                (* end case *))
           (* end case *))
 
     fun toBits lit = (case RealLit.toRep lit
@@ -403,33 +335,18 @@ functor RealToBitsFn (FP : IEEE_FLOAT_PARAMS) : REAL_TO_BITS =
             | RealLit.NegInf => (negInf, IEEEReal.INF)
             | RealLit.QNaN => (quietNaN, IEEEReal.NAN)
             | RealLit.Flt{isNeg, digits=[], exp} => (zero isNeg, IEEEReal.ZERO)
-            | RealLit.Flt{isNeg, digits, exp} => let
-              (* convert the digits to a IntInf.int and adjust the exponent *)
-                val (frac_10, exp_10) = let
-                      fun doDigit (d, (m, e)) = (IntInf.fromInt d + 10*m, e-1)
-                      val (frac, exp) = List.foldl doDigit (0, exp) digits
-                      in
-                        (frac, IntInf.toInt exp)
-                      end
-              (* convert to base 2 *)
-                val flt = raiseToPower (round({frac=frac_10, exp=0}, precision), exp_10)
-                val {frac, exp} = round(flt, FP.significant+1)
-              (* adjust exp for size of fraction *)
-                val exp = exp + numBitsForInt frac - 1
-                in
-                  if (exp < minExp)
-                    then let
-                      val diff = Word.fromInt(minExp - exp)
-                      val frac = IntInf.~>>(frac, diff)
-                      in
-                        if frac > 0
-                          then (packSpecial (isNeg, 0w0, frac), IEEEReal.SUBNORMAL)
-                          else (zero isNeg, IEEEReal.ZERO)
-                      end
-                  else if (maxExp < exp)
-                    then raise Overflow
-                    else (pack (isNeg, W.fromInt(exp + maxExp), frac), IEEEReal.NORMAL)
-                end
+            | RealLit.Flt{isNeg, digits, exp} => (case toFloat (digits, exp)
+                 of NONE => raise Overflow
+                  | SOME{frac, exp} => if (frac = 0)
+                        then (zero isNeg, IEEEReal.ZERO)
+                      else if (numBitsForInt frac < FP.significant)
+                        then (packSpecial (isNeg, 0w0, frac), IEEEReal.SUBNORMAL)
+                        else let
+                          val exp = exp + numBitsForInt frac - 1
+                          in
+                            (pack (isNeg, W.fromInt(exp + maxExp), frac), IEEEReal.NORMAL)
+                          end
+                (* end case *))
           (* end case *))
 
   end;
-- 
2.43.0


From 5342bb88bc4c443202f2e3cf05d9e991a83f3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 028/106] fix: Math.exp lost precision for negative arguments

---
 base/system/Basis/Implementation/Real/math64-common.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index 635eb81..f2374b6 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -205,7 +205,7 @@ structure Math64Common : sig
     fun exp (x:real) = let  (* propagates and generates inf's and nan's correctly *)
 	  fun exp_norm x = let
 	      (* argument reduction : x --> x - k*ln2 *)
-		val k = floor(invln2*x+copysign(half,x)) (* k=NINT(x/ln2) *)
+		val k = floor(invln2*x+half) (* k=NINT(x/ln2) *)
 		val K = real k
 	      (* express x-k*ln2 as z+c *)
 		val hi = x-K*ln2hi
-- 
2.43.0


From 131eaa45c99b7849d90d61c66e79c759c4db9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 029/106] fix: Math.pow of a negative real to a large integral
 power

---
 .../Basis/Implementation/Real/math64-common.sml | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index f2374b6..92d7c39 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -265,8 +265,12 @@ structure Math64Common : sig
 
     fun log10 x = ln x * oneOverln10
 
-    fun isInt y = (realround y - y) == 0.0
-    fun isOddInt y = isInt((y-1.0)*0.5)
+  (* reals of magnitude 2^52 or more are integers, and those of magnitude 2^53 or
+   * more are even.
+   *)
+    val maxOddInt = 2.0*maxint
+    fun isInt y = abs y >= maxint orelse (realround y - y) == 0.0
+    fun isOddInt y = abs y < maxOddInt andalso isInt((y-1.0)*0.5)
 
     fun intpow (x, 0) = 1.0
       | intpow (x, y) = let
@@ -277,6 +281,11 @@ structure Math64Common : sig
 	    if y=I.+(h,h) then zz else x*zz
 	  end
 
+  (* x^y for a negative, finite x and an integral, positive y *)
+    fun negpow (x, y) = if y < maxOddInt
+	  then intpow(x, floor y)
+	  else exp(y*ln(~x))
+
   (* SML/NJ doesn't properly handle negative zeros.
     Also, the copysign function works incorrectly on negative zero.
     The code for "pow" below should work correctly when these other
@@ -292,7 +301,7 @@ structure Math64Common : sig
 				  then x
 				  else 0.0
 			     else if isInt y
-				  then intpow(x,floor(y+0.5))
+				  then negpow(x, y)
 				  else NaN
 		    else if isNan x
 		     then x
@@ -314,7 +323,7 @@ structure Math64Common : sig
 				then copysign(plusInfinity,x)
 				else plusInfinity
 			     else if isInt(y)
-				  then 1.0 / intpow(x, floor(~y+0.5))
+				  then 1.0 / negpow(x, ~y)
 				  else NaN
 		   else if isNan x
 		    then x
-- 
2.43.0


From b24f502f493bd54758beea621b1c99b700766088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 030/106] fix: Math.tanh of a large argument is 1, not NaN

---
 .../Basis/Implementation/Real/math64-common.sml  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index 92d7c39..6250632 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -403,13 +403,13 @@ structure Math64Common : sig
 	      else 0.5 * (a - 1.0 / a)
 	  end
 
-    fun tanh u = let
-	  val a = exp u
-	  val b = 1.0 / a
-	  in
-	    if a==0.0
-	      then copysign(1.0,u)
-	      else (a-b) / (a+b)
-	  end
+    fun tanh u = if abs u > 22.0
+	  then copysign(1.0,u) (* the nearest real; a or b below might not be finite *)
+	  else let
+	    val a = exp u
+	    val b = 1.0 / a
+	    in
+	      (a-b) / (a+b)
+	    end
 
   end
-- 
2.43.0


From 8f7a5f3c3d1eb3eeed0362b5461f2a7095920df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 031/106] fix: Math.atan2 and Math.pow must respect the sign of
 zero arguments

---
 .../Basis/Implementation/Real/math64-common.sml   | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index 6250632..8fb38e1 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -146,14 +146,9 @@ structure Math64Common : sig
     val two = 2.0
 
 (** SHOULD BE INLINE OP **)
-   (* may be applied to inf's and nan's
-      GETS MINUS-ZERO WRONG!
-    *)
-    fun copysign(a,b) = (case (a<zero, b<zero)
-	   of (true,true) => a
-	    | (false,false) => a
-	    | _ => ~a
-	  (* end case *))
+   (* may be applied to inf's and nan's *)
+    fun signBit x = Word.toIntX(Word.fromLarge(Word64.rshiftl(Real64.toBits x, 0w63)))
+    fun copysign(a,b) = if signBit a = signBit b then a else ~a
 
   (* note that this operation clears the sign bit of NaNs; the previous implementation
    * left NaNs unchanged.
@@ -377,14 +372,14 @@ structure Math64Common : sig
 
       fun atan2py(x,y) =
 	     if x > 0.0 then atan2pypx(x,y)
-	     else if x == 0.0 andalso y == 0.0 then 0.0
+	     else if x <= 0.0 andalso y == 0.0 then if signBit x = 0 then 0.0 else pi
 	     else pi - atan2pypx(~x,y)
 
     in
     fun atan y = (* miraculously handles inf's and nan's correctly *)
 	  if y<=0.0 then ~(atanpy(~y)) else atanpy y
     fun atan2 (y,x) = (* miraculously handles inf's and nan's correctly *)
-	  if y>=0.0 then atan2py(x,y) else ~(atan2py(x,~y))
+	  if y>0.0 orelse (y == 0.0 andalso signBit y = 0) then atan2py(x,y) else ~(atan2py(x,~y))
     end (* local *)
 
     fun cosh u = let
-- 
2.43.0


From 943c1713eb1db7ba23295eefc91eca0ae9c985ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 032/106] fix: Math.atan2 of two infinities

---
 base/system/Basis/Implementation/Real/math64-common.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index 8fb38e1..bc63d4b 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -363,12 +363,15 @@ structure Math64Common : sig
 	   else atn((t-one)/(one+t), at1hi,at1lo)
 
       val PIo2 =  1.5707963267948966192E0	(* pi/2 *)
+      val PIo4 =  7.853981633974483096E~1	(* pi/4 *)
 
       fun atanpy y = (* y>=0 *)
 	  if y>one then PIo2 - atan(one/y) else atan(y)
 
       fun atan2pypx(x,y) =
-	       if y>x then PIo2 - atan(x/y) else atan(y/x)
+	       if y>x then PIo2 - atan(x/y)
+	       else if y == x then PIo4 (* y/x is a nan when both are infinite *)
+	       else atan(y/x)
 
       fun atan2py(x,y) =
 	     if x > 0.0 then atan2pypx(x,y)
-- 
2.43.0


From 0dab693e783d01d50fcb5a2a5cf4b94fdaeaf131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 033/106] fix: String.extract(s, maxInt, SOME 1) read outside
 the string

---
 base/system/Basis/Implementation/string.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/string.sml b/base/system/Basis/Implementation/string.sml
index 18396c6..6525d33 100644
--- a/base/system/Basis/Implementation/string.sml
+++ b/base/system/Basis/Implementation/string.sml
@@ -93,7 +93,7 @@ structure StringImp : STRING =
 		      then ""
 		      else newVec (len - base)
 	      | (_, SOME 1) =>
-		  if ((base < 0) orelse (len < (base ++ 1)))
+		  if ((base < 0) orelse (len <= base))
 		    then raise General.Subscript
 		    else str(unsafeSub(v, base))
 	      | (_, SOME n) =>
-- 
2.43.0


From 9790c3f37ef86b44baba578c94949cc81779956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 034/106] fix: string search with patterns over more than two
 characters

---
 base/system/smlnj/init/pre-string.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/system/smlnj/init/pre-string.sml b/base/system/smlnj/init/pre-string.sml
index 83acbb2..5d45c01 100644
--- a/base/system/smlnj/init/pre-string.sml
+++ b/base/system/smlnj/init/pre-string.sml
@@ -213,8 +213,11 @@ structure PreString =
 	     *                 pattern[0..next[i]) = pattern[i-next[i]..i) *)
 	    fun fill (p, x) = if p >= psz then ()
 			      else if pat x = pat p then dnxt (p, nxt x, x + 1)
-			      else dnxt (p, x, nxt x + 1)
+			      else dnxt (p, x, back (p, nxt x) + 1)
 	    and dnxt (p, x, y) = (setnxt (p, x); fill (p + 1, y))
+	    (* the longest proper prefix that can be extended by pattern[p] *)
+	    and back (p, x) = if x < 0 orelse pat x = pat p then x
+			      else back (p, nxt x)
 
 	    (* Once next has been initialized, it serves the following purpose:
 	     * Suppose we are looking at text position t and pattern position
-- 
2.43.0


From d1d859fd15d2e6cdb2e5fb0928a14e72ef9afbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 035/106] fix: the empty string is a substring of the empty
 string

---
 base/system/Basis/Implementation/string.sml | 2 +-
 base/system/smlnj/init/substring.sml        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/string.sml b/base/system/Basis/Implementation/string.sml
index 6525d33..b40f60c 100644
--- a/base/system/Basis/Implementation/string.sml
+++ b/base/system/Basis/Implementation/string.sml
@@ -169,7 +169,7 @@ structure StringImp : STRING =
 	fun search s' = let
 	    val epos = size s'
 	in
-	    stringsearch (s', 0, epos) < epos
+	    size s = 0 orelse stringsearch (s', 0, epos) < epos
 	end
     in
 	search
diff --git a/base/system/smlnj/init/substring.sml b/base/system/smlnj/init/substring.sml
index c1c4829..c729c91 100644
--- a/base/system/smlnj/init/substring.sml
+++ b/base/system/smlnj/init/substring.sml
@@ -135,7 +135,7 @@ structure Substring :> SUBSTRING
 	fun search (SS (s', i, n)) = let
 	    val epos = i + n
 	in
-	    stringsearch (s', i, epos) < epos
+	    stringSize s = 0 orelse stringsearch (s', i, epos) < epos
 	end
     in
 	search
-- 
2.43.0


From 6148c8ccf53a554c5709a7058b7152f24c6ccac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 036/106] fix: a C escape sequence with a huge hexadecimal code
 is illegal, and must not raise Overflow

---
 base/system/Basis/Implementation/char.sml | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/base/system/Basis/Implementation/char.sml b/base/system/Basis/Implementation/char.sml
index e3b6b13..f42f6d6 100644
--- a/base/system/Basis/Implementation/char.sml
+++ b/base/system/Basis/Implementation/char.sml
@@ -159,12 +159,13 @@ structure Char : sig
 	  fun next (x::r) = SOME(x, r)
 	    | next [] = NONE
 	  in
-	    case (NumScan.scanInt radix next l)
-	     of NONE => NONE
-	      | SOME(i, _) => if InlineT.Int.<(i, 256)
-		  then SOME(chr i, strm)
-		  else NONE
-	    (* end case *)
+	    (case (NumScan.scanInt radix next l)
+	      of NONE => NONE
+	       | SOME(i, _) => if InlineT.Int.<(i, 256)
+		   then SOME(chr i, strm)
+		   else NONE
+	     (* end case *))
+	      handle General.Overflow => NONE
 	  end
 
   (* conversions between characters and printable representations *)
-- 
2.43.0


From 1a35b351fe8b44b2b2898fd0b737168eb27bdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 037/106] fix: StringCvt.padLeft and padRight must not raise
 Overflow for very negative widths

---
 base/system/Basis/Implementation/string-cvt.sml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/string-cvt.sml b/base/system/Basis/Implementation/string-cvt.sml
index 44da16f..7e1c000 100644
--- a/base/system/Basis/Implementation/string-cvt.sml
+++ b/base/system/Basis/Implementation/string-cvt.sml
@@ -41,10 +41,10 @@ structure StringCvt : STRING_CVT =
     in
     fun padLeft padChr wid s = let
 	  val len = InlineT.CharVector.length s
-	  val pad = wid - len
 	  in
-	    if (pad > 0)
+	    if (wid > len)
 	      then let
+		val pad = wid - len
 		val s' = PreString.create wid
 		in
 		  fillStr (padChr, s', 0, pad);
@@ -55,10 +55,10 @@ structure StringCvt : STRING_CVT =
 	  end
     fun padRight padChr wid s = let
 	  val len = InlineT.CharVector.length s
-	  val pad = wid - len
 	  in
-	    if (pad > 0)
+	    if (wid > len)
 	      then let
+		val pad = wid - len
 		val s' = PreString.create wid
 		in
 		  fillStr (padChr, s', len, pad);
-- 
2.43.0


From 418e1298b16d5a74229011255154466ee2e90f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 038/106] fix: Bool.scan must ignore case

---
 base/system/Basis/Implementation/bool.sml | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/base/system/Basis/Implementation/bool.sml b/base/system/Basis/Implementation/bool.sml
index d1c93a9..23f0e49 100644
--- a/base/system/Basis/Implementation/bool.sml
+++ b/base/system/Basis/Implementation/bool.sml
@@ -10,21 +10,23 @@ structure Bool : BOOL =
 
     val not = InlineT.inlnot
 
-  (* NOTE: this should probably accept a wider range of arguments, but the
-   * spec hasn't been written yet.
-   *)
-    fun scan (getc : (char, 'a) StringCvt.reader) cs = (
-	  case (getc (PreBasis.skipWS getc cs))
-	   of (SOME(#"t", cs')) => (case (PreBasis.getNChars getc (cs', 3))
-		 of (SOME([#"r", #"u", #"e"], cs'')) => SOME(true, cs'')
-		  | _ => NONE
+  (* as the Basis specification requires, case and initial white space are ignored *)
+    fun scan (getc : (char, 'a) StringCvt.reader) cs = let
+	  fun lower c = if InlineT.Char.<= (#"A", c) andalso InlineT.Char.<= (c, #"Z")
+		then InlineT.Char.chr(InlineT.Int.+ (InlineT.Char.ord c, 32))
+		else c
+	  fun match ([], res, cs) = SOME(res, cs)
+	    | match (c::r, res, cs) = (case getc cs
+		 of SOME(c', cs') => if (lower c' = c) then match (r, res, cs') else NONE
+		  | NONE => NONE
 		(* end case *))
-	    | (SOME(#"f", cs')) => (case (PreBasis.getNChars getc (cs', 4))
-		 of (SOME([#"a", #"l", #"s", #"e"], cs'')) => SOME(false, cs'')
-		  | _ => NONE
-		(* end case *))
-	    | _ => NONE
-	  (* end case *))
+	  val cs = PreBasis.skipWS getc cs
+	  in
+	    case match ([#"t", #"r", #"u", #"e"], true, cs)
+	     of NONE => match ([#"f", #"a", #"l", #"s", #"e"], false, cs)
+	      | res => res
+	    (* end case *)
+	  end
 
     fun toString true = "true"
       | toString false = "false"
-- 
2.43.0


From 865f3658b53043bdf2a765b0b306926e4f0fef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 039/106] fix: String.extract(s, i, SOME n) read outside the
 string when i+n exceeds the largest int

---
 base/system/Basis/Implementation/string.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/string.sml b/base/system/Basis/Implementation/string.sml
index b40f60c..23cc220 100644
--- a/base/system/Basis/Implementation/string.sml
+++ b/base/system/Basis/Implementation/string.sml
@@ -97,7 +97,7 @@ structure StringImp : STRING =
 		    then raise General.Subscript
 		    else str(unsafeSub(v, base))
 	      | (_, SOME n) =>
-		  if ((base < 0) orelse (n < 0) orelse (len < (base ++ n)))
+		  if ((base < 0) orelse (n < 0) orelse (len < base) orelse ((len -- base) < n))
 		    then raise General.Subscript
 		    else newVec n
 	    (* end case *)
-- 
2.43.0


From ef88fc073bb7427d264c55a729c032defcc7c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:11 +0000
Subject: [PATCH 040/106] fix: minor collection before a large array or vector
 allocation must leave room for the next one

---
 base/runtime/gc/call-gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/call-gc.c b/base/runtime/gc/call-gc.c
index 7f279ab..b02ea8b 100644
--- a/base/runtime/gc/call-gc.c
+++ b/base/runtime/gc/call-gc.c
@@ -133,7 +133,8 @@ void InvokeGC (ml_state_t *msp, int level)
 
 	for (i = 0;  i < NUM_ARENAS;  i++) {
 	    arena_t *arena = gen1->arena[i];
-	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz)) {
+	  /* leave room for the next minor collection on top of any pending allocation request */
+	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz + arena->reqSizeB)) {
 		level = 1;
 		break;
 	    }
@@ -292,7 +293,8 @@ void InvokeGCWithRoots (ml_state_t *msp, int level, ...)
 
 	for (i = 0;  i < NUM_ARENAS;  i++) {
 	    arena_t *arena = gen1->arena[i];
-	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz)) {
+	  /* leave room for the next minor collection on top of any pending allocation request */
+	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz + arena->reqSizeB)) {
 		level = 1;
 		break;
 	    }
-- 
2.43.0


From bb8bbf7fb4708a98fabe15da0f03514fb0cbaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 041/106] fix: Posix.IO.getfl must return the status flags, not
 the close-on-exec flag

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From 5b7b3c1b53217c9688f9af0c250355e55468bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 042/106] fix: Posix.IO.lseek must return after raising a
 system error

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From 53967c96cb27e5c6e531e6fe50cd08b42ae99c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 043/106] fix: records of file locks and terminal attributes
 had length and tag of their descriptor swapped

---
 base/runtime/c-libs/posix-io/fcntl_l.c    | 2 +-
 base/runtime/c-libs/posix-tty/tcgetattr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
-- 
2.43.0


From 3521a54f89362d3189122411c942207866e1ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 044/106] fix: records of broken-down dates had length and tag
 of their descriptor swapped

---
 base/runtime/c-libs/smlnj-date/unix-date.c  | 2 +-
 base/runtime/c-libs/smlnj-date/win32-date.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
diff --git a/base/runtime/c-libs/smlnj-date/win32-date.c b/base/runtime/c-libs/smlnj-date/win32-date.c
index b6edb30..f545a64 100644
--- a/base/runtime/c-libs/smlnj-date/win32-date.c
+++ b/base/runtime/c-libs/smlnj-date/win32-date.c
@@ -68,7 +68,7 @@ int _ml_year_day (const SYSTEMTIME *st)
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const SYSTEMTIME *st, BOOL isDST)
 {
   /* The SYSTEMTIME struct has everything that we need except the day of the year */
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(st->wSecond));
     ML_AllocWrite(msp, 2, INT_CtoML(st->wMinute));
     ML_AllocWrite(msp, 3, INT_CtoML(st->wHour));
-- 
2.43.0


From 428955f7a139497cacbb4a7ddc7e0c4c27a44d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 045/106] fix: building the list of arguments or environment
 strings could overflow the allocation space and lose the list to a GC

---
 base/runtime/gc/import-heap.c |  2 +-
 base/runtime/gc/ml-objects.c  | 39 +++++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..4fd1628 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -192,8 +192,8 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
         msp->ml_pc              =
         msp->ml_linkReg         = GET_CODE_ADDR(funct);
       /* setup the arguments to the imported function */
+        args = ML_CStringList (msp, CmdLineArgs);  /* may cause a GC */
         cmdName = ML_CString(msp, MLCmdName);
-        args = ML_CStringList (msp, CmdLineArgs);
         REC_ALLOC2(msp, msp->ml_arg, cmdName, args);
 /*
 SayDebug("arg = %#x : [%#x, %#x]\n", msp->ml_arg, REC_SEL(msp->ml_arg, 0), REC_SEL(msp->ml_arg, 1));
diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..73c34fa 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -77,28 +77,37 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
  */
 ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
-    int         i, j;
+    int         i;
     ml_val_t    p, s;
-    Word_t      nbytes;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
-    /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
-    for (j = 0;  j < i;  j++) {
-        size_t len = strlen(strs[j]);
-        Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
-        }
-    }
-    if (NeedGC (msp, nbytes)) {
-        InvokeGC (msp, 0);
-    }
-
     p = LIST_nil;
     while (i-- > 0) {
+        Word_t  nwords = BYTES_TO_WORDS(strlen(strs[i]) + 1);
+        Word_t  szb = WORD_SZB * (nwords + 1);
+        Word_t  hdrSzB = 2 * (3 * WORD_SZB);    /* string header and cons cell */
+
+      /* make sure that there is space for the list element; note that the part of
+       * the list that is already built must be a root of any collection.
+       */
+        if (NeedGC (msp, (nwords > SMALL_OBJ_SZW) ? hdrSzB : hdrSzB + szb)) {
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+        }
+        if (nwords > SMALL_OBJ_SZW) {
+            arena_t *ap = msp->ml_heap->gen[0]->arena[STRING_INDX];
+
+            BEGIN_CRITICAL_SECT(MP_GCGenLock)
+                IFGC (ap, szb+msp->ml_heap->allocSzB) {
+                    ap->reqSizeB += szb;
+                    RELEASE_LOCK(MP_GCGenLock);
+                        InvokeGCWithRoots (msp, 1, &p, NIL(ml_val_t *));
+                    ACQUIRE_LOCK(MP_GCGenLock);
+                    ap->reqSizeB = 0;
+                }
+            END_CRITICAL_SECT(MP_GCGenLock)
+        }
         s = ML_CString(msp, strs[i]);
         LIST_cons(msp, p, s, p);
     }
-- 
2.43.0


From 321155449c7b7a979f40e024c92a71616cd5c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 046/106] fix: Posix.Process.exec* must not hold heap pointers
 across an allocation, nor overrun the argument vector

---
 base/runtime/c-libs/posix-process/exec.c  | 10 ++++++++--
 base/runtime/c-libs/posix-process/exece.c | 14 +++++++++++---
 base/runtime/c-libs/posix-process/execp.c |  9 +++++++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..b2a92ab 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -28,14 +28,20 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+  /* allocate the vector outside of the heap, since a GC could move the arguments */
+    argv = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "no malloc memory");
+    }
+    cp = argv;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    FREE (argv);
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..4903272 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -23,14 +23,21 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
+    for (nEnv = 0, p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+  /* allocate the vectors outside of the heap, since a GC could move the arguments */
+    argv = NEW_VEC(char *, nArgs + 1 + nEnv + 1);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "no malloc memory");
+    }
+    cp = argv;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
@@ -42,6 +49,7 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the envp[] */
 
     sts = execve(STR_MLtoC(path), argv, envp);
+    FREE (argv);
 
     CHK_RETURN (msp, sts)
 
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..1367cb8 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -28,14 +28,19 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+  /* allocate the vector outside of the heap, since a GC could move the arguments */
+    argv = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "no malloc memory");
+    }
+    cp = argv;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execvp(STR_MLtoC(file), argv);
+    FREE (argv);
 
     CHK_RETURN (msp, sts)
 
-- 
2.43.0


From 0bb6ba67bc89b4bf56bb1d1c266243786fa031a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 047/106] fix: 32-bit integers and words passed from C to ML
 lost their top bit on 64-bit systems

---
 base/runtime/include/ml-objects.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/include/ml-objects.h b/base/runtime/include/ml-objects.h
index 8babe6f..8fb702f 100644
--- a/base/runtime/include/ml-objects.h
+++ b/base/runtime/include/ml-objects.h
@@ -155,7 +155,7 @@ STATIC_INLINE ml_val_t ML_AllocWord (ml_state_t *msp, Word_t w)
 STATIC_INLINE ml_val_t INT32_CtoML (ml_state_t *msp, Int32_t n)
 {
 #ifdef SIZE_64
-    return INT_CtoML(n); /* tagged representation on 64-bit systems */
+    return INT_CtoML((Int_t)n); /* tagged representation on 64-bit systems */
 #else /* 32-bit ML values */
     ml_val_t *p = msp->ml_allocPtr;
     p[0] = MAKE_DESC(1, DTAG_raw);
@@ -182,7 +182,7 @@ STATIC_INLINE Int32_t REC_SELINT32 (ml_val_t p, int i)
 STATIC_INLINE ml_val_t WORD32_CtoML (ml_state_t *msp, Unsigned32_t n)
 {
 #ifdef SIZE_64
-    return INT_CtoML(n); /* tagged representation on 64-bit systems */
+    return INT_CtoML((Int_t)n); /* tagged representation on 64-bit systems */
 #else /* 32-bit ML values */
     ml_val_t *p = msp->ml_allocPtr;
     p[0] = MAKE_DESC(1, DTAG_raw);
-- 
2.43.0


From 7cd848e7d526694322cd0128fcb2263674967b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 048/106] fix: Posix.Process.kill K_SAME_GROUP must signal the
 caller's process group, not every process

---
 base/system/Basis/Implementation/Posix/posix-process.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Posix/posix-process.sml b/base/system/Basis/Implementation/Posix/posix-process.sml
index e92c59c..3681b5b 100644
--- a/base/system/Basis/Implementation/Posix/posix-process.sml
+++ b/base/system/Basis/Implementation/Posix/posix-process.sml
@@ -114,7 +114,7 @@ structure POSIX_Process =
 
     val kill' : s_int * s_int -> unit = cfun "kill"
     fun kill (K_PROC (PID pid),Sig.SIG s) = kill'(pid, s)
-      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(~1, s)
+      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(0, s)
       | kill (K_GROUP (PID pid),Sig.SIG s) = kill'(~pid, s)
 
 (* TODO: generalize to finer-grain sleeping (bug #173); also alarm *)
-- 
2.43.0


From c76f3ec87b93f693e3a42e963f74769686356b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 049/106] fix: strings read by Posix.IO.readVec must be zero
 terminated, since they can be passed to system calls

---
 base/runtime/c-libs/posix-io/read.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..348c4b8 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -10,6 +10,7 @@
 #include "ml-objects.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
+#include <string.h>
 
 /* _ml_P_IO_read : (int * int) -> Word8Vector.vector
  *                  fd    nbytes
@@ -27,8 +28,10 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     if (nbytes == 0)
 	return ML_string0;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+  /* allocate the vector with room for a terminating zero byte; note that this
+   * might cause a GC
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes + 1));
     n = read (fd, PTR_MLtoC(char, vec), nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
@@ -37,9 +40,12 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n + 1));
     }
 
+  /* zero the rest of the last word, since ML strings are 0 terminated */
+    memset (PTR_MLtoC(char, vec) + n, 0, BYTES_TO_WORDS(n + 1) * WORD_SZB - n);
+
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 
     return res;
-- 
2.43.0


From 485977582443b4d9706ac9ef5ca557c8b8872a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 050/106] fix: Posix.Process.waitpid_nh examined an undefined
 status when no child had changed state

---
 base/runtime/c-libs/posix-process/waitpid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..561f141 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -21,7 +21,7 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
     ml_val_t	ml_options = REC_SEL(arg, 1);
     int		options = SYSWORD_MLtoC(ml_options);
     int		pid;
-    int		status, how, val;
+    int		status = 0, how, val;
     ml_val_t	r;
 
     pid = waitpid(REC_SELINT(arg, 0), &status, options);
-- 
2.43.0


From e54625b712431902a3daa6c6744bb791fc2a0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:50 +0000
Subject: [PATCH 051/106] fix: OS.IO.poll took the number of events for the
 number of ready descriptors, and did not check for space

---
 base/runtime/c-libs/posix-os/poll.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..5dbb71b 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -27,6 +27,7 @@
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -142,12 +143,13 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 {
     fd_set	rset, wset, eset;
     fd_set	*rfds, *wfds, *efds;
-    int		maxFD, sts, fd, flag;
+    int		maxFD, nItems, sts, fd, flag;
     ml_val_t	l, item;
 
     rfds = wfds = efds = NIL(fd_set *);
     maxFD = 0;
-    for (l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
+    nItems = 0;
+    for (l = pollList;  l != LIST_nil;  l = LIST_tl(l), nItems++) {
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
@@ -182,9 +184,15 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
+      /* NOTE: sts counts the events, not the items that have events */
+	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
 	int		i, resFlag;
 
+      /* each item of the result takes a pair and a list cell */
+	if (NeedGC (msp, nItems * 2 * (3 * WORD_SZB))) {
+	    InvokeGCWithRoots (msp, 0, &pollList, NIL(ml_val_t *));
+	}
+
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	    item	= LIST_hd(l);
 	    fd		= REC_SELINT(item, 0);
@@ -202,10 +210,8 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	for (l = LIST_nil;  i > 0;  ) {
+	    item = resVec[--i];
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From efd7cf8eb0c9729b483e73644098100d4999efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:29 +0000
Subject: [PATCH 052/106] fix: Posix.ProcEnv.getgroups overflowed the
 allocation space for long group lists

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..1ed52f7 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -10,6 +10,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 
@@ -31,10 +32,12 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 {
     ml_val_t    p, w;
 
-/** NOTE: we should do something about possible GC!!! **/
-
     p = LIST_nil;
     while (ngrps-- > 0) {
+      /* make sure that there is space for the word and the list cell */
+	if (NeedGC (msp, (2 + 3) * WORD_SZB)) {
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+	}
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From a580a9b5e50943abbcba1304e23e3831fc8baa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 053/106] fix: do not lift records holding untagged integers
 into the literal section

A spilled-argument record can hold raw 64-bit integers; the literal encoder
boxed them, so a call with a constant Int64/Word64 among its spilled
arguments passed a pointer in place of the number.
---
 base/compiler/CPS/main/new-literals.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/compiler/CPS/main/new-literals.sml b/base/compiler/CPS/main/new-literals.sml
index 129b974..39726d8 100644
--- a/base/compiler/CPS/main/new-literals.sml
+++ b/base/compiler/CPS/main/new-literals.sml
@@ -519,7 +519,10 @@ structure NewLiterals : LITERALS =
 	      in
 		fn (C.VAR x) => inDomain x
 		 | (C.LABEL _) => bug "unexpected LABEL"
-		 | (C.NUM n) => true
+		(* the field of a literal record is a tagged or boxed value, so a record
+		 * with an untagged integer in it cannot be lifted.
+		 *)
+		 | (C.NUM{ty={tag, ...}, ...}) => tag
 		 | (C.REAL r) => true
 		 | (C.STRING s) => true
 		 | C.VOID => false
-- 
2.43.0


From 7809ae7e98f9ec4331bb617e8274ef8a4e96428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 054/106] fix: print datatype values that carry 32-bit numbers
 on 64-bit targets

---
 base/compiler/TopLevel/print/ppobj.sml | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/base/compiler/TopLevel/print/ppobj.sml b/base/compiler/TopLevel/print/ppobj.sml
index 78fd049..9974b3b 100644
--- a/base/compiler/TopLevel/print/ppobj.sml
+++ b/base/compiler/TopLevel/print/ppobj.sml
@@ -72,10 +72,9 @@ structure PPObj : PPOBJ =
      *)
     fun isUbxTy (T.VARty(ref (T.INSTANTIATED t))) = isUbxTy t
       | isUbxTy (T.CONty(tc as T.GENtyc _, [])) =
-          (Target.is64 andalso
-            (TU.eqTycon(tc, BT.int64Tycon) orelse TU.eqTycon(tc, BT.word64Tycon)))
-          orelse
-            (TU.eqTycon(tc, BT.int32Tycon) orelse TU.eqTycon(tc, BT.word32Tycon))
+          if Target.is64
+            then TU.eqTycon(tc, BT.int64Tycon) orelse TU.eqTycon(tc, BT.word64Tycon)
+            else TU.eqTycon(tc, BT.int32Tycon) orelse TU.eqTycon(tc, BT.word32Tycon)
       | isUbxTy _ = false
 
     fun decon (obj, {rep, name, domain}) = (case rep
-- 
2.43.0


From 9fdf6180cb24c3fad34228ac6d9d4ef44c3b02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 055/106] fix: compile array accesses whose constant index does
 not fit an address displacement

---
 MLRISC/amd64/mltree/amd64-gen.sml            | 9 ++++++---
 base/compiler/CodeGen/main/mlrisc-gen-fn.sml | 9 +++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index 6a82305..6b5e8ae 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -288,7 +288,7 @@ functor AMD64Gen (
   	      | doEA (t::trees, b, i, s, d) = (case t
 	        of T.LI n => if fitsIn32Bits n
 		    then doEAImmed (trees, toInt32 n, b, i, s, d)
-		    else error "doEA: immediate too large"
+		    else displace (trees, t, b, i, s, d) (* must be loaded into a register *)
 		 | T.CONST _ => doEALabel(trees, t, b, i, s, d)
 		 | T.LABEL _ => doEALabel(trees, t, b, i, s, d)
 		 | T.LABEXP le => doEALabel(trees, le, b, i, s, d)
@@ -312,8 +312,11 @@ functor AMD64Gen (
 
 	  (* Add a 32-bit immed constant *)
             and doEAImmed (trees, 0, b, i, s, d) = doEA(trees, b, i, s, d)
- 	      | doEAImmed (trees, n, b, i, s, I.Immed m) =
-                  doEA(trees, b, i, s, I.Immed(n+m))
+ 	      | doEAImmed (trees, n, b, i, s, I.Immed m) = (
+		case (SOME(n+m) handle Overflow => NONE)
+		  of SOME n' => doEA(trees, b, i, s, I.Immed n')
+		   | NONE => displace (trees, T.LI(T.I.fromInt32(ty, n)), b, i, s, I.Immed m)
+		(* end case *))
               | doEAImmed (trees, n, b, i, s, I.ImmedLabel le) =
                   doEA(trees, b, i, s,
                        I.ImmedLabel(T.ADD(ty,le,T.LI(T.I.fromInt32(ty, n)))))
diff --git a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
index 323848c..5273e0b 100644
--- a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
+++ b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
@@ -796,17 +796,22 @@ functor MLRiscGen (
 	      fun getObjLength v =
 		    orTag (M.SRL(ity, getObjDescriptor v, LW'(D.tagWidth - 0w1)))
 
+	    (* the scaled value of a constant index; it can exceed the word size when
+	     * the constant is out of bounds, in which case the code is unreachable.
+	     *)
+	      fun scaledIndex (ival, scale) = LI(M.I.narrow(ity, ival*scale))
+
 	    (* scale-and-add, where the second argument is a tagged integer *)
 	      fun scale1 (a, C.NUM{ival=0, ...}) = a
 		| scale1 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI ival)
 		| scale1 (a, i) = M.ADD(ity, a, untagSigned i)
 
 	      fun scale4 (a, C.NUM{ival=0, ...}) = a
-		| scale4 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(ival*4))
+		| scale4 (a, C.NUM{ival, ...}) = M.ADD(ity, a, scaledIndex(ival, 4))
 		| scale4 (a, i) = M.ADD(ity, a, M.SLL(ity, untagSigned i, two))
 
 	      fun scale8 (a, C.NUM{ival=0, ...}) = a
-		| scale8 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(ival*8))
+		| scale8 (a, C.NUM{ival, ...}) = M.ADD(ity, a, scaledIndex(ival, 8))
 		| scale8 (a, i) = M.ADD(ity, a, M.SLL(ity, stripTag(regbind i), two))
 
 	    (* scale by the target word size *)
-- 
2.43.0


From 733a5c70eb19fd3ca5c0f93d91b48e999ff15543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:23 +0000
Subject: [PATCH 056/106] fix: the code after an overflow trap of a conversion
 must not use the unconverted literal

---
 base/compiler/CPS/opt/testcnv.sml | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/compiler/CPS/opt/testcnv.sml b/base/compiler/CPS/opt/testcnv.sml
index 06d491d..6219077 100644
--- a/base/compiler/CPS/opt/testcnv.sml
+++ b/base/compiler/CPS/opt/testcnv.sml
@@ -52,6 +52,12 @@ structure TestCnv : sig
 
     val mlUnit = C.NUM{ival=0, ty={sz=tty, tag=true}}
 
+  (* a dummy result for the (unreachable) continuation of a trap; we cannot use the
+   * argument, since it may not be representable in the result type.
+   *)
+    fun dummy (C.NUMt ty) = C.NUM{ival=0, ty=ty}
+      | dummy _ = mlUnit
+
     fun mkTrap k = let
 	  val tmp = LV.mkLvar()
 	  val ty = {tag=false, sz=ity}
@@ -76,7 +82,7 @@ structure TestCnv : sig
 (*
 	      val trap = C.TRAP(C.APP(jk', [v]))
 *)
-	      val trap = mkTrap (C.APP(jk', [v]))
+	      val trap = mkTrap (C.APP(jk', [dummy ty]))
 	      val x' = LV.mkLvar()
 	      in
 		C.FIX([(C.CONT, jk, [x], [ty], k)],
@@ -112,7 +118,7 @@ structure TestCnv : sig
 (*
 		    C.TRAP(C.APP(jk', [v]))))
 *)
-		    mkTrap (C.APP(jk', [v]))))
+		    mkTrap (C.APP(jk', [dummy ty]))))
 	      end
       | testu _ = bug "TESTU with bogus arguments"
 
-- 
2.43.0


From d2d583e05c1a4e3ba9152905b380a5825bc60db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:23 +0000
Subject: [PATCH 057/106] fix: literals converted between integers and words
 must be normalized for signed and unsigned arithmetic

---
 MLRISC/amd64/mltree/amd64-gen.sml            |  6 ++--
 base/compiler/CPS/opt/contract-prim.sml      | 30 ++++++++++++++++++--
 base/compiler/CPS/opt/lower.sml              |  8 ++++--
 base/compiler/CodeGen/main/mlrisc-gen-fn.sml | 30 ++++++++++----------
 4 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index 6b5e8ae..5d34762 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -719,7 +719,9 @@ functor AMD64Gen (
 						      opnd = dstOpnd })
 				 else ()
 			   end
-		       else shift (ty, O.shrOp, e1, p)
+		       else if isneg (* not a power of two as an unsigned number *)
+			 then divrem (ty, false, e1, e2, rax ty)
+			 else shift (ty, O.shrOp, e1, p)
 		     | NONE =>
 		       divrem(ty, signed, e1, e2, rax ty))
 		| divide (ty, signed, e1, e2) =
@@ -784,7 +786,7 @@ functor AMD64Gen (
 
 	      fun uMultiply (ty, e1, e2 as T.LI n') = (case analyze n'
 		     of SOME(_, false, _, p) => shift (ty, O.shlOp, e1, p)
-		      | NONE => uMultiply0 (ty, e1, e2))
+		      | _ => uMultiply0 (ty, e1, e2))
 		| uMultiply (ty, e1 as T.LI _, e2) = uMultiply (ty, e2, e1)
 		| uMultiply (ty, e1, e2) = uMultiply0 (ty, e1, e2)
 
diff --git a/base/compiler/CPS/opt/contract-prim.sml b/base/compiler/CPS/opt/contract-prim.sml
index f304e08..6d92bae 100644
--- a/base/compiler/CPS/opt/contract-prim.sml
+++ b/base/compiler/CPS/opt/contract-prim.sml
@@ -148,11 +148,37 @@ structure ContractPrim : sig
           then Val arg
           else Pure(P.COPY{from=from, to=to}, [arg])
 
+  (* conversions between integers and words of the same size leave literals as they
+   * are, so we need to normalize the literal arguments of arithmetic operations.
+   * Note that the second argument of a shift is always a default-sized word.
+   *)
+    local
+      fun signed sz (NUM{ival, ty}) = NUM{ival=CA.toSigned(sz, ival), ty=ty}
+        | signed _ v = v
+      fun unsigned sz (NUM{ival, ty}) = NUM{ival=CA.toUnsigned(sz, ival), ty=ty}
+        | unsigned _ v = v
+      fun norm (P.INT sz) = signed sz
+        | norm (P.UINT sz) = unsigned sz
+        | norm (P.FLOAT _) = (fn v => v)
+      fun isShift (P.LSHIFT | P.RSHIFT | P.RSHIFTL) = true
+        | isShift _ = false
+    in
+    fun normArithArgs (P.IARITH{sz, ...}, args) = List.map (signed sz) args
+      | normArithArgs (_, args) = args
+    fun normPureArgs (P.PURE_ARITH{oper, kind}, args as [v, w]) = if isShift oper
+          then [norm kind v, unsigned Target.defaultIntSz w]
+          else List.map (norm kind) args
+      | normPureArgs (P.PURE_ARITH{kind, ...}, args) = List.map (norm kind) args
+      | normPureArgs (P.COPY{from, ...}, args) = List.map (unsigned from) args
+      | normPureArgs (P.INT_TO_REAL{from, ...}, args) = List.map (signed from) args
+      | normPureArgs (_, args) = args
+    end (* local *)
+
   (* contraction for impure arithmetic operations; note that 64-bit IMUL, IDIV,
    * IMOD, IQUOT, and IREM have three arguments on 32-bit targets, so we need
    * to allow for the extra argument in the patterns.
    *)
-    fun arith (get : get_info) arg = ((case arg
+    fun arith (get : get_info) (oper, args) = ((case (oper, normArithArgs (oper, args))
             (***** IADD *****)
            of (P.IARITH{oper=P.IADD, ...}, [NUM{ival=0, ...}, v]) => Val v
             | (P.IARITH{oper=P.IADD, ...}, [v, NUM{ival=0, ...}]) => Val v
@@ -308,7 +334,7 @@ structure ContractPrim : sig
    * have three arguments on 32-bit targets, so we need to allow for the
    * extra argument in the patterns.
    *)
-    fun pure (get : get_info) arg = (case arg
+    fun pure (get : get_info) (oper, args) = (case (oper, normPureArgs (oper, args))
             (***** ADD *****)
            of (P.PURE_ARITH{oper=P.ADD, ...}, [NUM{ival=0, ...}, v]) => Val v
             | (P.PURE_ARITH{oper=P.ADD, ...}, [v, NUM{ival=0, ...}]) => Val v
diff --git a/base/compiler/CPS/opt/lower.sml b/base/compiler/CPS/opt/lower.sml
index bdaeca4..69b403b 100644
--- a/base/compiler/CPS/opt/lower.sml
+++ b/base/compiler/CPS/opt/lower.sml
@@ -40,6 +40,10 @@ structure LowerCPS : sig
 
     fun bug s = ErrorMsg.impossible ("LowerCPS: " ^ s)
 
+  (* literals that were converted from words may have the unsigned representation *)
+    fun signed sz (C.NUM{ival, ty}) = C.NUM{ival = ConstArith.toSigned(sz, ival), ty = ty}
+      | signed _ v = v
+
     val ity = Target.mlValueSz
     val tty = Target.defaultIntSz
 
@@ -79,9 +83,9 @@ structure LowerCPS : sig
 		  | cexp (C.ARITH(oper as P.TESTU{from, to}, args, v, t, e)) =
 		      TestCnv.testu(from, to, args, v, t, cexp e)
 		  | cexp (C.ARITH(P.IARITH{oper=P.IDIV, sz}, xl, v, t, e)) =
-		      DivCnv.expandDiv (xl, v, t, cexp e)
+		      DivCnv.expandDiv (List.map (signed sz) xl, v, t, cexp e)
 		  | cexp (C.ARITH(P.IARITH{oper=P.IMOD, sz}, xl, v, t, e)) =
-		      DivCnv.expandMod (xl, v, t, cexp e)
+		      DivCnv.expandMod (List.map (signed sz) xl, v, t, cexp e)
 		  | cexp (C.ARITH(a, xl, v, t, e)) = C.ARITH(a, xl, v, t, cexp e)
 		  | cexp (C.PURE(p, xl, v, t, e)) = C.PURE(p, xl, v, t, cexp e)
 		  | cexp (C.RCC(k, s, p, xl, vtl, e)) = C.RCC(k, s, p, xl, vtl, cexp e)
diff --git a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
index 5273e0b..6a26e0c 100644
--- a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
+++ b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
@@ -704,12 +704,22 @@ functor MLRiscGen (
 	      fun tag (false, e) = tagUnsigned e
 		| tag (true, e) = tagSigned e
 
-	      fun untagUnsigned (C.NUM{ty={tag=true, ...}, ival}) = LI ival
+	    (* conversions between integers and words of the same size leave literals as
+	     * they are, so the literal argument of an unsigned operation can be negative,
+	     * and that of a signed operation can be too large.
+	     *)
+	      fun untagUnsigned (C.NUM{ty={tag=true, ...}, ival}) =
+		    LI (if ival < 0
+		      then ival + IntInf.<<(1, Word.fromInt Target.defaultIntSz)
+		      else ival)
 		| untagUnsigned (v as C.NUM _) =
 		    error("untagUnsigned: " ^ PPCps.value2str v)
 		| untagUnsigned v = M.SRL(ity, regbind v, one)
 
-	      fun untagSigned (C.NUM{ty={tag=true, ...}, ival}) = LI ival
+	      fun untagSigned (C.NUM{ty={tag=true, ...}, ival}) =
+		    LI (if ival >= IntInf.<<(1, Word.fromInt(Target.defaultIntSz - 1))
+		      then ival - IntInf.<<(1, Word.fromInt Target.defaultIntSz)
+		      else ival)
 		| untagSigned (v as C.NUM _) =
 		    error("untagSigned: " ^ PPCps.value2str v)
 		| untagSigned v = M.SRA(ity, regbind v, one)
@@ -733,7 +743,7 @@ functor MLRiscGen (
 		| tagIntSub (subOp, v, w) = addTag(subOp(ity, regbind v, regbind w))
 
 	      fun tagIntMul (signed, mulOp, v, w) = let
-		    fun f (C.NUM{ival=k, ...}, C.NUM{ival=j, ...}) = (LI(k+k), LI j)
+		    fun f (C.NUM{ival=k, ...}, w as C.NUM _) = (LI(k+k), untag(signed,w))
 		      | f (C.NUM{ival=k, ...}, w) = (untag(signed,w), LI(k+k))
 		      | f (v, w as C.NUM _) = f(w, v)
 		      | f (v, w) = (stripTag(regbind v), untag(signed,w))
@@ -743,12 +753,7 @@ functor MLRiscGen (
 		    end
 
 	      fun tagIntQuot (signed, v, w) = let
-		    val (v, w) = (case (v, w)
-			   of (C.NUM{ival=k, ...}, C.NUM{ival=j, ...}) => (LI k, LI j)
-			    | (C.NUM{ival=k, ...}, w) => (LI k, untag(signed, w))
-			    | (v, C.NUM{ival=k, ...}) => (untag(signed, v), LI k)
-			    | (v, w) => (untag(signed, v), untag(signed, w))
-			  (* end case *))
+		    val v = untag(signed, v) and w = untag(signed, w)
 		  (* The only way a tagged-int div can overflow is when the result
 		   * gets retagged, therefore we can use M.DIVS instead of M.DIVT.
 		   *)
@@ -760,12 +765,7 @@ functor MLRiscGen (
 		    end
 
 	      fun tagIntRem (signed, v, w) = let
-		    val (v, w) = (case (v, w)
-			   of (C.NUM{ival=k, ...}, C.NUM{ival=j, ...}) => (LI k, LI j)
-			    | (C.NUM{ival=k, ...}, w) => (LI k, untag(signed, w))
-			    | (v, C.NUM{ival=k, ...}) => (untag(signed, v), LI k)
-			    | (v, w) => (untag(signed, v), untag(signed, w))
-			  (* end case *))
+		    val v = untag(signed, v) and w = untag(signed, w)
 		    val exp = if signed
 			  then M.REMS (M.DIV_TO_ZERO, ity, v, w)
 			  else M.REMU (ity, v, w)
-- 
2.43.0


From e75fc6313307ebf20888f37fa7e49c8911ae7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:31 +0000
Subject: [PATCH 058/106] fix: pass the out-of-band, peek and don't-route flags
 of sockets in the order the runtime expects

---
 .../Basis/Implementation/Sockets/socket.sml      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 9771ddd..ac923b5 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -285,7 +285,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (vec, i, len) = vbuf buffer
     in
-	if (len > 0) then sendV (fd, vec, i, len, don't_route, oob) else 0
+	if (len > 0) then sendV (fd, vec, i, len, oob, don't_route) else 0
     end
     fun sendVec' arg = sendVec'0 fdB arg
     fun sendVecNB' arg = wrapNB_o (sendVec'0 fdNB) arg
@@ -304,7 +304,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (arr, i, len) = abuf buffer
     in
-	if (len > 0) then sendA (fd, arr, i, len, don't_route, oob) else 0
+	if (len > 0) then sendA (fd, arr, i, len, oob, don't_route) else 0
     end
     fun sendArr' arg = sendArr'0 fdB arg
     fun sendArrNB' arg = wrapNB_o (sendArr'0 fdNB) arg
@@ -333,7 +333,7 @@ structure SocketImp : SOCKET =
 	val (vec, i, len) = vbuf buffer
     in
 	if (len > 0) then
-	    sendToV(fd, vec, i, len, don't_route, oob, addr)
+	    sendToV(fd, vec, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -357,7 +357,7 @@ structure SocketImp : SOCKET =
 	val (arr, i, len) = abuf buffer
     in
 	if (len > 0) then
-	    sendToA(fd, arr, i, len, don't_route, oob, addr)
+	    sendToA(fd, arr, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -372,7 +372,7 @@ structure SocketImp : SOCKET =
       fun recvV _ (_, 0, _, _) = W8V.fromList[]
 	| recvV getfd (sock, nbytes, peek, oob) =
 	    if nbytes < 0 then raise Size
-	    else recvV' (getfd sock, nbytes, peek, oob)
+	    else recvV' (getfd sock, nbytes, oob, peek)
       val recvA : (int * w8array * int * int * bool * bool) -> int
 	    = sockFn "recvBuf"
     in
@@ -398,7 +398,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (buf, i, sz) = abuf buffer
     in
-	if sz > 0 then recvA (fd, buf, i, sz, peek, oob) else 0
+	if sz > 0 then recvA (fd, buf, i, sz, oob, peek) else 0
     end
     fun recvArr' arg = recvArr'0 fdB arg
     fun recvArrNB' arg = wrapNB_o (recvArr'0 fdNB) arg
@@ -411,7 +411,7 @@ structure SocketImp : SOCKET =
 	| recvFromV getfd (sock, sz, peek, oob) =
 	  if sz < 0 then raise Size
 	  else let val fd = getfd sock
-		   val (data, addr) = recvFromV' (fd, sz, peek, oob)
+		   val (data, addr) = recvFromV' (fd, sz, oob, peek)
 	       in
 		   (data, ADDR addr)
 	       end
@@ -447,7 +447,7 @@ structure SocketImp : SOCKET =
 	val (buf, i, sz) = abuf asl
     in
 	if sz > 0 then let
-		val (n, addr) = recvFromA(fd, buf, i, sz, peek, oob)
+		val (n, addr) = recvFromA(fd, buf, i, sz, oob, peek)
 	    in
 		(n, ADDR addr)
 	    end
-- 
2.43.0


From 3a1a1db3bea84cb2ce62fe0f1677ba3029d4a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:31 +0000
Subject: [PATCH 059/106] fix: getRCVBUF and setRCVBUF of sockets must use the
 size of the receive buffer

---
 base/system/Basis/Implementation/Sockets/socket.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index ac923b5..ba78be5 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -88,7 +88,7 @@ structure SocketImp : SOCKET =
 	  val ctlSNDBUF    : (sockFD * int option) -> int =
 		sockFn "ctlSNDBUF"
 	  val ctlRCVBUF    : (sockFD * int option) -> int =
-		sockFn "ctlSNDBUF"
+		sockFn "ctlRCVBUF"
 	in
       (* get/set socket options *)
 	fun getDEBUG x = getOpt ctlDEBUG x
-- 
2.43.0


From b84889262232a88d05b0da6b4dbb2b18a763a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:31 +0000
Subject: [PATCH 060/106] fix: the family of a socket address is in host byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From bb3e438df76a802185ef4c7299fcdc34b3a1cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:31 +0000
Subject: [PATCH 061/106] fix: getservbyport expects the port in network byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..84ccee9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons(REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 219dc30bf37c857b5c2164bc6137d53b4709287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:32 +0000
Subject: [PATCH 062/106] fix: the address family given to getnetbyaddr is a
 system constant

---
 base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
index 09f94db..8a38e80 100644
--- a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
@@ -28,7 +28,7 @@ ml_val_t _ml_NetDB_getnetbyaddr (ml_state_t *msp, ml_val_t arg)
   return RAISE_ERROR(msp, "<getnetbyaddr not implemented>");
 #else
     unsigned long   net = REC_SELWORD(arg, 0);
-    int		    type = REC_SELINT(arg, 1);
+    int		    type = REC_SELINT(REC_SEL(arg, 1), 0);
 
     return _util_NetDB_mknetent (msp, getnetbyaddr(net, type));
 #endif
-- 
2.43.0


From a15ac074be6263256161752d392ca314739d1b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:17 +0000
Subject: [PATCH 063/106] fix: reject Unix-domain socket paths that do not fit
 into a socket address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..b082391 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -13,6 +13,7 @@
 #include "ml-objects.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
+#include <errno.h>
 
 
 /* _ml_Sock_tounixaddr : string -> addr
@@ -26,6 +27,11 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path)) {
+	errno = ENAMETOOLONG;
+	return RAISE_SYSERR(msp, -1);
+    }
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From 73912c679dcd06cab2574b29ef64bc688c6ecb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:17 +0000
Subject: [PATCH 064/106] fix: the path of a Unix-domain socket address ends
 with the address

---
 .../c-libs/smlnj-sockets/from-unixaddr.c        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
index fecee4b..eaec69b 100644
--- a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
@@ -11,6 +11,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include <stddef.h>
 #include "cfun-proto-list.h"
 
 
@@ -20,11 +21,21 @@
  */
 ml_val_t _ml_Sock_fromunixaddr (ml_state_t *msp, ml_val_t arg)
 {
-    struct sockaddr_un	*addr = GET_SEQ_DATAPTR(struct sockaddr_un, arg);
+    int			len = GET_SEQ_LEN(arg);
+    int			pathOff = offsetof(struct sockaddr_un, sun_path);
+    char		path[sizeof(struct sockaddr_un)+1];
 
-    ASSERT(addr->sun_family == AF_UNIX);
+  /* the address of an unnamed socket has no path, and a path that fills the address
+   * is not terminated.
+   */
+    len -= pathOff;
+    if (len < 0) len = 0;
+    if (len > sizeof(struct sockaddr_un)) len = sizeof(struct sockaddr_un);
 
-    return ML_CString(msp, addr->sun_path);
+    memcpy (path, GET_SEQ_DATAPTR(char, arg) + pathOff, len);
+    path[len] = '\0';
+
+    return ML_CString(msp, path);
 
 } /* end of _ml_Sock_fromunixaddr */
 
-- 
2.43.0


From 49790a52e771cb66b8f1e8cc9ef9aee1fb1252a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:27 +0000
Subject: [PATCH 065/106] fix: strings received from a socket are zero
 terminated and do not overlap the sender's address

---
 base/runtime/c-libs/smlnj-sockets/recv.c     | 23 ++++++++++----------
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 16 +++++++++-----
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..114c752 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -10,6 +10,7 @@
 #include "ml-objects.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
+#include <string.h>
 
 /* _ml_Sock_recv : (sock * int * bool * bool) -> int
  *
@@ -22,14 +23,16 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec, res;
-    int		m, n;
+    int		n;
     char	*s;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+  /* allocate the vector with room for a terminating zero byte; note that this
+   * might cause a GC
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes + 1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -39,18 +42,16 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     else if (n == 0)
 	return ML_string0;
 
-  /* pad the last word of the vector with zero bytes so that string pattern
-   * matching on the result will work.
-   */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
-	s[m] = '\0';
-    }
-
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n + 1));
     }
 
+  /* pad the last word of the vector with zero bytes so that string pattern
+   * matching on the result will work and the string is 0 terminated.
+   */
+    memset (s + n, 0, BYTES_TO_WORDS(n + 1) * WORD_SZB - n);
+
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 
     return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..8a011e0 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -10,6 +10,7 @@
 #include "ml-objects.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
+#include <string.h>
 
 /* _ml_Sock_recvfrom : (sock * int * bool * bool) -> (Word8Vector.vector * addr)
  *
@@ -29,8 +30,10 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+  /* allocate the vector with room for a terminating zero byte; note that this
+   * might cause a GC
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes + 1));
 
     n = recvfrom (
 	sock, PTR_MLtoC(char, vec), nbytes, flag,
@@ -39,18 +42,21 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
 	    if (n < nbytes)
 	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n + 1));
+	  /* zero the rest of the last word, since ML strings are 0 terminated */
+	    memset (PTR_MLtoC(char, vec) + n, 0, BYTES_TO_WORDS(n + 1) * WORD_SZB - n);
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+      /* must follow the shrinking of the vector, which frees what was allocated after it */
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From aed40ec5fa09592d584fd687e7af4b7484216c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:18 +0000
Subject: [PATCH 066/106] fix: reporting an uncaught exception must not
 overflow its buffer

---
 base/runtime/kernel/run-ml.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index d8488f2..cba5b01 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -312,13 +312,13 @@ PVT void UncaughtExn (ml_val_t e)
     char        buf[1024];
 
     if (isUNBOXED(val))
-        sprintf (buf, "%ld\n", (long int) INT_MLtoC(val));
+        snprintf (buf, sizeof(buf), "%ld\n", (long int) INT_MLtoC(val));
     else {
         ml_val_t        desc = OBJ_DESC(val);
         if (desc == DESC_string)
-            sprintf (buf, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
+            snprintf (buf, sizeof(buf), "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
         else
-            sprintf (buf, "<unknown>");
+            snprintf (buf, sizeof(buf), "<unknown>");
     }
 
     if (traceBack != LIST_nil) {
@@ -329,7 +329,7 @@ PVT void UncaughtExn (ml_val_t e)
             next = LIST_tl(traceBack);
         } while (next != LIST_nil);
         val = LIST_hd(traceBack);
-        sprintf (buf+strlen(buf), " raised at %.*s",
+        snprintf (buf+strlen(buf), sizeof(buf)-strlen(buf), " raised at %.*s",
                  (int) GET_SEQ_LEN(val), STR_MLtoC(val));
     }
 
-- 
2.43.0


From d8bde6785a4b93aef592a4b6940b22af5739f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:19 +0000
Subject: [PATCH 067/106] fix: a masked GC signal is pending until it is
 unmasked

---
 base/runtime/include/vproc-state.h  |  2 ++
 base/runtime/kernel/ml-state.c      |  2 ++
 base/runtime/mach-dep/signal-util.c |  6 ++++++
 base/runtime/mach-dep/unix-signal.c | 29 +++++++++++++++++++++++------
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/base/runtime/include/vproc-state.h b/base/runtime/include/vproc-state.h
index 218eb02..1011ffb 100644
--- a/base/runtime/include/vproc-state.h
+++ b/base/runtime/include/vproc-state.h
@@ -53,6 +53,8 @@ struct vproc_state {
     int		vp_gcSigState;		/* the state of the GC signal handler */
     int         vp_gcSigThreshold;      /* the generation threshold for generating a */
                                         /* GC signal (0 => all, 1 => gen 1, ...) */
+    bool_t	vp_gcSigMasked;		/* is the GC signal masked? */
+    bool_t	vp_gcSigPending;	/* was there a GC signal while it was masked? */
     Time_t	*vp_gcTime0;	    /* The cumulative CPU time at the start of */
 				    /* the last GC (see kernel/timers.c). */
     Time_t	*vp_gcTime;	    /* The cumulative GC time. */
diff --git a/base/runtime/kernel/ml-state.c b/base/runtime/kernel/ml-state.c
index be52d0e..ff8cef2 100644
--- a/base/runtime/kernel/ml-state.c
+++ b/base/runtime/kernel/ml-state.c
@@ -117,6 +117,8 @@ PVT void InitVProcState (vproc_state_t *vsp)
     vsp->vp_nextPendingSig		= MIN_SYSTEM_SIG;
     vsp->vp_gcSigState			= ML_SIG_IGNORE;
     vsp->vp_gcSigThreshold              = 1;  /* by default, we ignore minor collections */
+    vsp->vp_gcSigMasked			= FALSE;
+    vsp->vp_gcSigPending		= FALSE;
     vsp->vp_gcTime0			= NEW_OBJ(Time_t);
     vsp->vp_gcTime			= NEW_OBJ(Time_t);
 
diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index 8c9f7f4..1d18a14 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -35,6 +35,12 @@ void GCSignal (vproc_state_t *vsp, int nGen)
         return;
     }
 
+    if (vsp->vp_gcSigMasked) {
+      /* the signal is delivered when it is unmasked */
+	vsp->vp_gcSigPending = TRUE;
+	return;
+    }
+
     vsp->vp_sigCounts[RUNSIG_GC].nReceived++;
     vsp->vp_totalSigCount.nReceived++;
 
diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index 9607f5a..928f0e8 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -217,6 +217,8 @@ void SetSignalMask (ml_val_t sigList)
 {
     SigMask_t	mask;
     int		i;
+    vproc_state_t *vsp = SELF_VPROC;
+    bool_t	gcMasked = FALSE;
 
     SIG_ClearMask(mask);
 
@@ -227,12 +229,16 @@ void SetSignalMask (ml_val_t sigList)
 	    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
 		SIG_AddToMask(mask, SigInfo[i].id);
 	    }
+	    gcMasked = TRUE;
 	}
 	else {
 	    while (sigList != LIST_nil) {
 		ml_val_t	car = LIST_hd(sigList);
 		int		sig = REC_SELINT(car, 0);
-		SIG_AddToMask(mask, sig);
+		if (sig == RUNSIG_GC)
+		    gcMasked = TRUE;
+		else
+		    SIG_AddToMask(mask, sig);
 		sigList = LIST_tl(sigList);
 	    }
 	}
@@ -240,6 +246,13 @@ void SetSignalMask (ml_val_t sigList)
 
     SIG_SetMask(mask);
 
+  /* the GC signal is not known to the system */
+    vsp->vp_gcSigMasked = gcMasked;
+    if ((! gcMasked) && vsp->vp_gcSigPending) {
+	vsp->vp_gcSigPending = FALSE;
+	GCSignal (vsp, vsp->vp_gcSigThreshold);
+    }
+
 } /* end of SetSignalMask */
 
 
@@ -256,21 +269,25 @@ ml_val_t GetSignalMask (ml_state_t *msp)
     SigMask_t	mask;
     ml_val_t	name, sig, sigList, res;
     int		i, n;
+    vproc_state_t *vsp = SELF_VPROC;
+
+#define IS_MASKED(ID)	\
+	(((ID) == RUNSIG_GC) ? vsp->vp_gcSigMasked : SIG_isSet(mask, (ID)))
 
     SIG_GetMask(mask);
 
   /* count the number of masked signals */
-    for (i = 0, n = 0;  i < NUM_SYSTEM_SIGS;  i++) {
-	if (SIG_isSet(mask, SigInfo[i].id)) n++;
+    for (i = 0, n = 0;  i < NUM_SIGS;  i++) {
+	if (IS_MASKED(SigInfo[i].id)) n++;
     }
 
     if (n == 0)
 	return OPTION_NONE;
-    else if (n == NUM_SYSTEM_SIGS)
+    else if (n == NUM_SIGS)
 	sigList = LIST_nil;
     else {
-	for (i = 0, sigList = LIST_nil;  i < NUM_SYSTEM_SIGS;  i++) {
-	    if (SIG_isSet(mask, SigInfo[i].id)) {
+	for (i = 0, sigList = LIST_nil;  i < NUM_SIGS;  i++) {
+	    if (IS_MASKED(SigInfo[i].id)) {
 		name = ML_CString (msp, SigInfo[i].name);
 		REC_ALLOC2(msp, sig, INT_CtoML(SigInfo[i].id), name);
 		LIST_cons(msp, sigList, sig, sigList);
-- 
2.43.0


From 8414f3f5e2293b04277bcd626d924789fb95c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:42 +0000
Subject: [PATCH 068/106] fix: canInput must extend the last buffer of the
 stream, and count all of the available input

---
 base/system/Basis/Implementation/IO/bin-io-fn.sml  | 4 ++--
 base/system/Basis/Implementation/IO/text-io-fn.sml | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index 9c3af50..c13099f 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -262,10 +262,10 @@ functor BinIOFn (
 		    val remain = len - i
 		    in
 		      if (remain >= n)
-			then SOME n
+			then SOME amount
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index b4ac1d8..df84386 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -274,10 +274,10 @@ functor TextIOFn (
 		    val remain = len - i
 		    in
 		      if (remain >= n)
-			then SOME n
+			then SOME amount
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
-- 
2.43.0


From 37c7a5183ba386e55d37f328baa4f33c30de7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:42 +0000
Subject: [PATCH 069/106] fix: inputN of a negative count must raise Size

---
 base/system/Basis/Implementation/IO/bin-io-fn.sml  | 2 +-
 base/system/Basis/Implementation/IO/text-io-fn.sml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index c13099f..34c4f1d 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -220,7 +220,7 @@ functor BinIOFn (
 			  (* end case *))
 		      | TERMINATED => ([], ISTRM(buf, V.length data))
 		    (* end case *))
-	      val (data, strm) = inputList (buf, pos, n)
+	      val (data, strm) = if (n < 0) then raise Size else inputList (buf, pos, n)
 	      in
 		(V.concat data, strm)
 	      end
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index df84386..92f271d 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -229,7 +229,7 @@ functor TextIOFn (
 			  (* end case *))
 		      | TERMINATED => ([], ISTRM(buf, V.length data))
 		    (* end case *))
-	      val (data, strm) = inputList (buf, pos, n)
+	      val (data, strm) = if (n < 0) then raise Size else inputList (buf, pos, n)
 	      in
 		(V.concat data, strm)
 	      end
-- 
2.43.0


From 0ff2433417f98e2bee7bb05ae888743f73d215e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:42 +0000
Subject: [PATCH 070/106] fix: inputAll of a stream on an empty vector raised
 Io Div

---
 base/system/Basis/Implementation/IO/prim-io-fn.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/IO/prim-io-fn.sml b/base/system/Basis/Implementation/IO/prim-io-fn.sml
index 7e79c68..40b6744 100644
--- a/base/system/Basis/Implementation/IO/prim-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/prim-io-fn.sml
@@ -264,7 +264,7 @@ functor PrimIO (
 	    (* random access not supported because pos type is abstract *)
 	    RD{
 		name = "<vector>",
-		chunkSize = len,
+		chunkSize = IntImp.max(1, len),
 		readVec = SOME readV,
 		readArr = SOME readA,
 		readVecNB = SOME (SOME o readV),
-- 
2.43.0


From bcae11b62154aad1035983a7f359bb7ab2b3c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:43 +0000
Subject: [PATCH 071/106] fix: Vector.update and CharVector.update must raise
 Subscript for an index out of range

---
 base/system/Basis/Implementation/char-vector.sml | 7 ++++---
 base/system/Basis/Implementation/vector.sml      | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/char-vector.sml b/base/system/Basis/Implementation/char-vector.sml
index 7c5a433..3d65234 100644
--- a/base/system/Basis/Implementation/char-vector.sml
+++ b/base/system/Basis/Implementation/char-vector.sml
@@ -44,9 +44,10 @@ structure CharVector : MONO_VECTOR =
     val sub      = InlineT.CharVector.chkSub
     val concat   = String.concat
 
-    fun update (v, i, x) = tabulate (length v,
-				     fn i' => if i = i' then x
-					      else usub (v, i'))
+    fun update (v, i, x) =
+	if InlineT.Int.ltu(i, length v)
+	  then tabulate (length v, fn i' => if i = i' then x else usub (v, i'))
+	  else raise General.Subscript
 
     fun appi f vec = let
 	val len = length vec
diff --git a/base/system/Basis/Implementation/vector.sml b/base/system/Basis/Implementation/vector.sml
index 4f6bab8..b5e8b52 100644
--- a/base/system/Basis/Implementation/vector.sml
+++ b/base/system/Basis/Implementation/vector.sml
@@ -125,7 +125,9 @@ structure Vector : VECTOR =
     end
 
     fun update (v, i, x) =
-	mapi (fn (i', x') => if i = i' then x else x') v
+	if InlineT.Int.ltu(i, length v)
+	  then mapi (fn (i', x') => if i = i' then x else x') v
+	  else raise General.Subscript
 
     fun foldli f init vec = let
 	val len = length vec
-- 
2.43.0


From 4d1164f3ee42a2b7ac28710ad196780c1c666fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 072/106] fix: Posix.TTY.getpgrp must raise SysErr when it
 fails

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..4318c99 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -19,6 +19,8 @@ ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
     int         fd = INT_MLtoC(arg);
 
-    return INT_CtoML(tcgetpgrp(fd));
+    int		pgrp = tcgetpgrp(fd);
+
+    CHK_RETURN(msp, pgrp)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From b68b329385dca64ff5fba0df6e49ee315648eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 073/106] fix: tcsetattr passed uninitialised fields to the
 terminal driver

---
 base/runtime/c-libs/posix-tty/tcsetattr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/c-libs/posix-tty/tcsetattr.c b/base/runtime/c-libs/posix-tty/tcsetattr.c
index 6bf4f2d..5bc81ab 100644
--- a/base/runtime/c-libs/posix-tty/tcsetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcsetattr.c
@@ -28,6 +28,9 @@ ml_val_t _ml_P_TTY_tcsetattr (ml_state_t *msp, ml_val_t arg)
     struct termios	data;
     ml_val_t		tmp;
 
+  /* the line discipline and so on, which are not in the ML representation */
+    memset (&data, 0, sizeof(data));
+
     tmp = REC_SEL(termio_rep, 0);
     data.c_iflag = SYSWORD_MLtoC(tmp);
     tmp = REC_SEL(termio_rep, 1);
-- 
2.43.0


From 03324b32c1f99dd2bb26458d696d0a22f817a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 074/106] fix: a date offset of a day or more must move the
 date by whole days

---
 base/system/Basis/Implementation/date.sml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index fa8b640..e2da1e6 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -315,6 +315,8 @@ structure Date : DATE =
 	    hour = hour, minute = minute, second = second
 	  } end
 
+    val secPerDay : IntInf.int = 24*60*60
+
     fun date {year, month, day, hour, minute, second, offset} = let
 	  val (secAdjust, offset) = (case offset
 		 of NONE => (0, NONE)
@@ -323,9 +325,9 @@ structure Date : DATE =
                        * it is necessary to use "quot/rem" so that we round toward
                        * zero when `t` is negative!
                        *)
-		      val (adjust, offset) = IntInf.quotRem(Time.toSeconds t, 24*60*60)
+		      val (adjust, offset) = IntInf.quotRem(Time.toSeconds t, secPerDay)
 		      in
-			(Int.fromLarge adjust, SOME(Time.fromSeconds offset))
+			(Int.fromLarge(adjust * secPerDay), SOME(Time.fromSeconds offset))
 		      end
 		(* end case *))
 	  val normDate = normalizeDate {
-- 
2.43.0


From dfd65533b37524fd14be29a307f1ddd2fe16c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 075/106] fix: Date.toTime of a date with an explicit offset
 must not depend on the local time zone

---
 base/system/Basis/Implementation/date.sml | 27 ++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index e2da1e6..9ffd961 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -79,8 +79,8 @@ structure Date : DATE =
   (* a function to return the offset from UTC of the time t in the local timezone.
    * This value reflects not only the geographical location of the host system, but
    * also daylight savings time (if it is in effect).  Note that this value is
-   * positive to the east of UTC and negative to the west.  Add it to UTC to get
-   * the local time.
+   * positive to the west of UTC and negative to the east.  Subtract it from UTC
+   * to get the local time.
    * Note that the offset is signed!!!
    *)
     local
@@ -108,7 +108,7 @@ structure Date : DATE =
 	hour : int,			(* 0..23 *)
 	minute : int,			(* 0..59 *)
 	second : int,			(* 0..61 (allowing for leap seconds) *)
-	offset : Time.time option,	(* signed delta east of UTC; add to UTC to get local time *)
+	offset : Time.time option,	(* signed delta west of UTC; subtract from UTC to get local time *)
 	wday : weekday,
 	yday : int,			(* 0..365 *)
 	isDst : bool option
@@ -358,19 +358,16 @@ structure Date : DATE =
     fun fromTimeUniv t = tm2date (gmTime t, SOME Time.zeroTime)
 
   (* return the UTC time corresponding to the given date. *)
-    fun toTime (date as DATE{offset, ...}) = let
-	  val t = mkTime' (date2tm date)
+    fun toTime (date as DATE{offset=NONE, ...}) = nsToTime (mkTime' (date2tm date))
+      | toTime (DATE{year, month, day, hour, minute, second, offset=SOME offset, ...}) = let
+	(* the fields of the date are the time in the date's own timezone, which is
+	 * offset west of UTC; the host's timezone does not matter.
+	 *)
+	  val days = toAbsoluteDay{year=year, month=monthToInt month + 1, day=day}
+		- toAbsoluteDay{year=1970, month=1, day=1}
+	  val secs = Int.toLarge(60 * (60 * (24 * days + hour) + minute) + second)
 	  in
-	    case offset
-	     of NONE => nsToTime t
-	      | SOME offset =>
-		(* note that representation of a date is canonical, which means that the
-		 * offset has already been applied, so we do not need to adjust by the
-		 * date's offset.  On the other hand, mkTime' returns the _local_ time,
-		 * so we do need to adjust for the local offset.
-		 *)
-		  Time.+(nsToTime t, localOffsetForTime t)  (* converts local time to UTC *)
-	    (* end case *)
+	    Time.+(Time.fromSeconds secs, offset)
 	  end
 
   (* date comparison does not take into account the offset
-- 
2.43.0


From 287d44f236960ab4fc6dcaaa32edbb7423a0291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 076/106] fix: Date conversions of times outside the range of
 the runtime must raise Date

---
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 base/runtime/c-libs/smlnj-date/mktime.c    | 2 +-
 base/system/Basis/Implementation/date.sml  | 9 ++++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..0f84991 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp,0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
diff --git a/base/runtime/c-libs/smlnj-date/mktime.c b/base/runtime/c-libs/smlnj-date/mktime.c
index b7aaabc..cc1bef7 100644
--- a/base/runtime/c-libs/smlnj-date/mktime.c
+++ b/base/runtime/c-libs/smlnj-date/mktime.c
@@ -38,7 +38,7 @@ ml_val_t _ml_Date_mktime (ml_state_t *msp, ml_val_t arg)
 
     t = mktime (&tm);
 
-    if (t < 0) {
+    if ((t < 0) || ((Unsigned64_t)t > ~(Unsigned64_t)0 / NS_PER_SEC)) {
 	return RAISE_ERROR(msp, "Invalid date");
     }
     else {
diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index 9ffd961..058c649 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -71,7 +71,14 @@ structure Date : DATE =
 
   (* conversions between integer numbers of seconds (used by runtime) and Time.time values *)
     fun nsToTime s = Time.fromNanoseconds (Word64.toLargeInt s)
-    fun timeToNs t = Word64.fromLargeInt (Time.toNanoseconds t)
+    fun timeToNs t = let
+	  val ns = Time.toNanoseconds t
+	  in
+	  (* times that have no representation in the runtime interface *)
+	    if (ns < 0) orelse (Word64.toLargeInt 0wxFFFFFFFFFFFFFFFF < ns)
+	      then raise Date
+	      else Word64.fromLargeInt ns
+	  end
 
     val localTime = localTime' o timeToNs
     val gmTime = gmTime' o timeToNs
-- 
2.43.0


From 98fae41497127a0c31f79555f7ba7e8fbf4bb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 077/106] fix: Date.fmt must not drop a literal or trailing
 percent sign

---
 base/system/Basis/Implementation/date.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index 058c649..aed9193 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -410,7 +410,8 @@ structure Date : DATE =
 		      fun continue (len, ss') = (len, SS.slice(start, 0, SOME 2), ss')
 		      in
 			case SS.getc rest
-			 of NONE => (1, SS.full "%", rest)
+			 of NONE => (1, SS.full "%%", rest)
+			  | SOME(#"%", ss') => continue(1, ss')
 			  | SOME(#"a", ss') => continue(3, ss')
 			  | SOME(#"A", ss') => continue(20, ss')
 			  | SOME(#"b", ss') => continue(3, ss')
-- 
2.43.0


From 70671b5f45f8d45bcd169ac9e345ae72f6685dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 078/106] fix: Date.fmt must format the fields of the date, and
 not those of another time

---
 base/runtime/c-libs/smlnj-date/strftime.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/strftime.c b/base/runtime/c-libs/smlnj-date/strftime.c
index 8e809dc..272cdcb 100644
--- a/base/runtime/c-libs/smlnj-date/strftime.c
+++ b/base/runtime/c-libs/smlnj-date/strftime.c
@@ -46,10 +46,10 @@ ml_val_t _ml_Date_strftime (ml_state_t *msp, ml_val_t arg)
  * as part of the date normalization process, but we will need a different API
  * in the runtime system.
  */
-        /* normalize the time structure */
-        if (mktime(&tm) < 0) {
-	    return RAISE_ERROR(msp, "strftime failed: invalid tm struct");
-        }
+      /* we only want to know if DST is in effect; the other fields are the user's */
+	struct tm tm2 = tm;
+	mktime (&tm2);
+	tm.tm_isdst = (tm2.tm_isdst > 0) ? 1 : 0;
     }
 
     sz = strftime (buf, sizeof(buf), STR_MLtoC(fmt), &tm);
-- 
2.43.0


From d0f4282ffc160390b4a750dc59b050ab4e7c28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 079/106] fix: Date.scan must skip initial white space

---
 base/system/Basis/Implementation/date.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index aed9193..6181455 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -563,7 +563,7 @@ structure Date : DATE =
 		  | _ => NONE
 		(* end case *))
 	  in
-	    wday s
+	    wday (StringCvt.skipWS getc s)
 	  end (* scan *)
 
     fun fromString s = StringCvt.scanString scan s
-- 
2.43.0


From 55534429d6f4b1a333d2c5cc7a27e7654cc4ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 080/106] fix: Time.scan of "12." is 12 seconds

---
 base/system/Basis/Implementation/time.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/time.sml b/base/system/Basis/Implementation/time.sml
index 3559e0d..4f99dc5 100644
--- a/base/system/Basis/Implementation/time.sml
+++ b/base/system/Basis/Implementation/time.sml
@@ -143,7 +143,10 @@ structure TimeImp : sig
 		    NONE => NONE
 		  | SOME (wh, s', _) =>
 		      (case getc s' of
-			   SOME (#".", s'') => fractional (wh, s'')
+			   SOME (#".", s'') =>
+			     (case fractional (wh, s'') of
+				  NONE => return (wh * 1000000, s')
+				| res => res)
 			 | _ => return (wh * 1000000, s'))
 	in
 	    case getc s of
-- 
2.43.0


From a51696193fa6d9cb2c113788f200ed49db6e89bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:31 +0000
Subject: [PATCH 081/106] fix: asdl::integer::write must write the integer

---
 asdl/src/lib/cpp/asdl-integer.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index 43f883e..cb52514 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -63,7 +63,35 @@ namespace asdl {
 
     void integer::write (outstream & os) const
     {
-/* FIXME */
+      // split the magnitude into 7-bit digits (least-significant digit first)
+	std::vector<unsigned char> digits;
+	uint64_t acc = 0;
+	int nbits = 0;
+	for (auto it = this->_digits.crbegin();  it != this->_digits.crend();  ++it) {
+	    acc |= static_cast<uint64_t>(*it) << nbits;
+	    nbits += 32;
+	    while (nbits >= 7) {
+		digits.push_back(acc & 0x7f);
+		acc >>= 7;
+		nbits -= 7;
+	    }
+	}
+	digits.push_back(acc & 0x7f);
+      // remove leading zeros
+	while ((digits.size() > 1) && (digits.back() == 0)) {
+	    digits.pop_back();
+	}
+      // the first byte has room for six bits
+	if (digits.back() > 0x3f) {
+	    digits.push_back(0);
+	}
+      // write the bytes; the high bit marks all but the last byte
+	for (size_t i = digits.size();  i-- > 0; ) {
+	    unsigned char b = digits[i];
+	    if (this->_sign && (i == digits.size() - 1)) b |= 0x40;
+	    if (i > 0) b |= 0x80;
+	    os.putb(b);
+	}
     }
 
     integer::integer (instream &is)
-- 
2.43.0


From acb8c39c7480941611f484d05bcb986519615842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:31 +0000
Subject: [PATCH 082/106] fix: reading an asdl::integer lost digits

---
 asdl/src/lib/cpp/asdl-integer.cpp | 60 +++++++++----------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index cb52514..d53d66e 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -106,51 +106,25 @@ namespace asdl {
 	    digits.push_back(b & 0x7f);
 	};
 
-	b = digits[0];
-
-      // the number of significant bits in the first byte
-	int firstBits;
-	if (b > 0x1f) firstBits = 6;
-	else if (b > 0xf) firstBits = 5;
-	else if (b > 0x7) firstBits = 4;
-	else if (b > 0x3) firstBits = 3;
-	else if (b > 0x2) firstBits = 2;
-	else if (b > 0x0) firstBits = 1;
-	else firstBits = 0;
-
-      // the total number of bits (not counting the sign) is computed
-      // as 7 bits per continuation byte plus the bits required for the
-      // first byte
-	int nbits = (digits.size() - 1) * 7 + firstBits;
-
-	if (nbits > 0) {
-	    this->_digits.reserve((nbits + 31) >> 5);
-	  // the number of bits available in the current digit
-	    uint32_t availBits = nbits % 32;
-	    if (availBits == 0) { availBits = 32; }
-	  // initialize the current result digit to the first byte
-	    uint32_t w = digits[0];
-	    availBits -= firstBits;
-	    int idx = 1;
-	    while (idx < digits.size()) {
-		b = digits[idx];
-		if (availBits >= 7) {
-		    w = (w << 7) | b;
-		    availBits -= 7;
-		} else {
-		    uint32_t excessBits = 7 - availBits;
-		  // first we extract the high availBits from b
-		    w = (w << availBits) | (b >> excessBits);
-		    this->_digits.push_back(w);
-		    availBits = 32 - excessBits;
-		    w = b & ((1 << excessBits) - 1);
-		}
-		idx++;
+      // pack the 7-bit digits into 32-bit digits, starting from the least significant one
+	std::vector<uint32_t> mag;
+	uint64_t acc = 0;
+	int nbits = 0;
+	for (auto it = digits.crbegin();  it != digits.crend();  ++it) {
+	    acc |= static_cast<uint64_t>(*it) << nbits;
+	    nbits += 7;
+	    if (nbits >= 32) {
+		mag.push_back(static_cast<uint32_t>(acc));
+		acc >>= 32;
+		nbits -= 32;
 	    }
-	    this->_digits.push_back(w);
-	  // here availBits == 0
 	}
-	// else zero
+	mag.push_back(static_cast<uint32_t>(acc));
+      // zero has no digits
+	while (!mag.empty() && (mag.back() == 0)) {
+	    mag.pop_back();
+	}
+	this->_digits.assign(mag.crbegin(), mag.crend());
 
     }
 
-- 
2.43.0


From 0bd595eae629f9569b9cc35548a202bfd92d04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:31 +0000
Subject: [PATCH 083/106] fix: asdl::integer of the smallest integers, and of
 zero

---
 asdl/src/lib/cpp/asdl-integer.cpp              | 12 ++++++++----
 asdl/src/lib/cpp/include/asdl/asdl-integer.hpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index d53d66e..701266a 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -29,7 +29,10 @@ namespace asdl {
     integer::integer (int32_t n)
       : _sign(n < 0)
     {
-	if (n != 0) this->_digits.push_back (static_cast<uint32_t>(abs(n)));
+	if (n != 0) {
+	    uint32_t ui = static_cast<uint32_t>(n);
+	    this->_digits.push_back ((n < 0) ? -ui : ui);
+	}
     }
 
     integer::integer (uint64_t n)
@@ -50,7 +53,8 @@ namespace asdl {
       : _sign(n < 0)
     {
 	if (n != 0) {
-	    uint64_t ui = static_cast<uint64_t>(std::abs(n));
+	    uint64_t ui = static_cast<uint64_t>(n);
+	    if (n < 0) ui = -ui;
 	    if (ui < 0x100000000) {
 		this->_digits.push_back(uint32_t(ui));
 	    }
@@ -151,7 +155,7 @@ namespace asdl {
 	}
 	else if (this->_sign) {
 	    if (this->_digits[0] <= 0x80000000) {
-		n = - static_cast<int32_t>(this->_digits[0]);
+		n = static_cast<int32_t>(-this->_digits[0]);
 		return false;
 	    }
 	    else {
@@ -187,7 +191,7 @@ namespace asdl {
 	    if (this->_sign) {
 	      // negative number
 		if (un <= 0x8000000000000000) {
-		    n = - static_cast<int64_t>(un);
+		    n = static_cast<int64_t>(-un);
 		    return false;
 		}
 	    }
diff --git a/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp b/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
index 853fb07..dda25f8 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
@@ -27,7 +27,7 @@ namespace asdl {
 #if defined(ASDL_USE_GNU_MP)
 	integer () { mpz_init(this->_rep); }
 #else
-	integer () : _sign(false), _digits{0} { }
+	integer () : _sign(false), _digits() { }
 #endif
 	integer (int32_t a);
 	integer (uint32_t a);
-- 
2.43.0


From 6e008b595a6f014b5f335c0acfd6325c1b11e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:31 +0000
Subject: [PATCH 084/106] fix: optional ASDL strings and integers are preceded
 by a tag byte in C++ too

---
 asdl/src/lib/cpp/include/asdl/asdl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl.hpp b/asdl/src/lib/cpp/include/asdl/asdl.hpp
index a84ec49..760fe77 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl.hpp
@@ -116,6 +116,7 @@ namespace asdl {
     inline void write_integer_option (outstream & os, std::optional<integer> const & optB)
     {
 	if (optB.has_value()) {
+	    write_tag8 (os, 1);
 	    write_integer (os, optB.value());
 	} else {
 	    write_tag8 (os, 0);
@@ -124,6 +125,7 @@ namespace asdl {
     inline void write_string_option (outstream & os, std::optional<std::string> const & optB)
     {
 	if (optB.has_value()) {
+	    write_tag8 (os, 1);
 	    write_string (os, optB.value());
 	} else {
 	    write_tag8 (os, 0);
-- 
2.43.0


From f15ddea8503a84d5f1eb15c192c9a10f840e4a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:09 +0000
Subject: [PATCH 085/106] fix: Array.copy and copyVec raised Overflow for a
 very large destination index

---
 base/system/Basis/Implementation/array.sml        | 8 ++++----
 base/system/Basis/Implementation/char-array.sml   | 8 ++++----
 base/system/Basis/Implementation/real64-array.sml | 8 ++++----
 base/system/Basis/Implementation/word8-array.sml  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/base/system/Basis/Implementation/array.sml b/base/system/Basis/Implementation/array.sml
index 6cded0e..3cc0390 100644
--- a/base/system/Basis/Implementation/array.sml
+++ b/base/system/Basis/Implementation/array.sml
@@ -61,24 +61,24 @@ structure Array : ARRAY =
 
     fun copy { src, dst, di } = let
 	val sl = length src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s,  d) =
 	    if s < 0 then () else (uupd (dst, d, usub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else
 	    copyDn (sl -- 1, de -- 1)
     end
 
     fun copyVec { src, dst, di } = let
 	val sl = vlength src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, vusub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
diff --git a/base/system/Basis/Implementation/char-array.sml b/base/system/Basis/Implementation/char-array.sml
index a08cccc..89db8d5 100644
--- a/base/system/Basis/Implementation/char-array.sml
+++ b/base/system/Basis/Implementation/char-array.sml
@@ -84,23 +84,23 @@ structure CharArray : MONO_ARRAY =
 
     fun copy { src, dst, di } = let
 	val sl = length src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, usub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
     fun copyVec { src, dst, di } = let
 	val sl = vlength src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, vusub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
diff --git a/base/system/Basis/Implementation/real64-array.sml b/base/system/Basis/Implementation/real64-array.sml
index a8198f6..b5bc53b 100644
--- a/base/system/Basis/Implementation/real64-array.sml
+++ b/base/system/Basis/Implementation/real64-array.sml
@@ -71,23 +71,23 @@ structure Real64Array : MONO_ARRAY =
 
     fun copy { src, dst, di } = let
 	val sl = length src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, usub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
     fun copyVec { src, dst, di } = let
 	val sl = vlength src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, vusub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
diff --git a/base/system/Basis/Implementation/word8-array.sml b/base/system/Basis/Implementation/word8-array.sml
index 685e8d4..136ce8c 100644
--- a/base/system/Basis/Implementation/word8-array.sml
+++ b/base/system/Basis/Implementation/word8-array.sml
@@ -85,23 +85,23 @@ structure Word8Array : MONO_ARRAY =
 
     fun copy { src, dst, di } = let
 	val sl = length src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, usub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
     fun copyVec { src, dst, di } = let
 	val sl = vlength src
-	val de = sl + di
+	val de = sl ++ di
 	fun copyDn (s, d) =
 	    if s < 0 then () else (uupd (dst, d, vusub (src, s));
 				   copyDn (s -- 1, d -- 1))
     in
-	if di < 0 orelse de > length dst then raise Subscript
+	if di < 0 orelse di > (length dst -- sl) then raise Subscript
 	else copyDn (sl -- 1, de -- 1)
     end
 
-- 
2.43.0


From 6295dc9fddbb69a5887a4224b57dc18c650c21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:12 +0000
Subject: [PATCH 086/106] fix: inputAll of TextIO.openString of the empty
 string raised Io Div

---
 base/system/Basis/Implementation/Unix/posix-text-prim-io.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Unix/posix-text-prim-io.sml b/base/system/Basis/Implementation/Unix/posix-text-prim-io.sml
index 9a7d510..19dba36 100644
--- a/base/system/Basis/Implementation/Unix/posix-text-prim-io.sml
+++ b/base/system/Basis/Implementation/Unix/posix-text-prim-io.sml
@@ -130,7 +130,7 @@ structure PosixTextPrimIO : sig
 	  in
 	    PrimIO.RD{
 		name      = "<string>",
-		chunkSize = len,
+		chunkSize = Int.max(1, len),
 		readVec   = SOME(readV),
         	readArr   = SOME(readA),
 		readVecNB = SOME(SOME o readV),
-- 
2.43.0


From 5a5feae7ba7f565feaceb539c339d66ad5068659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:12 +0000
Subject: [PATCH 087/106] fix: setPosOut must flush the buffer before it moves
 the position

---
 base/system/Basis/Implementation/IO/bin-io-fn.sml  | 1 +
 base/system/Basis/Implementation/IO/text-io-fn.sml | 1 +
 2 files changed, 2 insertions(+)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index 34c4f1d..eb60e26 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -541,6 +541,7 @@ functor BinIOFn (
 	      isClosedOut (strm, "filePosOut"); pos)
 	fun setPosOut (OUTP{pos, strm as OSTRM{writer, ...}}) = (
 	      isClosedOut (strm, "setPosOut");
+	      flushBuffer (strm, "setPosOut");
 	      case writer
 	       of PIO.WR{setPos=SOME f, ...} => (
 		    (f pos; strm)
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index 92f271d..b8d8ed8 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -644,6 +644,7 @@ functor TextIOFn (
 	      isClosedOut (strm, "filePosOut"); pos)
 	fun setPosOut (OUTP{pos, strm as OSTRM{writer, ...}}) = (
 	      isClosedOut (strm, "setPosOut");
+	      flushBuffer (strm, "setPosOut");
 	      case writer
 	       of PIO.WR{setPos=SOME f, ...} => (
 		    (f pos; strm)
-- 
2.43.0


From d01e9df4645bca7ec8ba83ebfbaa9746b7c05b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:31 +0000
Subject: [PATCH 088/106] fix: Array2.array must keep the dimensions of an
 array without elements

---
 base/system/Basis/Implementation/array2.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/array2.sml b/base/system/Basis/Implementation/array2.sml
index 7487bb6..f6fff58 100644
--- a/base/system/Basis/Implementation/array2.sml
+++ b/base/system/Basis/Implementation/array2.sml
@@ -44,7 +44,7 @@ structure Array2 :> ARRAY2 =
 	      end
 
     fun array (nrows, ncols, v) = (case chkSize (nrows, ncols)
-	   of 0 => {data = InlineT.PolyArray.newArray0(), nrows = 0, ncols = 0}
+	   of 0 => {data = InlineT.PolyArray.newArray0(), nrows = nrows, ncols = ncols}
 	    | n => {data = mkArray (n, v), nrows = nrows, ncols = ncols}
 	  (* end case *))
     fun fromList rows = (case List.rev rows
-- 
2.43.0


From efc6a42bb4976bd4f863db9ead380c63de094210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:31 +0000
Subject: [PATCH 089/106] fix: traversing an Array2 region without elements
 must not visit elements outside of it

---
 base/system/Basis/Implementation/array2.sml | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/system/Basis/Implementation/array2.sml b/base/system/Basis/Implementation/array2.sml
index f6fff58..c981862 100644
--- a/base/system/Basis/Implementation/array2.sml
+++ b/base/system/Basis/Implementation/array2.sml
@@ -206,7 +206,7 @@ structure Array2 :> ARRAY2 =
 		    else DONE
 		end
 	  in
-	    (data, iter)
+	    if (nr = 0) orelse (nc = 0) then (data, fn () => DONE) else (data, iter)
 	  end
 
   (* this function generates a stream of indeces for the given region in
@@ -236,7 +236,7 @@ structure Array2 :> ARRAY2 =
 		    else DONE
 		end
 	  in
-	    (data, iter)
+	    if (nr = 0) orelse (nc = 0) then (data, fn () => DONE) else (data, iter)
 	  end
 
     fun appi order f region = let
@@ -263,7 +263,7 @@ structure Array2 :> ARRAY2 =
 		    if (k < ncols) then appf (0, k) else ()
 		  end
 	  in
-	    appf (0, 0)
+	    if (ncols > 0) then appf (0, 0) else ()
 	  end
     fun app RowMajor = appRM
       | app ColMajor = appCM
@@ -294,7 +294,7 @@ structure Array2 :> ARRAY2 =
 		    if (k < ncols) then modf (0, k) else ()
 		  end
 	  in
-	    modf (0, 0)
+	    if (ncols > 0) then modf (0, 0) else ()
 	  end
     fun modify RowMajor = modifyRM
       | modify ColMajor = modifyCM
@@ -323,7 +323,7 @@ structure Array2 :> ARRAY2 =
 		    if (k < ncols) then foldf (0, k, accum) else accum
 		  end
 	  in
-	    foldf (0, 0, init)
+	    if (ncols > 0) then foldf (0, 0, init) else init
 	  end
     fun fold RowMajor = foldRM
       | fold ColMajor = foldCM
-- 
2.43.0


From 14a77feaa8d265ee6566ef6c81b7876f3b0a76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:31 +0000
Subject: [PATCH 090/106] fix: Array2.row, column and copy must raise Subscript
 for every index out of range

---
 base/system/Basis/Implementation/array2.sml | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/base/system/Basis/Implementation/array2.sml b/base/system/Basis/Implementation/array2.sml
index c981862..a26f703 100644
--- a/base/system/Basis/Implementation/array2.sml
+++ b/base/system/Basis/Implementation/array2.sml
@@ -108,15 +108,14 @@ structure Array2 :> ARRAY2 =
     fun nCols (arr : 'a array) = #ncols arr
     fun nRows (arr : 'a array) = #nrows arr
     fun row ({data, nrows, ncols}, i) = let
-	  val stop = i*ncols
-	  fun mkVec (j, l) =
+	  fun mkVec (j, stop, l) =
 		if (j < stop)
 		  then Vector.fromList l
-		  else mkVec(j-1, A.sub(data, j)::l)
+		  else mkVec(j-1, stop, A.sub(data, j)::l)
 	  in
-	    if ltu(nrows, i)
-	      then raise General.Subscript
-	      else mkVec (stop+ncols-1, [])
+	    if ltu(i, nrows)
+	      then mkVec ((i+1)*ncols-1, i*ncols, [])
+	      else raise General.Subscript
 	  end
     fun column ({data, nrows, ncols}, j) = let
 	  fun mkVec (i, l) =
@@ -124,9 +123,9 @@ structure Array2 :> ARRAY2 =
 		  then Vector.fromList l
 		  else mkVec(i-ncols, A.sub(data, i)::l)
 	  in
-	    if ltu(ncols, j)
-	      then raise General.Subscript
-	      else mkVec ((A.length data - ncols) + j, [])
+	    if ltu(j, ncols)
+	      then mkVec ((A.length data - ncols) + j, [])
+	      else raise General.Subscript
 	  end
 
     datatype index = DONE | INDX of {i:int, r:int, c:int}
@@ -137,7 +136,7 @@ structure Array2 :> ARRAY2 =
 		  then raise General.Subscript
 		  else n-start
 	    | chk (start, n, SOME len) =
-		if ((start < 0) orelse (len < 0) orelse (n < start+len))
+		if ((start < 0) orelse (len < 0) orelse (n - start < len))
 		  then raise General.Subscript
 		  else len
 	  val nr = chk (row, nrows, nr)
@@ -168,7 +167,8 @@ structure Array2 :> ARRAY2 =
 			       dst = ddata, di = d };
 		     up (i-1, d - dncols, s - bncols))
 		else ()
-	in if src_nrows + dst_row > dnrows orelse src_ncols + dst_col > dncols
+	in if dst_row < 0 orelse dst_col < 0
+	     orelse src_nrows > dnrows - dst_row orelse src_ncols > dncols - dst_col
 	   then raise General.Subscript
 	   else if dst_row <= srow then
 	       dn (src_nrows,
-- 
2.43.0


From 181df2d07ea8f05dc8b3d23d921195b4b500be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:39 +0000
Subject: [PATCH 091/106] fix: findAndRemove on hash tables must decrease the
 number of items

---
 smlnj-lib/Util/hash-table-fn.sml   | 4 +++-
 smlnj-lib/Util/hash-table.sml      | 4 +++-
 smlnj-lib/Util/int-hash-table.sml  | 4 +++-
 smlnj-lib/Util/word-hash-table.sml | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/hash-table-fn.sml b/smlnj-lib/Util/hash-table-fn.sml
index 4c3df92..db063d6 100644
--- a/smlnj-lib/Util/hash-table-fn.sml
+++ b/smlnj-lib/Util/hash-table-fn.sml
@@ -144,7 +144,9 @@ functor HashTableFn (Key : HASH_KEY) : MONO_HASH_TABLE =
                   end
           val (v, bucket) = look (Array.sub (arr, indx))
           in
-            Array.update (arr, indx, bucket); SOME v
+            Array.update (arr, indx, bucket);
+            n_items := !n_items - 1;
+            SOME v
 	  end
             handle _ => NONE
 
diff --git a/smlnj-lib/Util/hash-table.sml b/smlnj-lib/Util/hash-table.sml
index 0cf57e0..3743ed5 100644
--- a/smlnj-lib/Util/hash-table.sml
+++ b/smlnj-lib/Util/hash-table.sml
@@ -153,7 +153,9 @@ structure HashTable : HASH_TABLE =
                   end
           val (v, bucket) = look (Array.sub (arr, indx))
           in
-            Array.update (arr, indx, bucket); SOME v
+            Array.update (arr, indx, bucket);
+            n_items := !n_items - 1;
+            SOME v
 	  end
             handle _ => NONE
 
diff --git a/smlnj-lib/Util/int-hash-table.sml b/smlnj-lib/Util/int-hash-table.sml
index 71d7605..3ef73c8 100644
--- a/smlnj-lib/Util/int-hash-table.sml
+++ b/smlnj-lib/Util/int-hash-table.sml
@@ -155,7 +155,9 @@ structure IntHashTable :> MONO_HASH_TABLE where type Key.hash_key = int =
                   end
           val (v, bucket) = look (Array.sub (arr, indx))
           in
-            Array.update (arr, indx, bucket); SOME v
+            Array.update (arr, indx, bucket);
+            n_items := !n_items - 1;
+            SOME v
 	  end
             handle _ => NONE
 
diff --git a/smlnj-lib/Util/word-hash-table.sml b/smlnj-lib/Util/word-hash-table.sml
index 5b32524..03e35c5 100644
--- a/smlnj-lib/Util/word-hash-table.sml
+++ b/smlnj-lib/Util/word-hash-table.sml
@@ -149,7 +149,9 @@ structure WordHashTable :> MONO_HASH_TABLE where type Key.hash_key = word =
                   end
           val (v, bucket) = look (Array.sub (arr, indx))
           in
-            Array.update (arr, indx, bucket); SOME v
+            Array.update (arr, indx, bucket);
+            n_items := !n_items - 1;
+            SOME v
 	  end
             handle _ => NONE
 
-- 
2.43.0


From aaf875a1eb2703a52c3449ebfee320e6ff57153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:39 +0000
Subject: [PATCH 092/106] fix: HashSetFn.filter that removes every item must
 leave a set of size 0

---
 smlnj-lib/Util/hash-set-fn.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/hash-set-fn.sml b/smlnj-lib/Util/hash-set-fn.sml
index db66663..dfa2e6d 100644
--- a/smlnj-lib/Util/hash-set-fn.sml
+++ b/smlnj-lib/Util/hash-set-fn.sml
@@ -372,7 +372,7 @@ functor HashSetFn (Key : HASH_KEY) : MONO_HASH_SET =
 
     fun filter pred (SET{table=ref tbl, nItems}) = let
 	  val len = Array.length tbl
-	  fun remove (_, 0) = ()
+	  fun remove (_, 0) = (nItems := 0)
 	    | remove (i, n) = if (i < len)
 		then (case Array.sub(tbl, i)
 		   of NIL => remove(i+1, n)
-- 
2.43.0


From fc8edda66196aac22558443404ca7a34595956ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 093/106] fix: Fifo.delete must remove every element that
 satisfies the predicate

---
 smlnj-lib/Util/fifo.sml | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/smlnj-lib/Util/fifo.sml b/smlnj-lib/Util/fifo.sml
index c565264..3e621c6 100644
--- a/smlnj-lib/Util/fifo.sml
+++ b/smlnj-lib/Util/fifo.sml
@@ -28,15 +28,10 @@ structure Fifo : FIFO =
       | next (Q{rear,...}) = next(Q{front=rev rear,rear=[]})
 
     fun delete (Q{front, rear}, pred) = let
-	  fun doFront [] = {front = doRear(rev rear), rear = []}
-	    | doFront (x::r) = if (pred x)
-		then {front = r, rear = rear}
-		else let val {front, rear} = doFront r
-		  in {front =  x :: front, rear = rear} end
-	  and doRear [] = []
-	    | doRear (x::r) = if (pred x) then r else x :: (doRear r)
+	  fun keep x = not(pred x)
+	  val front = List.filter keep front
 	  in
-	    Q(doFront front)
+	    Q{front = front, rear = rev(List.filter keep (rev rear))}
 	  end
 
     fun peek (Q{front=(hd::_), ...}) = SOME hd
-- 
2.43.0


From c6ea0aa4e91ea1dd9d93b0578e5e3d6b8ffd82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 094/106] fix: Hash2TableFn.insert must discard the items that
 have either of the two keys from both tables

---
 smlnj-lib/Util/hash2-table-fn.sml | 80 +++++++++----------------------
 1 file changed, 23 insertions(+), 57 deletions(-)

diff --git a/smlnj-lib/Util/hash2-table-fn.sml b/smlnj-lib/Util/hash2-table-fn.sml
index 55f35d3..ef97a95 100644
--- a/smlnj-lib/Util/hash2-table-fn.sml
+++ b/smlnj-lib/Util/hash2-table-fn.sml
@@ -82,63 +82,6 @@ functor Hash2TableFn (
 	    item
 	  end
 
-  (* Insert an item.  If there is already an item that has either of the two keys,
-   * then the old item is discarded (from both tables)
-   *)
-    fun insert (TBL{tbl1, tbl2, n_items, ...}) (k1, k2, item) = let
-	  val arr1 = !tbl1 and arr2 = !tbl2
-	  val sz = Array.length arr1
-	  val h1 = Key1.hashVal k1 and h2 = Key2.hashVal k2
-	  val i1 = index(h1, sz) and i2 = index(h2, sz)
-	  fun look1 HTRep.NIL = (
-		Array.update(arr1, i1,
-		  HTRep.B(h1, k1, (k2, item), Array.sub(arr1, i1)));
-	      (* we increment the number of items and grow the tables here,
-	       * but not when inserting into tbl2.
-	       *)
-		n_items := !n_items + 1;
-		if (HTRep.growTableIfNeeded (tbl1, !n_items))
-		  then tbl2 := HTRep.growTable (arr2, Array.length(! tbl1))
-		  else ();
-		HTRep.NIL)
-	    | look1 (HTRep.B(h1', k1', (k2', v), r)) =
-		if ((h1' = h1) andalso Key1.sameKey(k1', k1))
-		  then (
-		    if not(Key2.sameKey(k2, k2'))
-		      then ignore(delete2 (arr2, Fail "insert.look1", k2'))
-		      else ();
-		    HTRep.B(h1, k1, (k2, item), r))
-		  else (case (look1 r)
-		     of HTRep.NIL => HTRep.NIL
-		      | rest => HTRep.B(h1', k1', (k2', v), rest)
-		    (* end case *))
-	  fun look2 HTRep.NIL = (
-		Array.update(arr2, i2,
-		  HTRep.B(h2, k2, (k1, item), Array.sub(arr2, i2)));
-		HTRep.NIL)
-	    | look2 (HTRep.B(h2', k2', (k1', v), r)) =
-		if ((h2' = h2) andalso Key2.sameKey(k2', k2))
-		  then (
-		    if not(Key1.sameKey(k1, k1'))
-		      then ignore(delete1 (arr1, Fail "insert.look2", k1'))
-		      else ();
-		    HTRep.B(h2, k2, (k1, item), r))
-		  else (case (look2 r)
-		     of HTRep.NIL => HTRep.NIL
-		      | rest => HTRep.B(h2, k2, (k1, v), rest)
-		    (* end case *))
-	  in
-	    case (look1 (Array.sub (arr1, i1)), look2 (Array.sub (arr2, i2)))
-	     of (HTRep.NIL, HTRep.NIL) => ()
-	      | (b1, b2) => (
-		(* NOTE: both b1 and b2 should be non-nil, since we should
-		 * have replaced an item in both tables.
-		 *)
-		  Array.update(arr1, i1, b1);
-		  Array.update(arr2, i2, b2))
-	    (* end case *)
-	  end
-
   (* return true, if the key is in the domain of the table *)
     fun inDomain (hashVal, sameKey) tbl key = let
 	  val arr = !tbl
@@ -153,6 +96,29 @@ functor Hash2TableFn (
     fun inDomain1 (TBL{tbl1, ...}) = inDomain (Key1.hashVal, Key1.sameKey) tbl1
     fun inDomain2 (TBL{tbl2, ...}) = inDomain (Key2.hashVal, Key2.sameKey) tbl2
 
+  (* Insert an item.  If there is already an item that has either of the two keys,
+   * then the old item is discarded (from both tables)
+   *)
+    fun insert (tbl as TBL{tbl1, tbl2, n_items, not_found}) (k1, k2, item) = let
+	  val h1 = Key1.hashVal k1 and h2 = Key2.hashVal k2
+	(* add a binding for a key that is not in the table *)
+	  fun add (arr, h, k, v) = let
+		val i = index (h, Array.length arr)
+		in
+		  Array.update (arr, i, HTRep.B(h, k, v, Array.sub(arr, i)))
+		end
+	  in
+	    if inDomain1 tbl k1 then ignore(remove1 tbl k1) else ();
+	    if inDomain2 tbl k2 then ignore(remove2 tbl k2) else ();
+	    add (!tbl1, h1, k1, (k2, item));
+	    add (!tbl2, h2, k2, (k1, item));
+	    n_items := !n_items + 1;
+	  (* the two tables always have the same size *)
+	    if HTRep.growTableIfNeeded (tbl1, !n_items)
+	      then tbl2 := HTRep.growTable (!tbl2, Array.length(!tbl1))
+	      else ()
+	  end
+
   (* Look for an item, the table's exception is raised if the item doesn't exist *)
     fun lookup (hashVal, sameKey) (tbl, not_found) key = let
 	  val arr = !tbl
-- 
2.43.0


From 9095f2383377f99d1aab0d15a8550b1bcf4dd700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 095/106] fix: BitArray.modify must set the bits for which the
 function answers true

---
 smlnj-lib/Util/bit-array.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/bit-array.sml b/smlnj-lib/Util/bit-array.sml
index a034760..21e0811 100644
--- a/smlnj-lib/Util/bit-array.sml
+++ b/smlnj-lib/Util/bit-array.sml
@@ -671,7 +671,7 @@ structure BitArray :> BIT_ARRAY =
                 fun loop (0,_,a,_) = a
                   | loop (n,byte,a,mask) =
                       if f ((byte&mask) = mask)
-                        then loop (n-1,byte, a&mask, mask << 0w1)
+                        then loop (n-1,byte, a++mask, mask << 0w1)
                         else loop (n-1,byte, a, mask << 0w1)
                 fun f' (i,byte) =
                        if i < last then loop (8,byte,0w0,0w1)
-- 
2.43.0


From 424bfc0fd7901958b6529aaaddb083a08df9aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 096/106] fix: BitArray.bits must raise Subscript for every
 index that is not in the array

---
 smlnj-lib/Util/bit-array.sml | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smlnj-lib/Util/bit-array.sml b/smlnj-lib/Util/bit-array.sml
index 21e0811..a88fad6 100644
--- a/smlnj-lib/Util/bit-array.sml
+++ b/smlnj-lib/Util/bit-array.sml
@@ -110,12 +110,14 @@ structure BitArray :> BIT_ARRAY =
 
           fun bits (len,l) = let
                 val (bv as BA{bits, ...}) = array (len, false)
-                fun init i = let
-                      val idx = byteOf i
-                      val b = 0w1 << Word.andb(Word.fromInt i, 0w7)
-                      in
-                        W8A.update (bits, idx, ((bits sub idx) ++ b))
-                      end
+                fun init i = if (i < 0) orelse (len <= i)
+                      then raise Subscript
+                      else let
+                        val idx = byteOf i
+                        val b = 0w1 << Word.andb(Word.fromInt i, 0w7)
+                        in
+                          W8A.update (bits, idx, ((bits sub idx) ++ b))
+                        end
                 in
                   List.app init l;
                   bv
-- 
2.43.0


From c4bbb1ac96c71d675713f5c986c77560a8553776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 097/106] fix: BitArray operations must raise Size for a
 negative length

---
 smlnj-lib/Util/bit-array.sml | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/bit-array.sml b/smlnj-lib/Util/bit-array.sml
index a88fad6..b11a638 100644
--- a/smlnj-lib/Util/bit-array.sml
+++ b/smlnj-lib/Util/bit-array.sml
@@ -53,8 +53,12 @@ structure BitArray :> BIT_ARRAY =
 		handle Overflow => Word8Array.maxLen (* would valOf Int.maxInt be better? *)
 
           fun array (0, init) = BA{nbits=0,bits=W8A.array(0, 0w0)}
-            | array (len, false) = BA{nbits=len,bits=W8A.array(sizeOf len, 0w0)}
-            | array (len, true) = let
+            | array (len, init) = if (len < 0) then raise Size
+                else if init then array1 len
+                else BA{nbits=len,bits=W8A.array(sizeOf len, 0w0)}
+
+        (* a non-empty array of ones *)
+          and array1 len = let
                 val sz = sizeOf len
                 val bits = W8A.array (sz, 0wxff)
                 in
@@ -226,7 +230,9 @@ structure BitArray :> BIT_ARRAY =
                nbits = nbits' andalso eqBits arg
 
           fun extend0 (ba as BA{nbits, bits}, n) =
-                if (nbits >= n)
+                if (n < 0)
+                  then raise Size
+                else if (nbits >= n)
                   then mkCopy ba
                   else let
                     val newbits = W8A.array(sizeOf n, 0w0)
@@ -237,7 +243,9 @@ structure BitArray :> BIT_ARRAY =
                     end
 
           fun extend1 (ba as BA{nbits, bits}, n) =
-                if (nbits >= n)
+                if (n < 0)
+                  then raise Size
+                else if (nbits >= n)
                   then mkCopy ba
                   else let
                     val len = sizeOf n
-- 
2.43.0


From 7f8c635d949eee821929308aa3655327cb75ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:34 +0000
Subject: [PATCH 098/106] fix: SplaySetFn.all and exists must visit the
 elements in increasing order

---
 smlnj-lib/Util/splay-set-fn.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smlnj-lib/Util/splay-set-fn.sml b/smlnj-lib/Util/splay-set-fn.sml
index c85386c..05723d8 100644
--- a/smlnj-lib/Util/splay-set-fn.sml
+++ b/smlnj-lib/Util/splay-set-fn.sml
@@ -409,7 +409,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun exists p EMPTY = false
       | exists p (SET{root,...}) = let
           fun ex SplayNil = false
-            | ex (SplayObj{value=v, left=l, right=r}) = p v orelse ex l orelse ex r
+            | ex (SplayObj{value=v, left=l, right=r}) = ex l orelse p v orelse ex r
           in
             ex (!root)
           end
@@ -417,7 +417,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun all p EMPTY = true
       | all p (SET{root,...}) = let
           fun all' SplayNil = true
-            | all' (SplayObj{value=v, left=l, right=r}) = p v andalso all' l andalso all' r
+            | all' (SplayObj{value=v, left=l, right=r}) = all' l andalso p v andalso all' r
           in
             all' (!root)
           end
-- 
2.43.0


From c9ab95ddd490aa211ea0a235d4a7fb1ad3adf39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 099/106] fix: all and alli of the list maps must be true when
 every item satisfies the predicate

---
 smlnj-lib/Util/int-list-map.sml | 4 ++--
 smlnj-lib/Util/list-map-fn.sml  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 2ce7928..403e3a2 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -309,13 +309,13 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
diff --git a/smlnj-lib/Util/list-map-fn.sml b/smlnj-lib/Util/list-map-fn.sml
index 62de987..b2540d2 100644
--- a/smlnj-lib/Util/list-map-fn.sml
+++ b/smlnj-lib/Util/list-map-fn.sml
@@ -316,13 +316,13 @@ functor ListMapFn (K : ORD_KEY) :> ORD_MAP where type Key.ord_key = K.ord_key =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
-- 
2.43.0


From 8b0c794bc2b03e41bd811a885316d0309cf0b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 100/106] fix: IntListMap.findAndRemove must answer NONE for a
 key that is not in the map

---
 smlnj-lib/Util/int-list-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 403e3a2..da71dc5 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -103,7 +103,7 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
 	  end
 
     fun findAndRemove (l, key) = let
-	  fun f (_, []) = raise LibBase.NotFound
+	  fun f (_, []) = NONE
 	    | f (prefix, (elem as (key', x)) :: r) =
                   if (key' < key) then f(elem :: prefix, r)
                   else if (key' = key) then SOME(List.revAppend(prefix, r), x)
-- 
2.43.0


From f02fe28963e1e671f7a49e5ba24062ebf2f2506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 101/106] fix: IntBinaryMap.insertWithi must store the combined
 value

---
 smlnj-lib/Util/int-binary-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-binary-map.sml b/smlnj-lib/Util/int-binary-map.sml
index d718218..2525077 100644
--- a/smlnj-lib/Util/int-binary-map.sml
+++ b/smlnj-lib/Util/int-binary-map.sml
@@ -178,7 +178,7 @@ structure IntBinaryMap :> ORD_MAP where type Key.ord_key = Int.int =
 		else let
 		  val v' = comb(x, value, v)
 		  in
-		    T{key=x,value=v,left=left,right=right,cnt=cnt}
+		    T{key=x,value=v',left=left,right=right,cnt=cnt}
 		  end
 	  in
 	    insert m
-- 
2.43.0


From 7f3fd65645d804207117b80a27a3fec46ddfcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 102/106] fix: IntervalSetFn: adjacency in add, addInt and
 union, the upper end in complement, the end of filter, and the order of
 foldrInt

---
 smlnj-lib/Util/interval-set-fn.sml | 51 ++++++++++++++++++------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/smlnj-lib/Util/interval-set-fn.sml b/smlnj-lib/Util/interval-set-fn.sml
index 6a469b2..9fa5d3c 100644
--- a/smlnj-lib/Util/interval-set-fn.sml
+++ b/smlnj-lib/Util/interval-set-fn.sml
@@ -50,7 +50,7 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 		  | EQUAL => (a, y)::r
 		  | GREATER => (case D.compare(a, y)
 		       of GREATER => if (D.isSucc(y, a))
-			    then (x, b) :: r
+			    then ins (x, b, r)
 			    else (x, y) :: ins(a, b, r)
 			| EQUAL => ins(x, b, r)
 			| LESS => (case D.compare(b, y)
@@ -76,7 +76,12 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 		  | EQUAL => (a, y)::r
 		  | GREATER => (case D.compare(a, y)
 		       of GREATER => if (D.isSucc(y, a))
-			    then (x, a) :: r
+			    then (case r
+			       of (x', y')::r' => if (D.isSucc(a, x'))
+				    then (x, y')::r'
+				    else (x, a)::r
+				| [] => [(x, a)]
+			      (* end case *))
 			    else (x, y) :: ins(a, r)
 			| _ => (x, y)::r
 		      (* end case *))
@@ -105,16 +110,17 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 
     fun complement (SET[]) = universe
       | complement (SET((a, b)::r)) = let
-	  fun comp (start, (a, b)::r, l) =
-		comp(D.succ b, r, (start, D.pred a)::l)
-	    | comp (start, [], l) = (case D.compare(start, D.maxPt)
-		 of LESS => SET(List.rev((start, D.maxPt)::l))
+	(* `last` is the end of the previous interval *)
+	  fun comp (last, (a, b)::r, l) =
+		comp(b, r, (D.succ last, D.pred a)::l)
+	    | comp (last, [], l) = (case D.compare(last, D.maxPt)
+		 of LESS => SET(List.rev((D.succ last, D.maxPt)::l))
 		  | _ => SET(List.rev l)
 		(* end case *))
 	  in
 	    case D.compare(D.minPt, a)
-	     of LESS => comp(D.succ b, r, [(D.minPt, D.pred a)])
-	      | _ => comp(D.succ b, r, [])
+	     of LESS => comp(b, r, [(D.minPt, D.pred a)])
+	      | _ => comp(b, r, [])
 	    (* end case *)
 	  end
 
@@ -123,9 +129,9 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 	    | join (l1, []) = l1
 	    | join ((a1, b1)::r1, (a2, b2)::r2) = (case D.compare(a1, a2)
 		 of LESS => (case D.compare(b1, b2)
-		       of LESS => if D.isSucc(b1, a2)
-			    then join(r1, (a1, b2)::r2)
-			    else (a1, b1) :: join(r1, (a2, b2)::r2)
+		       of LESS => if (D.compare(b1, a2) = LESS) andalso not(D.isSucc(b1, a2))
+			    then (a1, b1) :: join(r1, (a2, b2)::r2)
+			    else join(r1, (a1, b2)::r2)
 			| EQUAL => (a1, b1) :: join(r1, r2)
 			| GREATER => join ((a1, b1)::r1, r2)
 		      (* end case *))
@@ -246,15 +252,18 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 	 * the predicate to the list l.
 	 *)
 	  fun filterInt ((a, b), l) = let
-		fun lp (start, item, last, l) = let
-		      val next = D.succ item
-		      in
-			if pred next
-			  then if (D.compare(next, last) = EQUAL)
-			    then (start, next)::l
-			    else lp(start, next, last, l)
-			  else scan(D.succ next, last, (start, item)::l)
-		      end
+		fun lp (start, item, last, l) =
+		      if (D.compare(item, last) = EQUAL)
+			then (start, item)::l
+			else let
+			  val next = D.succ item
+			  in
+			    if pred next
+			      then lp(start, next, last, l)
+			    else if (D.compare(next, last) = EQUAL)
+			      then (start, item)::l
+			      else scan(D.succ next, last, (start, item)::l)
+			  end
 		and scan (next, last, l) = if pred next
 		      then lp (next, next, last, l)
 		      else if (D.compare(next, last) = EQUAL)
@@ -294,7 +303,7 @@ functor IntervalSetFn (D : INTERVAL_DOMAIN) : INTERVAL_SET =
 
     fun foldlInt f init (SET l) = List.foldl f init l
 
-    fun foldrInt f init (SET l) = List.foldl f init l
+    fun foldrInt f init (SET l) = List.foldr f init l
 
     fun filterInt pred (SET l) = let
 	  fun f' ([], l) = SET(List.rev l)
-- 
2.43.0


From 373206801f085b6d0f459f7e9d07ee6725b4a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 103/106] fix: OS.Path.mkCanonical of ./ and of a/../ raised
 Fail

---
 base/system/Basis/Implementation/OS/os-path-fn.sml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/system/Basis/Implementation/OS/os-path-fn.sml b/base/system/Basis/Implementation/OS/os-path-fn.sml
index 9f8d281..eb73c0a 100644
--- a/base/system/Basis/Implementation/OS/os-path-fn.sml
+++ b/base/system/Basis/Implementation/OS/os-path-fn.sml
@@ -175,6 +175,7 @@ functor OS_PathFn (OSPathBase : sig
 	    | filterArcs (true, [P.Null]) = [""]
 	    | filterArcs (true, [P.Current]) = [""]
 	    | filterArcs (false, [P.Current]) = [currentArc]
+	    | filterArcs (false, [P.Null]) = [currentArc]
 	    | filterArcs (_, al) = List.map mkArc al
 	  val {isAbs, vol, arcs} = fromString p
 	  in
-- 
2.43.0


From 3d61568866e8c683b5ebbfa0151905bcbe4b6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 104/106] fix: OS.Path.mkRelative of a path relative to the
 root, and of a path with an empty arc after the common prefix

---
 base/system/Basis/Implementation/OS/os-path-fn.sml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/system/Basis/Implementation/OS/os-path-fn.sml b/base/system/Basis/Implementation/OS/os-path-fn.sml
index eb73c0a..711c318 100644
--- a/base/system/Basis/Implementation/OS/os-path-fn.sml
+++ b/base/system/Basis/Implementation/OS/os-path-fn.sml
@@ -219,6 +219,7 @@ functor OS_PathFn (OSPathBase : sig
                 and dotDot (al, []) = al
                   | dotDot (al, _::r) = dotDot(parentArc :: al, r)
 		and mkArcs [] = [currentArc]
+		  | mkArcs (al as ("" :: _)) = currentArc :: al
 		  | mkArcs al = al
 		in
 		  if not (P.sameVol (v1, v2))
@@ -227,6 +228,8 @@ functor OS_PathFn (OSPathBase : sig
 		       of ([""], [""]) => currentArc
 			| ([""], _) =>
 			    toString{isAbs=false, vol="", arcs=dotDot([], al2)}
+			| (_, [""]) =>
+			    toString{isAbs=false, vol="", arcs=strip(al1, [])}
 			| _ =>
 			    toString{isAbs=false, vol="", arcs=strip(al1, al2)}
 		      (* end case *))
-- 
2.43.0


From 4aa4959012648f4860156e3df7ec1583096593f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 105/106] fix: OS.Path.fromUnixPath of the empty path is the
 empty path

---
 base/system/Basis/Implementation/OS/os-path-fn.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/OS/os-path-fn.sml b/base/system/Basis/Implementation/OS/os-path-fn.sml
index 711c318..c35abd8 100644
--- a/base/system/Basis/Implementation/OS/os-path-fn.sml
+++ b/base/system/Basis/Implementation/OS/os-path-fn.sml
@@ -256,7 +256,8 @@ functor OS_PathFn (OSPathBase : sig
 	      | tr arc = checkArc arc
 	    in
 	      case String.fields (fn c => c = #"/") up
-	       of "" :: arcs => { isAbs = true, vol = "", arcs = map tr arcs }
+	       of [""] => { isAbs = false, vol = "", arcs = [] }
+		| "" :: arcs => { isAbs = true, vol = "", arcs = map tr arcs }
 		| arcs => { isAbs = false, vol = "", arcs = map tr arcs }
 	    end
       fun toUnixPath' { isAbs, vol = "", arcs } = let
-- 
2.43.0


From 10619a07f4ac22833ffee3af8e8c62488f7ed261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 106/106] fix: OS.Path.splitBaseExt and joinBaseExt must keep
 the empty arcs of a path

---
 .../Basis/Implementation/OS/os-path-fn.sml      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/OS/os-path-fn.sml b/base/system/Basis/Implementation/OS/os-path-fn.sml
index c35abd8..a33ab25 100644
--- a/base/system/Basis/Implementation/OS/os-path-fn.sml
+++ b/base/system/Basis/Implementation/OS/os-path-fn.sml
@@ -134,20 +134,21 @@ functor OS_PathFn (OSPathBase : sig
     fun splitBaseExt p = let
 	  val {dir, file} = splitDirFile p
 	  val (file', ext') = SS.splitr (fn c => c <> #".") (SS.full file)
-	  val fileLen = SS.size file'
-	  val (file, ext) =
-		if (fileLen <= 1) orelse (SS.isEmpty ext')
-		  then (file, NONE)
-		  else (SS.string(SS.trimr 1 file'), SOME(SS.string ext'))
 	  in
-	    {base = joinDirFile{dir=dir, file=file}, ext = ext}
+	    if (SS.size file' <= 1) orelse (SS.isEmpty ext')
+	      then {base = p, ext = NONE}
+	      else {
+		  base = SS.string(SS.trimr (SS.size ext' + 1) (SS.full p)),
+		  ext = SOME(SS.string ext')
+		}
 	  end
     fun joinBaseExt {base, ext=NONE} = base
       | joinBaseExt {base, ext=SOME ""} = base
       | joinBaseExt {base, ext=SOME ext} = let
-	  val {dir, file} = splitDirFile base
+	  val {file, ...} = splitDirFile base
 	  in
-	    joinDirFile{dir=dir, file=String.concat[file, ".", ext]}
+	    checkArc (String.concat[file, ".", ext]);
+	    String.concat[base, ".", ext]
 	  end
     fun base p = #base(splitBaseExt p)
     fun ext p = #ext(splitBaseExt p)
-- 
2.43.0

