From 10b8c01a1ca34d4ca597d1b13013e73602dacf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 01/34] fix: x86 Montgomery code of fields that spill exactly
 two words mixed stale copies of a spilled word

The register allocator kept a spilled operand in a work register and at the same
time read or wrote its memory slot directly. With 7 words (or 6 words and a
modulus using its top bit) that produced wrong products.
---
 src/asmbuilder.js | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/asmbuilder.js b/src/asmbuilder.js
index 097bbee..afa5f86 100644
--- a/src/asmbuilder.js
+++ b/src/asmbuilder.js
@@ -91,6 +91,16 @@ module.exports = class RegManager {
     }
 
 
+    _releaseWr(ref) {
+        const idx = this._indexOfWrAssignment(ref);
+        if (idx<0) return;
+        const a = this.wrAssignments.splice(idx, 1)[0];
+        if (a.modified) {
+            this.code.push(`    mov ${this.regRefs[a.ref]}, ${a.reg}`);
+        }
+        this.wrAvailable.push(a.reg);
+    }
+
     _loadWr(ref, loadValue) {
         const idx = this._indexOfWrAssignment(ref);
         if (idx>=0) {
@@ -162,6 +172,13 @@ module.exports = class RegManager {
             }
         }
 
+        // A spilled operand that is used straight from memory must not also live in a work register.
+        for (let i=0; i < inst.length; i++) {
+            if ((typeof args[i] !== "string")&&(args[i] >= this.nUsedRegs)&&((dLoad<0)||(args[i] != args[dLoad]))) {
+                this._releaseWr(args[i]);
+            }
+        }
+
         const params = [];
         for (let i=0; i < inst.length; i++) {
             if (typeof args[i] === "string") {
-- 
2.43.0


From 2c13e472efedeb126e2f7e019becdc608146e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 02/34] fix: ARM64 rawNegLS added the modulus when the
 subtraction did not borrow

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..c7bf60b 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1010,7 +1010,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1021,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From a95d95bddaae1366123505c7bdd25c8f812f2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 03/34] fix: ARM64 rawFromMontgomery of an odd number of words
 read one word past its operand

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index c7bf60b..2065b80 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1516,7 +1516,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From 4632d64baa14b5e9ff5a2b9e1a78714fca1e16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 04/34] fix: ARM64 rawShl of a one word field neither masked
 nor reduced its result

---
 src/armbuilder.js | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 2065b80..ed70316 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1173,22 +1173,19 @@ class Gen_rawShl extends GenBase {
     }
 
     generate() {
-        if (this.width === 1) {
-            this.op("ldr", "x3", "[x1]");
-            this.op("lsl", "x3", "x3", "x2");
-            this.op("str", "x3", "[x0]");
-            this.op("ret");
-            return;
-        }
-
         this.pushRegs();
         this.genLoadVar(this.r1, 1);
         this.op_empty();
 
-        this.genCalcShift();
-        this.genCalcJump();
+        if (this.width === 1) {
+            this.op("lsl", this.r1[0], this.r1[0], "x2");
+            this.op_empty();
+        } else {
+            this.genCalcShift();
+            this.genCalcJump();
 
-        this.genShift();
+            this.genShift();
+        }
 
         this.op_label(this.makeLabel("sub"));
         this.genLboMask(this.r1[this.width-1], new Reg(6));
-- 
2.43.0


From 0dbf8e016b3c9f1fc8f6db077ca444f47720865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 05/34] fix: ARM64 rawNegLS of 11 and 12 words overwrote words
 of its result with work registers

---
 src/armbuilder.js | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index ed70316..74af78f 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -971,9 +971,8 @@ class Gen_rawNegLS extends GenBase {
 
         assert(width <= 12);
 
-        this.r1 = this.assignRegs(this.width);
+        this.r1 = cyclicCopy(this.workRegs, this.width);
         this.a2 = cyclicCopy(this.workRegs, this.width);
-        this.releaseRegs(this.workRegs);
         this.r2 = this.assignRegs(this.width);
         this.generate();
     }
@@ -986,8 +985,7 @@ class Gen_rawNegLS extends GenBase {
         this.genSubtractionOpA();
         this.op_empty();
 
-        this.genAdd(this.r2, this.r2, this.r1);
-        this.op_empty();
+        this.genAddQ();
 
         this.op_label(this.makeLabel("done"));
         this.genStoreVar(this.r2, 0);
@@ -1026,6 +1024,17 @@ class Gen_rawNegLS extends GenBase {
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
     }
+
+    genAddQ() {
+        this.op("adr", "x3", this.getVarName("rawq"));
+
+        for (let i = 0; i < this.width; i++) {
+            this.genLoadVarWord(this.r1, i, 3);
+            this.genAddWord(this.r2, this.r2, this.r1, i);
+            if (i % 2) this.op_empty();
+        }
+        if (this.width % 2) this.op_empty();
+    }
 }
 
 class Gen_rawShr extends GenBase {
-- 
2.43.0


From 91fcfa04dbb1352c1db7df2255ef8ca862803278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 06/34] fix: x86 rawSwap stored an unrelated register instead
 of the first operand's words

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From 1a1a30ea0cf12e5297e234f46334559991bc3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 07/34] fix: toInt accepted values that do not fit 32 bits, and
 rejected small negative ones on x86

---
 src/copy.asm.ejs       | 14 +++++++++-----
 src/fr_generic.cpp.ejs |  8 ++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..380c216 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -182,13 +182,18 @@ u64toLong_adjust_neg:
 
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
-        sub     rax, [q]
-        jnc     <%=name%>_longErr
+        sub     rax, [q]                ; element - q must be between -2^31 and -1
+        sbb     r8, r8                  ; keep the borrow
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
+        bt      r8, 0
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        sbb     r8, r8
+        cmp     rcx, -1                 ; every word above the lowest is sign
+        jne     <%=name%>_longErr
 <% } %>
+        test    r8, r8
+        jz      <%=name%>_longErr
         mov     rcx, rax
         sar     rcx, 31
         add     rcx, 1
@@ -200,10 +205,9 @@ u64toLong_adjust_neg:
         ret
 
 <%=name%>_longErr:
-        push    rdi
+        and     rsp, -16
         mov     rdi, 0
         call    <%=name%>_fail
-        pop     rdi
         mov rsp, rbp
         pop rdx
         pop rsi
diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..8848e36 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -742,17 +742,17 @@ int <%=name%>_longNeg(P<%=name%>Element pE)
        return 0;
     }
 
-    int64_t result = pE->longVal[0] - <%=name%>_q.longVal[0];
+    <%=name%>RawElement opposite;
 
-    int64_t is_long = (result >> 31) + 1;
+    <%=name%>_rawSubRegular(opposite, <%=name%>_q.longVal, pE->longVal);
 
-    if(is_long)
+    if (opposite[0] > 0x80000000 || memcmp(&opposite[1], zero, (sizeof(opposite) - sizeof(opposite[0]))))
     {
        <%=name%>_longErr();
        return 0;
     }
 
-    return result;
+    return -(int64_t)opposite[0];
 }
 
 int <%=name%>_longNormal(P<%=name%>Element pE)
-- 
2.43.0


From 30e5207f25273ef5e3d5a8f79aed73036beeac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 08/34] fix: portable toMontgomery of a short element left the
 result's short value unset

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 8848e36..300016e 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -313,12 +313,14 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
+       r->shortVal = a->shortVal;
        r->type = <%=name%>_SHORTMONTGOMERY;
     }
     else
     {
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
+        r->shortVal = a->shortVal;
         r->type = <%=name%>_SHORTMONTGOMERY;
     }
 }
-- 
2.43.0


From 02c161e78c4154510f8290db272179370666977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 09/34] fix: element2str returned memory that its callers
 cannot release with free()

---
 src/fr.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..7a71e9c 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -66,7 +66,7 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     mpz_t r;
     if (!(pE->type & <%=name%>_LONG)) {
         if (pE->shortVal>=0) {
-            char *r = new char[32];
+            char *r = (char *)malloc(32);
             sprintf(r, "%d", pE->shortVal);
             return r;
         } else {
-- 
2.43.0


From b673eecbe8bd878de1678d55775ed13668cef9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 10/34] fix: toRprBE wrote nothing for zero and a layout
 fromRprBE does not read into larger buffers; both leaked

---
 src/fr.cpp.ejs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 7a71e9c..8480504 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -299,8 +299,10 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
     mpz_init(r);
 
     toMpz(r, element);
-   
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+
+    for (int i=0; i<<%=name%>_N64 * 8; i++) data[i] = 0;
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
+    mpz_clear(r);
 
     return <%=name%>_N64 * 8;
 }
@@ -315,6 +317,7 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
 
     mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
     fromMpz(element, r);
+    mpz_clear(r);
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From d34f3255f9020ad4c5651a9671a6da73e9a41e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 11/34] fix: ARM64 rawIsEq of seven words ignored the lowest
 four

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 74af78f..c675ab3 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -500,7 +500,7 @@ class Gen_rawIsEq extends GenBase {
     }
 
     longNumber() {
-        return (this.width >= 8);
+        return (this.width > 4);
     }
 }
 
-- 
2.43.0


From 5c079613746a1581fb48618bf52916dbff4fc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 12/34] fix: x86 copyn used the unspecified upper half of the
 register of its int argument

---
 src/copy.asm.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 380c216..2a93e86 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -91,6 +91,7 @@
         mov     r8, rsi
         mov     r9, rdi
         mov     rax, <%= n64+1 %>
+        mov     edx, edx            ; an int argument: the upper half of the register is unspecified
         mul     rdx
         mov     rcx, rax
         cld
-- 
2.43.0


From c946ce810437ed2360a7cde91925011e93db6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 13/34] fix: the command line wrote five outputs over each
 other in the file named by --oc

---
 src/buildzqfield.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..f4007e0 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -71,10 +71,10 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    const hElementFileName =  argv.name.toLowerCase() + "_element.hpp";
+    const cGenericFileName =  argv.name.toLowerCase() + "_generic.cpp";
+    const cRawGenericFileName =  argv.name.toLowerCase() + "_raw_generic.cpp";
+    const sRawArm64FileName =  argv.name.toLowerCase() + "_raw_arm64.s";
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From e1c426f76040939f5c4986bdb7a9ae8151f8a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 14/34] fix: the generated header did not declare the _init
 function that the README calls

---
 src/fr.hpp.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fr.hpp.ejs b/src/fr.hpp.ejs
index 1bbe388..d04c2bb 100644
--- a/src/fr.hpp.ejs
+++ b/src/fr.hpp.ejs
@@ -189,6 +189,7 @@ void <%=name%>_longErr();
 
 // Pending functions to convert
 
+bool <%=name%>_init();
 void <%=name%>_str2element(P<%=name%>Element pE, char const*s);
 char *<%=name%>_element2str(P<%=name%>Element pE);
 void <%=name%>_idiv(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b);
-- 
2.43.0


From 8158888069423062e287d5ec6be1d4a9badb7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 15/34] fix: F2Field square was wrong for every non-residue
 other than -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From 9be0eaf17d589ee23bba5d4a97dc4c54be2cbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 16/34] fix: F12Field exp overwrote its base when the result
 was the same element

---
 c/f12field.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..7e55bdf 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,14 +95,17 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
-    copy(r, one());
+    Element baseCopy;
     Element t;
 
+    copy(baseCopy, a); // a and r can be the same
+    copy(r, one());
+
     for (int i=scalarSize*8-1; i>=0; i--) {
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, baseCopy);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From 8b50d5e195627ddd2d6af8592ec23b0c94dda7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 17/34] fix: Curve neg of the affine zero into a projective
 point was not the identity

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..e2b7a7a 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -589,6 +589,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, a);
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From 08b233e0296fa4bcd66b568561ea058befa1122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 18/34] fix: MSM lost the carry out of the last chunk of large
 scalars

---
 c/msm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..bd1fbc6 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // two bits more than the scalar: the signed digits must not carry out of the last chunk
+        return ((scalarSize * 8 + 1) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -47,6 +48,7 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
+        if (bitStart >= scalarSize*8) return 0;
         if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
-- 
2.43.0


From 62e2d7de60cba9a13e7fb1364b6c14b2a8ea6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 19/34] fix: multiexp and MSM read past the end of scalars
 shorter than 8 bytes

---
 c/msm.hpp      | 7 +++++--
 c/multiexp.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bd1fbc6..3c313be 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -49,11 +50,13 @@ private:
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
         if (bitStart >= scalarSize*8) return 0;
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+        if (scalarSize < 8) byteStart = 0;
+        else if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t v = 0;
+        memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..8510b6f 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -27,10 +27,12 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+    if (scalarSize < 8) byteStart = 0;
+    else if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t v = 0;
+    memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
-- 
2.43.0


From be8e0b2cd0b84157151156ae12f441a424025499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 20/34] fix: multiexp with per-column lengths took a column of
 length 0 as full

---
 c/multiexp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 8510b6f..276b84a 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -61,9 +61,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -211,6 +209,10 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
+        if (x[0] == 0) {
+            g.copy(r, g.zero());
+            return;
+        }
         g.mulByScalar(r, bases[0], scalars, scalarSize);
         return;
     }
-- 
2.43.0


From 9b76f121d301a8c5edee24b3a1d38ee8c02772e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 21/34] fix: parallelFor aborted on an empty range, and with it
 ifft of one and two elements

---
 c/misc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..e4abce9 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -146,6 +146,8 @@ public:
     template<typename Func>
     void parallelFor(int begin, int end, Func&& func) {
 
+        if (begin >= end) return;
+
         const int  elementCount = end - begin;
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
-- 
2.43.0


From 489072b0ff15bee07a2238a099b890b8f99c07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 22/34] fix: a ThreadPool destroyed right after its creation
 could hang (lost wakeup)

---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index e4abce9..8ff506e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From b628270f1618207e69a137de19469599157045b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 23/34] fix: splitParStr stripped parentheses that do not
 enclose the whole component

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..eb347c1 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From 03f23e368fb82fa73d52f3eadcc2b73b7c9b0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 24/34] fix: splitParStr recursed without end on a single
 component

---
 c/splitparstr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index eb347c1..01747af 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -43,10 +43,10 @@ std::vector<std::string> splitParStr(std::string s) {
         }
         accS += s[i];
     }
+    const std::string whole = accS;
     removePars(accS);
     res.push_back(accS);
-    if (res.size()==1) {
-        removePars(res[0]);
+    if ((res.size()==1)&&(accS != whole)) {
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From a9e88451af6c3795713543a43ac99907b21beb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 25/34] fix: BinFile read past the end of truncated or
 malformed files

---
 c/binfile_utils.cpp | 27 ++++++++++++++++++++++++++-
 c/binfile_utils.hpp |  2 ++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..677ff29 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -13,8 +13,14 @@
 
 namespace BinFileUtils
 {
-    BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion)
+    BinFile::BinFile(void *data, uint64_t _size, std::string _type, uint32_t maxVersion)
     {
+        size = _size;
+        if (size < 4)
+        {
+            throw new std::invalid_argument("File too short");
+        }
+
         addr = malloc(size);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
@@ -39,6 +45,7 @@ namespace BinFileUtils
         {
             u_int32_t sType = readU32LE();
             u_int64_t sSize = readU64LE();
+            checkAvailable(sSize);
 
             if (sections.find(sType) == sections.end())
             {
@@ -68,6 +75,12 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "fstat");
 
         size = sb.st_size;
+        if (size < 4)
+        {
+            close(fd);
+            throw new std::invalid_argument("File too short");
+        }
+
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
         addr = malloc(sb.st_size);
 
@@ -98,6 +111,7 @@ namespace BinFileUtils
         {
             u_int32_t sType = readU32LE();
             u_int64_t sSize = readU64LE();
+            checkAvailable(sSize);
 
             if (sections.find(sType) == sections.end())
             {
@@ -185,8 +199,17 @@ namespace BinFileUtils
         return sections[sectionId][sectionPos].size;
     }
 
+    void BinFile::checkAvailable(u_int64_t len)
+    {
+        if (len > size - pos)
+        {
+            throw new std::range_error("Unexpected end of file");
+        }
+    }
+
     u_int32_t BinFile::readU32LE()
     {
+        checkAvailable(4);
         u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
         pos += 4;
         return res;
@@ -194,6 +217,7 @@ namespace BinFileUtils
 
     u_int64_t BinFile::readU64LE()
     {
+        checkAvailable(8);
         u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
         pos += 8;
         return res;
@@ -201,6 +225,7 @@ namespace BinFileUtils
 
     void *BinFile::read(u_int64_t len)
     {
+        checkAvailable(len);
         void *res = (void *)((u_int64_t)addr + pos);
         pos += len;
         return res;
diff --git a/c/binfile_utils.hpp b/c/binfile_utils.hpp
index a8d6de9..3db28d7 100644
--- a/c/binfile_utils.hpp
+++ b/c/binfile_utils.hpp
@@ -31,6 +31,8 @@ namespace BinFileUtils
 
         Section *readingSection;
 
+        void checkAvailable(u_int64_t len);
+
     public:
         BinFile(void *data, uint64_t size, std::string type, uint32_t maxVersion);
         BinFile(std::string fileName, std::string type, uint32_t maxVersion);
-- 
2.43.0


From d945d983079002b5f1754be573e1748587d6d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 26/34] fix: zkey_utils.cpp did not compile: <stdexcept> was
 not included

---
 c/zkey_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..104817e 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 
 #include "zkey_utils.hpp"
 
-- 
2.43.0


From 21bb17d674113a4d293703fec255b85168d8eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 27/34] fix: FFT constructor wrote roots[1] in one thread while
 others read it

---
 c/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..d942f89 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -91,7 +91,7 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
 
         uint64_t increment = nRoots / nThreads;
-        uint64_t start = idThread==0 ? 2 : idThread * increment;
+        uint64_t start = idThread * increment < 2 ? 2 : idThread * increment;
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From 3d40a190388f32865853dcc1428ff542bff77179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 28/34] fix: a BinFile whose constructor threw leaked its copy
 of the file

---
 c/binfile_utils.cpp | 3 ++-
 c/binfile_utils.hpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 677ff29..1b713ef 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -22,6 +22,7 @@ namespace BinFileUtils
         }
 
         addr = malloc(size);
+        addrOwner.reset(addr);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
@@ -83,6 +84,7 @@ namespace BinFileUtils
 
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
         addr = malloc(sb.st_size);
+        addrOwner.reset(addr);
 
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
@@ -129,7 +131,6 @@ namespace BinFileUtils
 
     BinFile::~BinFile()
     {
-        free(addr);
     }
 
     void BinFile::startReadSection(u_int32_t sectionId, u_int32_t sectionPos)
diff --git a/c/binfile_utils.hpp b/c/binfile_utils.hpp
index 3db28d7..1b8b466 100644
--- a/c/binfile_utils.hpp
+++ b/c/binfile_utils.hpp
@@ -4,6 +4,7 @@
 #include <map>
 #include <vector>
 #include <memory>
+#include <cstdlib>
 
 namespace BinFileUtils
 {
@@ -12,6 +13,7 @@ namespace BinFileUtils
     {
 
         void *addr;
+        std::unique_ptr<void, void (*)(void *)> addrOwner{nullptr, free};
         u_int64_t size;
         u_int64_t pos;
 
-- 
2.43.0


From e9b3965ffc2aa8147eec19657a959fa0d0f433f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 29/34] fix: opening something that cannot be mapped (a
 directory) read through MAP_FAILED

---
 c/binfile_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 1b713ef..0f142c9 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -73,7 +73,11 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         if (size < 4)
@@ -83,6 +87,12 @@ namespace BinFileUtils
         }
 
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
+        if (addrmm == MAP_FAILED)
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "mmap");
+        }
         addr = malloc(sb.st_size);
         addrOwner.reset(addr);
 
-- 
2.43.0


From 80ff2b66daac6a75dda3a27691f2ca637911bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 30/34] fix: loadHeader leaked the header when it threw; a
 Header made by hand destroyed numbers it had not made

---
 c/wtns_utils.cpp | 6 +++---
 c/zkey_utils.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..b9dd70b 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -3,6 +3,7 @@
 namespace WtnsUtils {
 
 Header::Header() {
+    mpz_init(prime);
 }
 
 Header::~Header() {
@@ -10,18 +11,17 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
+    std::unique_ptr<Header> h(new Header());
     f->startReadSection(1);
 
     h->n8 = f->readU32LE();
-    mpz_init(h->prime);
     mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
 
     h->nVars = f->readU32LE();
 
     f->endReadSection();
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // NAMESPACE
\ No newline at end of file
diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 104817e..eaf1083 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -7,6 +7,8 @@ namespace ZKeyUtils {
 
 
 Header::Header() {
+    mpz_init(qPrime);
+    mpz_init(rPrime);
 }
 
 Header::~Header() {
@@ -16,7 +18,7 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     f->startReadSection(1);
     uint32_t protocol = f->readU32LE();
@@ -28,11 +30,9 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     f->startReadSection(2);
 
     h->n8q = f->readU32LE();
-    mpz_init(h->qPrime);
     mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
 
     h->n8r = f->readU32LE();
-    mpz_init(h->rPrime);
     mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
 
     h->nVars = f->readU32LE();
@@ -49,7 +49,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From 5d82f05c7f82d8f6f4422ecce8fb14d700619987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 31/34] fix: the FFT constructor leaked four numbers when it
 rejected a domain

---
 c/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index d942f89..c2adfa3 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -69,6 +69,10 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     if (s<domainPow) {
+        mpz_clear(m_qm1d2);
+        mpz_clear(m_q);
+        mpz_clear(m_nqr);
+        mpz_clear(m_aux);
         throw std::range_error("Domain size too big for the curve");
     }
 
-- 
2.43.0


From 7bc2323d12a673bc576316993ee93d85292484ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 32/34] fix: a scalar multiplication before naf.cpp's own
 start-up gave the identity

---
 c/naf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/naf.cpp b/c/naf.cpp
index 079dcf7..03e8319 100644
--- a/c/naf.cpp
+++ b/c/naf.cpp
@@ -53,6 +53,9 @@ bool buildNafTable() {
 
 
 void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
+    static const bool tableBulded = buildNafTable();
+    (void)tableBulded;
+
     int64_t *r64 = (int64_t *)r;
 
     bool carry = false;
@@ -72,5 +75,3 @@ void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
         r64[i] = rs & 0x0303030303030303LL;
     }
 }
-
-static bool tableBulded = buildNafTable();
-- 
2.43.0


From 8ff91f8066b6112506048e1e3577e6a484d8a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:01 +0000
Subject: [PATCH 33/34] fix: a point is not equal to an identity whose
 coordinates are all zero

---
 c/curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index e2b7a7a..7079c28 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return  false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
-- 
2.43.0


From 54314d26f8bc02177917b80d2251201aa3f5ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 34/34] fix: making a curve no longer writes to the shared base
 field

---
 c/curve.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index 7079c28..08b346d 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -2,14 +2,11 @@
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, typename BaseField::Element &aa, typename BaseField::Element &ab, typename BaseField::Element &agx, typename BaseField::Element &agy) : F(aF) {
-    F = aF;
     initCurve(aa, ab, agx, agy);
 }
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, std::string as, std::string bs, std::string gxs, std::string gys) : F(aF) {
-    F = aF;
-
     typename BaseField::Element aa;
     typename BaseField::Element ab;
     typename BaseField::Element agx;
-- 
2.43.0

