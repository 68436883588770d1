From 8fbdc9f5df20af1fb4585f62a4454650c2d6e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:26 +0000
Subject: [PATCH 01/58] fix: a string literal must not swallow the end of its
 line

---
 lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..1621478 100644
--- a/lexer.go
+++ b/lexer.go
@@ -166,6 +166,12 @@ func (z *Lexer) readValue() {
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From da9186788672893fe4d8cbc8a7771fdb76f9289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:28 +0000
Subject: [PATCH 02/58] fix: an escaped backslash before the closing quote ends
 the string literal

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 1621478..052957e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -193,7 +193,11 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			if c == '\\' && p == '\\' {
+				p = 0 // an escaped backslash does not escape what follows
+			} else {
+				p = c
+			}
 		}
 	} else {
 		for {
-- 
2.43.0


From 9dddea6433436ef8258289215218e380ee27ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:22 +0000
Subject: [PATCH 03/58] fix: a line with excess values must yield exactly one
 listing entry

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..e883a29 100644
--- a/process.go
+++ b/process.go
@@ -3182,7 +3182,9 @@ func Process(source string) *ProcessResult {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) <= line {
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 545bdba0d59e3eb58d1e1ddc990f54a764076f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:24 +0000
Subject: [PATCH 04/58] fix: looking up the argument at an empty line must not
 panic

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index e883a29..c7f4e88 100644
--- a/process.go
+++ b/process.go
@@ -2857,6 +2857,10 @@ func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 
 	ln := r.Lines[l]
 
+	if len(ln) == 0 {
+		return res, -1, false
+	}
+
 	curr := len(ln) - 1
 
 	_, idx, ok := ln.ImmAt(ch)
-- 
2.43.0


From f0e4f86e6e754b9ab2fbc3f1a892430459dc8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:26 +0000
Subject: [PATCH 05/58] fix: report each value of an integer array once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index c7f4e88..8e8803d 100644
--- a/process.go
+++ b/process.go
@@ -1131,7 +1131,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From 7c5b268807ef92837a60773f439d5c5f2215c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:28 +0000
Subject: [PATCH 06/58] fix: check the version of transaction array fields

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 25548253a75c01927493a2c38b11090016aabca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 07/58] fix: args is available in logicsig mode only

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 8e8803d..69d4f4a 100644
--- a/process.go
+++ b/process.go
@@ -2458,8 +2458,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From c3a74e78a219650e9b63babcb66406c2f2334c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:32 +0000
Subject: [PATCH 08/58] fix: reject an out of range group index of gitxna

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 69d4f4a..75d5e09 100644
--- a/process.go
+++ b/process.go
@@ -2399,7 +2399,7 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-- 
2.43.0


From e0c43d06237e817299b36246f3053a9ee43a46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:03 +0000
Subject: [PATCH 09/58] fix: print replace2, pushints and extract_uint64 under
 their names

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 5c90871..e0d67e5 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From 13a7d62729a05ffca3c47caab7a7cdf0fd266c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 10/58] fix: print the operands of gtxnas in source order

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e0d67e5..d87cabd 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From 23d84d06c6894d4fad71cf04ecbbf6dc78d3d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:07 +0000
Subject: [PATCH 11/58] fix: print an empty byte string as a parsable literal

---
 expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr.go b/expr.go
index d87cabd..8fd0b8f 100644
--- a/expr.go
+++ b/expr.go
@@ -1306,6 +1306,10 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return fmt.Sprintf("\"%s\"", string(e.Value))
 	case BytesBase64:
+		if len(e.Value) == 0 {
+			return "\"\""
+		}
+
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
-- 
2.43.0


From 2203503416bddfca80ac7fb2fb2debc91c85ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:09 +0000
Subject: [PATCH 12/58] fix: keep the quotes out of a method signature

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 75d5e09..7b4de96 100644
--- a/process.go
+++ b/process.go
@@ -981,14 +981,14 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e == b || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return value[b+1 : e]
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 506cfa0fab5d4478be17f836b7c2043bba993d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:11 +0000
Subject: [PATCH 13/58] fix: keep the full #pragma version in the listing

---
 expr.go    | 2 +-
 process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 8fd0b8f..3718a8b 100644
--- a/expr.go
+++ b/expr.go
@@ -1450,7 +1450,7 @@ func (e *BoxExtractExpr) Execute(b *VmBranch) error {
 }
 
 type PragmaExpr struct {
-	Version uint8
+	Version uint64
 }
 
 func (e *PragmaExpr) IsNop() {}
diff --git a/process.go b/process.go
index 7b4de96..50df1ff 100644
--- a/process.go
+++ b/process.go
@@ -1570,7 +1570,7 @@ var typeTxField = []interface{}{}
 
 func opPragma(c ProcessContext) {
 	version := c.mustReadPragma("version")
-	c.emit(&PragmaExpr{Version: uint8(version)})
+	c.emit(&PragmaExpr{Version: version})
 }
 
 func opAddr(c ProcessContext) {
-- 
2.43.0


From b46fcd0a66122367f0a0f7bdcf24f999f62e9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:13 +0000
Subject: [PATCH 14/58] fix: Cover must build a cover op

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 3718a8b..7119a0f 100644
--- a/expr.go
+++ b/expr.go
@@ -3848,8 +3848,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 02018986997ef6ce45836f34e4c4effd321ee910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:15 +0000
Subject: [PATCH 15/58] fix: the optimizer must not drop retsub

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From f95a630c7ee77cbf9382b6b92298bfa3db411cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:55 +0000
Subject: [PATCH 16/58] fix: bury, dig, frame_dig and frame_bury must address
 the whole stack

---
 expr.go | 8 ++++----
 vm.go   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index 7119a0f..4b584df 100644
--- a/expr.go
+++ b/expr.go
@@ -1852,7 +1852,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2464,7 +2464,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2481,7 +2481,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3195,7 +3195,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.peek(int(e.Index))
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index e01389e..677ce31 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -280,7 +280,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From 1d34b11ac00b2fc2be94aeea40df093c8dceaf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:57 +0000
Subject: [PATCH 17/58] fix: dup2 must keep the order of the duplicated values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 4b584df..4651b94 100644
--- a/expr.go
+++ b/expr.go
@@ -3354,10 +3354,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From 2aa323d0b91d77aade8f3a0de647b9faaad78227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 18/58] fix: dupn 255 must terminate

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 4651b94..74f4b9b 100644
--- a/expr.go
+++ b/expr.go
@@ -1887,7 +1887,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From 666bc4b8e501949a4d8757d61623f664f7d190f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 19/58] fix: pushint and pushints push integer constants

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 74f4b9b..6e4b74a 100644
--- a/expr.go
+++ b/expr.go
@@ -1264,7 +1264,7 @@ func (e *PushIntExpr) String() string {
 }
 
 func (e *PushIntExpr) Execute(b *VmBranch) error {
-	b.push(VmValue{T: VmTypeUint64})
+	b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: e.Value}})
 	b.Line++
 	return nil
 }
@@ -2210,8 +2210,8 @@ type PushIntsExpr struct {
 }
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
-	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+	for _, i := range e.Ints {
+		b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: i}})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From 58634244a3f2f0c62b3d66b540f086b746053f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 20/58] fix: getbit, setbit, bitlen and app_opted_in take
 operands of any type

---
 expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 6e4b74a..ec0265a 100644
--- a/expr.go
+++ b/expr.go
@@ -2066,7 +2066,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -3142,7 +3142,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3159,7 +3159,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
@@ -3696,7 +3696,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From bb9eb53369b6f7c8461462539e54a46659d90c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:18 +0000
Subject: [PATCH 21/58] fix: execute addr, b|, b-, extract_uint64 and itxna

---
 expr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/expr.go b/expr.go
index ec0265a..82edb8b 100644
--- a/expr.go
+++ b/expr.go
@@ -1940,6 +1940,14 @@ func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
 	return nil
 }
 
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Extract64Bits = &Extract64BitsExpr{}
 
 type Replace2Expr struct {
@@ -2106,6 +2114,18 @@ func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 type GtxnasExpr struct {
 	Field TxnField
 	Index uint8
@@ -2250,6 +2270,12 @@ func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 type PushBytessExpr struct {
 	Bytess [][]byte
 }
@@ -3215,6 +3241,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3533,6 +3567,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From bf1049a9fbe62051bca7a7f821627fcad2e7ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 22/58] fix: charge json_ref by the length of the JSON operand

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 82edb8b..64cea21 100644
--- a/expr.go
+++ b/expr.go
@@ -2019,11 +2019,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1)
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From 7e4024a36aedcd1f4cd138865d66206d611c2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:23 +0000
Subject: [PATCH 23/58] fix: a forked branch keeps the call frames

---
 vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm.go b/vm.go
index 677ce31..06d0871 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From a2957f252ae50a50a770bea5e73e5e650682e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:25 +0000
Subject: [PATCH 24/58] fix: retsub after proto must drop the locals of the
 subroutine

---
 expr.go | 8 ++++++--
 vm.go   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 64cea21..b8f5af9 100644
--- a/expr.go
+++ b/expr.go
@@ -1657,8 +1657,12 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 			rs = append(rs, b.pop(VmTypeAny))
 		}
 
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
+		if f.clear {
+			if len(b.Stack.Items) < f.p {
+				panic("not enough values on stack to return")
+			}
+
+			b.Stack.Items = b.Stack.Items[:f.p-int(f.NumArgs)]
 		}
 
 		for i := len(rs) - 1; i >= 0; i-- {
diff --git a/vm.go b/vm.go
index 06d0871..b15d8d5 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	clear      bool
 	Name       string
 }
 
@@ -196,6 +197,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
 	f.NumArgs = a
 	f.NumReturns = r
+	f.clear = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-- 
2.43.0


From 78b1827f92467db230c1655876ef52f53d1c937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:26 +0000
Subject: [PATCH 25/58] fix: answer a request that fails with an error response

---
 lsp/lsp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..5bfb3a8 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2196,6 +2196,13 @@ func (l *lsp) Run() (int, error) {
 
 			err = l.handle(jh, data)
 			if err != nil {
+				if jh.Id != nil {
+					l.fail(jh.Id, lspError{
+						Code:    -32603,
+						Message: err.Error(),
+					})
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 6780924a77798aac8ff20bcc2d384318cf7f45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:27 +0000
Subject: [PATCH 26/58] fix: answer workspace/executeCommand requests

---
 lsp/lsp.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 5bfb3a8..e1a80bd 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -733,6 +733,19 @@ func (l *lsp) request(method string, params interface{}) error {
 	})
 }
 
+func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParams) error {
+	err := l.request("workspace/applyEdit", params)
+	if err != nil {
+		return err
+	}
+
+	if id == nil {
+		return nil
+	}
+
+	return l.success(id, struct{}{})
+}
+
 func (l *lsp) notify(method string, params interface{}) error {
 	return l.write(lspNotification{
 		JsonRpc: "2.0",
@@ -928,7 +941,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Update version",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -965,7 +978,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					},
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Replace with named value",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1012,7 +1025,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					NewText: "",
 				})
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Remove line",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1062,7 +1075,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					})
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Remove label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1096,7 +1109,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
-- 
2.43.0


From d87c75c8b687a40931820cc8c3e9c8789fcfb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:28 +0000
Subject: [PATCH 27/58] fix: a message without params must not crash the
 language server

---
 lsp/lsp.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index e1a80bd..c5e768a 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -114,7 +114,8 @@ type jsonRpcHeader struct {
 
 	Id interface{} `json:"id"`
 
-	Method string `json:"method"`
+	Method string          `json:"method"`
+	Params json.RawMessage `json:"params"`
 
 	Result interface{} `json:"result,omitempty"`
 	Error  interface{} `json:"error,omitempty"`
@@ -311,7 +312,7 @@ type lspDidOpenTextDocument struct {
 }
 
 type lspDidOpenParams struct {
-	TextDocument *lspDidOpenTextDocument `json:"textDocument"`
+	TextDocument lspDidOpenTextDocument `json:"textDocument"`
 }
 
 type lspDidChangeTextDocument struct {
@@ -324,8 +325,8 @@ type lspContentChange struct {
 }
 
 type lspDidChangeParams struct {
-	TextDocument   *lspDidChangeTextDocument `json:"textDocument"`
-	ContentChanges []*lspContentChange       `json:"contentChanges"`
+	TextDocument   lspDidChangeTextDocument `json:"textDocument"`
+	ContentChanges []lspContentChange       `json:"contentChanges"`
 }
 
 type lspDidSaveTextDocument struct {
@@ -333,7 +334,7 @@ type lspDidSaveTextDocument struct {
 }
 
 type lspDidSaveParams struct {
-	TextDocument *lspDidSaveTextDocument `json:"textDocument"`
+	TextDocument lspDidSaveTextDocument `json:"textDocument"`
 }
 
 type lspDocumentSymbolTextDocument struct {
@@ -341,7 +342,7 @@ type lspDocumentSymbolTextDocument struct {
 }
 
 type lspDocumentSymbolParams struct {
-	TextDocument *lspDocumentSymbolTextDocument `json:"textDocument"`
+	TextDocument lspDocumentSymbolTextDocument `json:"textDocument"`
 }
 
 type tealUpdateVersion struct {
@@ -387,7 +388,7 @@ type lspDiagnosticRequestTextDocument struct {
 }
 
 type lspDiagnosticRequestParams struct {
-	TextDocument *lspDiagnosticRequestTextDocument `json:"textDocument"`
+	TextDocument lspDiagnosticRequestTextDocument `json:"textDocument"`
 }
 
 type lspCodeActionTextDocument struct {
@@ -500,7 +501,7 @@ type lspDidCloseTextDocument struct {
 }
 
 type lspDidCloseRequestParams struct {
-	TextDocument *lspDidCloseTextDocument `json:"textDocument"`
+	TextDocument lspDidCloseTextDocument `json:"textDocument"`
 }
 
 type lspPosition struct {
@@ -813,6 +814,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 		return nil
 	}
 
+	if strings.HasPrefix(h.Method, "textDocument/") || h.Method == "workspace/executeCommand" {
+		if len(h.Params) == 0 || string(h.Params) == "null" {
+			return errors.New("missing params")
+		}
+	}
+
 	switch h.Method { // notifications
 	case "initialized":
 
-- 
2.43.0


From 7b1af84609a3e15c3093d956793eed5459e9faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 28/58] fix: a negative content length must not crash the
 language server

---
 lsp/lsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c5e768a..d609f9f 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2200,6 +2200,10 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.Errorf("invalid content length: %d", length)
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
-- 
2.43.0


From 6a062e7ea63a30cb02e4e06a7a7d556aaa5c39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:31 +0000
Subject: [PATCH 29/58] fix: escape backslashes in the literal replacing a hex
 value

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index d609f9f..9077623 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1789,7 +1789,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(named.Value)),
 							},
 						},
 					},
-- 
2.43.0


From 3cd0d77104019fcc7109e55ce10dfb84f129e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 30/58] fix: hovering a negative field index must not panic

---
 process.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/process.go b/process.go
index 50df1ff..c37505b 100644
--- a/process.go
+++ b/process.go
@@ -2941,7 +2941,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2954,7 +2954,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2967,7 +2967,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2979,7 +2979,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = acctParamsFieldSpecByField(AcctParamsField(v))
 								if ok {
@@ -2991,7 +2991,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = appParamsFieldSpecByField(AppParamsField(v))
 								if ok {
@@ -3004,7 +3004,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetHoldingFieldSpecByField(AssetHoldingField(v))
 								if ok {
@@ -3017,7 +3017,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetParamsFieldSpecByField(AssetParamsField(v))
 								if ok {
@@ -3030,7 +3030,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = base64EncodingSpecByField(Base64Encoding(v))
 								if ok {
@@ -3043,7 +3043,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = blockFieldSpecByField(BlockField(v))
 								if ok {
@@ -3056,7 +3056,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = ecdsaCurveSpecByField(EcdsaCurve(v))
 								if ok {
@@ -3069,7 +3069,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = globalFieldSpecByField(GlobalField(v))
 								if ok {
@@ -3082,7 +3082,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = jsonRefSpecByField(JSONRefType(v))
 								if ok {
@@ -3095,7 +3095,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = vrfStandardSpecByField(VrfStandard(v))
 								if ok {
-- 
2.43.0


From 47767e56c6eabb9bc849e33111740a7a18a7bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 31/58] fix: decode hex values only where bytes are expected

---
 process.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/process.go b/process.go
index c37505b..6919d2a 100644
--- a/process.go
+++ b/process.go
@@ -2740,6 +2740,24 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				if !ok || i == 0 || len(spec.Args) == 0 {
+					return
+				}
+
+				idx := i - 1
+				if idx >= len(spec.Args) && spec.Args[len(spec.Args)-1].Array {
+					idx = len(spec.Args) - 1
+				}
+
+				if idx >= len(spec.Args) || spec.Args[idx].Type != OpArgTypeBytes {
+					return
+				}
+
+				switch ln[i-1].String() {
+				case "base32", "b32", "base64", "b64":
+					return
+				}
+
 				s := tok.String()
 				if !strings.HasPrefix(s, "0x") {
 					return
-- 
2.43.0


From e847339a97e28646cec7f2337b0d820de5e71b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:36 +0000
Subject: [PATCH 32/58] fix: complete only the opcodes available in the program
 mode

---
 lsp/lsp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9077623..0aa4c22 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1491,7 +1491,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					min := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						min = info.SigVersion
+					}
+
+					if min > 0 && min <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1511,7 +1516,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", min)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 0021c580da49dfff56beb6ef99a3692ee4a5e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 33/58] fix: answer a debugger request that fails or is not
 supported

---
 dbg/dbg.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..477de22 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -80,8 +80,9 @@ func New(r io.Reader, w io.Writer, opts ...DbgOption) (*dbg, error) {
 }
 
 type dapHeader struct {
-	Seq  int    `json:"seq"`
-	Type string `json:"type"`
+	Seq     int    `json:"seq"`
+	Type    string `json:"type"`
+	Command string `json:"command"`
 }
 
 type dapRequestHeader struct {
@@ -734,6 +735,9 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				StackFrames: sf,
 				TotalFrames: one,
 			}, nil)
+
+		default:
+			return errors.Errorf("unsupported command: %s", req.Command)
 		}
 	}
 	return nil
@@ -820,6 +824,10 @@ func (l *dbg) Run() (int, error) {
 
 			err = l.handle(jh, data)
 			if err != nil {
+				if jh.Type == "request" {
+					l.reply(jh.Seq, jh.Command, err.Error(), nil, err)
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 7dbdc56a3aeae2b37b571a2b2223c83effda3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 34/58] fix: pause and next before launch must not crash the
 debugger

---
 dbg/dbg.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 477de22..54e7417 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -459,6 +459,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				Threads: ts,
 			}, nil)
 		case "pause":
+			if l.vm == nil {
+				return errors.New("no program launched")
+			}
+
 			err := l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
@@ -533,6 +537,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if l.vm == nil {
+				return errors.New("no program launched")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
-- 
2.43.0


From 1ed1b866ab511ca97b4f684722173989c5d1bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:42 +0000
Subject: [PATCH 35/58] fix: a request without arguments must not crash the
 debugger

---
 dbg/dbg.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 54e7417..85629d0 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -168,14 +168,14 @@ type dapContinueRequestParams struct {
 	ThreadId int `json:"threadId"`
 }
 
-type dapInitializeRequest dapRequest[*dapInitializeRequestParams]
-type dapSetBreakpointsRequest dapRequest[*dapSetBreakpointsRequestParams]
-type dapLaunchRequest dapRequest[*dapLaunchRequestParams]
-type dapStackTraceRequest dapRequest[*dapStackTraceRequestParams]
-type dapScopesRequest dapRequest[*dapScopesRequestParams]
-type dapVariablesRequest dapRequest[*dapVariablesRequestParams]
-type dapNextRequest dapRequest[*dapNextRequestParams]
-type dapContinueRequest dapRequest[*dapContinueRequestParams]
+type dapInitializeRequest dapRequest[dapInitializeRequestParams]
+type dapSetBreakpointsRequest dapRequest[dapSetBreakpointsRequestParams]
+type dapLaunchRequest dapRequest[dapLaunchRequestParams]
+type dapStackTraceRequest dapRequest[dapStackTraceRequestParams]
+type dapScopesRequest dapRequest[dapScopesRequestParams]
+type dapVariablesRequest dapRequest[dapVariablesRequestParams]
+type dapNextRequest dapRequest[dapNextRequestParams]
+type dapContinueRequest dapRequest[dapContinueRequestParams]
 
 type dapCapabilities struct {
 	SupportsInstructionBreakpoints    *bool `json:"supportsInstructionBreakpoints,omitempty"`
-- 
2.43.0


From 6d5854ccf53e1ee018faf030f9e54422d396e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 36/58] fix: a negative content length must not crash the
 debugger

---
 dbg/dbg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 85629d0..11f2721 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -816,6 +816,10 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.Errorf("invalid content length: %d", length)
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
-- 
2.43.0


From b55a84bbd2b6a5c2fa3e7f1df19ae55ddcc42dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:44 +0000
Subject: [PATCH 37/58] fix: variables paging must stay within the existing
 variables

---
 dbg/dbg.go | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 11f2721..068fcbc 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -137,6 +137,24 @@ type dapVariablesRequestParams struct {
 	Count              *int `json:"count,omitempty"`
 }
 
+// window returns the range of the n variables that is requested
+func (p dapVariablesRequestParams) window(n int) (int, int) {
+	s, e := 0, n
+
+	if p.Start != nil && *p.Start > 0 {
+		s = *p.Start
+		if s > n {
+			s = n
+		}
+	}
+
+	if p.Count != nil && *p.Count > 0 && *p.Count < n-s {
+		e = s + *p.Count
+	}
+
+	return s, e
+}
+
 type dapVariablesResponse struct {
 	Variables []dapVariable `json:"variables"`
 }
@@ -594,23 +612,16 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								s, e := vreq.Arguments.window(len(b.Stack.Items))
+
+								for i := len(b.Stack.Items) - 1 - s; i > len(b.Stack.Items)-1-e; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
 									})
 								}
 							case 2:
-								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.window(len(l.vm.tvm.Scratch.Items))
 
 								for i := s; i < e; i++ {
 									v := l.vm.tvm.Scratch.Items[i]
@@ -622,16 +633,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.window(len(b.Trace))
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
-- 
2.43.0


From 22ab9002f069363f261aec6bf667f907b2069e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:45 +0000
Subject: [PATCH 38/58] fix: report the number of frames of a stack trace

---
 dbg/dbg.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 068fcbc..1e35d6d 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -738,12 +738,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
-				TotalFrames: one,
+				TotalFrames: &total,
 			}, nil)
 
 		default:
-- 
2.43.0


From f39267b34bf0ce8429b66d393391592a3a7783fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 39/58] fix: a breakpoint before the first line must not panic

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index b15d8d5..cdb1441 100644
--- a/vm.go
+++ b/vm.go
@@ -414,7 +414,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From d0bbc6a4e497828869c50beb0b8c7fd5b8a2fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 40/58] fix: do not require a debug file in tealdbg

---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From 2a566dcb02c829528f415d1b9cb192ee3a10f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:48 +0000
Subject: [PATCH 41/58] fix: point SARIF results at the artifact they belong to

---
 cmd/tealsarif/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..becd797 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -99,7 +99,7 @@ func run(a args) error {
 		paths = append(paths, a.Path)
 	}
 
-	for _, path := range paths {
+	for i, path := range paths {
 		s, err := os.ReadFile(path)
 		if err != nil {
 			return err
@@ -125,7 +125,7 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
-- 
2.43.0


From 7441a16ed0686a1bd0a24af63624c26700e6c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 42/58] fix: report label findings in source order

---
 linter.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/linter.go b/linter.go
index cc36f06..cc94ef1 100644
--- a/linter.go
+++ b/linter.go
@@ -291,11 +291,10 @@ func (r DuplicateLabelsRule) Desc() string {
 
 func (r DuplicateLabelsRule) Run(l *Linter) {
 	labels := l.getAllLabels()
-	for name, lines := range labels {
-		if len(lines) > 1 {
-			for _, line := range lines {
-				l.errs = append(l.errs, DuplicateLabelError{l: line, name: name, rule: r.Id()})
-			}
+	for line, o := range l.l {
+		lbl, ok := o.(*LabelExpr)
+		if ok && len(labels[lbl.Name]) > 1 {
+			l.errs = append(l.errs, DuplicateLabelError{l: line, name: lbl.Name, rule: r.Id()})
 		}
 	}
 }
@@ -313,12 +312,11 @@ func (r UnusedLabelsRule) Desc() string {
 
 func (r UnusedLabelsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
-	for name, lines := range l.getAllLabels() {
-		if len(used[name]) == 0 {
-			for _, line := range lines {
-				l.errs = append(l.errs, &UnusedLabelError{l: line, name: name, rule: r.Id()})
-				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})
-			}
+	for line, o := range l.l {
+		lbl, ok := o.(*LabelExpr)
+		if ok && len(used[lbl.Name]) == 0 {
+			l.errs = append(l.errs, &UnusedLabelError{l: line, name: lbl.Name, rule: r.Id()})
+			l.reds = append(l.reds, &RedundantLabelLine{line: line, name: lbl.Name})
 		}
 	}
 }
-- 
2.43.0


From f322f792ce4b28065835019d13d234530c037c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:08 +0000
Subject: [PATCH 43/58] fix: report missing labels in source order

---
 linter.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/linter.go b/linter.go
index cc94ef1..1665f6b 100644
--- a/linter.go
+++ b/linter.go
@@ -428,14 +428,17 @@ func (r CheckLoopsRule) Desc() string {
 }
 
 func (r CheckLoopsRule) Run(l *Linter) {
-	used := l.getLabelsUsers()
 	all := l.getAllLabels()
 
-	for name, users := range used {
-		_, ok := all[name]
+	for i, o := range l.l {
+		user, ok := o.(usesLabels)
 		if !ok {
-			for _, user := range users {
-				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
+			continue
+		}
+
+		for _, lbl := range user.Labels() {
+			if _, ok := all[lbl.Name]; !ok {
+				l.errs = append(l.errs, MissingLabelError{l: i, name: lbl.Name, rule: r.Id()})
 			}
 		}
 	}
-- 
2.43.0


From 0e096e07e94aa287d57fd4f889c28c6ef8630775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 44/58] fix: print a byte string so that it is read back

The base64 text of some byte strings starts with "//", which starts a comment when it is a word of its own.
---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index b8f5af9..56984dd 100644
--- a/expr.go
+++ b/expr.go
@@ -1310,7 +1310,7 @@ func (e Bytes) String() string {
 			return "\"\""
 		}
 
-		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
+		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
 	}
-- 
2.43.0


From 16772b3d6b0143a113740c286e3820ceaec6493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:01 +0000
Subject: [PATCH 45/58] fix: hints and code actions must cover ranges of
 several lines

In a range of several lines the columns of its ends limit only its first and last line.
---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 13 +++++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 0aa4c22..8fede1a 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1722,7 +1722,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1804,7 +1804,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index 6919d2a..6cafe93 100644
--- a/process.go
+++ b/process.go
@@ -2697,7 +2697,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..a4880a9 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,19 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Intersects reports whether the ranges share a position of the text
+func Intersects(a, b Range) bool {
+	return !endsBefore(a, b) && !endsBefore(b, a)
+}
+
+func endsBefore(a, b Range) bool {
+	if a.EndLine() != b.StartLine() {
+		return a.EndLine() < b.StartLine()
+	}
+
+	return a.EndCharacter() < b.StartCharacter()
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From 77f27ed70b6799b32bd317e1c80183c245a6f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:01 +0000
Subject: [PATCH 46/58] fix: hints for a range beyond the text must not panic
 or hang

---
 process.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/process.go b/process.go
index 6cafe93..5941d90 100644
--- a/process.go
+++ b/process.go
@@ -2682,11 +2682,12 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
-			continue
-		}
+	begin := rg.StartLine()
+	if begin < 0 {
+		begin = 0
+	}
 
+	for li := begin; li <= rg.EndLine() && li < len(r.Lines); li++ {
 		ln := r.Lines[li]
 
 		var ok bool
-- 
2.43.0


From 2f63737a59013783248148665ae84b3e05fec825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:01 +0000
Subject: [PATCH 47/58] fix: a negative position must not crash the language
 server

---
 lsp/lsp.go | 2 +-
 process.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 8fede1a..18a4eb5 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1400,7 +1400,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			var ln teal.Line
-			if len(res.Lines) > req.Params.Position.Line {
+			if req.Params.Position.Line >= 0 && req.Params.Position.Line < len(res.Lines) {
 				ln = res.Lines[req.Params.Position.Line]
 			}
 
diff --git a/process.go b/process.go
index 5941d90..4bcbd57 100644
--- a/process.go
+++ b/process.go
@@ -2869,7 +2869,7 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
@@ -2927,7 +2927,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
-- 
2.43.0


From c6a66a04f28efa5424c9873a80b0468e56f164a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:01 +0000
Subject: [PATCH 48/58] fix: formatting a very long line must not exit the
 language server

tealfmt calls log.Fatalf when a line does not fit the buffer of its scanner.
---
 lsp/lsp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 18a4eb5..648cafd 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1610,6 +1610,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
+			for _, ln := range strings.Split(doc.s, "\n") {
+				if len(ln) >= bufio.MaxScanTokenSize {
+					return errors.New("line too long to format")
+				}
+			}
+
 			formatted := tealfmt.Format(strings.NewReader(doc.s))
 
 			return l.success(h.Id, []lspTextEdit{
-- 
2.43.0


From 515cfbb62849da9282a5a6255c7d770527b43a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:01 +0000
Subject: [PATCH 49/58] fix: do not answer messages without an id

---
 lsp/lsp.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 648cafd..fce9faa 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -697,6 +697,11 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
+	if id == nil {
+		// notifications are not answered
+		return nil
+	}
+
 	return l.write(jsonRpcResponse{
 		JsonRpc: "2.0",
 		Id:      id,
@@ -740,10 +745,6 @@ func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParam
 		return err
 	}
 
-	if id == nil {
-		return nil
-	}
-
 	return l.success(id, struct{}{})
 }
 
-- 
2.43.0


From af2d36880869db9070960cc05d7d5596e48eb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:56 +0000
Subject: [PATCH 50/58] fix: hovering an elliptic curve group must show its
 documentation

---
 process.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/process.go b/process.go
index 4bcbd57..1b50238 100644
--- a/process.go
+++ b/process.go
@@ -3070,6 +3070,19 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 								}
 							}
 
+						case OpArgTypeEcGroupField:
+							spec, ok := ecGroupSpecByName[tok.String()]
+							if ok {
+								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+							}
+							v, err := readUint8(tok.String())
+							if err == nil {
+								spec, ok = ecGroupSpecByField(EcGroup(v))
+								if ok {
+									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+								}
+							}
+
 						case OpArgTypeEcdsaCurve:
 							spec, ok := ecdsaCurveSpecByName[tok.String()]
 							if ok {
-- 
2.43.0


From 3e3a66c92ead8be572fc1236de7a4ffa9d8cbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:56 +0000
Subject: [PATCH 51/58] fix: hovering a comment must not show an instruction

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index 1b50238..1928527 100644
--- a/process.go
+++ b/process.go
@@ -2938,6 +2938,10 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 			continue
 		}
 
+		if t.Type() == TokenComment {
+			break
+		}
+
 		if i == 0 {
 			info, ok := r.getOp(t.String())
 			if ok {
-- 
2.43.0


From 379cbc3c65c9c11b006ecd2ddc2ba7cd6086d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:56 +0000
Subject: [PATCH 52/58] fix: creating a label must not overwrite the text after
 the last line

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index fce9faa..30d3c9e 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1134,7 +1134,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 											},
 											End: lspPosition{
 												Line:      len(res.Lines),
-												Character: len(s),
+												Character: 0,
 											},
 										},
 										NewText: s,
-- 
2.43.0


From 00d47db08e0c056904b596fd23d00a13d1361ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 53/58] fix: offer a field name only where the program version
 knows it

---
 lsp/lsp.go |  4 ++++
 process.go | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 30d3c9e..65790a3 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1753,6 +1753,10 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			hs := res.InlayHints(req.Params.Range)
 
 			for _, named := range hs.Named {
+				if named.Version > res.Version {
+					continue
+				}
+
 				kind := "quickfix"
 				cas = append(cas, lspCodeAction{
 					Title: fmt.Sprintf("Replace with '%s'", named.Name),
diff --git a/process.go b/process.go
index 1928527..a3bd0ab 100644
--- a/process.go
+++ b/process.go
@@ -2639,6 +2639,9 @@ type opItemArgVal struct {
 type NamedInlayHint struct {
 	T    Token
 	Name string
+
+	// Version is the lowest version that knows the name
+	Version uint64
 }
 
 type DecodedInlayHint struct {
@@ -2730,9 +2733,17 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				var version uint64
+				for _, v := range OpArgVals[arg.Type] {
+					if v.Name == name {
+						version = v.Version
+					}
+				}
+
 				ihs.Named = append(ihs.Named, NamedInlayHint{
-					T:    tok,
-					Name: name,
+					T:       tok,
+					Name:    name,
+					Version: version,
 				})
 			}()
 
-- 
2.43.0


From 6b083333e8780bfe31e13b0dc3ceabb385fe3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:29 +0000
Subject: [PATCH 54/58] fix: formatting a text ending in an open literal kept a
 copy of its last line

---
 lsp/lsp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 65790a3..c36c35f 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1606,7 +1606,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
-			doc, res, err := l.prepare(req.Params.TextDocument.Uri)
+			doc, _, err := l.prepare(req.Params.TextDocument.Uri)
 			if err != nil {
 				return err
 			}
@@ -1627,7 +1627,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							Character: 0,
 						},
 						End: lspPosition{
-							Line:      len(res.Lines),
+							Line:      len(splitLines(doc.s)),
 							Character: 0,
 						},
 					},
-- 
2.43.0


From 3537e9bbbdac7d71ac4d8e355d24f65b2d17ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:28 +0000
Subject: [PATCH 55/58] fix: escape the text of a string literal when printing
 it

---
 expr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 56984dd..e808ba8 100644
--- a/expr.go
+++ b/expr.go
@@ -1301,10 +1301,12 @@ type Bytes struct {
 	Format BytesFormat
 }
 
+var stringLiteralEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r")
+
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return fmt.Sprintf("\"%s\"", stringLiteralEscaper.Replace(string(e.Value)))
 	case BytesBase64:
 		if len(e.Value) == 0 {
 			return "\"\""
-- 
2.43.0


From 94a6da0130d62695130658752ceb21edc71c90e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 56/58] fix: a program or listing inside a program compiles to
 its instructions

---
 compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler.go b/compiler.go
index 17b012e..8c149ac 100644
--- a/compiler.go
+++ b/compiler.go
@@ -258,6 +258,10 @@ func (c *compiler) compile(to []Op, exprs ...Expr) []Op {
 			for _, e := range e {
 				to = c.compile(to, e)
 			}
+		case Program:
+			to = append(to, e.Compile(c)...)
+		case Listing:
+			to = append(to, e...)
 		case complexExpr:
 			to = append(to, e.Compile(c)...)
 		default:
-- 
2.43.0


From 101b31f289424f9b7f40b73d1d4c434787b5be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:34 +0000
Subject: [PATCH 57/58] fix: compile nested expressions and functions

---
 expr.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/expr.go b/expr.go
index e808ba8..5577d72 100644
--- a/expr.go
+++ b/expr.go
@@ -1211,12 +1211,36 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	return c.compile(ops, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
 	Block *NestedExpr
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	ops := []Op{e.Label}
+
+	if e.Proto != nil {
+		ops = append(ops, e.Proto)
+	}
+
+	if e.Block != nil {
+		ops = c.compile(ops, e.Block)
+	}
+
+	return append(ops, RetSub)
+}
+
 func (e *FuncExpr) Call(args ...Expr) Expr {
 	var exprs []Expr
 
-- 
2.43.0


From d4a4c4ade689435a25d515de60a02ce46e22849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 58/58] fix: scan a directory given as a link to it

---
 cmd/tealsarif/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index becd797..e968a31 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -84,7 +84,8 @@ func run(a args) error {
 	}
 
 	if fi.IsDir() {
-		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+		// the separator makes the walk enter a link to a directory
+		err := filepath.WalkDir(a.Path+string(filepath.Separator), func(path string, d fs.DirEntry, err error) error {
 			if !d.IsDir() {
 				if filepath.Ext(path) == ".teal" {
 					paths = append(paths, path)
-- 
2.43.0

