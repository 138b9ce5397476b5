From d26f644e95ac53ccdc06085a17354c0b00684838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:19 +0000
Subject: [PATCH 01/59] fix: print replace2 with its own mnemonic

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 5c90871..d59d45b 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
-- 
2.43.0


From d299f06d1cbe0b9885cf1aecf208a36ba6bbb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:37 +0000
Subject: [PATCH 02/59] fix: print pushints with its own mnemonic

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index d59d45b..e763702 100644
--- a/expr.go
+++ b/expr.go
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
-- 
2.43.0


From 4213558cad2d22f208ac9333135dfbd5db68c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 03/59] fix: pushints pushes integers, not byte strings

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e763702..503ea3d 100644
--- a/expr.go
+++ b/expr.go
@@ -2207,7 +2207,7 @@ type PushIntsExpr struct {
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
 	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+		b.push(VmValue{T: VmTypeUint64})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From 10b08696f94fd5b8a9b10ca6709d6e5ba80d062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 04/59] fix: print gtxnas operands in source order

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 503ea3d..fac9375 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From 390a0de6f0fcabfa1a7f5c29480e207690bcc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:46 +0000
Subject: [PATCH 05/59] fix: keep the method signature without its surrounding
 quotes

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index ca3174a..0631e99 100644
--- a/process.go
+++ b/process.go
@@ -981,14 +981,14 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e <= b || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return value[b+1 : e]
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 58db62d172e5d1896b9c758f47a98ec82dd48059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:49 +0000
Subject: [PATCH 06/59] fix: print byte constants in the parenthesised base64
 form, which survives empty values and a leading //

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index fac9375..b4635a9 100644
--- a/expr.go
+++ b/expr.go
@@ -1306,7 +1306,7 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return fmt.Sprintf("\"%s\"", string(e.Value))
 	case BytesBase64:
-		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
+		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
 	}
-- 
2.43.0


From ef06e01a58eb18f58fe49082a7228a44b49663d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:09 +0000
Subject: [PATCH 07/59] fix: close the optional-argument bracket in full opcode
 signatures

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index 0631e99..5684daf 100644
--- a/process.go
+++ b/process.go
@@ -1487,6 +1487,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From 71ced907b67a196dd9bee9f73836e2ef1437ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:11 +0000
Subject: [PATCH 08/59] fix: reject gitxna group indices that do not fit in a
 byte instead of truncating them

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 5684daf..56a37ec 100644
--- a/process.go
+++ b/process.go
@@ -2401,11 +2401,11 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-	c.emit(&GitxnaExpr{Group: uint8(t), Field: f, Index: uint8(i)})
+	c.emit(&GitxnaExpr{Group: t, Field: f, Index: i})
 
 }
 func opBoxCreate(c ProcessContext) {
-- 
2.43.0


From 3927a9fc2ba7d360167a897cc44afffd64a2d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:14 +0000
Subject: [PATCH 09/59] fix: args is a logic-signature opcode, not an
 application one

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 56a37ec..b98f5f3 100644
--- a/process.go
+++ b/process.go
@@ -2460,8 +2460,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From f809e9fd1cc80e45e86b2f42e88d4eed7304524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 10/59] fix: check the version of array transaction fields too

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From f3d08008dbed5c1d4174812f2871a765e67721e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 11/59] fix: record each number of an integer block once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index b98f5f3..42e91a1 100644
--- a/process.go
+++ b/process.go
@@ -1131,7 +1131,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From 8014eb0d2f5d46ebd68624713e35a053d5ac127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:22 +0000
Subject: [PATCH 12/59] fix: keep one listing entry per line when a line has
 too many values

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 42e91a1..7c14097 100644
--- a/process.go
+++ b/process.go
@@ -3182,7 +3182,9 @@ func Process(source string) *ProcessResult {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) == len(lts) {
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 5214d004126fceb66b7588c70b1ae248128fa65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 13/59] fix: keep the whole pragma version instead of its low
 byte

---
 expr.go    | 2 +-
 process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index b4635a9..80af206 100644
--- a/expr.go
+++ b/expr.go
@@ -1446,7 +1446,7 @@ func (e *BoxExtractExpr) Execute(b *VmBranch) error {
 }
 
 type PragmaExpr struct {
-	Version uint8
+	Version uint64
 }
 
 func (e *PragmaExpr) IsNop() {}
diff --git a/process.go b/process.go
index 7c14097..16a1565 100644
--- a/process.go
+++ b/process.go
@@ -1571,7 +1571,7 @@ var typeTxField = []interface{}{}
 
 func opPragma(c ProcessContext) {
 	version := c.mustReadPragma("version")
-	c.emit(&PragmaExpr{Version: uint8(version)})
+	c.emit(&PragmaExpr{Version: version})
 }
 
 func opAddr(c ProcessContext) {
-- 
2.43.0


From a63262301632016daffcd3f2b1a2b6e8fae70cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:47 +0000
Subject: [PATCH 14/59] fix: a string literal may end in an escaped backslash

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..4ba0118 100644
--- a/lexer.go
+++ b/lexer.go
@@ -187,7 +187,11 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			if p == '\\' && c == '\\' {
+				p = 0 // an escaped backslash does not escape what follows it
+			} else {
+				p = c
+			}
 		}
 	} else {
 		for {
-- 
2.43.0


From 65a8098adb243ac48b574579f440d2a3c2290101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:50 +0000
Subject: [PATCH 15/59] fix: an unterminated string literal ends with its line
 instead of swallowing the next ones

---
 lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lexer.go b/lexer.go
index 4ba0118..c1ebe00 100644
--- a/lexer.go
+++ b/lexer.go
@@ -166,6 +166,12 @@ func (z *Lexer) readValue() {
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From eab4e2033f7c03fdf3fecb547c3cccc98594be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 16/59] fix: reject numeric field immediates that denote no
 field

---
 parser.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/parser.go b/parser.go
index 26363d7..ac82f52 100644
--- a/parser.go
+++ b/parser.go
@@ -108,6 +108,10 @@ func readAssetHoldingField(v uint64, s string) (AssetHoldingField, bool, error)
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := assetHoldingFieldSpecByField(AssetHoldingField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return AssetHoldingField(value), false, nil
 }
 
@@ -127,6 +131,10 @@ func readVrfVerifyField(v uint64, s string) (VrfStandard, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := vrfStandardSpecByField(VrfStandard(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return VrfStandard(value), false, nil
 }
 
@@ -146,6 +154,10 @@ func readBlockField(v uint64, s string) (BlockField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := blockFieldSpecByField(BlockField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return BlockField(value), false, nil
 }
 
@@ -165,6 +177,10 @@ func readAcctParams(v uint64, s string) (AcctParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := acctParamsFieldSpecByField(AcctParamsField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return AcctParamsField(value), false, nil
 }
 
@@ -184,6 +200,10 @@ func readAppParamsField(v uint64, s string) (AppParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := appParamsFieldSpecByField(AppParamsField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return AppParamsField(value), false, nil
 }
 
@@ -203,6 +223,10 @@ func readAssetParamsField(v uint64, s string) (AssetParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := assetParamsFieldSpecByField(AssetParamsField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return AssetParamsField(value), false, nil
 }
 
@@ -221,6 +245,10 @@ func readGlobalField(v uint64, s string) (GlobalField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := globalFieldSpecByField(GlobalField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return GlobalField(value), false, nil
 }
 
@@ -240,6 +268,10 @@ func readEcGroupField(v uint64, s string) (EcGroup, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := ecGroupSpecByField(EcGroup(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return EcGroup(value), false, nil
 }
 
@@ -259,6 +291,10 @@ func readBase64EncodingField(v uint64, s string) (Base64Encoding, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := base64EncodingSpecByField(Base64Encoding(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return Base64Encoding(value), false, nil
 }
 
@@ -278,6 +314,10 @@ func readJsonRefField(v uint64, s string) (JSONRefType, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := jsonRefSpecByField(JSONRefType(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return JSONRefType(value), false, nil
 }
 
@@ -314,6 +354,10 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := txnFieldSpecByField(TxnField(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return TxnField(value), false, nil
 }
 
@@ -361,6 +405,10 @@ func readEcdsaCurveIndex(v uint64, s string) (EcdsaCurve, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
+	if _, ok := ecdsaCurveSpecByField(EcdsaCurve(value)); !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
 	return EcdsaCurve(value), false, nil
 }
 
-- 
2.43.0


From 244d8e60e7c614cdb6da5e385471c979fe42482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:38 +0000
Subject: [PATCH 17/59] fix: reject an index on transaction fields that are not
 arrays

---
 process.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/process.go b/process.go
index 16a1565..bbae944 100644
--- a/process.go
+++ b/process.go
@@ -543,6 +543,7 @@ type ProcessContext interface {
 	mustReadBytes(name string) []byte
 	mustReadVrfVerifyField(name string) VrfStandard
 	mustReadBlockField(name string) BlockField
+	mustBeArrayField(f TxnField)
 }
 
 type docContext struct {
@@ -696,6 +697,9 @@ func (c *docContext) mustReadEcdsaCurveIndex(name string) (v EcdsaCurve) {
 
 	return
 }
+func (c *docContext) mustBeArrayField(f TxnField) {
+}
+
 func (c *docContext) readUint64Array(name string) (v []uint64) {
 	c.arg(opItemArg{
 		Name:  name,
@@ -1413,6 +1417,14 @@ func (c *parserContext) mustReadTxnaField(name string) TxnField {
 	return c.parseTxnField(txnaFieldContext, name)
 }
 
+// mustBeArrayField rejects an index given to a field that has none
+func (c *parserContext) mustBeArrayField(f TxnField) {
+	spec, ok := txnFieldSpecByField(f)
+	if !ok || !spec.array {
+		c.failPrev(errors.New("not available in array context"))
+	}
+}
+
 func (c *parserContext) mustReadEcGroup(name string) EcGroup {
 	c.mustReadArg(name)
 	return c.parseEcGroup(name)
@@ -1786,6 +1798,7 @@ func opTxn(c ProcessContext) {
 
 	i, ok := c.maybeReadUint8("i")
 	if ok {
+		c.mustBeArrayField(f)
 		c.emit(&TxnaExpr{Field: f, Index: i})
 	} else {
 		c.emit(&TxnExpr{Field: f})
@@ -1802,6 +1815,7 @@ func opGtxn(c ProcessContext) {
 	f := c.mustReadTxnField("f")
 	i, ok := c.maybeReadUint8("i")
 	if ok {
+		c.mustBeArrayField(f)
 		c.emit(&GtxnaExpr{Group: uint8(t), Field: f, Index: i})
 	} else {
 		c.emit(&GtxnExpr{Group: uint8(t), Field: f})
@@ -1842,6 +1856,7 @@ func opGtxns(c ProcessContext) {
 	i, ok := c.maybeReadUint8("i")
 
 	if ok {
+		c.mustBeArrayField(f)
 		c.emit(&GtxnsaExpr{Field: f, Index: i})
 	} else {
 		c.emit(&GtxnsExpr{Field: f})
-- 
2.43.0


From f95a865898ad5fb8d7e3e2af8ce32a268e59bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:33 +0000
Subject: [PATCH 18/59] fix: give addr, b-, b|, extract_uint64 and itxna their
 stack effect in the debugger

---
 expr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/expr.go b/expr.go
index 80af206..e5e3168 100644
--- a/expr.go
+++ b/expr.go
@@ -1936,6 +1936,14 @@ func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
 	return nil
 }
 
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Extract64Bits = &Extract64BitsExpr{}
 
 type Replace2Expr struct {
@@ -2098,6 +2106,18 @@ type ItxnaExpr struct {
 	Index uint8
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
@@ -2242,6 +2262,12 @@ type AddrExpr struct {
 	Address string
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
@@ -3211,6 +3237,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3529,6 +3563,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From 6efecc1896470bf13eb5778616f72fc461fe1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:36 +0000
Subject: [PATCH 19/59] fix: bitlen, getbit, setbit and app_opted_in accept a
 value of any type

---
 expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index e5e3168..5c6c3c2 100644
--- a/expr.go
+++ b/expr.go
@@ -2070,7 +2070,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -3164,7 +3164,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3181,7 +3181,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
@@ -3734,7 +3734,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From f5fa9ba30599f4027f408daf3d6d48a6b4c8ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:39 +0000
Subject: [PATCH 20/59] fix: dup2 keeps the order of the duplicated values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 5c6c3c2..0b2bbe5 100644
--- a/expr.go
+++ b/expr.go
@@ -3384,10 +3384,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From a479b428e61e77b504dfa98c1a4d9456775c89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 21/59] fix: bury counts from the top of the stack, and stack
 positions are not reduced to a byte

---
 expr.go | 8 ++++----
 vm.go   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index 0b2bbe5..bb11e75 100644
--- a/expr.go
+++ b/expr.go
@@ -1848,7 +1848,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2486,7 +2486,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2503,7 +2503,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3217,7 +3217,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.Stack.Items[len(b.Stack.Items)-1-int(e.Index)]
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index e01389e..677ce31 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -280,7 +280,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From b45af8e32191e62a6d60ef6438fad0f2948eaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:59 +0000
Subject: [PATCH 22/59] fix: a forked branch keeps the subroutine frames it was
 forked in

---
 vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm.go b/vm.go
index 677ce31..fe0d0ee 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
@@ -468,6 +469,7 @@ func (v *Vm) Step() {
 					vm:     b.vm,
 					Line:   b.Line,
 					Stack:  b.Stack.clone(),
+					Frames: append([]VmFrame{}, b.Frames...),
 					Budget: b.Budget,
 					Name:   b.Name,
 					Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From 9c4788eadb139797117d72e00e3804dec42b55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 23/59] fix: every execution branch has its own scratch space

---
 dbg/dbg.go |  4 ++--
 expr.go    |  2 +-
 vm.go      | 40 +++++++++++++++++++++-------------------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..1e30967 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -593,7 +593,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 							case 2:
 								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
+								e := len(b.Scratch.Items)
 
 								if vreq.Arguments.Start != nil {
 									s = *vreq.Arguments.Start
@@ -604,7 +604,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index bb11e75..7f837df 100644
--- a/expr.go
+++ b/expr.go
@@ -1084,7 +1084,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index fe0d0ee..a8c67d6 100644
--- a/vm.go
+++ b/vm.go
@@ -206,7 +206,7 @@ func (b *VmBranch) replace(n int, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -250,6 +250,8 @@ type VmBranch struct {
 
 	Stack *vmStack
 
+	Scratch VmScratch
+
 	Frames []VmFrame
 
 	Budget int
@@ -260,14 +262,15 @@ type VmBranch struct {
 
 func (b *VmBranch) fork(target string) {
 	nb := &VmBranch{
-		Id:     b.vm.Id,
-		vm:     b.vm,
-		Line:   b.vm.find(target),
-		Stack:  b.Stack.clone(),
-		Frames: append([]VmFrame{}, b.Frames...),
-		Budget: b.Budget,
-		Name:   target,
-		Trace:  append([]Op{}, b.Trace...),
+		Id:      b.vm.Id,
+		vm:      b.vm,
+		Line:    b.vm.find(target),
+		Stack:   b.Stack.clone(),
+		Scratch: b.Scratch,
+		Frames:  append([]VmFrame{}, b.Frames...),
+		Budget:  b.Budget,
+		Name:    target,
+		Trace:   append([]Op{}, b.Trace...),
 	}
 
 	b.vm.Id++
@@ -304,8 +307,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
@@ -465,14 +466,15 @@ func (v *Vm) Step() {
 		for _, cost := range costs {
 			if cb == nil {
 				cb := &VmBranch{
-					Id:     b.vm.Id,
-					vm:     b.vm,
-					Line:   b.Line,
-					Stack:  b.Stack.clone(),
-					Frames: append([]VmFrame{}, b.Frames...),
-					Budget: b.Budget,
-					Name:   b.Name,
-					Trace:  append([]Op{}, b.Trace...),
+					Id:      b.vm.Id,
+					vm:      b.vm,
+					Line:    b.Line,
+					Stack:   b.Stack.clone(),
+					Scratch: b.Scratch,
+					Frames:  append([]VmFrame{}, b.Frames...),
+					Budget:  b.Budget,
+					Name:    b.Name,
+					Trace:   append([]Op{}, b.Trace...),
 				}
 
 				b.vm.Id++
-- 
2.43.0


From d700935264cc393f6f4b45735bd2b759b9e60126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 24/59] fix: retsub drops the locals of a subroutine with a
 prototype and fails outside of subroutines

---
 expr.go | 6 +++---
 vm.go   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 7f837df..b0c44cd 100644
--- a/expr.go
+++ b/expr.go
@@ -1653,8 +1653,8 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 			rs = append(rs, b.pop(VmTypeAny))
 		}
 
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
+		if f.proto {
+			b.Stack.Items = b.Stack.Items[:f.p-int(f.NumArgs)]
 		}
 
 		for i := len(rs) - 1; i >= 0; i-- {
@@ -1666,7 +1666,7 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 
 		b.Frames = b.Frames[:len(b.Frames)-1]
 	} else {
-		b.Line++
+		panic("retsub with empty callstack")
 	}
 
 	return nil
diff --git a/vm.go b/vm.go
index a8c67d6..019403f 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	proto      bool
 	Name       string
 }
 
@@ -196,6 +197,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
 	f.NumArgs = a
 	f.NumReturns = r
+	f.proto = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-- 
2.43.0


From e0b71032f15e6d9119ea02dd0e1008378a3cd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:09 +0000
Subject: [PATCH 25/59] fix: json_ref costs 2 per started 7 bytes of the json
 object

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index b0c44cd..a4293c5 100644
--- a/expr.go
+++ b/expr.go
@@ -2015,11 +2015,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1)
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From c88f804fcba1fd9d079e6a91cba3a5dca20ae2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:59 +0000
Subject: [PATCH 26/59] fix: retsub and proto fail when the frame's values are
 missing

---
 expr.go | 4 ++++
 vm.go   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/expr.go b/expr.go
index a4293c5..65131d5 100644
--- a/expr.go
+++ b/expr.go
@@ -1647,6 +1647,10 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
+		if f.proto && len(b.Stack.Items) < f.p+int(f.NumReturns) {
+			panic("retsub with fewer values than the subroutine returns")
+		}
+
 		rs := []VmValue{}
 
 		for i := uint8(0); i < f.NumReturns; i++ {
diff --git a/vm.go b/vm.go
index 019403f..0a8a493 100644
--- a/vm.go
+++ b/vm.go
@@ -195,6 +195,9 @@ func (b *VmBranch) push(t VmValue) {
 
 func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
+	if f.p < int(a) {
+		panic("proto with fewer values on the stack than arguments")
+	}
 	f.NumArgs = a
 	f.NumReturns = r
 	f.proto = true
-- 
2.43.0


From 139d064f0773867b75943351e1f7461338dced50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:02 +0000
Subject: [PATCH 27/59] fix: frame_dig and frame_bury cannot reach below a
 subroutine's arguments

---
 expr.go | 4 ++--
 vm.go   | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 65131d5..292018e 100644
--- a/expr.go
+++ b/expr.go
@@ -2490,7 +2490,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(f.p+int(e.Index), v)
+	b.replace(f.index(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2507,7 +2507,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[f.p+int(e.Index)]
+	v := b.Stack.Items[f.index(e.Index)]
 	b.push(v)
 
 	b.Line++
diff --git a/vm.go b/vm.go
index 0a8a493..b2d8de7 100644
--- a/vm.go
+++ b/vm.go
@@ -23,6 +23,13 @@ type VmFrame struct {
 	Name       string
 }
 
+func (f VmFrame) index(i int8) int {
+	if f.proto && -int(i) > int(f.NumArgs) {
+		panic("frame index below the subroutine's arguments")
+	}
+	return f.p + int(i)
+}
+
 type vmSource interface {
 	String() string
 }
-- 
2.43.0


From b968a1e0fc9859f0109d6245243816599eda4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:16 +0000
Subject: [PATCH 28/59] fix: breakpoints at negative lines are ignored instead
 of crashing

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index b2d8de7..0eeece3 100644
--- a/vm.go
+++ b/vm.go
@@ -425,7 +425,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From bf350383b2bff73c1b31c3883cdda0e79f2b9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:45 +0000
Subject: [PATCH 29/59] fix: report extra values after a pragma

---
 process.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/process.go b/process.go
index bbae944..7a2b95e 100644
--- a/process.go
+++ b/process.go
@@ -3249,6 +3249,9 @@ func Process(source string) *ProcessResult {
 				c.emit(Empty)
 			case "#pragma":
 				opPragma(c)
+				if c.args.Scan() {
+					c.failCurr(errors.Errorf("too many values"))
+				}
 			default:
 				info, ok := Ops.Get(OpContext{
 					Name:    name,
-- 
2.43.0


From 876dc2bbfb88fb5c2ccb3d49572ef253230af29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 30/59] fix: report unreachable code after retsub

---
 linter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linter.go b/linter.go
index cc36f06..79eccc0 100644
--- a/linter.go
+++ b/linter.go
@@ -347,6 +347,8 @@ func (r OpsAfterUnconditionalBranchRule) Run(l *Linter) {
 			unused = true
 		case *ErrExpr:
 			unused = true
+		case *RetSubExpr:
+			unused = true
 		}
 
 		if unused {
-- 
2.43.0


From 3b56fd8be6a0601f52799506499446b815b5476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:13 +0000
Subject: [PATCH 31/59] fix: answer LSP requests that fail and survive panics
 while handling a message

---
 lsp/lsp.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..fd5dd25 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2115,6 +2115,24 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 	return nil
 }
 
+// dispatch handles a message and answers a request that could not be handled with an error
+func (l *lsp) dispatch(h jsonRpcHeader, b []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("panic: %v", r)
+		}
+
+		if err != nil && h.Id != nil && h.Method != "" {
+			l.fail(h.Id, lspError{
+				Code:    -32603,
+				Message: err.Error(),
+			})
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *lsp) write(v interface{}) error {
 	rb, err := json.Marshal(v)
 	if err != nil {
@@ -2194,7 +2212,7 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.dispatch(jh, data)
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From 5b27d1fee5feb0a25689dc327701e94372af092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:17 +0000
Subject: [PATCH 32/59] fix: answer workspace/executeCommand requests that
 succeed

---
 lsp/lsp.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index fd5dd25..a142980 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -733,6 +733,16 @@ func (l *lsp) request(method string, params interface{}) error {
 	})
 }
 
+// applyEdit asks the client to apply an edit and completes the command that led to it
+func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParams) error {
+	err := l.request("workspace/applyEdit", params)
+	if err != nil {
+		return err
+	}
+
+	return l.success(id, struct{}{})
+}
+
 func (l *lsp) notify(method string, params interface{}) error {
 	return l.write(lspNotification{
 		JsonRpc: "2.0",
@@ -928,7 +938,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Update version",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -965,7 +975,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					},
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Replace with named value",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1012,7 +1022,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					NewText: "",
 				})
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Remove line",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1062,7 +1072,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					})
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Remove label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1096,7 +1106,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
-- 
2.43.0


From 1f02f07f0638a201ea5c1403ffd3abac7c61b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 33/59] fix: reject a negative content length instead of
 crashing

---
 dbg/dbg.go | 4 ++++
 lsp/lsp.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1e30967..68a5c0b 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -804,6 +804,10 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.New("negative content length")
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
diff --git a/lsp/lsp.go b/lsp/lsp.go
index a142980..ff36cfc 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2208,6 +2208,10 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.New("negative content length")
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
-- 
2.43.0


From e8534befeb568299665b3cd26c6e0a6eb20c25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:52 +0000
Subject: [PATCH 34/59] fix: answer DAP requests that fail and survive panics
 while handling a message

---
 dbg/dbg.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 68a5c0b..12995d5 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -734,11 +734,29 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				StackFrames: sf,
 				TotalFrames: one,
 			}, nil)
+		default:
+			return errors.Errorf("unknown command: %s", req.Command)
 		}
 	}
 	return nil
 }
 
+// dispatch handles a message and answers a request that could not be handled with an error
+func (l *dbg) dispatch(h dapHeader, b []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("panic: %v", r)
+		}
+
+		if err != nil && h.Type == "request" {
+			req, _ := read[dapRequestHeader](b)
+			l.reply(h.Seq, req.Command, err.Error(), nil, err)
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *dbg) write(v interface{}) error {
 	rb, err := json.Marshal(v)
 	if err != nil {
@@ -822,7 +840,7 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.dispatch(jh, data)
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From e0c04cdc4df52dcc4d27fba0dd0d53b16519fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:55 +0000
Subject: [PATCH 35/59] fix: pause and next before a program is launched

---
 dbg/dbg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 12995d5..223bd12 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -464,7 +464,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			}
 
 			var tid *int
-			if l.vm.tvm.Branch != nil {
+			if l.vm != nil && l.vm.tvm.Branch != nil {
 				tid = new(int)
 				*tid = l.vm.tvm.Branch.Id
 			}
@@ -551,7 +551,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			}
 
 			var tid *int
-			if l.vm.tvm.Branch != nil {
+			if l.vm != nil && l.vm.tvm.Branch != nil {
 				tid = new(int)
 				*tid = l.vm.tvm.Branch.Id
 			}
-- 
2.43.0


From 761c80574cd6f1412398531d422f39cb95a74001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 36/59] fix: limit the requested range of variables to the
 existing ones

---
 dbg/dbg.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 223bd12..969d9f3 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -292,6 +292,19 @@ func read[T any](b []byte) (T, error) {
 	return v, nil
 }
 
+// clamp limits a requested range to the available items
+func clamp(s int, e int, n int) (int, int) {
+	if s < 0 {
+		s = 0
+	}
+
+	if e > n {
+		e = n
+	}
+
+	return s, e
+}
+
 func (l *dbg) notify(event string, params interface{}) error {
 	l.id++
 	return l.write(dapEvent{
@@ -603,6 +616,8 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									e = s + *vreq.Arguments.Count
 								}
 
+								s, e = clamp(s, e, len(b.Scratch.Items))
+
 								for i := s; i < e; i++ {
 									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
@@ -624,6 +639,8 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									e = s + *vreq.Arguments.Count
 								}
 
+								s, e = clamp(s, e, len(b.Trace))
+
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
 									vs = append(vs, dapVariable{
-- 
2.43.0


From ea4e29ebdd13a1110e0b5bf80809d8dd80292195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:02 +0000
Subject: [PATCH 37/59] fix: report the actual number of stack frames

---
 dbg/dbg.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 969d9f3..25f0d02 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -744,12 +744,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
-				TotalFrames: one,
+				TotalFrames: &total,
 			}, nil)
 		default:
 			return errors.Errorf("unknown command: %s", req.Command)
-- 
2.43.0


From 13c2558bd351ef460631ce86ec0b6189424167ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 38/59] fix: inlay hints only visit the lines of the document

---
 process.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/process.go b/process.go
index 7a2b95e..280d594 100644
--- a/process.go
+++ b/process.go
@@ -2698,11 +2698,12 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
-			continue
-		}
+	li := rg.StartLine()
+	if li < 0 {
+		li = 0
+	}
 
+	for ; li <= rg.EndLine() && li < len(r.Lines); li++ {
 		ln := r.Lines[li]
 
 		var ok bool
-- 
2.43.0


From ed131a99c8a10e078d9871fdd8325a3b51e1b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:06 +0000
Subject: [PATCH 39/59] fix: lookups on empty lines and at negative lines

---
 lsp/lsp.go | 2 +-
 process.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index ff36cfc..739a1b9 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1390,7 +1390,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			var ln teal.Line
-			if len(res.Lines) > req.Params.Position.Line {
+			if req.Params.Position.Line >= 0 && len(res.Lines) > req.Params.Position.Line {
 				ln = res.Lines[req.Params.Position.Line]
 			}
 
diff --git a/process.go b/process.go
index 280d594..a076eb5 100644
--- a/process.go
+++ b/process.go
@@ -2867,11 +2867,14 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
 	ln := r.Lines[l]
+	if len(ln) == 0 {
+		return res, -1, false
+	}
 
 	curr := len(ln) - 1
 
@@ -2921,7 +2924,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
-- 
2.43.0


From 208c5644a01c306df35252d8c1392e232c95ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:46 +0000
Subject: [PATCH 40/59] fix: negative numbers denote no field

---
 go_algorand.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/go_algorand.go b/go_algorand.go
index 9a99996..ce1f0da 100644
--- a/go_algorand.go
+++ b/go_algorand.go
@@ -631,7 +631,7 @@ const (
 )
 
 func txnFieldSpecByField(f TxnField) (txnFieldSpec, bool) {
-	if int(f) >= len(txnFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(txnFieldSpecs) {
 		return txnFieldSpec{}, false
 	}
 	return txnFieldSpecs[f], true
@@ -1005,7 +1005,7 @@ var globalFieldSpecs = [...]globalFieldSpec{
 }
 
 func globalFieldSpecByField(f GlobalField) (globalFieldSpec, bool) {
-	if int(f) >= len(globalFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(globalFieldSpecs) {
 		return globalFieldSpec{}, false
 	}
 	return globalFieldSpecs[f], true
@@ -1068,7 +1068,7 @@ var ecdsaCurveSpecs = [...]ecdsaCurveSpec{
 }
 
 func ecdsaCurveSpecByField(c EcdsaCurve) (ecdsaCurveSpec, bool) {
-	if int(c) >= len(ecdsaCurveSpecs) {
+	if int(c) < 0 || int(c) >= len(ecdsaCurveSpecs) {
 		return ecdsaCurveSpec{}, false
 	}
 	return ecdsaCurveSpecs[c], true
@@ -1114,7 +1114,7 @@ var base64EncodingSpecs = [...]base64EncodingSpec{
 }
 
 func base64EncodingSpecByField(e Base64Encoding) (base64EncodingSpec, bool) {
-	if int(e) >= len(base64EncodingSpecs) {
+	if int(e) < 0 || int(e) >= len(base64EncodingSpecs) {
 		return base64EncodingSpec{}, false
 	}
 	return base64EncodingSpecs[e], true
@@ -1181,7 +1181,7 @@ var jsonRefSpecs = [...]jsonRefSpec{
 }
 
 func jsonRefSpecByField(r JSONRefType) (jsonRefSpec, bool) {
-	if int(r) >= len(jsonRefSpecs) {
+	if int(r) < 0 || int(r) >= len(jsonRefSpecs) {
 		return jsonRefSpec{}, false
 	}
 	return jsonRefSpecs[r], true
@@ -1241,7 +1241,7 @@ var vrfStandardSpecs = [...]vrfStandardSpec{
 }
 
 func vrfStandardSpecByField(r VrfStandard) (vrfStandardSpec, bool) {
-	if int(r) >= len(vrfStandardSpecs) {
+	if int(r) < 0 || int(r) >= len(vrfStandardSpecs) {
 		return vrfStandardSpec{}, false
 	}
 	return vrfStandardSpecs[r], true
@@ -1313,7 +1313,7 @@ var blockFieldSpecs = [...]blockFieldSpec{
 }
 
 func blockFieldSpecByField(r BlockField) (blockFieldSpec, bool) {
-	if int(r) >= len(blockFieldSpecs) {
+	if int(r) < 0 || int(r) >= len(blockFieldSpecs) {
 		return blockFieldSpec{}, false
 	}
 	return blockFieldSpecs[r], true
@@ -1401,7 +1401,7 @@ var assetHoldingFieldSpecs = [...]assetHoldingFieldSpec{
 }
 
 func assetHoldingFieldSpecByField(f AssetHoldingField) (assetHoldingFieldSpec, bool) {
-	if int(f) >= len(assetHoldingFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetHoldingFieldSpecs) {
 		return assetHoldingFieldSpec{}, false
 	}
 	return assetHoldingFieldSpecs[f], true
@@ -1497,7 +1497,7 @@ var assetParamsFieldSpecs = [...]assetParamsFieldSpec{
 }
 
 func assetParamsFieldSpecByField(f AssetParamsField) (assetParamsFieldSpec, bool) {
-	if int(f) >= len(assetParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetParamsFieldSpecs) {
 		return assetParamsFieldSpec{}, false
 	}
 	return assetParamsFieldSpecs[f], true
@@ -1585,7 +1585,7 @@ var appParamsFieldSpecs = [...]appParamsFieldSpec{
 }
 
 func appParamsFieldSpecByField(f AppParamsField) (appParamsFieldSpec, bool) {
-	if int(f) >= len(appParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(appParamsFieldSpecs) {
 		return appParamsFieldSpec{}, false
 	}
 	return appParamsFieldSpecs[f], true
@@ -1687,7 +1687,7 @@ var acctParamsFieldSpecs = [...]acctParamsFieldSpec{
 }
 
 func acctParamsFieldSpecByField(f AcctParamsField) (acctParamsFieldSpec, bool) {
-	if int(f) >= len(acctParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(acctParamsFieldSpecs) {
 		return acctParamsFieldSpec{}, false
 	}
 	return acctParamsFieldSpecs[f], true
@@ -2176,7 +2176,7 @@ var ecGroupSpecs = [...]ecGroupSpec{
 }
 
 func ecGroupSpecByField(c EcGroup) (ecGroupSpec, bool) {
-	if int(c) >= len(ecGroupSpecs) {
+	if int(c) < 0 || int(c) >= len(ecGroupSpecs) {
 		return ecGroupSpec{}, false
 	}
 	return ecGroupSpecs[c], true
-- 
2.43.0


From 87fce21a3f4a0b8717279ec26b96ed4a063f0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:08 +0000
Subject: [PATCH 41/59] fix: document elliptic curve groups like all other
 fields

---
 process.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/process.go b/process.go
index a076eb5..eb30d6a 100644
--- a/process.go
+++ b/process.go
@@ -3080,6 +3080,19 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 								}
 							}
 
+						case OpArgTypeEcGroupField:
+							spec, ok := ecGroupSpecByName[tok.String()]
+							if ok {
+								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+							}
+							v, err := strconv.Atoi(tok.String())
+							if err == nil {
+								spec, ok = ecGroupSpecByField(EcGroup(v))
+								if ok {
+									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+								}
+							}
+
 						case OpArgTypeGlobalField:
 							spec, ok := globalFieldSpecByName[tok.String()]
 							if ok {
-- 
2.43.0


From fa9e104658de94819f0cb83938c0dd72ed4e0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 42/59] fix: hover replies do not claim an empty range at the
 start of the document

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 739a1b9..c29f7c9 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -614,7 +614,7 @@ type lspMarkupContent struct {
 
 type lspHover struct {
 	Contents lspMarkupContent `json:"contents"`
-	Range    lspRange         `json:"range,omitempty"`
+	Range    *lspRange        `json:"range,omitempty"`
 }
 
 type lspHoverRequestParams struct {
-- 
2.43.0


From 54827e8f10e0ccf0ef8485b36cf57d01d061a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:11 +0000
Subject: [PATCH 43/59] fix: debug adapter answered next and continue without
 arguments twice

---
 dbg/dbg.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 25f0d02..8435cfd 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -492,6 +492,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			if err != nil {
 				return err
 			}
+
+			if creq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", dapContinueResponse{
 				AllThreadsContinued: yes,
 			}, nil)
@@ -545,6 +550,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if nreq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
-- 
2.43.0


From b288a26f03e2d8e9f6d937958aa20b5928d8e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:50 +0000
Subject: [PATCH 44/59] fix: hints and code actions were lost for ranges that
 span lines

---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 10 ++++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c29f7c9..1264e6d 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1707,7 +1707,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1789,7 +1789,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index eb30d6a..91ad809 100644
--- a/process.go
+++ b/process.go
@@ -2714,7 +2714,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..ad940ef 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,16 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Intersects tells whether two ranges, which may span lines, have a position in common
+func Intersects(a, b Range) bool {
+	before := func(l1, c1, l2, c2 int) bool {
+		return l1 < l2 || l1 == l2 && c1 < c2
+	}
+
+	return !before(a.EndLine(), a.EndCharacter(), b.StartLine(), b.StartCharacter()) &&
+		!before(b.EndLine(), b.EndCharacter(), a.StartLine(), a.StartCharacter())
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From 0be6f9771f353e8341a5a16a8b464913e1c337ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:53 +0000
Subject: [PATCH 45/59] fix: hex integers were offered as string literals

---
 process.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/process.go b/process.go
index 91ad809..c633a0f 100644
--- a/process.go
+++ b/process.go
@@ -311,6 +311,19 @@ type opItem struct {
 	FullDoc string
 }
 
+// arg returns the argument the immediate at the index belongs to
+func (i opItem) arg(idx int) (opItemArg, bool) {
+	if n := len(i.Args); idx >= n && n > 0 && i.Args[n-1].Array {
+		idx = n - 1
+	}
+
+	if idx >= len(i.Args) {
+		return opItemArg{}, false
+	}
+
+	return i.Args[idx], true
+}
+
 type opListItem struct {
 	Name  string
 	Parse processFunc
@@ -2757,6 +2770,14 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				if ok && i > 0 {
+					// only a bytes argument can be written as a string literal
+					arg, ok := spec.arg(i - 1)
+					if !ok || arg.Type != OpArgTypeBytes {
+						return
+					}
+				}
+
 				s := tok.String()
 				if !strings.HasPrefix(s, "0x") {
 					return
-- 
2.43.0


From 2b6a2a6c88ce013b215d31348053e3f596314ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 46/59] fix: replacing a hex value by a literal did not escape
 backslashes

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 1264e6d..74c5fbe 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1779,7 +1779,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(strings.ReplaceAll(named.Value, "\\", "\\\\"), "\"", "\\\"")),
 							},
 						},
 					},
-- 
2.43.0


From bdab6ce2ef8438117f7af2df0a5a69703d5d858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:34 +0000
Subject: [PATCH 47/59] fix: completion offered opcodes that the program's mode
 does not have

---
 lsp/lsp.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 74c5fbe..9206837 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1481,7 +1481,13 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					min := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						min = info.SigVersion
+					}
+
+					// 0 - not available in the mode
+					if min != 0 && min <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1501,7 +1507,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", min)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 125b7f03913dcbbb265b570a13408a98a8cfb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:57 +0000
Subject: [PATCH 48/59] fix: refer to the scanned file's own artifact in SARIF
 results

---
 cmd/tealsarif/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..822ca24 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -119,13 +119,15 @@ func run(a args) error {
 
 		up := u.String()
 
+		index := len(run.Artifacts)
+
 		run.Artifacts = append(run.Artifacts, sarif.Artifact{
 			Location: sarif.Location{
 				Uri: up,
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -137,7 +139,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: index,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From c0cfd04eefd17459498a7c1f41ae9f16ccea3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:59 +0000
Subject: [PATCH 49/59] fix: report directories that cannot be scanned

---
 cmd/tealsarif/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 822ca24..842877a 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -85,6 +85,10 @@ func run(a args) error {
 
 	if fi.IsDir() {
 		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+			if err != nil {
+				return err
+			}
+
 			if !d.IsDir() {
 				if filepath.Ext(path) == ".teal" {
 					paths = append(paths, path)
-- 
2.43.0


From d0b370d91a484db9309a9c8303db6a99d1559f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:52 +0000
Subject: [PATCH 50/59] fix: optimising a listing dropped retsub instructions

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From d719b7d07a4780e7315fc806e3001823ab60b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:19 +0000
Subject: [PATCH 51/59] fix: nested blocks and functions could not be compiled

---
 expr.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expr.go b/expr.go
index 292018e..0f74901 100644
--- a/expr.go
+++ b/expr.go
@@ -1211,12 +1211,40 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	return c.compile(ops, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
 	Block *NestedExpr
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	if e.Proto != nil {
+		ops = append(ops, e.Proto)
+	}
+
+	if e.Block != nil {
+		ops = c.compile(ops, e.Block)
+	}
+
+	return ops
+}
+
 func (e *FuncExpr) Call(args ...Expr) Expr {
 	var exprs []Expr
 
-- 
2.43.0


From 63d259a1ed2747fa5b639ca5f36563a1cbcd2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:20 +0000
Subject: [PATCH 52/59] fix: string literals were printed without escapes

---
 expr.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 0f74901..759b9cd 100644
--- a/expr.go
+++ b/expr.go
@@ -1329,10 +1329,31 @@ type Bytes struct {
 	Format BytesFormat
 }
 
+// quoteBytes writes a string literal that reads back as the given bytes
+func quoteBytes(v []byte) string {
+	var b strings.Builder
+
+	b.WriteByte('"')
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c == 0x7f:
+			fmt.Fprintf(&b, "\\x%02x", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+
+	return b.String()
+}
+
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return quoteBytes(e.Value)
 	case BytesBase64:
 		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
-- 
2.43.0


From 02b6262a5facbb00980138f0dd41e4e5d08e8e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:23 +0000
Subject: [PATCH 53/59] fix: Cover built an uncover

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 759b9cd..717ff71 100644
--- a/expr.go
+++ b/expr.go
@@ -3939,8 +3939,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 62ed5dc531ef72210206b86f14c03a75dd9fab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 54/59] fix: ExtractUint64 was printed with a misspelt mnemonic

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 717ff71..166aa67 100644
--- a/expr.go
+++ b/expr.go
@@ -3063,7 +3063,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From b891e36ebef73bd8a2dfc7c45ea69aa5458fecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:19 +0000
Subject: [PATCH 55/59] fix: findings about labels were reported in random
 order

---
 linter.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/linter.go b/linter.go
index 79eccc0..0f289a7 100644
--- a/linter.go
+++ b/linter.go
@@ -2,6 +2,7 @@ package teal
 
 import (
 	"fmt"
+	"sort"
 )
 
 type RedundantLine interface {
@@ -247,6 +248,18 @@ func (l *Linter) getAllLabels() map[string][]int {
 	return all
 }
 
+// sortedKeys returns the keys in a fixed order
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 func (l *Linter) canEscape(from, to int) bool {
 	labels := l.getAllLabels()
 
@@ -291,7 +304,8 @@ func (r DuplicateLabelsRule) Desc() string {
 
 func (r DuplicateLabelsRule) Run(l *Linter) {
 	labels := l.getAllLabels()
-	for name, lines := range labels {
+	for _, name := range sortedKeys(labels) {
+		lines := labels[name]
 		if len(lines) > 1 {
 			for _, line := range lines {
 				l.errs = append(l.errs, DuplicateLabelError{l: line, name: name, rule: r.Id()})
@@ -313,7 +327,9 @@ func (r UnusedLabelsRule) Desc() string {
 
 func (r UnusedLabelsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
-	for name, lines := range l.getAllLabels() {
+	labels := l.getAllLabels()
+	for _, name := range sortedKeys(labels) {
+		lines := labels[name]
 		if len(used[name]) == 0 {
 			for _, line := range lines {
 				l.errs = append(l.errs, &UnusedLabelError{l: line, name: name, rule: r.Id()})
@@ -435,7 +451,8 @@ func (r CheckLoopsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
 	all := l.getAllLabels()
 
-	for name, users := range used {
+	for _, name := range sortedKeys(used) {
+		users := used[name]
 		_, ok := all[name]
 		if !ok {
 			for _, user := range users {
-- 
2.43.0


From 40491d7a98e0d85550b388e88b87d41b3b44361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:22 +0000
Subject: [PATCH 56/59] fix: completions were offered in random order

---
 lsp/lsp.go | 10 +++++++++-
 process.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9206837..f7087f3 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/textproto"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -1480,7 +1481,14 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					InsertTextFormat: snippetFormat,
 				})
 
-				for name, info := range teal.Ops.Items {
+				names := make([]string, 0, len(teal.Ops.Items))
+				for name := range teal.Ops.Items {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+
+				for _, name := range names {
+					info := teal.Ops.Items[name]
 					min := info.AppVersion
 					if res.Mode == teal.ModeSig {
 						min = info.SigVersion
diff --git a/process.go b/process.go
index c633a0f..58c3382 100644
--- a/process.go
+++ b/process.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -226,6 +227,10 @@ func init() {
 			}
 		}
 
+		sort.Slice(vals, func(i, j int) bool {
+			return vals[i].Value < vals[j].Value
+		})
+
 		res[t] = vals
 		res2[t] = vals2
 	}
@@ -2824,7 +2829,8 @@ func (r ProcessResult) ArgVals(arg opItemArg) []opItemArgVal {
 			})
 		}
 	case OpArgTypeConstInt:
-		for name, value := range txnTypeMap {
+		for _, name := range sortedKeys(txnTypeMap) {
+			value := txnTypeMap[name]
 			if value != 0 {
 				res = append(res, opItemArgVal{
 					Name:  name,
@@ -2832,7 +2838,8 @@ func (r ProcessResult) ArgVals(arg opItemArg) []opItemArgVal {
 				})
 			}
 		}
-		for name, value := range onCompletionMap {
+		for _, name := range sortedKeys(onCompletionMap) {
+			value := onCompletionMap[name]
 			res = append(res, opItemArgVal{
 				Name:  name,
 				Value: value,
-- 
2.43.0


From 9703bc7bb263d39339060e97f9fb27fdab15ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:40 +0000
Subject: [PATCH 57/59] fix: the thread reported at breakpoints was picked at
 random

---
 dbg/dbg.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 8435cfd..50aee18 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -522,9 +522,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 					if _, ok := ids[creq.Arguments.ThreadId]; ok {
 						tid = creq.Arguments.ThreadId
 					} else {
-						for id := range l.vm.tvm.Triggered {
-							tid = id
-							break
+						for _, br := range l.vm.tvm.Branches {
+							if _, ok := ids[br.Id]; ok {
+								tid = br.Id
+								break
+							}
 						}
 					}
 
-- 
2.43.0


From 86f41be28d846c8919c971219199583884b7d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 58/59] fix: tealdbg failed to start without a debug file
 option

---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From edc6615a23d481dd53982ee2b1893532e708756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 59/59] fix: a program inside of an expression was not
 flattened

---
 compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler.go b/compiler.go
index 17b012e..be34450 100644
--- a/compiler.go
+++ b/compiler.go
@@ -241,8 +241,8 @@ func (p Program) String() string {
 	return Compile(p).String()
 }
 
-func (p Program) Compile(c *compiler) Listing {
-	var l Listing
+func (p Program) Compile(c *compiler) []Op {
+	var l []Op
 
 	for _, e := range p {
 		l = c.compile(l, e)
-- 
2.43.0

