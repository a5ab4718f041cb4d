From 00bb53d24926d54e0c414092245977a9ddbf4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/45] fix: C++ encode_size of fixed-size structs was
 constexpr in the source file, hence undefined for other translation units

---
 generator/target/cpp/cpp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..383f08d 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1489,7 +1489,6 @@ var encoderDeclTemplate = `
 {{- $structName := .StructDef.StructName -}}
         // EncodeSizeDecl: encode_size
         // Returns an estimation of the encoded size in bytes.
-        {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
         uint64_t encode_size() const;
         // EncoderDecl: encode
 {{- if not .GenOptions.CompatibleMode }}
@@ -1602,7 +1601,7 @@ var encoderTemplate = `
 {{- $structName := .StructDef.StructName -}}
     // EncodeSize: {{ $structName }}::encode_size
     // Returns an estimation of the encoded size in bytes.
-    {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+    {{ if and .GenOptions.SingleFile (not .StructDef.StructDynamic) -}}constexpr {{ end -}}
     uint64_t {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}encode_size() const {
         {{- if .StructDef.StructDynamic }}
         uint64_t size = {{ calc .StructDef.StructBitSize "/" 8 }};
-- 
2.43.0


From 004d5f082d1f2b4fc2d32b83d8374732f4ca48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 02/45] fix: encode of fields wider than one byte whose width
 is not a multiple of 8 at unaligned bit offsets

---
 generator/target/c/c.go               |  7 +++----
 generator/target/commonjs/commonjs.go | 10 ++++------
 generator/target/cpp/cpp.go           |  7 +++----
 generator/target/csharp/csharp.go     |  7 +++----
 generator/target/esm/esm.go           |  6 ++----
 generator/target/esm/esm_encode.go    |  2 +-
 generator/target/java/java.go         |  7 +++----
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..c109b41 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2208,8 +2207,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..18165ae 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2529,8 +2527,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 383f08d..21ec6ad 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2352,8 +2351,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..8ecf498 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(j - begin);
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2046,8 +2045,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..2247488 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..dd1aec9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := j - begin
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..138d540 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(j - begin);
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2013,8 +2012,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From 5a48e86eb1b8a4c008ff8a1dbf641e1ed38eaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 03/45] fix: CommonJS/ESM decode of 32-bit uint32 and 32-bit
 wide int64 fields (sign of the decoded value)

---
 generator/target/commonjs/commonjs.go | 13 ++++++++++++-
 generator/target/esm/esm_decode.go    | 10 +++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 18165ae..3dad9c9 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3519,6 +3519,17 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit integers, convert back to unsigned
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() == 32 && fieldBitSize == 32 {
+			unsignedConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, unsignedConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
@@ -3526,7 +3537,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..f77f3be 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -769,11 +769,19 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit integers, convert back to unsigned
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() == 32 && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr, "Operator": exprOpToString[definition.ExprOp_ASSIGN], "Expr": fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 8f69ee833f46451872badc6b17d9ca51d2605e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 04/45] fix: Python decode of fields whose bytes are assembled
 from two parts (operator precedence)

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..f874733 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2408,7 +2408,7 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			parts = append(parts, part)
 			consumed += partSize
 		}
-		exprStr := strings.Join(parts, " | ")
+		exprStr := "(" + strings.Join(parts, " | ") + ")"
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 2327cadeec2908139d3d692f461c9b03315ef4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 05/45] fix: Java/C# decode of floats narrower than their type

---
 generator/target/csharp/csharp.go | 9 +++------
 generator/target/java/java.go     | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 8ecf498..e9eb7f6 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2818,12 +2818,9 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// same as enum, but the temp variable holds all bits of the float
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 138d540..b42ba11 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2565,12 +2565,9 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// same as enum, but the temp variable holds all bits of the float
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
-- 
2.43.0


From f9b273827292fcdf7d5239ddd540060a372812b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 06/45] fix: ESM float array without scalar float fields lacked
 the float helpers

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index dd1aec9..965cdfd 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -516,8 +516,10 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 					nameIndex = func(_ int64) string { return tempName }
 					switch ty.ElementType.GetTypeID() {
 					case definition.TypeID_Float32:
+						g.GenState.UseFloat32 = true
 						elemTy = &definition.Uint32
 					case definition.TypeID_Float64:
+						g.GenState.UseFloat64 = true
 						elemTy = &definition.Uint64
 					}
 				}
-- 
2.43.0


From ebde7220365cb5eedc1b2515ccf6eded93f26713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 07/45] fix: rolled array encode helper OR-ed into stale buffer
 bytes

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/cpp/cpp.go           | 2 +-
 generator/target/csharp/csharp.go     | 2 +-
 generator/target/esm/esm.go           | 4 ++--
 generator/target/java/java.go         | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c109b41..9d109d0 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -253,7 +253,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 3dad9c9..c890264 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -557,7 +557,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -913,7 +913,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 21ec6ad..e87eebe 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -254,7 +254,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index e9eb7f6..f9f3eba 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -536,7 +536,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
+                if ((i & 7) == 0) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
                     data[(int)(i / 8)] |= (byte)part;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 2247488..14d376f 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -516,7 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -838,7 +838,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b42ba11..c01458d 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -474,7 +474,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
+            if ((i & 7) == 0) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
                 data[(int)(i / 8)] |= (byte)part;
-- 
2.43.0


From d9aca9f6c51f6efe4b91d364bcbbddedfb8fbda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 08/45] fix: encode into a reused buffer leaked stale bits into
 fields that follow void bits

---
 generator/target/c/c.go               | 7 +++++++
 generator/target/commonjs/commonjs.go | 7 +++++++
 generator/target/cpp/cpp.go           | 7 +++++++
 generator/target/csharp/csharp.go     | 7 +++++++
 generator/target/esm/esm_encode.go    | 7 +++++++
 generator/target/java/java.go         | 7 +++++++
 6 files changed, 42 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9d109d0..ed9af16 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1770,6 +1770,13 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index c890264..192a7c3 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2042,6 +2042,13 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index e87eebe..6e86313 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1909,6 +1909,13 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index f9f3eba..76281c2 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1530,6 +1530,13 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 965cdfd..ede3fe5 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -335,6 +335,13 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c01458d..a13e74a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1513,6 +1513,13 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
+	// the field following in the last byte is OR-ed into it, so clear that byte
+	// when it begins with void bits
+	to := startBits + field.GetFieldBitSize()
+	if from := to &^ 7; startBits <= from && from < to {
+		fieldData := func(i int64) string { return g.generateHex(byte(0)) }
+		return g.generateEncodeImpl(from, to, fieldData, field.FieldBelongs.GetTypeDynamic()), nil
+	}
 	return []string{""}, nil
 }
 
-- 
2.43.0


From 89d844e2a3cd695e92c4261c55971367f8b2ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 09/45] fix: Java rolled array encode/decode ignored the start
 offset

---
 generator/target/java/java.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index a13e74a..7ba636f 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1689,6 +1689,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -2723,6 +2724,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
-- 
2.43.0


From a9343d03f943276990e5950e26576fb9ba48f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 10/45] fix: constant fields of signed, float, bool and narrow
 types (wrong big-endian bytes, wrong or uncompilable decode check)

---
 generator/gen/gen_util.go             | 63 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 32 +++++---------
 generator/target/commonjs/commonjs.go | 29 +++++-------
 generator/target/cpp/cpp.go           | 32 +++++---------
 generator/target/csharp/csharp.go     | 30 +++++--------
 generator/target/esm/esm_decode.go    | 12 +++--
 generator/target/esm/esm_encode.go    | 16 +++----
 generator/target/golang/golang.go     | 32 +++++---------
 generator/target/java/java.go         | 30 +++++--------
 generator/target/python/python.go     | 25 ++++-------
 10 files changed, 149 insertions(+), 152 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..d6743be 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,9 @@
 package gen
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +18,63 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBits returns the bit pattern of a constant field, cut to the
+// width of the field, together with the unsigned type of the same size as the
+// type of the field.
+func ConstantFieldBits(field *definition.ConstantField) (*definition.BasicType, uint64, error) {
+	var bits uint64
+	ty := definition.TypeID_Uint64
+	switch val := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID).(type) {
+	case bool:
+		ty = definition.TypeID_Uint8
+		if val {
+			bits = 1
+		}
+	case uint8:
+		ty, bits = definition.TypeID_Uint8, uint64(val)
+	case uint16:
+		ty, bits = definition.TypeID_Uint16, uint64(val)
+	case uint32:
+		ty, bits = definition.TypeID_Uint32, uint64(val)
+	case uint64:
+		bits = val
+	case int8:
+		ty, bits = definition.TypeID_Uint8, uint64(val)
+	case int16:
+		ty, bits = definition.TypeID_Uint16, uint64(val)
+	case int32:
+		ty, bits = definition.TypeID_Uint32, uint64(val)
+	case int64:
+		bits = uint64(val)
+	case float32:
+		ty, bits = definition.TypeID_Uint32, uint64(math.Float32bits(val))
+	case float64:
+		bits = math.Float64bits(val)
+	default:
+		return nil, 0, fmt.Errorf("internal error: constant %v is not a %s", field.FieldConstant.GetLiteralValue(), field.FieldType)
+	}
+	if size := field.GetFieldBitSize(); size < 64 {
+		bits &= 1<<uint(size) - 1
+	}
+	return definition.GetBasicType(ty), bits, nil
+}
+
+// ConstantFieldByte returns byte i, in the byte order of the field, of the bit
+// pattern of a constant field.
+func ConstantFieldByte(field *definition.ConstantField, bits uint64, i int64) byte {
+	if MatchOption(field.FieldOptions, "order", "big") {
+		return byte(bits >> uint(max(0, field.GetFieldBitSize()-8*(i+1))))
+	}
+	return byte(bits >> uint(8*i))
+}
+
+// ConstantFieldLiteral returns the bit pattern of a constant field as a literal
+// in the base it is written in.
+func ConstantFieldLiteral(field *definition.ConstantField, bits uint64) *definition.IntLiteral {
+	lit := &definition.IntLiteral{IntValue: int64(bits), Unsigned: true, Base: definition.IntBaseHex}
+	if src, ok := field.FieldConstant.(*definition.IntLiteral); ok {
+		lit.Base = src.Base
+	}
+	return lit
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index ed9af16..ab4ac0e 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,21 +1743,12 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -2679,10 +2668,11 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2693,16 +2683,16 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	decodeStmts = append(decodeStmts, declStr)
 
 	from := startBits
-	to := startBits + fieldBitSize
+	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 192a7c3..87763df 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2017,21 +2015,12 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -3049,6 +3038,10 @@ func (g CommonJSGenerator) generateDecodeStructFieldName(name string) string {
 func (g CommonJSGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
 
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -3060,16 +3053,16 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
+	literalValue := gen.FormatIntLiteral(gen.ConstantFieldLiteral(field, bits), g.opts())
+	if ty.GetTypeBitSize() == 64 {
+		literalValue += "n"
 	}
 
 	decodeConstantFieldData := map[string]any{
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 6e86313..a8bb03f 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1884,21 +1882,12 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -2929,10 +2918,11 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2943,16 +2933,16 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	decodeStmts = append(decodeStmts, declStr)
 
 	from := startBits
-	to := startBits + fieldBitSize
+	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 76281c2..f855b93 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1505,21 +1503,12 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -2734,10 +2723,11 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2750,14 +2740,14 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index f77f3be..a7f3020 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -438,16 +438,20 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
+	literalValue := gen.FormatIntLiteral(gen.ConstantFieldLiteral(field, bits), g.opts())
+	if ty.GetTypeBitSize() == 64 {
+		literalValue += "n"
 	}
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index ede3fe5..177c7d3 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,17 +318,13 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
+	_, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
 	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+	fieldData := func(i int64) string {
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
-	data := buffer.Bytes()
-	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..f5a9c97 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,21 +1465,12 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -2341,10 +2330,11 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2355,16 +2345,16 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	decodeStmts = append(decodeStmts, declStr)
 
 	from := startBits
-	to := startBits + fieldBitSize
+	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 7ba636f..9aedd65 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1488,21 +1486,12 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -2482,10 +2471,11 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2498,14 +2488,14 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index f874733..5303b6d 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,21 +1155,12 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	_, bits, err := gen.ConstantFieldBits(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
-		return g.generateHex(data[i])
+		return g.generateHex(gen.ConstantFieldByte(field, bits, i))
 	}
 
 	from := startBits
@@ -1957,20 +1946,24 @@ func (g PythonGenerator) generateDecodeStructFieldName(name string) string {
 func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	ty, bits, err := gen.ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
 
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, ty, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.literalGen().GenerateIntLiteral(gen.ConstantFieldLiteral(field, bits))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ed88a252efc6ad2705aae575212b209efd8285bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 11/45] fix: C/C++ decode stored raw wire bits wider than one
 bit into bool objects

---
 generator/target/c/c.go     | 15 +++++++++++++++
 generator/target/cpp/cpp.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index ab4ac0e..40c48d2 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2551,6 +2551,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    (*({{ .TyUint }}*)(&({{ .FieldName }}))) != 0
+{{- end -}}
+
 {{- define "decodeNormalFieldCast" -}}
     (*({{ .TyUint }}*)(&({{ .FieldName }}))) {{ .Operator }} {{ .Expr }};
 {{- end -}}
@@ -3084,6 +3088,17 @@ func (g CGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldType
 
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
+		// a bool object may only hold 0 or 1
+		if ty.GetTypeID().IsBool() && fieldBitSize > 1 {
+			decodeNormalFieldBasicTypeData := map[string]any{
+				"TyUint":    tyUint,
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldBool", nil, map[string]any{"TyUint": tyUint, "FieldName": fieldNameStr}),
+			}
+			decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, templateName, nil, decodeNormalFieldBasicTypeData))
+		}
+
 		// extend sign bit
 		if ty.GetTypeID().IsInt() && ty.GetTypeBitSize() > fieldBitSize {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index a8bb03f..fb7a2c9 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2765,6 +2765,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) != 0
+{{- end -}}
+
 {{- define "decodeNormalFieldCast" -}}
     *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) {{ .Operator }} {{ .Expr }};
 {{- end -}}
@@ -3351,6 +3355,17 @@ func (g CppGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldTy
 
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
+		// a bool object may only hold 0 or 1
+		if ty.GetTypeID().IsBool() && fieldBitSize > 1 {
+			decodeNormalFieldBasicTypeData := map[string]any{
+				"TyUint":    tyUint,
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldBool", nil, map[string]any{"TyUint": tyUint, "FieldName": fieldNameStr}),
+			}
+			decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, templateName, nil, decodeNormalFieldBasicTypeData))
+		}
+
 		// extend sign bit
 		if ty.GetTypeID().IsInt() && ty.GetTypeBitSize() > fieldBitSize {
 			originFromBitSize := fieldBitSize
-- 
2.43.0


From 45f44cc64385a7d015067a5cba9cd73c1ffd1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 12/45] fix: scalar fields of dynamic struct type (encoded with
 a gap, ignored by decode_size)

---
 definition/struct.go        | 3 +++
 generator/target/cpp/cpp.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index fb7a2c9..8cd66c8 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2578,7 +2578,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From 4907691355a5ef6422f3a0e6185a773571bf7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 13/45] fix: Go rolled struct arrays in dynamic structs did not
 compile

---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index f5a9c97..62469b1 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1636,7 +1636,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "offset+int(" + offsetExpr + ")"
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2525,7 +2525,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "offset+int(" + offsetExpr + ")"
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From f655bfe6f3d07bc4b59103228ae557fcaf4c38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 14/45] fix: Java rolled struct arrays ignored the start offset

---
 generator/target/java/java.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 9aedd65..f6a73cd 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1697,7 +1697,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
@@ -2733,7 +2733,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
-- 
2.43.0


From 05c8edf4605b5e7010739d05919505091a13f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 15/45] fix: C# dynamic structs: temporaries of different
 fields collided, DecodeSize threw on truncated input before a nested dynamic
 struct

---
 generator/target/csharp/csharp.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index f855b93..f227d17 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1153,9 +1153,11 @@ func typeSizeToIntStr(size int64) string {
 var encoderTemplate = `
 {{- define "encodeField" -}}
         // {{ .Pos }} {{ .Field.GetFieldKind }}: {{ .Field }}
+        {
         {{- range $encodeStmt := .EncodeStmts }}
             {{ $encodeStmt }}
-        {{- end -}}
+        {{- end }}
+        }
 {{- end -}}
 
 {{- define "encoder" -}}
@@ -2110,9 +2112,11 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 var decoderTemplate = `
 {{- define "decodeField" -}}
         // {{ .Pos }} {{ .Field.GetFieldKind }}: {{ .Field }}
+        {
         {{- range $decodeStmt := .DecodeStmts }}
             {{ $decodeStmt }}
-        {{- end -}}
+        {{- end }}
+        }
 {{- end -}}
 
 {{- define "decoderFunc" -}}
@@ -2319,6 +2323,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
@@ -2330,6 +2335,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
@@ -2395,6 +2401,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
-- 
2.43.0


From 096ed59d91ddfbab8560774f2d908a62797793d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 16/45] fix: unnamed constant fields and structs without stored
 fields generated invalid code

---
 generator/target/commonjs/commonjs.go |  3 +++
 generator/target/csharp/csharp.go     |  3 +++
 generator/target/esm/esm.go           |  3 +++
 generator/target/java/java.go         |  3 +++
 generator/target/python/python.go     | 10 ++++++++++
 5 files changed, 22 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 87763df..2ca0d56 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1471,6 +1471,9 @@ var constantFieldTemplate = `
 `
 
 func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index f227d17..140341b 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -837,6 +837,9 @@ var constantFieldTemplate = `
 `
 
 func (g CSharpGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 14d376f..8b0ac8f 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1310,6 +1310,9 @@ var constantFieldTemplate = `
 `
 
 func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index f6a73cd..4d90ecb 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -789,6 +789,9 @@ var constantFieldTemplate = `
 `
 
 func (g JavaGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 5303b6d..2cd0898 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -430,12 +430,15 @@ func (g PythonGenerator) GenerateStruct(structDef *definition.Struct) (string, e
 
 func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*GeneratedType, error) {
 	fieldInitStrs := make([]string, structDef.StructFields.Len())
+	hasFieldInit := false
 	if err := structDef.ForEachFieldWithPos(func(field definition.Field, index int, start int64, dynamic bool, pos string) error {
 		fieldStr, err := g.GenerateField(field)
 		if err != nil {
 			return err
 		}
 
+		hasFieldInit = hasFieldInit || fieldStr != ""
+
 		fieldData := map[string]any{
 			"Pos":      pos,
 			"Field":    field,
@@ -449,6 +452,10 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 		return nil, err
 	}
 
+	if !hasFieldInit {
+		fieldInitStrs = append(fieldInitStrs, "pass")
+	}
+
 	methodStrs := []string{}
 	if err := structDef.ForEachField(func(field definition.Field, index int, start int64, dynamic bool) error {
 		if !field.GetFieldKind().IsNormal() {
@@ -578,6 +585,9 @@ var constantFieldTemplate = `
 `
 
 func (g PythonGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
-- 
2.43.0


From 841fddae94933c9c7f446071001a1ed96e381eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 17/45] fix: Java enum fields wider than 32 bits did not
 compile

---
 generator/target/java/java.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 4d90ecb..7381e8f 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1152,6 +1152,13 @@ public enum {{ .EnumDef.EnumName }} {
         }
     }
 
+    {{- if gt .EnumDef.EnumBitSize 32 }}
+
+    public static {{ .EnumDef.EnumName }} forNumber(long value) {
+        return value == (int) value ? forNumber((int) value) : null;
+    }
+    {{- end }}
+
     private {{ .EnumDef.EnumName }}(int value) {
         this.value = value;
     }
-- 
2.43.0


From ea0a9eae08f264920da86ac5a491313d9e404ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 18/45] fix: C# enums with values beyond the int range did not
 compile

---
 generator/target/csharp/csharp.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 140341b..5ffb3f9 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2,6 +2,7 @@ package csharp
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -1096,7 +1097,7 @@ func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error)
 var enumTemplate = `
 {{- define "enumDef" -}}
     // Enum: {{ .EnumDef.ShortString }}
-    public enum {{ .EnumDef.EnumName }}
+    public enum {{ .EnumDef.EnumName }}{{ if .Wide }} : long{{ end }}
     {
         {{- range .EnumDef.EnumValues.Values }}
         {{ .EnumValueName }} = {{ .EnumValue }},
@@ -1106,8 +1107,15 @@ var enumTemplate = `
 `
 
 func (g CSharpGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// the underlying type of a C# enum is int unless declared otherwise
+	wide := false
+	for _, value := range enumDef.EnumValues.Values() {
+		wide = wide || value.EnumValue > math.MaxInt32
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Wide":    wide,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From 77935ab84970fba460edb5db90a2f1652ee449df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 19/45] fix: decode_size accepted overflowing bytes lengths
 (out-of-bounds reads in C/C++, exceptions in Java/C#)

---
 generator/target/c/c.go                  |  3 +++
 generator/target/cpp/cpp.go              |  3 +++
 generator/target/csharp/csharp.go        | 12 ++++++++++++
 generator/target/java/java.go            |  6 ++++++
 generator/target/kotlin/kotlin_decode.go |  1 +
 5 files changed, 25 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 40c48d2..4c3717a 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2333,6 +2333,7 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
+            if (shift > 49) return -1;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
@@ -2350,6 +2351,7 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
+            if (shift > 49) return -1;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
@@ -2399,6 +2401,7 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
+            if (shift > 49) return -1;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 8cd66c8..42021b1 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2494,6 +2494,7 @@ var decoderTemplate = `
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
+                if (shift > 49) return -1;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
@@ -2511,6 +2512,7 @@ var decoderTemplate = `
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
+                if (shift > 49) return -1;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
@@ -2569,6 +2571,7 @@ var decoderTemplate = `
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
+                if (shift > 49) return -1;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 5ffb3f9..dcea860 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2270,9 +2270,11 @@ var decoderTemplate = `
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2283,9 +2285,11 @@ var decoderTemplate = `
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2302,9 +2306,11 @@ var decoderTemplate = `
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2315,9 +2321,11 @@ var decoderTemplate = `
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2384,9 +2392,11 @@ var decoderTemplate = `
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2397,9 +2407,11 @@ var decoderTemplate = `
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
+                    if (_shift > 28) return -1;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0xFC) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 7381e8f..efca781 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2167,9 +2167,11 @@ var decoderTemplate = `
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
+                if (_shift > 28) return -1;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2184,9 +2186,11 @@ var decoderTemplate = `
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
+                if (_shift > 28) return -1;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
@@ -2231,9 +2235,11 @@ var decoderTemplate = `
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
+                if (_shift > 28) return -1;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0xFC) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..59ac414 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -89,6 +89,7 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		fmt.Fprintf(b, "%s    while (true) {\n", indent)
 		fmt.Fprintf(b, "%s        if (data.size <= %s) return -(%s + 1 - start)\n", indent, pos, pos)
 		fmt.Fprintf(b, "%s        val part = data[%s].toInt() and 0xFF\n", indent, pos)
+		fmt.Fprintf(b, "%s        if (shift == 28 && (part and 0xFC) != 0) return -1\n", indent)
 		fmt.Fprintf(b, "%s        length = length or ((part and 0x7F) shl shift)\n", indent)
 		fmt.Fprintf(b, "%s        offset++\n", indent)
 		fmt.Fprintf(b, "%s        if ((part and 0x80) == 0) break\n", indent)
-- 
2.43.0


From c591bb0a94272ce745734ead8571d64893989f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 20/45] fix: malformed UTF-8 swallowed the terminator of a
 string in the JS decoders

---
 generator/target/commonjs/commonjs.go | 16 ++++++++++------
 generator/target/esm/esm.go           | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 2ca0d56..75d765b 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -476,13 +476,15 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
+        // a continuation byte, 0 when a malformed sequence ends early
+        var next = function () { return offset < data.length && data[offset] ? data[offset++] & 0x3F : 0; };
         while (offset < data.length && data[offset] && data[offset] !== 0) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
@@ -832,13 +834,15 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
+        // a continuation byte, 0 when a malformed sequence ends early
+        var next = function () { return offset < data.length && data[offset] ? data[offset++] & 0x3F : 0; };
         while (offset < data.length && data[offset] && data[offset] !== 0) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 8b0ac8f..6e17993 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -438,13 +438,15 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
+    // a continuation byte, 0 when a malformed sequence ends early
+    const next = () => (offset < data.length && data[offset] ? data[offset++] & 0x3F : 0);
     while (offset < data.length && data[offset] && data[offset] !== 0) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
@@ -760,13 +762,15 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
+    // a continuation byte, 0 when a malformed sequence ends early
+    const next = () => (offset < data.length && data[offset] ? data[offset++] & 0x3F : 0);
     while (offset < data.length && data[offset] && data[offset] !== 0) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
-- 
2.43.0


From 34ccb976802145597a5dda7f8bdd9bd9c034679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 21/45] fix: Python decode raised on strings that are not UTF-8
 and on undeclared enum values

---
 generator/target/python/python.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 2cd0898..88687ea 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1871,6 +1871,10 @@ var fieldDecoderTemplate = `
 {{- end -}}
 {{- end -}}
 
+{{- define "decodeNormalFieldEnumCheck" -}}
+    if {{ .TempName }} not in {{ .EnumName }}._value2member_map_: return False, 0
+{{- end -}}
+
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
     {{ .FieldName }} = {{ .EnumName }}({{ .TempName }})
 {{- end -}}
@@ -1883,7 +1887,7 @@ var fieldDecoderTemplate = `
         {{ .TempName }} = offset
         while data[{{ .TempName }}+{{ .FromByte }}] != 0:
             {{ .TempName }} += 1
-        {{ .FieldName }} = str(data[offset+{{ .FromByte }}:{{ .TempName }}+{{ .FromByte }}], 'utf-8')
+        {{ .FieldName }} = str(data[offset+{{ .FromByte }}:{{ .TempName }}+{{ .FromByte }}], 'utf-8', 'replace')
         offset = {{ .TempName }} + 1
 {{- end -}}
 
@@ -2029,8 +2033,9 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 			"TempName":  tempName,
 		}
 
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldEnumCheck", nil, decodeNormalFieldTempVarAssignEnumData)
 		assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-		decodeStmts = append(decodeStmts, assignStr)
+		decodeStmts = append(decodeStmts, checkStr, assignStr)
 
 	case *definition.Array:
 		elemTy := ty.ElementType
@@ -2098,8 +2103,9 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					"EnumName":  ty.ElementType.(*definition.Enum).EnumName,
 					"FieldName": fmt.Sprintf("%s[_i]", name),
 				}
+				checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldEnumCheck", nil, decodeNormalFieldTempVarAssignEnumData)
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-				bodyStmts = append(bodyStmts, util.IndentSpace(assignStr, 4))
+				bodyStmts = append(bodyStmts, util.IndentSpace(checkStr, 4), util.IndentSpace(assignStr, 4))
 			default:
 			}
 
@@ -2139,6 +2145,11 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 				}
 				stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeFieldBits", nil, decodeFieldBitsData)
 				bodyStmts = append(bodyStmts, util.IndentSpace(stmt, 4))
+				checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldEnumCheck", nil, map[string]any{
+					"TempName": tempName,
+					"EnumName": elemTyType.EnumName,
+				})
+				bodyStmts = append(bodyStmts, util.IndentSpace(checkStr, 4))
 				bodyStmts = append(bodyStmts, fmt.Sprintf("    %s[_i] = %s(%s)", name, elemTyType.EnumName, tempName))
 
 			case *definition.BasicType:
@@ -2214,8 +2225,9 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 						"EnumName":  elemTy.EnumName,
 						"FieldName": fmt.Sprintf("%s[%d]", name, i),
 					}
+					checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldEnumCheck", nil, decodeNormalFieldTempVarAssignEnumData)
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-					decodeStmts = append(decodeStmts, assignStr)
+					decodeStmts = append(decodeStmts, checkStr, assignStr)
 				default:
 				}
 			}
-- 
2.43.0


From 3046737f061169fc67cd9db79b2e6ac657d01d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 22/45] fix: Python bytes fields referenced the decode buffer
 although -memcpy is documented as force enabled

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 88687ea..0af0f86 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From f4bd8f8253214149e3b7731a0481b88024a1e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 23/45] fix: sizes, array lengths and struct totals beyond the
 64-bit range wrapped around and were accepted

---
 compiler/proto_visitor.go | 50 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..c254160 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -152,6 +153,28 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 		field.SetFieldBelongs(structDef)
 	}
 
+	// check that the total size is representable
+	totalSize := int64(0)
+	for _, field := range fields.Values() {
+		fieldSize := field.GetFieldBitSize()
+		if fieldSize > math.MaxInt64-totalSize {
+			return &definition.CompileError{
+				Position: &definition.BasePosition{
+					File:   v.Unit.UnitName.Path,
+					Line:   ctx.StructName().GetStart().GetLine(),
+					Column: ctx.StructName().GetStart().GetColumn(),
+				},
+				Err: &definition.InvalidSizeError{
+					Size: math.MaxInt64,
+					Msg:  "struct size is too large",
+				},
+			}
+		}
+		if fieldSize > 0 {
+			totalSize += fieldSize
+		}
+	}
+
 	// check field alignment
 	err := structDef.ForEachField(func(field definition.Field, index int, fixedStart int64, isDynamicStart bool) error {
 
@@ -889,6 +912,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  "size is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2059,6 +2095,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  "array size is too large",
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
-- 
2.43.0


From cf525af4b9ff66e8aa401c998f500f6695577ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 24/45] fix: 'struct name' / 'enum name' with an uncapitalized
 type name crashed the compiler

---
 compiler/proto_visitor.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index c254160..1c1b3fb 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2160,7 +2160,15 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		var name string
+		switch val := ctx.StructName().Accept(v).(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2198,7 +2206,15 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		var name string
+		switch val := ctx.EnumName().Accept(v).(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From 15ca565b703bca6c99068b02936b60c48c839e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 25/45] fix: single-quoted import paths were rejected

---
 compiler/import_visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/import_visitor.go b/compiler/import_visitor.go
index b79e9ff..638b04e 100644
--- a/compiler/import_visitor.go
+++ b/compiler/import_visitor.go
@@ -48,7 +48,12 @@ func (v *ImportVisitor) VisitImportStatement(ctx *parser.ImportStatementContext)
 	}
 
 	fileLit := ctx.StrLit().STR_LIT().GetText()
-	file, err := strconv.Unquote(fileLit)
+	quoted := fileLit
+	// 'abc' -> "abc"
+	if quoted[0] == '\'' && quoted[len(quoted)-1] == '\'' {
+		quoted = `"` + quoted[1:len(quoted)-1] + `"`
+	}
+	file, err := strconv.Unquote(quoted)
 	if err != nil {
 		return topLevelErrorWrapper(
 			&definition.InvalidLiteralError{
-- 
2.43.0


From c55862812c9cf67624727bf1d9d3ec2a1ea4e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 26/45] fix: negative enum values were taken for unspecified
 ones or accepted, and the value after the largest one wrapped

---
 compiler/proto_visitor.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 1c1b3fb..b93f1fa 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2365,6 +2365,15 @@ func (v *ProtoVisitor) VisitEnumBody(ctx *parser.EnumBodyContext) any {
 		if val.EnumValue == -1 {
 			newNum := int64(0)
 			if values.Len() > 0 {
+				if values.Last().Value.EnumValue == math.MaxInt64 {
+					return &definition.CompileError{
+						Position: val,
+						Err: &definition.InvalidEnumDefError{
+							DefName: val.EnumValueName,
+							Err:     fmt.Errorf("enum value is too large"),
+						},
+					}
+				}
 				newNum = values.Last().Value.EnumValue + 1
 			}
 			val.EnumValue = newNum
@@ -2438,6 +2447,19 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 			switch val := val.(type) {
 			case *definition.IntLiteral:
 				value = val.IntValue
+				if value < 0 {
+					return &definition.CompileError{
+						Position: definition.BasePosition{
+							File:   v.Unit.UnitName.Path,
+							Line:   ctx.Constant().GetStart().GetLine(),
+							Column: ctx.Constant().GetStart().GetColumn(),
+						},
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative"),
+						},
+					}
+				}
 			default:
 				return &definition.CompileError{
 					Position: definition.BasePosition{
-- 
2.43.0


From 31e51f0730442d4a39c3c41d6389dec027ccc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 27/45] fix: java enums with several names for one number did
 not compile (duplicate case labels)

---
 generator/target/java/java.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index efca781..8bc7196 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1145,7 +1145,7 @@ public enum {{ .EnumDef.EnumName }} {
 
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
-        {{- range .EnumDef.EnumValues.Values }}
+        {{- range .Cases }}
             case {{ .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
@@ -1167,8 +1167,19 @@ public enum {{ .EnumDef.EnumName }} {
 `
 
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// several names may share a number: the first one stands for it
+	cases := []*definition.EnumValue{}
+	seen := map[int64]bool{}
+	for _, value := range enumDef.EnumValues.Values() {
+		if !seen[value.EnumValue] {
+			seen[value.EnumValue] = true
+			cases = append(cases, value)
+		}
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Cases":   cases,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From 0284b7a0ca939222ad83224dfb55b80b61a27a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 28/45] fix: java enum numbers of 2^31 and above did not
 compile

---
 generator/target/java/java.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 8bc7196..659de97 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1113,7 +1113,7 @@ var enumTemplate = `
 // Enum: {{ .EnumDef.ShortString }}
 public enum {{ .EnumDef.EnumName }} {
     {{- range .EnumDef.EnumValues.Values }}
-    {{ .EnumValueName }}({{ .EnumValue }}),
+    {{ .EnumValueName }}({{ javaInt .EnumValue }}),
     {{- end }}
     ;
 
@@ -1146,7 +1146,7 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
         {{- range .Cases }}
-            case {{ .EnumValue }}: return {{ .EnumValueName }};
+            case {{ javaInt .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
         }
@@ -1182,7 +1182,17 @@ func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, e
 		"Cases":   cases,
 	}
 
-	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
+	funcMap := template.FuncMap{
+		// numbers with bit 31 set stand for themselves as int bit patterns
+		"javaInt": func(value int64) string {
+			if value > math.MaxInt32 && value <= math.MaxUint32 && enumDef.EnumBitSize <= 32 {
+				return fmt.Sprintf("(int) %dL", value)
+			}
+			return fmt.Sprint(value)
+		},
+	}
+
+	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", funcMap, enumDefData)
 
 	code := &GeneratedType{
 		GeneratedDef: enumDefStr,
-- 
2.43.0


From d2503f736613d2964ca91992ea7352b191beaefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 29/45] fix: absolute import paths that contain . or .. made
 one file look like two

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 8838a499b1b76bfd0a7e7fec15a648bb9d09dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 30/45] fix: an empty input file name was accepted and
 generated nothing, with exit code 0

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 22d4ecd..2aa6ab4 100644
--- a/main.go
+++ b/main.go
@@ -129,7 +129,7 @@ func main() {
 
 	// check input file
 	files := flag.Args()
-	if len(files) == 0 {
+	if len(files) == 0 || (len(files) == 1 && files[0] == "") {
 		fmt.Fprintln(os.Stderr, &definition.GeneralError{
 			Err: &definition.NoInputFileError{},
 		})
-- 
2.43.0


From 48fcc270c3dc953200d0200632b0555db74bfb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 31/45] fix: go files imported the packages used by the fields
 of imported structs, and did not compile

---
 generator/target/golang/golang.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 62469b1..81a9617 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -184,11 +184,12 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 				if !ok {
 					continue
 				}
-				if innerStructTy, ok := customTy.(*definition.Struct); ok {
-					dfsStructType(innerStructTy)
-				}
 				tyName := customTy.GetTypeName()
 				if unit.LocalNames.Has(tyName) {
+					// the fields of imported structs are not used by this unit
+					if innerStructTy, ok := customTy.(*definition.Struct); ok {
+						dfsStructType(innerStructTy)
+					}
 					continue
 				}
 				tyUnit := customTy.GetBelongs()
-- 
2.43.0


From 992ba7d71d6996d2914d1fcb61d8a7960568bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 32/45] fix: -rmpath removed prefixes that end inside a path
 element

---
 generator/gen/gen_ctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..f0844ab 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -54,8 +54,10 @@ func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string
 func (ctx *GenCtx) WriteFile(file string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	for _, rmpath := range ctx.GenOptions.RemovePath {
-		if strings.HasPrefix(file, rmpath) {
-			file = file[len(rmpath):]
+		// only whole path elements are removed (a/b is not a prefix of a/bc)
+		rest, ok := strings.CutPrefix(file, rmpath)
+		if ok && (rmpath == "" || strings.HasSuffix(rmpath, "/") || strings.HasPrefix(rest, "/")) {
+			file = rest
 			for strings.HasPrefix(file, "/") {
 				file = file[1:]
 			}
-- 
2.43.0


From 1d2a0d70ced5bad584acbc5e441c46a36f0773a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 33/45] fix: c and cpp include guards of different packages
 (a.b_c and a_b.c) were the same

---
 generator/target/c/c.go     | 8 ++++----
 generator/target/cpp/cpp.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 4c3717a..f5ed795 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -301,7 +301,7 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
+{{- $guardName := .Unit.Package.ToPath "__" "" -}}
 // Target: C (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -309,8 +309,8 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_H
-#define __{{ $allCapName }}_BB_H
+#ifndef __{{ $guardName }}_BB_H
+#define __{{ $guardName }}_BB_H
 
 #include <stdbool.h>
 #include <stddef.h>
@@ -361,7 +361,7 @@ struct bytes {
 /* ==================== End {{ $entry.Key }} ==================== */
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_H
+#endif // __{{ $guardName }}_BB_H
 {{ end }}
 
 {{- define "sourceFile" -}}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 42021b1..73c2c53 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -304,7 +304,7 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
+{{- $guardName := .Unit.Package.ToPath "__" "" -}}
 // Target: C++ (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -312,8 +312,8 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_HPP
-#define __{{ $allCapName }}_BB_HPP
+#ifndef __{{ $guardName }}_BB_HPP
+#define __{{ $guardName }}_BB_HPP
 
 #include <cstdbool>
 #include <cstddef>
@@ -382,7 +382,7 @@ namespace {{ .Unit.Package.ToPath "::" "" }}
 } // namespace {{ .Unit.Package.ToPath "::" "" }}
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_HPP
+#endif // __{{ $guardName }}_BB_HPP
 {{ end }}
 
 {{- define "sourceFile" -}}
-- 
2.43.0


From 071643ed1891affb03e0e78cb5248c011c216e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 34/45] fix: c++ names did not follow the cpp_namespace option
 and were not resolved from the global namespace

---
 generator/target/cpp/cpp.go | 44 +++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 73c2c53..e7feefd 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -731,8 +731,19 @@ var structTemplate = `
 {{- end -}}
 `
 
+// qualifiedName returns the global name of a type defined in the unit, whose
+// namespace is the package or the one given by the cpp_namespace option
+func qualifiedName(unit *definition.CompilationUnit, name string) string {
+	namespace := unit.Package.ToPath("::", "")
+	if option, ok := unit.Options.Get("cpp_namespace"); ok {
+		value := fmt.Sprint(option.OptionValue)
+		namespace = value[1 : len(value)-1]
+	}
+	return "::" + namespace + "::" + name
+}
+
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", structDef.StructBelongs.Package.ToPath("::", ""), structDef.StructName)
+	name := "struct " + qualifiedName(structDef.StructBelongs, structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -1422,7 +1433,7 @@ func (g CppGenerator) GenerateRawSetter(field definition.Field) (string, error)
 // ==================== GenerateEnum ====================
 
 func (g CppGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := fmt.Sprintf("enum %s::%s", enumDef.EnumBelongs.Package.ToPath("::", ""), enumDef.EnumName)
+	name := "enum " + qualifiedName(enumDef.EnumBelongs, enumDef.EnumName)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2531,9 +2542,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2544,9 +2555,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2587,9 +2598,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ qualifiedName $structType.StructBelongs $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2661,6 +2672,7 @@ var decoderTemplate = `
 `
 
 func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, error) {
+	fns := template.FuncMap{"qualifiedName": qualifiedName}
 	decodeStrs := []string{}
 	if err := structDef.ForEachFieldWithPos(func(field definition.Field, fieldIndex int, startBits int64, dynamic bool, pos string) error {
 		decodeStmts, err := g.generateDecodeField(field, startBits)
@@ -2686,7 +2698,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 			"DecodeStmts": decodeStmts,
 		}
 
-		str := util.ExecuteTemplate(decoderTemplate, "decodeField", nil, decodeFieldData)
+		str := util.ExecuteTemplate(decoderTemplate, "decodeField", fns, decodeFieldData)
 		decodeStrs = append(decodeStrs, str)
 		return nil
 	}); err != nil {
@@ -2699,7 +2711,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 		"Dynamic":    structDef.GetTypeDynamic(),
 	}
 
-	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", nil, fieldData)
+	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", fns, fieldData)
 	return decoderStr, nil
 }
 
@@ -2761,7 +2773,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
-    {{ .FieldName }} = static_cast<enum {{ .EnumDef.EnumBelongs.Package.ToPath "::" "" }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
+    {{ .FieldName }} = static_cast<enum {{ .EnumName }}>({{ .TempName }});
 {{- end -}}
 
 {{- define "decodeNormalFieldNoCast" -}}
@@ -3013,7 +3025,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 		decodeNormalFieldTempVarAssignEnumData := map[string]any{
 			"FieldName": g.generateDecodeStructFieldName(field.FieldName),
-			"EnumDef":   ty,
+			"EnumName":  qualifiedName(ty.EnumBelongs, ty.EnumName),
 			"TempName":  tempName,
 		}
 
@@ -3078,12 +3090,12 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				bodyStmts = append(bodyStmts, normalizeCppGeneratedBlock(stmt))
 			}
 
-			switch ty.ElementType.(type) {
+			switch elemTy := ty.ElementType.(type) {
 			case *definition.Enum:
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeNormalFieldTempVarAssignEnumData := map[string]any{
 					"TempName":  tempName,
-					"EnumDef":   ty.ElementType.(*definition.Enum),
+					"EnumName":  qualifiedName(elemTy.EnumBelongs, elemTy.EnumName),
 					"FieldName": fmt.Sprintf("((%s)[_i])", name),
 				}
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
@@ -3157,7 +3169,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				common["Expr"] = fmt.Sprintf("(enum %s)_v", qualifiedName(elemTyT.EnumBelongs, elemTyT.EnumName))
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
@@ -3210,7 +3222,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				case *definition.Enum:
 					decodeNormalFieldTempVarAssignEnumData := map[string]any{
 						"TempName":  subName,
-						"EnumDef":   elemTy,
+						"EnumName":  qualifiedName(elemTy.EnumBelongs, elemTy.EnumName),
 						"FieldName": fmt.Sprintf("((%s)[%d])", name, i),
 					}
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-- 
2.43.0


From 868e7562f1756c418f8c108d8b8d02a622d64f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 35/45] fix: esm names of imported packages and of the exports
 of a single file collided for packages that share their last component

---
 generator/target/esm/esm.go        | 29 ++++++++++++++++++++++++-----
 generator/target/esm/esm_decode.go |  4 ++--
 generator/target/esm/esm_encode.go |  6 +++---
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 6e17993..f49eacf 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -177,7 +177,7 @@ var structPackagePrefixTemplate = `
     {{- if $inPackage -}}
     {{ $structDef.StructName }}
     {{- else -}}
-    ${{ $structDef.StructBelongs.Package.PackageName }}.{{ $structDef.StructName }}
+    ${{ $structDef.StructBelongs.Package.ToPath "$" "" }}.{{ $structDef.StructName }}
     {{- end -}}
 {{- end -}}
 {{- end -}}
@@ -258,6 +258,7 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 	if g.GenCtx.GenOptions.SingleFile {
 		singleData := map[string]any{
 			"GenUnits":   g.GenUnits,
+			"Exports":    g.resolveExports(),
 			"GenState":   g.GenState,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
@@ -276,6 +277,24 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 
 // ==================== GenerateUnit ====================
 
+// resolveExports collects the types exported by a single file, by the name of
+// their package (several packages may have the same name)
+func (g ESModuleGenerator) resolveExports() *util.OrderedMap[string, *util.OrderedMap[string, *GeneratedType]] {
+	exports := util.NewOrderedMap[string, *util.OrderedMap[string, *GeneratedType]]()
+	for _, genUnit := range g.GenUnits.Values() {
+		types := util.NewOrderedMap[string, *GeneratedType]()
+		name := genUnit.SourceUnit.Package.PackageName
+		if exports.Has(name) {
+			types = exports.MustGet(name)
+		}
+		for _, entry := range genUnit.GeneratedTypes.Entries() {
+			types.Put(entry.Key, entry.Value)
+		}
+		exports.Put(name, types)
+	}
+	return exports
+}
+
 var fileTemplate = `
 {{- define "file" -}}
 {{- $curUnit := .Unit -}}
@@ -288,7 +307,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Unit.LocalImports.Values }}
-import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
@@ -930,9 +949,9 @@ const {{ $entry.Key }} = (function() {
 
 {{ end -}}
 export default {
-{{ range $genUnit := .GenUnits.Values }}
-    {{ $genUnit.SourceUnit.Package.PackageName }}: {
-{{- range $entry := $genUnit.GeneratedTypes.Entries }}
+{{ range $export := .Exports.Entries }}
+    {{ $export.Key }}: {
+{{- range $entry := $export.Value.Entries }}
 {{- if $entry.Value.GeneratedDef }}
         {{ $entry.Key }},
 {{- end }}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index a7f3020..fb7186f 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -349,7 +349,7 @@ var fieldDecoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .FieldName }} = {{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- else -}}
-    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
+    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- end -}}
 {{- end -}}
 
@@ -615,7 +615,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
-					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, idxCast)
+					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, idxCast)
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 177c7d3..c94384b 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -234,7 +234,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -255,7 +255,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -495,7 +495,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
-- 
2.43.0


From ee3dd80cc376732b8dea93294d8924fe71d55f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 36/45] fix: types of indirectly imported files were not
 imported, and importing a file without types broke the generated code

---
 definition/compilation_unit.go        | 13 +++++++++++++
 generator/target/c/c.go               |  4 ++--
 generator/target/commonjs/commonjs.go |  4 ++--
 generator/target/cpp/cpp.go           |  4 ++--
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/esm/esm.go           |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/kotlin/kotlin.go     |  4 ++--
 generator/target/python/python.go     |  2 +-
 9 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/definition/compilation_unit.go b/definition/compilation_unit.go
index 1eec937..40c1e37 100644
--- a/definition/compilation_unit.go
+++ b/definition/compilation_unit.go
@@ -177,6 +177,19 @@ func (c *CompilationUnit) AddImport(other *CompilationUnit) error {
 	return nil
 }
 
+// TypeImports returns the units whose types this unit can refer to: all the
+// units imported directly or indirectly, except the ones without any types,
+// for which some targets do not generate anything that could be imported
+func (c *CompilationUnit) TypeImports() []*CompilationUnit {
+	units := []*CompilationUnit{}
+	for _, unit := range c.GlobalImports.Values() {
+		if unit.LocalTypes.Len() > 0 {
+			units = append(units, unit)
+		}
+	}
+	return units
+}
+
 func (c CompilationUnit) String() string {
 	options := "[\n"
 	for _, option := range c.Options.Values() {
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index f5ed795..e50a6c3 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -334,8 +334,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if $curUnit.TypeImports -}}
+{{ range $unit := $curUnit.TypeImports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
 {{ else -}}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 75d765b..7bbf13b 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -294,9 +294,9 @@ var fileTemplate = `
         return mergeDeep(target, ...sources);
     });
 
-    {{- if gt .Unit.LocalImports.Len 0 }}
+    {{- if .Unit.TypeImports }}
     var $root = mergeDeep({},
-        {{- range $unit := .Unit.LocalImports.Values }}
+        {{- range $unit := .Unit.TypeImports }}
         require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
         {{- end }}
     );
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index e7feefd..a50ddba 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -344,8 +344,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if $curUnit.TypeImports -}}
+{{ range $unit := $curUnit.TypeImports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
 {{ else -}}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index dcea860..b6678f3 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -209,7 +209,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Unit.TypeImports -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index f49eacf..2427208 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -306,7 +306,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.LocalImports.Values }}
+{{- range $unit := .Unit.TypeImports }}
 import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 659de97..f231caf 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -212,7 +212,7 @@ package {{ .Unit.Package }};
 {{- end }}
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Unit.TypeImports -}}
 {{ if $unit.Options.Has "java_package" -}}
 {{ $pkgName := $unit.Options.MustGet "java_package" -}}
 import {{ slice $pkgName.OptionValue 1 -1 }}.*;
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..debbae6 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -75,9 +75,9 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return nil
 	}
 	pkg := kotlinPackage(unit)
-	imports := make([]string, 0, unit.LocalImports.Len())
+	imports := make([]string, 0, unit.GlobalImports.Len())
 	seen := map[string]bool{}
-	for _, imported := range unit.LocalImports.Values() {
+	for _, imported := range unit.TypeImports() {
 		p := kotlinPackage(imported)
 		if p != "" && p != pkg && !seen[p] {
 			imports = append(imports, "import "+p+".*")
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 0af0f86..7fa435a 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -179,7 +179,7 @@ from enum import Enum
 from typing import List, Tuple, Union, overload
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Unit.TypeImports -}}
 {{ if $.GenOptions.RelativePath -}}
 from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
 {{ else -}}
-- 
2.43.0


From 4c65c8ed476d9fcf264ff5c660750896f9c94959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 37/45] fix: kotlin did not generate the structs defined inside
 of structs

---
 generator/target/kotlin/kotlin.go | 40 ++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index debbae6..c06c05d 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -70,6 +70,44 @@ func kotlinPackage(unit *definition.CompilationUnit) string {
 	return unit.Package.String()
 }
 
+// kotlinTypes returns the types of the unit, each followed by the structs
+// defined inside of it
+func kotlinTypes(unit *definition.CompilationUnit) []definition.CustomType {
+	types := []definition.CustomType{}
+	seen := map[definition.CustomType]bool{}
+	var visit func(ty definition.CustomType)
+	visit = func(ty definition.CustomType) {
+		if ty.GetBelongs() != unit || seen[ty] {
+			return
+		}
+		seen[ty] = true
+		types = append(types, ty)
+		s, ok := ty.(*definition.Struct)
+		if !ok {
+			return
+		}
+		for _, field := range s.StructFields.Values() {
+			var fieldType definition.Type
+			switch f := field.(type) {
+			case *definition.NormalField:
+				fieldType = f.FieldType
+			case *definition.EmbeddedField:
+				fieldType = f.FieldType
+			}
+			if array, ok := fieldType.(*definition.Array); ok {
+				fieldType = array.ElementType
+			}
+			if inner, ok := fieldType.(definition.CustomType); ok {
+				visit(inner)
+			}
+		}
+	}
+	for _, ty := range unit.LocalTypes.Values() {
+		visit(ty)
+	}
+	return types
+}
+
 func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
 		return nil
@@ -84,7 +122,7 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			seen[p] = true
 		}
 	}
-	for _, ty := range unit.LocalTypes.Values() {
+	for _, ty := range kotlinTypes(unit) {
 		var body string
 		var err error
 		switch t := ty.(type) {
-- 
2.43.0


From 57174d1052ae02f198883e7297680bf6363205da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 38/45] fix: esm did not define the structs defined inside of
 structs

---
 generator/target/esm/esm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 2427208..1a6a28c 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1301,6 +1301,7 @@ var normalFieldTemplate = `
 {{- define "normalField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $tyDefValue := GenerateTypeDefaultValue $field.FieldType -}}
     this.{{ $fieldName }} = {{ $tyDefValue }};
 {{- end -}}
-- 
2.43.0


From d8bf9952df19385be3f688c142b2bdee5d5b65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:53 +0000
Subject: [PATCH 39/45] fix: csharp -signext arith did not compile for 64-bit
 signed fields

---
 generator/target/csharp/csharp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b6678f3..ec297ac 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3312,6 +3312,11 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 				decodeStmts = append(decodeStmts, stmt)
 
 			case gen.SignExtMethodArith:
+				if originFromBitSize == 64 {
+					// nothing to extend, and the mask would be a ulong, which
+					// does not mix with the long field
+					break
+				}
 				signMask := uint64(1) << (originFromBitSize - 1)
 				signMaskStr := g.generateHex(signMask)
 				signExtendData := map[string]any{
-- 
2.43.0


From 18db73f1850aa44e01066db0373d3ec6c89d44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 40/45] fix: errors writing generated code to standard output
 were ignored (exit code 0)

---
 generator/gen/gen_ctx.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index f0844ab..0ee4954 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -40,11 +40,20 @@ func normalizeGeneratedIndent(text string) string {
 	return strings.TrimRight(strings.Join(normalized, "\n"), "\n") + "\n"
 }
 
+func writeStdout(text string) error {
+	if _, err := fmt.Print(text); err != nil {
+		return &definition.FileWriteError{
+			File: &definition.FileIdentifer{Name: "-", Path: "standard output"},
+			Err:  err,
+		}
+	}
+	return nil
+}
+
 func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 
 	file := pkg.ToFilePath(ext)
@@ -65,8 +74,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		}
 	}
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
@@ -75,8 +83,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 func (ctx *GenCtx) WriteFileAbs(path string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if path == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 
 	id, err := fileio.GetFileIdentifer(path)
-- 
2.43.0


From 06e641d742c7e9c3d0e8c30026541ed5cd1aa452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:05 +0000
Subject: [PATCH 41/45] fix: unary operators of accessor expressions were glued
 to their operand (python: notvalue; --3)

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/cpp/cpp.go           | 2 +-
 generator/target/csharp/csharp.go     | 2 +-
 generator/target/esm/esm_decode.go    | 2 +-
 generator/target/golang/golang.go     | 2 +-
 generator/target/java/java.go         | 2 +-
 generator/target/python/python.go     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index e50a6c3..4842cc4 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3310,7 +3310,7 @@ func (g CExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, err
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 7bbf13b..a18bf88 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3742,7 +3742,7 @@ func (g CommonJSExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (stri
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CommonJSExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index a50ddba..0d5d148 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3589,7 +3589,7 @@ func (g CppExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, e
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CppExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index ec297ac..4dfeb0f 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3504,7 +3504,7 @@ func (g CSharpExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CSharpExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index fb7186f..121a817 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -911,7 +911,7 @@ func (g ESModuleExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (stri
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g ESModuleExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 81a9617..75460e8 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2887,7 +2887,7 @@ func (g GoExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, er
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g GoExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index f231caf..2f34859 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3223,7 +3223,7 @@ func (g JavaExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string,
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g JavaExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 7fa435a..c1b3485 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2504,7 +2504,7 @@ func (g PythonExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g PythonExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
-- 
2.43.0


From cc3291c6d770954b83c827bab72dfd1fcc805de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 42/45] fix: results of custom getters and setters were not
 converted to the declared type (did not compile in java, csharp, go; broke
 encode in python)

---
 generator/gen/gen_util.go             | 10 ++++++++++
 generator/target/commonjs/commonjs.go |  6 ++++--
 generator/target/csharp/csharp.go     |  5 +++--
 generator/target/esm/esm.go           |  8 +++++---
 generator/target/golang/golang.go     |  4 ++--
 generator/target/java/java.go         |  6 ++++--
 generator/target/python/python.go     |  6 ++++--
 7 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index d6743be..808db61 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -78,3 +78,13 @@ func ConstantFieldLiteral(field *definition.ConstantField, bits uint64) *definit
 	}
 	return lit
 }
+
+// ConvertExpr converts an accessor expression to the type it is returned as or
+// assigned to, for languages that do not convert implicitly.
+func ConvertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
+	basic, ok := toType.(*definition.BasicType)
+	if !ok || basic.GetTypeID().IsBool() {
+		return expr
+	}
+	return &definition.CastExpr{ToType: basic, Expr1: expr}
+}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index a18bf88..a266e5a 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1565,7 +1565,7 @@ var customGetterTemplate = `
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $valueStr := printf "this.%s" $fieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr $valueStr -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr .MethodDef.MethodRetType) $valueStr -}}
                     // CustomGetter: {{ $fieldName }}
                     get: function () { return {{ $exprStr }}; },
 {{- end -}}
@@ -1575,6 +1575,7 @@ func (g CommonJSGenerator) GenerateCustomGetter(method *definition.GetMethod) (s
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
@@ -1592,7 +1593,7 @@ var customSetterTemplate = `
 {{- $paramTyStr := GenerateType .MethodDef.MethodParamType -}}
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := TocamelCase $field.FieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr "value" -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr $field.FieldType) "value" -}}
                     // CustomSetter: {{ $fieldName }}
                     set: function (value) { this.{{ $fieldName }} = {{ $exprStr }}; },
 {{- end -}}
@@ -1602,6 +1603,7 @@ func (g CommonJSGenerator) GenerateCustomSetter(method *definition.SetMethod) (s
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 4dfeb0f..ba84e45 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -984,11 +984,11 @@ var customGetterSetterTemplate = `
         {
             {{- if .GetMethod }}
             {{- $valueStr := printf "this.%s" $fieldName }}
-            {{- $exprStr := GenerateExpr .GetMethod.MethodExpr $valueStr }}
+            {{- $exprStr := GenerateExpr (ConvertExpr .GetMethod.MethodExpr .GetMethod.MethodRetType) $valueStr }}
             get => {{ $exprStr }};
             {{- end }}
             {{- if .SetMethod }}
-            {{- $exprStr := GenerateExpr .SetMethod.MethodExpr "value" }}
+            {{- $exprStr := GenerateExpr (ConvertExpr .SetMethod.MethodExpr $field.FieldType) "value" }}
             set => this.{{ $fieldName }} = {{ $exprStr }};
             {{- end }}
         }
@@ -1014,6 +1014,7 @@ func (g CSharpGenerator) GenerateCustomGetterSetter(group *util.OrderedMap[defin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 1a6a28c..e425298 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1,4 +1,4 @@
-﻿package esm
+package esm
 
 import (
 	"fmt"
@@ -1385,7 +1385,7 @@ var customGetterTemplate = `
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := TocamelCase .MethodDef.MethodName -}}
 {{- $valueStr := printf "this.%s" $fieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr $valueStr -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr .MethodDef.MethodRetType) $valueStr -}}
         get {{ $methodName }}() { return {{ $exprStr }}; }
 {{- end -}}
 `
@@ -1394,6 +1394,7 @@ func (g ESModuleGenerator) GenerateCustomGetter(method *definition.GetMethod) (s
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 	fieldData := map[string]any{
 		"MethodDef":  method,
@@ -1407,7 +1408,7 @@ var customSetterTemplate = `
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := TocamelCase .MethodDef.MethodName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr "value" -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr $field.FieldType) "value" -}}
         set {{ $methodName }}(value) { this.{{ $fieldName }} = {{ $exprStr }}; }
 {{- end -}}
 `
@@ -1416,6 +1417,7 @@ func (g ESModuleGenerator) GenerateCustomSetter(method *definition.SetMethod) (s
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 	fieldData := map[string]any{
 		"MethodDef":  method,
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 75460e8..4841280 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -979,7 +979,7 @@ func (this {{ $structName }}) Get{{ $methodName }}() {{ $retTyStr }} {
 func (g GoGenerator) GenerateCustomGetter(method *definition.GetMethod) (string, error) {
 	fieldName := util.ToPascalCase(method.MethodBelongs.FieldName)
 	valueStr := fmt.Sprintf("this.%s", fieldName)
-	exprStr, err := g.GenerateExpr(method.MethodExpr, valueStr)
+	exprStr, err := g.GenerateExpr(gen.ConvertExpr(method.MethodExpr, method.MethodRetType), valueStr)
 	if err != nil {
 		return "", err
 	}
@@ -1016,7 +1016,7 @@ func (this *{{ $structName }}) Set{{ $methodName }}(value {{ $paramTyStr }}) {
 `
 
 func (g GoGenerator) GenerateCustomSetter(method *definition.SetMethod) (string, error) {
-	exprStr, err := g.GenerateExpr(method.MethodExpr, "value")
+	exprStr, err := g.GenerateExpr(gen.ConvertExpr(method.MethodExpr, method.MethodBelongs.FieldType), "value")
 	if err != nil {
 		return "", err
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 2f34859..c98e0ce 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -929,7 +929,7 @@ var customGetterTemplate = `
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := ToPascalCase .MethodDef.MethodName -}}
 {{- $valueStr := printf "this.%s" $fieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr $valueStr -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr .MethodDef.MethodRetType) $valueStr -}}
     // CustomGetter: {{ $methodName }}
     public {{ $retTyStr }} get{{ $methodName }}() {
         return {{ $exprStr }};
@@ -941,6 +941,7 @@ func (g JavaGenerator) GenerateCustomGetter(method *definition.GetMethod) (strin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
@@ -959,7 +960,7 @@ var customSetterTemplate = `
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := ToPascalCase .MethodDef.MethodName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr "value" -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr $field.FieldType) "value" -}}
     // CustomSetter: {{ $methodName }}
     public void set{{ $methodName }}({{ $paramTyStr }} value) {
         this.{{ $fieldName }} = {{ $exprStr }};
@@ -971,6 +972,7 @@ func (g JavaGenerator) GenerateCustomSetter(method *definition.SetMethod) (strin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index c1b3485..c8551d3 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -733,7 +733,7 @@ var customGetterTemplate = `
 {{- $fieldName := Tosnake_case $field.FieldName -}}
 {{- $methodName := Tosnake_case .MethodDef.MethodName -}}
 {{- $valueStr := printf "self._%s" $fieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr $valueStr -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr .MethodDef.MethodRetType) $valueStr -}}
     # CustomGetter: {{ $methodName }}
     @property
     def {{ $methodName }}(self) -> {{ $retTyStr }}:
@@ -745,6 +745,7 @@ func (g PythonGenerator) GenerateCustomGetter(method *definition.GetMethod) (str
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
@@ -763,7 +764,7 @@ var customSetterTemplate = `
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := Tosnake_case $field.FieldName -}}
 {{- $methodName := Tosnake_case .MethodDef.MethodName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr "value" -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr $field.FieldType) "value" -}}
 {{- $methodGroup := .MethodDef.MethodBelongs.FieldMethods.MustGet .MethodDef.MethodName -}}
     # CustomSetter: {{ $methodName }}
     {{- if ne $methodGroup.Len 1 }}
@@ -783,6 +784,7 @@ func (g PythonGenerator) GenerateCustomSetter(method *definition.SetMethod) (str
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  gen.ConvertExpr,
 	}
 
 	fieldData := map[string]any{
-- 
2.43.0


From d09563f36d5555a34d5f48317f29272fd65776b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 43/45] fix: C# Equals and GetHashCode compare bytes fields by
 content and accept unset array items

---
 generator/target/csharp/csharp.go | 34 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index ba84e45..d69c09c 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -631,13 +631,29 @@ var structTemplate = `
             if (obj == null) return false;
             if (this.GetType() != obj.GetType()) return false;
             {{ $structDef.StructName }} other = ({{ $structDef.StructName }})obj;
+        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+                {{- if $memoryCopy }}
+            if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+                {{- else }}
+            if (!this.{{ $fieldName }}.Span.SequenceEqual(other.{{ $fieldName }}.Span)) return false;
+                {{- end }}
             {{- else if $field.FieldType.GetTypeID.IsArray }}
+                {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            if (this.{{ $fieldName }}.Length != other.{{ $fieldName }}.Length) return false;
+                    {{- if $memoryCopy }}
+            if (!this.{{ $fieldName }}.Zip(other.{{ $fieldName }}, (a, b) => a == null || b == null ? a == b : Enumerable.SequenceEqual(a, b)).All(eq => eq)) return false;
+                    {{- else }}
+            if (!this.{{ $fieldName }}.Zip(other.{{ $fieldName }}, (a, b) => a.Span.SequenceEqual(b.Span)).All(eq => eq)) return false;
+                    {{- end }}
+                {{- else }}
             if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+                {{- end }}
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -653,13 +669,17 @@ var structTemplate = `
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
-            {{- $isBasicOrEnum := or $field.FieldType.GetTypeID.IsBasic $field.FieldType.GetTypeID.IsEnum }}
-            {{- $isMemory := and $field.FieldType.GetTypeID.IsBytes ( not $memoryCopy ) }}
-            {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}
-            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
-            {{- else }}
-            result = result * 31 + {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }};
-            {{- end }}
+            {{- $isArray := $field.FieldType.GetTypeID.IsArray }}
+            {{- $elemType := $field.FieldType }}
+            {{- if $isArray }}{{ $elemType = $field.FieldType.ElementType }}{{ end }}
+            {{- $value := "v" }}
+            {{- if not $isArray }}{{ $value = printf "this.%s" $fieldName }}{{ end }}
+            {{- $isBasicOrEnum := or $elemType.GetTypeID.IsBasic $elemType.GetTypeID.IsEnum }}
+            {{- $isMemory := and $elemType.GetTypeID.IsBytes ( not $memoryCopy ) }}
+            {{- $hash := printf "%s.GetHashCode()" $value }}
+            {{- if $elemType.GetTypeID.IsBytes }}{{ $hash = printf "%s.ToArray().Aggregate(0, (h, b) => h * 31 + b)" $value }}{{ end }}
+            {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}{{ $hash = printf "(%s != null ? %s : 0)" $value $hash }}{{ end }}
+            result = result * 31 + {{ if $isArray }}(this.{{ $fieldName }} != null ? this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + {{ $hash }}) : 0){{ else }}{{ $hash }}{{ end }};
         {{- end }}
         {{- end }}
             return result;
-- 
2.43.0


From 0fd0081e6336ef62b02bab10ee79cf4095a1a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 44/45] fix: Java equals judges floats like hashCode does, so
 that equal objects have equal hash codes

---
 generator/target/java/java.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c98e0ce..53f7305 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -568,7 +568,9 @@ public final class {{ $structDef.StructName }} {
     {{- range $field := $structDef.StructFields.Values }}
     {{- if $field.GetFieldKind.IsNormal }}
         {{- $fieldName := TocamelCase $field.FieldName }}
-        {{- if $field.FieldType.GetTypeID.IsBasic }}
+        {{- if $field.FieldType.GetTypeID.IsFloat }}
+        if (!Objects.equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+        {{- else if $field.FieldType.GetTypeID.IsBasic }}
         if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
         {{- else if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-- 
2.43.0


From c50d98a3720284a3104a503bdd90b9d508e33b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 45/45] fix: float literals keep their value in generated code,
 inf and nan generate valid code

---
 generator/gen/gen_util.go             | 20 ++++++++++++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/esm/esm_decode.go    |  2 +-
 generator/target/golang/golang.go     |  6 +++++-
 generator/target/java/java.go         |  2 +-
 generator/target/kotlin/kotlin.go     | 12 ++++++------
 generator/target/python/python.go     |  2 +-
 10 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 808db61..4e03d58 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -3,6 +3,8 @@ package gen
 import (
 	"fmt"
 	"math"
+	"strconv"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
@@ -88,3 +90,21 @@ func ConvertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
 	}
 	return &definition.CastExpr{ToType: basic, Expr1: expr}
 }
+
+// FormatFloatLiteral returns the shortest decimal literal that denotes exactly
+// value. inf and nan are the expressions for infinity and not-a-number.
+func FormatFloatLiteral(value float64, inf string, nan string) string {
+	switch {
+	case math.IsNaN(value):
+		return nan
+	case math.IsInf(value, 1):
+		return inf
+	case math.IsInf(value, -1):
+		return "-" + inf
+	}
+	str := strconv.FormatFloat(value, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0"
+	}
+	return str
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 4842cc4..0211078 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3421,7 +3421,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "(1e+300 * 1e+300)", "(1e+300 * 1e+300 * 0.0)"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index a266e5a..737a321 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3851,7 +3851,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "Infinity", "NaN"), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 0d5d148..7adf003 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3697,7 +3697,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "(1e+300 * 1e+300)", "(1e+300 * 1e+300 * 0.0)"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index d69c09c..3489722 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3630,7 +3630,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "double.PositiveInfinity", "double.NaN"), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 121a817..c866dd5 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -1014,7 +1014,7 @@ func (g ESModuleLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g ESModuleLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%g", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "Infinity", "NaN"), nil
 }
 
 func (g ESModuleLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 4841280..5eb6409 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -2937,6 +2938,9 @@ func (g GoExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (st
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
+	if lit, ok := expr.ConstantValue.(*definition.FloatLiteral); ok && (math.IsInf(lit.FloatValue, 0) || math.IsNaN(lit.FloatValue)) {
+		g.GenState.UseMath = true
+	}
 	return g.AcceptLiteral(expr.ConstantValue, generator)
 }
 
@@ -3020,7 +3024,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "math.Inf(1)", "math.NaN()"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 53f7305..1fa9c06 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3367,7 +3367,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, "Double.POSITIVE_INFINITY", "Double.NaN"), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index c06c05d..32baa4f 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -2,6 +2,7 @@ package kotlin
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -620,14 +621,13 @@ func (g *KotlinGenerator) literalForType(lit definition.Literal, ty *definition.
 	case *definition.StringLiteral:
 		return strconv.Quote(v.StringValue), nil
 	case *definition.FloatLiteral:
-		s := strconv.FormatFloat(v.FloatValue, 'g', -1, 64)
-		if !strings.ContainsAny(s, ".eE") {
-			s += ".0"
-		}
 		if ty.GetTypeID() == definition.TypeID_Float32 {
-			s += "f"
+			if math.IsInf(v.FloatValue, 0) || math.IsNaN(v.FloatValue) {
+				return gen.FormatFloatLiteral(v.FloatValue, "Float.POSITIVE_INFINITY", "Float.NaN"), nil
+			}
+			return gen.FormatFloatLiteral(v.FloatValue, "", "") + "f", nil
 		}
-		return s, nil
+		return gen.FormatFloatLiteral(v.FloatValue, "Double.POSITIVE_INFINITY", "Double.NaN"), nil
 	case *definition.IntLiteral:
 		resolved := *v
 		if resolved.Base == definition.IntBaseAuto {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index c8551d3..2b9a9e7 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2601,7 +2601,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal.FloatValue, `float("inf")`, `float("nan")`), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0

