From 68bf35d2f710241f68efb78f66ed237249766165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:17 +0000
Subject: [PATCH 01/26] fix: Unmarshal returns a NotExist value instead of nil
 for empty input

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 41cfd4677330f85ff79344e79a567c667947f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:55 +0000
Subject: [PATCH 02/26] fix: refuse 20-digit integers greater than the uint64
 maximum

---
 unmarshal.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..73df692 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -822,11 +822,10 @@ func (it iter) numErrorf(offset int, f string, a ...any) error {
 }
 
 const (
-	uintMaxStr    = "18446744073709551615"
-	uintMaxDigits = 10000000000000000000
-	intMin        = -9223372036854775808
-	intMinStr     = "-9223372036854775808"
-	intMinAbs     = 9223372036854775808
+	uintMaxStr = "18446744073709551615"
+	intMin     = -9223372036854775808
+	intMinStr  = "-9223372036854775808"
+	intMinAbs  = 9223372036854775808
 )
 
 func (it iter) parseFloatResult(p pool, start, end int) (*V, error) {
@@ -853,7 +852,8 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		// same length, so a string comparison is a numeric comparison
+		if unsafe.BtoS(it[start:end]) > uintMaxStr {
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From 9eaf695aa450579f6ceb94304d19e0ca80252365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:29 +0000
Subject: [PATCH 03/26] fix: enforce the JSON grammar on the integer part of
 numbers

Texts like -01, 01.5, -.5 and 01e5 were accepted (and marshaled back as
invalid JSON), while valid floats such as 184467440737095516160.5 were
refused since leading zeros were told by the wrapped integer value.
---
 unmarshal.go | 50 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 73df692..b620138 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -687,6 +687,27 @@ func (it iter) parseNumber(
 	integer := uint64(0)
 	edgeFound := false
 
+	// digitAllowed tells whether a digit is legal at idx: the integer part of a
+	// JSON number should not have redundant leading zeros.
+	digitAllowed := func() bool {
+		if floated {
+			return true
+		}
+		first := offset
+		if negative {
+			first++
+		}
+		return idx == first || it[first] != '0'
+	}
+
+	// intPartGot tells whether there is at least one digit ahead of idx
+	intPartGot := func() bool {
+		if negative {
+			return idx > offset+1
+		}
+		return idx > offset
+	}
+
 	// len(it)-idx means remain bytes
 
 	for ; len(it)-idx > 0 && !edgeFound; idx++ {
@@ -697,24 +718,20 @@ func (it iter) parseNumber(
 			edgeFound = true
 
 		case '0':
-			if idx == offset {
-				// OK
-			} else if exponentGot {
-				// OK
-			} else if dotGot {
-				intAfterDotGot = true
-			} else if negative {
-				if integer == 0 && idx != offset+1 {
-					err = it.numErrorf(idx, "unexpected zero")
-					return
-				}
-			} else if integer == 0 {
+			if !digitAllowed() {
 				err = it.numErrorf(idx, "unexpected zero")
 				return
 			}
+			if dotGot && !exponentGot {
+				intAfterDotGot = true
+			}
 			integer *= 10
 
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
+			if !digitAllowed() {
+				err = it.numErrorf(idx, "non-zero integer should not start with zero")
+				return
+			}
 			if !floated {
 				integer = integer*10 + uint64(b) - '0'
 			} else if !exponentGot {
@@ -722,7 +739,7 @@ func (it iter) parseNumber(
 			}
 
 		case 'e', 'E':
-			if exponentGot {
+			if exponentGot || !intPartGot() {
 				err = it.numErrorf(idx, "unexpected exponent symbol")
 				return
 			}
@@ -750,7 +767,7 @@ func (it iter) parseNumber(
 			}
 
 		case '.':
-			if idx == offset || floated || exponentGot || dotGot {
+			if !intPartGot() || floated || exponentGot || dotGot {
 				err = it.numErrorf(idx, "unexpected dot symbol")
 				return
 			}
@@ -770,11 +787,6 @@ func (it iter) parseNumber(
 		}
 		v, err = it.parseFloatResult(p, offset, idx)
 	} else {
-		if integer > 0 && it[offset] == '0' {
-			err = it.numErrorf(offset, "non-zero integer should not start with zero")
-			return
-		}
-
 		firstB := it[offset]
 		if idx-offset == 1 {
 			if firstB >= '0' && firstB <= '9' {
-- 
2.43.0


From 40f1d9cfc836d4912c18f98be0e1eeca3ed7439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:34 +0000
Subject: [PATCH 04/26] fix: report NaN/Inf marshal errors raised by nested
 values

Errors of children were dropped, so {"a":NaN} was marshaled as {"a":}
without any error.
---
 marshal.go | 53 ++++++++++++++++++++++++++++++++++-------------------
 sort.go    | 18 ++++++++++++++----
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..06bed0e 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,20 +250,26 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) error {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		written, err := writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return false, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -280,8 +289,10 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	if err = marshalToBuffer(child, parentInfo, buf, opt); err != nil {
+		return false, err
+	}
+	return true, nil
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -291,10 +302,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -309,12 +320,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -322,4 +336,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 0ebfc8e..9657d5f 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sov)
 
@@ -195,8 +195,13 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -235,7 +240,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sssv)
 
@@ -243,8 +248,13 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 596eb36944bde28946e6f4d638dd94a8a04b6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 05/26] fix: keep the comma after an omitted null value when
 marshaling objects

---
 marshal.go | 2 +-
 sort.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 06bed0e..e53f32a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -260,7 +260,7 @@ func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) error
 		if err != nil {
 			return err
 		}
-		firstWritten = written
+		firstWritten = firstWritten || written
 	}
 	return nil
 }
diff --git a/sort.go b/sort.go
index 9657d5f..ff1252f 100644
--- a/sort.go
+++ b/sort.go
@@ -199,7 +199,7 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) e
 		if err != nil {
 			return err
 		}
-		firstWritten = written
+		firstWritten = firstWritten || written
 	}
 	return nil
 }
@@ -252,7 +252,7 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 		if err != nil {
 			return err
 		}
-		firstWritten = written
+		firstWritten = firstWritten || written
 	}
 	return nil
 }
-- 
2.43.0


From 9c0a2e75027ab9cd1b6dd84db84ebf8a71aede0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:24 +0000
Subject: [PATCH 06/26] fix: Append and Insert refuse children which could not
 be imported

Import errors were ignored by Append, and both of them accepted nil and
NotExist children, which left arrays that could not be marshaled. As a nil
child may come from nil marshalers in a slice, Import puts null there.
---
 import_export.go        |  3 +++
 insert_append_delete.go | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 724754e..8c6cc08 100644
--- a/import_export.go
+++ b/import_export.go
@@ -342,6 +342,9 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
+		if child == nil {
+			child = NewNull() // nil *V or nil marshalers
+		}
 		res.MustAppend(child).InTheEnd()
 	}
 
diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..28b1b6d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,7 +189,10 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -428,11 +434,17 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -478,9 +490,15 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From 30bbca2ba733f4e4ed51016420f5f5c32141135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 07/26] fix: Set refuses an out-of-range array index in the
 middle of a path

Only an existing index, or the length of the array, is legal there, just
like the last parameter. Others silently appended to the array.
---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6ff47bc 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From 17d7f59e4aa47ab5c45d6aa1415a308c67fde120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:33 +0000
Subject: [PATCH 08/26] fix: do not panic when reading a number from an empty
 or blank string

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index b620138..0804834 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -353,6 +353,9 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 // - [ECMA-404 The JSON Data Interchange Standard](https://www.json.org/json-en.html)
 func parseNumber(v *V, p pool) (err error) {
 	it := iter(v.srcByte)
+	if len(it) == 0 {
+		return errors.New("empty number text")
+	}
 
 	parsed, end, reachEnd, err := it.parseNumber(p, 0)
 	if err != nil {
-- 
2.43.0


From 34be728e33bf604424aa2dd109ce8a08bd04a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:38 +0000
Subject: [PATCH 09/26] fix: KeyPath.String panics when no default options have
 been set

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index ff1252f..5f7cb90 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From e63cd7e1ff6f2f17f98cccf94e23459906fbf29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:02 +0000
Subject: [PATCH 10/26] fix: compare +Inf, -Inf and NaN by their float values
 instead of as zero

---
 compare.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..5b0fb8e 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,6 +49,10 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -57,6 +62,10 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l >= r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -94,7 +103,17 @@ func (v *V) Equal(another *V) bool {
 	}
 }
 
+// isNonFinite tells whether a number value is +Inf, -Inf or NaN, which have no
+// decimal text.
+func isNonFinite(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
 func numberEqual(left, right *V) bool {
+	if isNonFinite(left) || isNonFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l == r || (math.IsNaN(l) && math.IsNaN(r))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 2f4c705cb766600a98e4cf894a495ec0518da5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 11/26] fix: tell floats created from Go floating numbers from
 integers

NewFloat64(1.5).IsFloat() was false, and IsInteger() was true.
---
 new.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/new.go b/new.go
index e2cb548..678c097 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -255,9 +256,13 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	v.num.i64 = int64(f)
 	v.num.u64 = uint64(f)
 
+	v.num.floated = true
+
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		// same as unmarshaling: a text without fraction and exponent is an integer
+		v.num.floated = strings.ContainsAny(s, ".eE")
 	}
 
 	return v
-- 
2.43.0


From 2dd384d9f1d05a8abf5e804926072b6de8f8ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 12/26] fix: GreaterThanInt64Max is false for numbers which are
 not integers

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index eb3faf7..df939eb 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -364,7 +364,7 @@ func (v *V) GreaterThanInt64Max() bool {
 	if v.valueType != Number {
 		return false
 	}
-	if v.num.negative {
+	if v.num.negative || v.num.floated {
 		return false
 	}
 	return v.num.u64 > 0x7fffffffffffffff
-- 
2.43.0


From 1664b8fa29734da40277cc98d969126388cfbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:44 +0000
Subject: [PATCH 13/26] fix: unsigned array indexes greater than the int
 maximum are out of range

They wrapped to negative ones, Get(uint64(math.MaxUint64)) returned the
last element.
---
 conv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..7826efe 100644
--- a/conv.go
+++ b/conv.go
@@ -142,7 +142,12 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		const maxInt = uint64(^uint(0) >> 1)
+		if u := value.Uint(); u < maxInt {
+			return int(u), nil
+		}
+		// should not be turned to a negative (backward) index
+		return int(maxInt), nil
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From 3204d1a6e712a426ac7d4415bfe797054945bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:49 +0000
Subject: [PATCH 14/26] fix: make SetDefaultMarshalOptions goroutine-safe as
 documented

---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..f125abc 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 163bff1..86ca7ee 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -225,7 +225,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From e313e0558bbff74424c5a7189989cb9f5173e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:11 +0000
Subject: [PATCH 15/26] fix: Import keeps elements of pointers, maps and
 interfaces as encoding/json does

The omitempty and string options of a field leaked into the elements it
holds: zero values behind pointers or in maps were lost. And nil marshalers
without omitempty are null instead of being dropped.
---
 import_export.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/import_export.go b/import_export.go
index 8c6cc08..279a671 100644
--- a/import_export.go
+++ b/import_export.go
@@ -61,6 +61,12 @@ func (e ext) shouldOmitEmpty() bool {
 	return e.omitempty || e.private
 }
 
+// forElement returns the ext for what a pointer, interface, array, slice or map
+// holds. Tag options of a field are for the field itself, not for its elements.
+func (e ext) forElement() ext {
+	return ext{ignoreOmitempty: e.ignoreOmitempty}
+}
+
 // validateValAndReturnParser 检查入参合法性并返回相应的处理函数
 func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu parserFunc, err error) {
 	out = v
@@ -104,7 +110,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parseArrayValue
 
 	case reflect.Interface:
-		return validateValAndReturnParser(v.Elem(), ex)
+		fu = parseInterfaceValue
 
 	case reflect.Map:
 		switch v.Type().Key().Kind() {
@@ -192,7 +198,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +206,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,11 +252,11 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-		return NewNull(), nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalText()
 	if err != nil {
@@ -328,7 +334,7 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
-	ex.omitempty = false
+	ex = ex.forElement()
 	res := NewArray()
 	le := v.Len()
 
@@ -342,9 +348,6 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
-		if child == nil {
-			child = NewNull() // nil *V or nil marshalers
-		}
 		res.MustAppend(child).InTheEnd()
 	}
 
@@ -364,6 +367,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		return NewObject(), nil
 	}
 
+	ex = ex.forElement()
 	res := NewObject()
 
 	for _, kk := range keys {
@@ -405,6 +409,22 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 
+	elemEx := ex.forElement()
+	elemEx.toString = ex.toString
+	v, fu, err := validateValAndReturnParser(v.Elem(), elemEx)
+	if err != nil {
+		return nil, err
+	}
+
+	return fu(v, elemEx)
+}
+
+func parseInterfaceValue(v reflect.Value, ex ext) (*V, error) {
+	if v.IsNil() {
+		return parseNullValue(v, ex)
+	}
+
+	ex = ex.forElement()
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b558688f5a2fa2c614dd302898bfebadf464a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 16/26] fix: Import supports the string tag option on string
 fields

---
 import_export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import_export.go b/import_export.go
index 279a671..c4511a5 100644
--- a/import_export.go
+++ b/import_export.go
@@ -458,6 +458,10 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	if str == "" && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
+	if ex.toString {
+		b, _ := json.Marshal(str)
+		return NewString(string(b)), nil
+	}
 
 	return NewString(str), nil
 }
-- 
2.43.0


From 52d6e2255c7ba856e9aa015d891537fb1b19b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:19 +0000
Subject: [PATCH 17/26] fix: Import resolves embedded fields as encoding/json
 does

A field of the outer struct hides promoted ones with the same name no matter
which one is declared first, only embedded structs without a tag name are
promoted (tagged ones and maps were flattened), and nil embedded structs
are omitted.
---
 import_export.go | 90 ++++++++++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 38 deletions(-)

diff --git a/import_export.go b/import_export.go
index c4511a5..b9fa000 100644
--- a/import_export.go
+++ b/import_export.go
@@ -47,9 +47,6 @@ type ext struct {
 	omitempty bool
 	toString  bool
 
-	// revert of isExported
-	private bool
-
 	// extended jsonvalue options
 	ignoreOmitempty bool
 }
@@ -58,7 +55,7 @@ func (e ext) shouldOmitEmpty() bool {
 	if e.ignoreOmitempty {
 		return false
 	}
-	return e.omitempty || e.private
+	return e.omitempty
 }
 
 // forElement returns the ext for what a pointer, interface, array, slice or map
@@ -472,6 +469,15 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 
 	res := NewObject()
 
+	// fields of the struct itself hide those promoted from embedded ones
+	ownFields := make(map[string]struct{}, numField)
+	for i := 0; i < numField; i++ {
+		if tt := t.Field(i); !isPromotingField(tt) && isExportedField(tt) {
+			name, _ := readFieldTag(tt, "json", ex)
+			ownFields[name] = struct{}{}
+		}
+	}
+
 	for i := 0; i < numField; i++ {
 		vv := v.Field(i)
 		tt := t.Field(i)
@@ -482,6 +488,9 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 		}
 
 		for i, k := range keys {
+			if _, own := ownFields[k]; own && isPromotingField(tt) {
+				continue
+			}
 			v := children[i]
 			res.MustSet(v).At(k)
 		}
@@ -501,11 +510,11 @@ func parseStructFieldValue(
 	fv reflect.Value, ft reflect.StructField, parentEx ext,
 ) (keys []string, children []*V, err error) {
 
-	if ft.Anonymous {
+	if isPromotingField(ft) {
 		return parseStructAnonymousFieldValue(fv, ft, parentEx)
 	}
 
-	if !fv.CanInterface() {
+	if !isExportedField(ft) {
 		return
 	}
 
@@ -532,19 +541,17 @@ func parseStructFieldValue(
 	return nil, nil, nil
 }
 
+// parseStructAnonymousFieldValue parses an embedded struct which promotes its fields.
 func parseStructAnonymousFieldValue(
 	fv reflect.Value, ft reflect.StructField, parentEx ext,
 ) (keys []string, children []*V, err error) {
 
-	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
+	fieldName, ex := readFieldTag(ft, "json", parentEx)
 	if fieldName == "-" {
 		return nil, nil, nil
 	}
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if ex.shouldOmitEmpty() {
-			return nil, nil, nil
-		}
-		return []string{fieldName}, []*V{NewNull()}, nil
+		return nil, nil, nil
 	}
 
 	fv, fu, err := validateValAndReturnParser(fv, ex)
@@ -561,25 +568,45 @@ func parseStructAnonymousFieldValue(
 	if child == nil {
 		return nil, nil, nil
 	}
-
-	switch child.ValueType() {
-	default: // invalid
-		return nil, nil, nil
-
-	case String, Number, Boolean, Null, Array:
-		if ex.private {
+	if child.ValueType() != Object {
+		// an embedded marshaler
+		if !isExportedField(ft) {
 			return nil, nil, nil
 		}
 		return []string{fieldName}, []*V{child}, nil
+	}
 
-	case Object:
-		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
-			keys = append(keys, k)
-			children = append(children, c)
-			return true
-		})
-		return
+	child.RangeObjectsBySetSequence(func(k string, c *V) bool {
+		keys = append(keys, k)
+		children = append(children, c)
+		return true
+	})
+	return
+}
+
+// isPromotingField tells whether a field is an embedded struct (or a pointer to it)
+// without a name in its tag, fields of which are promoted to the outer struct.
+func isPromotingField(ft reflect.StructField) bool {
+	if !ft.Anonymous {
+		return false
+	}
+	if name := strings.Split(ft.Tag.Get("json"), ",")[0]; strings.TrimSpace(name) != "" {
+		return false
+	}
+	return isStructOrPtr(ft.Type)
+}
+
+func isStructOrPtr(t reflect.Type) bool {
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
 	}
+	return t.Kind() == reflect.Struct
+}
+
+// isExportedField tells whether a field is exported. Same as encoding/json, embedded
+// structs are always treated as exported.
+func isExportedField(ft reflect.StructField) bool {
+	return ft.PkgPath == "" || (ft.Anonymous && isStructOrPtr(ft.Type))
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
@@ -610,16 +637,3 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	ex.ignoreOmitempty = parentEx.ignoreOmitempty
 	return
 }
-
-func readAnonymousFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-	field, ex = readFieldTag(ft, name, parentEx)
-
-	firstChar := ft.Name[0]
-	if firstChar >= 'A' && firstChar <= 'Z' {
-		ex.private = false
-	} else {
-		ex.private = true
-	}
-
-	return
-}
-- 
2.43.0


From 4a6a8332d6dffb1814310a0c2ef53c6b86eca0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:36 +0000
Subject: [PATCH 18/26] fix: Import encodes defined byte slices and omits empty
 arrays as encoding/json does

---
 import_export.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index b9fa000..6116158 100644
--- a/import_export.go
+++ b/import_export.go
@@ -125,7 +125,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parsePtrValue
 
 	case reflect.Slice:
-		if v.Type() == reflect.TypeOf([]byte{}) {
+		if isBytesType(v.Type()) {
 			fu = parseBytesValue
 		} else {
 			fu = parseSliceValue
@@ -331,9 +331,12 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
+	le := v.Len()
+	if le == 0 && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
 	ex = ex.forElement()
 	res := NewArray()
-	le := v.Len()
 
 	for i := 0; i < le; i++ {
 		vv := v.Index(i)
@@ -441,8 +444,18 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 	return parseArrayValue(v, ex)
 }
 
+// isBytesType tells whether a slice type should be encoded as base64 string, including
+// defined types such as "type Data []byte".
+func isBytesType(t reflect.Type) bool {
+	if t.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	p := reflect.PtrTo(t.Elem())
+	return !p.Implements(internal.types.JSONMarshaler) && !p.Implements(internal.types.TextMarshaler)
+}
+
 func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
-	b := v.Interface().([]byte)
+	b := v.Bytes()
 	if len(b) == 0 && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
-- 
2.43.0


From 3183087906eb04d914363f533a0f2ab11e2354b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:39 +0000
Subject: [PATCH 19/26] fix: beta.Contains does not panic with a nil *V as the
 subset

---
 beta/contain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beta/contain.go b/beta/contain.go
index ae3b374..6daa184 100644
--- a/beta/contain.go
+++ b/beta/contain.go
@@ -23,6 +23,9 @@ func Contains(v *jsonvalue.V, sub any, inPath ...any) bool {
 			return false
 		}
 	}
+	if subV == nil {
+		return false
+	}
 	if len(inPath) > 0 {
 		v, err = v.Get(inPath[0], inPath[1:]...)
 		if err != nil {
-- 
2.43.0


From 4b05faba764aca2573c361e597e08c908cc85498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 20/26] fix: floats beyond the integer range are written so
 that they can be parsed back

---
 new.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/new.go b/new.go
index 678c097..bf99f67 100644
--- a/new.go
+++ b/new.go
@@ -180,11 +180,7 @@ func NewArray() *V {
 //
 // NewFloat64 根据指定的 flout64 类型返回一个初始化好的数字类型的 jsonvalue 值。数字转出来的字符串格式参照 encoding/json 中的逻辑。
 func NewFloat64(f float64) *V {
-	abs := math.Abs(f)
-	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
-		format = byte('e')
-	}
+	format := floatFormat(f)
 
 	return newFloat64f(globalPool{}, f, format, -1, 64)
 }
@@ -207,11 +203,7 @@ func NewFloat64f(f float64, format byte, prec int) *V {
 // NewFloat32 根据指定的 float32 类型返回一个初始化好的数字类型的 jsonvalue 值。数字转出来的字符串格式参照 encoding/json 中的逻辑。
 func NewFloat32(f float32) *V {
 	f64 := float64(f)
-	abs := math.Abs(f64)
-	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
-		format = byte('e')
-	}
+	format := floatFormat(f64)
 
 	return newFloat64f(globalPool{}, f64, format, -1, 32)
 }
@@ -268,6 +260,16 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	return v
 }
 
+// floatFormat chooses the format of a float. Values which would look like an
+// integer out of the range of int64 and uint64 are written with an exponent,
+// because Unmarshal refuses such integers.
+func floatFormat(f float64) byte {
+	if abs := math.Abs(f); abs < 1e-6 || f <= -(1<<63) || f >= 1<<64 {
+		return 'e'
+	}
+	return 'f'
+}
+
 func validateFloat64Format(f byte) error {
 	switch f {
 	case 'f', 'E', 'e', 'G', 'g':
-- 
2.43.0


From 988dd7bab47f480a7b6ef8333c8a7eb60da821cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 21/26] fix: compare numbers with long exponents exactly

---
 compare.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/compare.go b/compare.go
index 5b0fb8e..a5395c1 100644
--- a/compare.go
+++ b/compare.go
@@ -3,6 +3,8 @@ package jsonvalue
 import (
 	"bytes"
 	"math"
+	"math/big"
+	"strings"
 
 	"github.com/shopspring/decimal"
 )
@@ -53,6 +55,9 @@ func greaterThan(left, right *V) (result, ok bool) {
 		l, r := left.num.f64, right.num.f64
 		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
 	}
+	if res, ok := compareLongExponent(left.srcByte, right.srcByte); ok {
+		return res > 0, true
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -69,6 +74,9 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
+	if res, ok := compareLongExponent(left.srcByte, right.srcByte); ok {
+		return res >= 0, true
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThanOrEqual(a2), true
@@ -118,6 +126,9 @@ func numberEqual(left, right *V) bool {
 		return true
 	}
 
+	if res, ok := compareLongExponent(left.srcByte, right.srcByte); ok {
+		return res == 0
+	}
 	d1, _ := decimal.NewFromString(string(left.srcByte))
 	d2, _ := decimal.NewFromString(string(right.srcByte))
 	return d1.Equal(d2)
@@ -153,3 +164,64 @@ func arrayEqual(left, right *V) bool {
 	}
 	return true
 }
+
+// compareLongExponent compares two number literals if any of their exponents has
+// more digits than any float64 needs. Package decimal does not support exponents
+// which overflow int32, and has to multiply by the power of ten to align others.
+func compareLongExponent(left, right []byte) (res int, ok bool) {
+	l, lLong := splitNumber(left)
+	r, rLong := splitNumber(right)
+	if !lLong && !rLong {
+		return 0, false
+	}
+	if l.sign != r.sign {
+		return l.sign - r.sign, true
+	}
+	if l.sign == 0 {
+		return 0, true
+	}
+	if res = l.exp.Cmp(r.exp); res == 0 {
+		res = strings.Compare(l.digits, r.digits)
+	}
+	return res * l.sign, true
+}
+
+// numberParts represents sign * 0.digits * 10^exp. There are no leading or trailing
+// zeros in digits.
+type numberParts struct {
+	sign   int
+	digits string
+	exp    *big.Int
+}
+
+func splitNumber(literal []byte) (p numberParts, longExponent bool) {
+	const maxExponentDigits = 4
+
+	mantissa := strings.ToLower(string(literal))
+	p.exp = &big.Int{}
+	if i := strings.IndexByte(mantissa, 'e'); i >= 0 {
+		e := mantissa[i+1:]
+		mantissa = mantissa[:i]
+		longExponent = len(e) > maxExponentDigits
+		p.exp.SetString(e, 10)
+	}
+
+	p.sign = 1
+	if strings.HasPrefix(mantissa, "-") {
+		p.sign = -1
+		mantissa = mantissa[1:]
+	}
+
+	intLen := len(mantissa)
+	if i := strings.IndexByte(mantissa, '.'); i >= 0 {
+		intLen = i
+		mantissa = mantissa[:i] + mantissa[i+1:]
+	}
+	p.digits = strings.TrimLeft(mantissa, "0")
+	p.exp.Add(p.exp, big.NewInt(int64(intLen-len(mantissa)+len(p.digits))))
+	p.digits = strings.TrimRight(p.digits, "0")
+	if p.digits == "" {
+		p.sign = 0
+	}
+	return p, longExponent
+}
-- 
2.43.0


From 52aa18d83b16b1ff12265f2a1a156a9f15a5633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 22/26] fix: vertical tabs are escaped in marshaled strings

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 86ca7ee..c1155b1 100644
--- a/option.go
+++ b/option.go
@@ -579,6 +579,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	o.asciiCharEscapingFunc['\v'] = escAsciiControlChar // has no short escape in JSON
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From 7d4548b6fd151034bd144933203e20c1121f42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 23/26] fix: Import keeps a field tagged "-," under the name
 "-" as encoding/json does

---
 import_export.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/import_export.go b/import_export.go
index 6116158..38565e5 100644
--- a/import_export.go
+++ b/import_export.go
@@ -485,7 +485,7 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 	// fields of the struct itself hide those promoted from embedded ones
 	ownFields := make(map[string]struct{}, numField)
 	for i := 0; i < numField; i++ {
-		if tt := t.Field(i); !isPromotingField(tt) && isExportedField(tt) {
+		if tt := t.Field(i); !isPromotingField(tt) && isExportedField(tt) && !isIgnoredField(tt) {
 			name, _ := readFieldTag(tt, "json", ex)
 			ownFields[name] = struct{}{}
 		}
@@ -531,10 +531,10 @@ func parseStructFieldValue(
 		return
 	}
 
-	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if isIgnoredField(ft) {
 		return
 	}
+	fieldName, ex := readFieldTag(ft, "json", parentEx)
 
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
@@ -559,10 +559,10 @@ func parseStructAnonymousFieldValue(
 	fv reflect.Value, ft reflect.StructField, parentEx ext,
 ) (keys []string, children []*V, err error) {
 
-	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if isIgnoredField(ft) {
 		return nil, nil, nil
 	}
+	fieldName, ex := readFieldTag(ft, "json", parentEx)
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
 		return nil, nil, nil
 	}
@@ -609,6 +609,12 @@ func isPromotingField(ft reflect.StructField) bool {
 	return isStructOrPtr(ft.Type)
 }
 
+// isIgnoredField tells whether a field is tagged as "-". Same as encoding/json, tag "-,"
+// is for a field named "-".
+func isIgnoredField(ft reflect.StructField) bool {
+	return strings.TrimSpace(ft.Tag.Get("json")) == "-"
+}
+
 func isStructOrPtr(t reflect.Type) bool {
 	if t.Kind() == reflect.Ptr {
 		t = t.Elem()
-- 
2.43.0


From 6e9418d014eaf4745e8c3e36fc3b50d00640069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:19 +0000
Subject: [PATCH 24/26] fix: the "string" tag option in Import sees through one
 pointer level only

---
 import_export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 38565e5..e164cd2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -410,7 +410,8 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	}
 
 	elemEx := ex.forElement()
-	elemEx.toString = ex.toString
+	// same as encoding/json, option "string" sees through one pointer only
+	elemEx.toString = ex.toString && v.Type().Elem().Kind() != reflect.Ptr
 	v, fu, err := validateValAndReturnParser(v.Elem(), elemEx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e3b1c9ff1aecf76ac8ece97cd9e09ca2fe006943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 25/26] fix: keep the predicted size per value within its 32
 bits

The root of a text that is a string, boolean or null is not counted as a
value, so after 4 GiB of such texts the average no longer fitted into the
packed statistics word, and a later rollover could make it zero: every
following parse panicked with an integer division by zero.
---
 jsonvalue_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f125abc..6f3e110 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -59,6 +59,9 @@ func internalAddPredictSizePerValue(total, num int) {
 	}
 
 	per := nextTotal / nextNum
+	if per > 0x7FFFFFFF {
+		per = 0x7FFFFFFF // it has to fit in the upper 32 bits
+	}
 	atomic.StoreUint64(&internal.predict.bytesPerValue, per)
 	atomic.StoreUint64(&internal.predict.calcStorage, (per<<32)+1)
 }
-- 
2.43.0


From f803c1724c4559bfdc2c2af7c19f59a2b8577da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 26/26] fix: keep counting the set sequence past 32 bits

After 2^32 sets on one object the sequence number wrapped to zero, and keys
set later were listed before older ones by OptSetSequence and
RangeObjectsBySetSequence.
---
 iteration.go | 2 +-
 jsonvalue.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/iteration.go b/iteration.go
index ca182a1..8ecac04 100644
--- a/iteration.go
+++ b/iteration.go
@@ -52,7 +52,7 @@ func (v *V) RangeObjectsBySetSequence(callback func(k string, v *V) bool) {
 
 	type keysAndID struct {
 		k  string
-		id uint32
+		id uint64
 		v  *V
 	}
 
diff --git a/jsonvalue.go b/jsonvalue.go
index df939eb..121eecb 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -119,12 +119,12 @@ type num struct {
 }
 
 type childWithProperty struct {
-	id uint32
+	id uint64
 	v  *V
 }
 
 type children struct {
-	incrID uint32
+	incrID uint64
 	arr    []*V
 	object map[string]childWithProperty
 
-- 
2.43.0

