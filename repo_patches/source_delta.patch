From 5b689edd488ae608f3b3577ee696ef96d103979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/52] fix: do not panic when parsing an empty unquoted token

Parsing "[,]", "," or {"a":} indexed the first byte of an empty token.
The code below already treats the empty token as null.
---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..cb4f20a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From 13f43a6a11b90183a72385f94d0774bf4946ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 02/52] fix: report an error for a node id that is not an
 integer

Parsing {"___jnid_":"x"} panicked on an unchecked type assertion.
---
 jsonutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index cb4f20a..7cf244e 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			nodeVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(nodeVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
-- 
2.43.0


From 8c7f474e25011679b54298016f77cb2935c1ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/52] fix: report an error for duplicate node ids instead of
 panicking

Parsing [{"___jnid_":1},{"___jnid_":1}] panicked in saveNode.
---
 jsonutils.go     | 5 ++++-
 parse_session.go | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 7cf244e..09e4186 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -561,7 +561,10 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			e = s.saveNode(nodeId, this)
+			if e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..a0fdd83 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrDuplicateId, "node id %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From 4b50c7a3914eb16477caa0387f4977453072a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 04/52] fix: reject arrays and objects truncated after "[", "{"
 or ","

The parse loops left at the end of input without having seen the closing
bracket, so "[1," and "{" parsed as complete documents.
---
 jsonutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 09e4186..8886033 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -498,6 +498,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -552,6 +555,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 788724e3b5a4582daf0951bd6f360b60c76f8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 05/52] fix: reject a quoted string without its closing quote

A top-level "abc without the closing quote parsed as the string abc.
---
 jsonutils.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 8886033..6298a7f 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -167,7 +167,6 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runen     int
 		i         = offset
 	)
-ret:
 	for i < len(str) {
 		switch str[i] {
 		case '\\':
@@ -223,14 +222,13 @@ ret:
 				return "", i, NewJSONError(str, i, "Incomplete escape")
 			}
 		case quotec:
-			i++
-			break ret
+			return string(buffer), i + 1, nil
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
-	return string(buffer), i, nil
+	return "", i, NewJSONError(str, i, "Truncated")
 }
 
 func parseString(str []byte, offset int) (string, bool, int, error) {
-- 
2.43.0


From 2d49df1154d1d8688a9655061931691f0ffd43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 06/52] fix: decode \uXXXX\uXXXX surrogate pairs as one rune

Each half was decoded on its own, so every escaped character outside the
basic multilingual plane became two U+FFFD.
---
 jsonutils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 6298a7f..705f4d5 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -182,9 +183,17 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 <= len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// a \uXXXX\uXXXX surrogate pair encodes a single rune
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if dec := utf16.DecodeRune(r, r2); e == nil && dec != utf8.RuneError {
+							r = dec
+							i += 6
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From 8d64bab38e8280107218610c1acfba30b1209540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/52] fix: escape dict keys in PrettyString

A key with a quote, a backslash or a control character made the output
invalid JSON.
---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 705f4d5..55e9e74 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -611,9 +611,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From 88f21fbc16542004c0ca145a11c0c8612d9c1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 08/52] fix: keep the node id in PrettyString

Back references in the pretty form referred to a node id that the pretty
form left out.
---
 jsonutils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 55e9e74..13e3a0b 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -602,6 +602,15 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString("  ")
+		buffer.WriteString(quoteString(jsonPointerKey))
+		buffer.WriteString(": ")
+		buffer.WriteString(strconv.Itoa(this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -624,7 +633,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From 56f95554310d2ac0557d8b6d7a2206821c1671b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 09/52] fix: do not write to JSONFloat in String

String filled in the bit size of a parsed float, a data race between
concurrent readers of one document.
---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 7aee35fb272a18c9007305e0e22d7159d6ef70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 10/52] fix: marshal values of named bool types

type Flag bool panicked on an unchecked type assertion.
---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 8b5c950733bdb0656dfc9d3a8994e6f858ca7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/52] fix: unmarshal booleans and floats into unsigned
 integers

SetInt on an unsigned value panics.
---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..f060874 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -182,13 +182,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -270,9 +275,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From 663f41b319ce6a4b908cb3f3404da059a9d775b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 12/52] fix: keep the tristate value set by Unmarshal

The value was overwritten right away by the generic string case, which left
a TriState of "1" or "yes" that is neither true, false nor none.
---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index f060874..a227182 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -114,6 +114,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -180,6 +181,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -273,6 +275,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -367,6 +370,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From cfce25c0c09f24e2d5865e823d3a625f71f742cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 13/52] fix: store scalars unmarshalled into JSON value types

Unmarshalling into a JSONInt, JSONString, JSONBool or JSONFloat value
modified a copy and left the target unchanged without an error.
---
 unmarshal.go | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index a227182..3d841bc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -86,15 +86,13 @@ func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value)
 func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%d", this.data)}))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -153,15 +151,13 @@ func (this *JSONBool) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(JSONString{data: strconv.FormatBool(this.data)}))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -230,15 +226,13 @@ func (this *JSONFloat) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONFloatType:
-		json := val.Interface().(JSONFloat)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -251,8 +245,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return nil
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
 		return nil
 	case JSONIntPtrType:
 		json := val.Interface().(*JSONInt)
@@ -264,8 +257,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(JSONBool{data: int(this.data) != 0}))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -315,8 +307,7 @@ func (this *JSONString) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -335,13 +326,14 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(tm))
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
+		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
-			json.data = true
+			data = true
 		default:
-			json.data = false
+			data = false
 		}
+		val.Set(reflect.ValueOf(JSONBool{data: data}))
 		return nil
 	case JSONBoolPtrType:
 		json := val.Interface().(*JSONBool)
-- 
2.43.0


From 68c48f2d4fc1120c765f2efe785016d014d2fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 14/52] fix: do not overwrite a shared node in Unmarshal

Unmarshalling a scalar of another type into a *JSONString, *JSONInt or
*JSONBool wrote through the pointer the target already held. That node may
be JSONTrue or part of another document (an earlier Unmarshal stores the
source node itself), so unrelated documents changed. Store a new node.
---
 unmarshal.go | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 3d841bc..df4fe15 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -95,14 +95,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%d", this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -160,14 +153,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(JSONString{data: strconv.FormatBool(this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -235,26 +221,13 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
 		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		val.Set(reflect.ValueOf(JSONBool{data: int(this.data) != 0}))
@@ -336,7 +309,6 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(JSONBool{data: data}))
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
 		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
@@ -344,11 +316,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			data = false
 		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(&JSONBool{data: data}))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
 		JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
-- 
2.43.0


From 5347804ee6c11c71333efd14922ff129e2f0a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/52] fix: unmarshal JSONInt, JSONFloat and JSONBool
 documents

They inherited Unmarshal from the null value, so that
NewInt(5).Unmarshal(&i) reset i to zero and reported success.
---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index df4fe15..c1dccdb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From d50691edb343630c40108142515628ba94f3f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 16/52] fix: terminate on a deprecated-by chain that leads into
 a loop

The loop was only detected when it came back to the first field, so
a -> b -> c -> b made Marshal spin forever.
---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6679e59..9a03f52 100644
--- a/marshal.go
+++ b/marshal.go
@@ -141,9 +141,11 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				visited[key] = true
+				if visited[okey] {
 					// loop detected
 					findLoop = true
 					break
-- 
2.43.0


From 0ada19c2ab3c4d377bd0f1137acce1f8628e69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 17/52] fix: accept query string keys with non-canonical
 numbers

A segment such as 01 or +1 was normalized before the value was looked up
by the key text, so ParseQueryString("a.01=x") failed.
---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..50cf533 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || strconv.FormatInt(num, 10) != str {
+		// only a canonical number converts back to the same text
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From 318a5cbede2b82f372be185491f9bb916013de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 18/52] fix: keep null in DeepCopy

The copy of a null was another object than JSONNull, which is how null is
recognized: CheckRequiredFields accepted it, Add refused to replace it and
GetArrayOfPrefix did not stop at it.
---
 clone.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..bceed8c 100644
--- a/clone.go
+++ b/clone.go
@@ -116,8 +116,8 @@ func DeepCopy(obj JSONObject) JSONObject {
 		}
 		return vc
 	case *JSONValue:
-		vc := *v
-		return &vc
+		// null is always compared with the shared JSONNull
+		return JSONNull
 	}
 	return nil
 }
-- 
2.43.0


From 72ba1954f934f67f83b5107fb52959afe1877a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 19/52] fix: copy node ids and references in DeepCopy

A reference was copied as nil, so that printing the copy of a document with
references panicked, and the node ids were lost.
---
 clone.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index bceed8c..e310dba 100644
--- a/clone.go
+++ b/clone.go
@@ -81,7 +81,27 @@ func (this *JSONDict) DeepCopy() interface{} {
 	return DeepCopy(this)
 }
 
+// sDeepCopySession tracks the copied nodes and the back references to them
+type sDeepCopySession struct {
+	nodes    map[JSONObject]JSONObject
+	pointers []*sJSONPointer
+}
+
 func DeepCopy(obj JSONObject) JSONObject {
+	s := &sDeepCopySession{
+		nodes: make(map[JSONObject]JSONObject),
+	}
+	ret := s.deepCopy(obj)
+	// let the copied references refer to the copied nodes
+	for _, ptr := range s.pointers {
+		if node, ok := s.nodes[ptr.node]; ok {
+			ptr.node = node
+		}
+	}
+	return ret
+}
+
+func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,19 +122,27 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := s.deepCopy(elem)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
 		vc := NewDict()
+		vc.nodeId = v.nodeId
+		if v.nodeId > 0 {
+			s.nodes[v] = vc
+		}
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := s.deepCopy(mv)
 			vc.Set(mk, mvc)
 		}
 		return vc
+	case *sJSONPointer:
+		vc := *v
+		s.pointers = append(s.pointers, &vc)
+		return &vc
 	case *JSONValue:
 		// null is always compared with the shared JSONNull
 		return JSONNull
-- 
2.43.0


From d3c6826c8802bf8e7beaf0d8ed6266d16b002f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 20/52] fix: do not panic when a reference is unmarshalled

References met before their node were set to a pointer to the pointer of the
node, and references into a field of another type were set unchecked. Both
panicked in reflect. Resolve to the pointer to the value itself and report
ErrTypeMismatch for the latter.
---
 unmarshal.go         |  8 ++++++--
 unmarshal_session.go | 25 ++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index c1dccdb..0883d70 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -457,8 +457,12 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr && val.Kind() != reflect.Interface {
+		// references are set to the pointer to the value itself
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..5653ec8 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -34,7 +36,15 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
+func setNodeValue(target, nodeValue reflect.Value) error {
+	if !target.CanSet() || !nodeValue.Type().AssignableTo(target.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "reference of %s vs. %s", nodeValue.Type(), target.Type())
+	}
+	target.Set(nodeValue)
+	return nil
+}
+
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
@@ -43,16 +53,21 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
 	} else {
 		nv.nodeValue = val
 		nv.nodeValueSet = true
-		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
-		}
+		targetValues := nv.targetValues
 		nv.targetValues = nil
+		for i := range targetValues {
+			err := setNodeValue(targetValues[i], val)
+			if err != nil {
+				return err
+			}
+		}
 	}
+	return nil
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
-		val.Set(nv.nodeValue)
+		return setNodeValue(val, nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
 	} else {
-- 
2.43.0


From e13c58778334228a4feeeb97374e8e914a246d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 21/52] fix: keep references to later nodes in map values

A map holds a copy of the value, so a reference resolved after the value was
stored was lost. Store such values again at the end.
---
 unmarshal.go         |  7 +++++++
 unmarshal_session.go | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 0883d70..810b50b 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -77,6 +77,7 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	s := newJsonUnmarshalSession()
 	value := reflect.ValueOf(o)
 	err := jo.unmarshalValue(s, reflect.Indirect(value))
+	s.finish()
 	if err != nil {
 		return errors.Wrap(err, "jo.unmarshalValue")
 	}
@@ -556,6 +557,12 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
 		val.SetMapIndex(keyVal, valVal)
+		if s.unresolved > 0 {
+			// the map holds a copy of valVal, store it again when it is complete
+			s.mapUpdates = append(s.mapUpdates, func() {
+				val.SetMapIndex(keyVal, valVal)
+			})
+		}
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 5653ec8..0772463 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -28,6 +28,10 @@ type sJsonNodeValues struct {
 
 type sJsonUnmarshalSession struct {
 	objectMap map[int]*sJsonNodeValues
+	// unresolved counts the nodes that are referenced but not yet known
+	unresolved int
+	// mapUpdates stores map values again once all references are resolved
+	mapUpdates []func()
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -51,6 +55,9 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) err
 			nodeValueSet: true,
 		}
 	} else {
+		if !nv.nodeValueSet {
+			s.unresolved--
+		}
 		nv.nodeValue = val
 		nv.nodeValueSet = true
 		targetValues := nv.targetValues
@@ -71,6 +78,7 @@ func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) e
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
 	} else {
+		s.unresolved++
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValueSet: false,
 			targetValues: []reflect.Value{
@@ -80,3 +88,10 @@ func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) e
 	}
 	return nil
 }
+
+func (s *sJsonUnmarshalSession) finish() {
+	for _, update := range s.mapUpdates {
+		update()
+	}
+	s.mapUpdates = nil
+}
-- 
2.43.0


From 021d8f17c0b606d3f4c1bf7cf6bffb571fcf9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 22/52] fix: report an error for interface targets that cannot
 hold the value

Unmarshalling a scalar or an array into a non-empty interface, for example a
field of type error, panicked in reflect.
---
 unmarshal.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 810b50b..fcbb183 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -84,6 +84,14 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	return nil
 }
 
+func setInterfaceValue(val, data reflect.Value) error {
+	if !data.Type().AssignableTo(val.Type()) {
+		return errors.Wrapf(ErrInterfaceUnsupported, "%s vs. %s", data.Type(), val.Type())
+	}
+	val.Set(data)
+	return nil
+}
+
 func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if val.CanSet() {
 		zeroVal := reflect.New(val.Type()).Elem()
@@ -143,7 +151,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -211,7 +219,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -276,7 +284,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -380,7 +388,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -430,7 +438,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From cf0c27c690fc459a2220672a6bc075e9799c4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 23/52] fix: compare references by the node they refer to

A document with references was not equal to itself.
---
 jsonpointer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..1f453c1 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -164,6 +164,9 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
+	if ptr2, ok := obj.(*sJSONPointer); ok {
+		return ptr.nodeId == ptr2.nodeId
+	}
 	return ptr.getNode().Equals(obj)
 }
 
-- 
2.43.0


From 2684da0faddff1097a1720babf7540359463abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 24/52] fix: do not recurse endlessly in Interface of a cyclic
 document

A reference was expanded to the node that contains it, until the stack
overflowed. Map it to the map of that node.
---
 interface.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/interface.go b/interface.go
index 7d2b7ed..ecd68cb 100644
--- a/interface.go
+++ b/interface.go
@@ -39,20 +39,39 @@ func (self *JSONString) Interface() interface{} {
 }
 
 func (self *JSONArray) Interface() interface{} {
-	ret := make([]interface{}, len(self.data))
-	for i := 0; i < len(self.data); i += 1 {
-		ret[i] = self.data[i].Interface()
-	}
-	return ret
+	return toInterface(self, make(map[*JSONDict]map[string]interface{}))
 }
 
 func (self *JSONDict) Interface() interface{} {
-	mapping := make(map[string]interface{})
+	return toInterface(self, make(map[*JSONDict]map[string]interface{}))
+}
 
-	for iter := sortedmap.NewIterator(self.data); iter.HasMore(); iter.Next() {
-		k, v := iter.Get()
-		mapping[k] = v.(JSONObject).Interface()
+// toInterface maps a reference to the very map of the node it refers to,
+// nodes holds the maps of the referred nodes
+func toInterface(obj JSONObject, nodes map[*JSONDict]map[string]interface{}) interface{} {
+	switch val := obj.(type) {
+	case *JSONArray:
+		ret := make([]interface{}, len(val.data))
+		for i := 0; i < len(val.data); i += 1 {
+			ret[i] = toInterface(val.data[i], nodes)
+		}
+		return ret
+	case *JSONDict:
+		if mapping, ok := nodes[val]; ok {
+			return mapping
+		}
+		mapping := make(map[string]interface{})
+		if val.nodeId > 0 {
+			nodes[val] = mapping
+		}
+		for iter := sortedmap.NewIterator(val.data); iter.HasMore(); iter.Next() {
+			k, v := iter.Get()
+			mapping[k] = toInterface(v.(JSONObject), nodes)
+		}
+		return mapping
+	case *sJSONPointer:
+		return toInterface(val.getNode(), nodes)
+	default:
+		return obj.Interface()
 	}
-
-	return mapping
 }
-- 
2.43.0


From 076184b537af140ecf9e955f1d63a6af0de2f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 25/52] fix: skip AfterUnmarshal of unexported embedded structs

Calling a method through an unexported field panics in reflect. The promoted
method of the outer struct is still called.
---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index fcbb183..f95e749 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -645,7 +645,7 @@ func callStructAfterUnmarshal(val reflect.Value) {
 		}
 		valPtr := val.Addr()
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
-		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
+		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() && valPtr.CanInterface() {
 			afterMarshalFunc.Call([]reflect.Value{})
 		}
 	case reflect.Ptr:
-- 
2.43.0


From 06fbe978c047c59e3281e05544179baa5c43d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 26/52] fix: do not share storage between Marshal result and
 JSON values

Marshalling a JSONDict or JSONArray value returned a document on the same
backing array, so that a later Remove, Set or SetAt on one of them corrupted
the other.
---
 marshal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 9a03f52..c1e5b95 100644
--- a/marshal.go
+++ b/marshal.go
@@ -305,7 +305,10 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
-				return &json
+				// do not share the storage with the source
+				ret := json.Copy()
+				ret.nodeId = json.nodeId
+				return ret
 			}
 		} else {
 			return nil
@@ -316,7 +319,8 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
-				return &json
+				// do not share the storage with the source
+				return json.Copy()
 			}
 		} else {
 			return nil
-- 
2.43.0


From 5552e4a28c8376f4e93359bd373a4d72d32f63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 27/52] fix: do not hand out the storage of an array in
 Unmarshal

Unmarshalling an array into an interface{} stored the internal slice, so
that writing to the result changed the document.
---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index f95e749..2dd7d91 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -438,7 +438,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		return setInterfaceValue(val, reflect.ValueOf(this.data))
+		data, _ := this.GetArray()
+		return setInterfaceValue(val, reflect.ValueOf(data))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 55e951851f1088d0cd53ff421e4064982d47cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 28/52] fix: keep the sign of large unsigned integers with the
 string option

A uint64 above the int64 range was written as a negative number in a string,
which cannot be read back.
---
 marshal.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index c1e5b95..78f798f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -178,6 +178,13 @@ func marshalInt64(val int64, info *reflectutils.SStructFieldInfo, omitEmpty bool
 	}
 }
 
+func marshalUint64(val uint64, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
+	if info != nil && info.ForceString && !(val == 0 && info.OmitZero && omitEmpty) {
+		return NewString(fmt.Sprintf("%d", val))
+	}
+	return marshalInt64(int64(val), info, omitEmpty)
+}
+
 func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, omitEmpty bool) JSONObject {
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
@@ -393,8 +400,9 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
 		return marshalBoolean(objValue.Bool(), info, omitEmpty)
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return marshalUint64(objValue.Uint(), info, omitEmpty)
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		intValue := objValue.Convert(gotypes.Int64Type)
 		return marshalInt64(intValue.Interface().(int64), info, omitEmpty)
 	case reflect.Float32:
-- 
2.43.0


From 81df2a20c6db6d88bfaadd01cfa48bf3ff9d9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 29/52] fix: do not round floats that are converted to strings

Floats with the string option, and floats unmarshalled into strings, were
cut to 6 decimals: 1e-7 became "0.000000". Print all digits when 6 decimals
lose the value.
---
 marshal.go   | 17 +++++++++++++++--
 unmarshal.go |  6 +++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/marshal.go b/marshal.go
index 78f798f..789c68c 100644
--- a/marshal.go
+++ b/marshal.go
@@ -25,6 +25,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"strconv"
 	"time"
 
 	"yunion.io/x/log"
@@ -185,11 +186,23 @@ func marshalUint64(val uint64, info *reflectutils.SStructFieldInfo, omitEmpty bo
 	return marshalInt64(int64(val), info, omitEmpty)
 }
 
+// float2String keeps the customary 6 decimals unless they lose the value
+func float2String(val float64, bit int) string {
+	if bit != 32 {
+		bit = 64
+	}
+	str := fmt.Sprintf("%f", val)
+	if parsed, err := strconv.ParseFloat(str, bit); err != nil || parsed != val {
+		str = strconv.FormatFloat(val, 'f', -1, bit)
+	}
+	return str
+}
+
 func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, omitEmpty bool) JSONObject {
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(float2String(val, 64))
 	} else {
 		return NewFloat64(val)
 	}
@@ -199,7 +212,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(float2String(float64(val), 32))
 	} else {
 		return NewFloat32(val)
 	}
diff --git a/unmarshal.go b/unmarshal.go
index 2dd7d91..5f73a4f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -239,10 +239,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
+		val.Set(reflect.ValueOf(JSONString{data: float2String(this.data, this.bit)}))
 		return nil
 	case JSONStringPtrType:
-		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
+		val.Set(reflect.ValueOf(NewString(float2String(this.data, this.bit))))
 		return nil
 	case JSONIntType:
 		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
@@ -277,7 +277,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(float2String(this.data, this.bit))
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From 9755cf8b02314ca464b3b13b9e6b2772280e7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 30/52] fix: do not lose documents with unprintable characters
 in YAMLString

A string with DEL or a C1 control character is rejected verbatim by the YAML
reader behind JSONToYAML, and YAMLString returned the empty string. Escape
these characters in the intermediate JSON text.
---
 yamlutils.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/yamlutils.go b/yamlutils.go
index 19d3e58..d9ca1f7 100644
--- a/yamlutils.go
+++ b/yamlutils.go
@@ -14,7 +14,12 @@
 
 package jsonutils
 
-import "github.com/ghodss/yaml"
+import (
+	"fmt"
+	"strings"
+
+	"github.com/ghodss/yaml"
+)
 
 func ParseYAML(str string) (JSONObject, error) {
 	jsonBytes, err := yaml.YAMLToJSON([]byte(str))
@@ -24,8 +29,28 @@ func ParseYAML(str string) (JSONObject, error) {
 	return Parse(jsonBytes)
 }
 
+// escapeYamlSpecials escapes the characters of a JSON text that a YAML reader
+// does not accept verbatim
+func escapeYamlSpecials(jsonStr string) string {
+	isSpecial := func(r rune) bool {
+		return r >= 0x7f && r <= 0x9f || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff
+	}
+	if strings.IndexFunc(jsonStr, isSpecial) < 0 {
+		return jsonStr
+	}
+	sb := &strings.Builder{}
+	for _, r := range jsonStr {
+		if isSpecial(r) {
+			fmt.Fprintf(sb, "\\u%04x", r)
+		} else {
+			sb.WriteRune(r)
+		}
+	}
+	return sb.String()
+}
+
 func yamlString(obj JSONObject) string {
-	yamlBytes, _ := yaml.JSONToYAML([]byte(obj.String()))
+	yamlBytes, _ := yaml.JSONToYAML([]byte(escapeYamlSpecials(obj.String())))
 	return string(yamlBytes)
 }
 
-- 
2.43.0


From 3e1203adc9e61efaacf69cbfe97c32ff10984255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 31/52] fix: Int, Float and Bool of an object recursed until
 the stack overflowed

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..4db6cc6 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From 4401a3a9ffb4f2d86ce6335402bbc758db28896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 32/52] fix: an array with nil elements was marshalled shorter
 and could not be read back

---
 marshal.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 789c68c..ddadddf 100644
--- a/marshal.go
+++ b/marshal.go
@@ -48,9 +48,13 @@ func (s *sJsonMarshalSession) marshalSlice(val reflect.Value, info *reflectutils
 	}
 	objs := make([]JSONObject, 0)
 	for i := 0; i < val.Len(); i += 1 {
-		val := s.marshalValue(val.Index(i), nil, omitEmpty)
-		if val != nil {
-			objs = append(objs, val)
+		elem := s.marshalValue(val.Index(i), nil, omitEmpty)
+		if elem == nil && val.Kind() == reflect.Array {
+			// keep the length of an array
+			elem = JSONNull
+		}
+		if elem != nil {
+			objs = append(objs, elem)
 		}
 	}
 	arr := NewArray(objs...)
-- 
2.43.0


From 2d37d8c84a9fad7fdcabe043c33c1ae6e15fabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 33/52] fix: map keys of a type with a String method were
 written as its result

---
 marshal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index ddadddf..8c75bb8 100644
--- a/marshal.go
+++ b/marshal.go
@@ -71,6 +71,14 @@ func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
 
+// mapKeyString gives the key itself, not what a String method makes of it
+func mapKeyString(key reflect.Value) string {
+	if key.Kind() == reflect.String {
+		return key.String()
+	}
+	return fmt.Sprintf("%s", key)
+}
+
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
 		if !omitEmpty {
@@ -90,7 +98,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyString(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From f45dd30ed3ce1a05cb6805ac6fba7dfd5b56d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 34/52] fix: fractions below one became false in tri-states and
 JSONBool

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 5f73a4f..6e7a299 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -251,12 +251,12 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
-		val.Set(reflect.ValueOf(JSONBool{data: int(this.data) != 0}))
+		val.Set(reflect.ValueOf(JSONBool{data: this.data != 0}))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
 	case tristate.TriStateType:
-		if int(this.data) == 0 {
+		if this.data == 0 {
 			val.Set(tristate.TriStateFalseValue)
 		} else {
 			val.Set(tristate.TriStateTrueValue)
-- 
2.43.0


From e78934bb593a1045e54324e6b19bf2d58d418927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 35/52] fix: integral floats written as text could not be read
 into JSONFloat targets

---
 unmarshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 6e7a299..056d5cd 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -118,7 +118,14 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringPtrType:
 		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
-	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
+	case JSONFloatType:
+		// an integral float is written like an integer
+		val.Set(reflect.ValueOf(*NewFloat64(float64(this.data))))
+		return nil
+	case JSONFloatPtrType:
+		val.Set(reflect.ValueOf(NewFloat64(float64(this.data))))
+		return nil
+	case JSONBoolType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
 	case tristate.TriStateType:
 		if this.data == 0 {
-- 
2.43.0


From 7d1e0dcd7e4808b72d4d59f43bc4bf25b21dba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 36/52] fix: read objects and lists through pointers to
 pointers, strings and interfaces

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 056d5cd..99024bc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -437,7 +437,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Array || kind == reflect.Slice {
+		if kind == reflect.Array || kind == reflect.Slice || kind == reflect.Ptr || kind == reflect.Interface || kind == reflect.String {
 			if val.IsNil() {
 				val.Set(reflect.New(val.Type().Elem()))
 			}
@@ -535,7 +535,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Struct || kind == reflect.Map {
+		if kind == reflect.Struct || kind == reflect.Map || kind == reflect.Ptr || kind == reflect.Interface || kind == reflect.String {
 			if val.IsNil() {
 				newVal := reflect.New(val.Type().Elem())
 				val.Set(newVal)
-- 
2.43.0


From ad9395bc6335b1a4d7a32194d2bb47a825fe7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 37/52] fix: a list read into a used slice kept parts of its
 former elements

---
 unmarshal.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 99024bc..00645ef 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -398,11 +398,11 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	case reflect.Slice:
 		dataLen := 1
-		if val.Cap() < dataLen {
+		if val.CanSet() {
 			newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
 			val.Set(newVal)
 		} else if val.Len() != dataLen {
-			val.SetLen(dataLen)
+			return ErrArrayLengthMismatch
 		}
 		return this.unmarshalValue(s, val.Index(0))
 	default:
@@ -454,11 +454,12 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			}
 		} else if val.Kind() == reflect.Slice {
 			dataLen := len(this.data)
-			if val.IsNil() || val.Cap() < dataLen {
+			if val.CanSet() {
+				// do not mix the elements with those of a previous use
 				newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
 				val.Set(newVal)
 			} else if val.Len() != dataLen {
-				val.SetLen(dataLen)
+				return ErrArrayLengthMismatch
 			}
 		}
 		for i, json := range this.data {
-- 
2.43.0


From cdda08727ac821cbe93ab00dd6a5084d9522bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 38/52] fix: times written with one or two decimals were
 unmarshalled to the zero time

---
 unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 00645ef..90671a1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -34,7 +34,6 @@ import (
 	"yunion.io/x/pkg/sortedmap"
 	"yunion.io/x/pkg/tristate"
 	"yunion.io/x/pkg/util/reflectutils"
-	"yunion.io/x/pkg/util/timeutils"
 	"yunion.io/x/pkg/utils"
 )
 
@@ -317,9 +316,10 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		var tm time.Time
 		var err error
 		if len(this.data) > 0 {
-			tm, err = timeutils.ParseTimeStr(this.data)
+			// all the formats that GetTime accepts
+			tm, err = this.GetTime()
 			if err != nil {
-				log.Warningf("timeutils.ParseTimeStr %s %s", this.data, err)
+				log.Warningf("GetTime %s %s", this.data, err)
 			}
 		} else {
 			tm = time.Time{}
-- 
2.43.0


From 56bfcbfef465f841ebf0259097fd6ca59c806895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 39/52] fix: objects and lists were stored into tri-states as
 their text

---
 unmarshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 90671a1..089dac8 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -428,7 +428,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONDictType, JSONIntType, JSONStringType, JSONBoolType, JSONFloatType,
-		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType:
+		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch //fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
@@ -496,7 +497,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONArrayType, JSONIntType, JSONBoolType, JSONFloatType, JSONStringType,
-		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType:
+		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch // fmt.Errorf("JSONDict type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
-- 
2.43.0


From baa478c2fdba9e704d742600141ab305b8a8e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 40/52] fix: members for the content of an embedded interface
 no longer panic

---
 unmarshal.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 089dac8..4058d1e 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -608,7 +608,17 @@ func setStructFieldAt(s *sJsonUnmarshalSession, key string, v JSONObject, fieldV
 		if fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() {
 			fieldValues[index].Parent.Field.Set(fieldValues[index].Parent.Value)
 		}
-		err := v.unmarshalValue(s, fieldValues[index].Value)
+		fieldValue := fieldValues[index].Value
+		if !fieldValue.CanSet() {
+			// the content of an embedded interface can be filled behind a pointer only
+			if fieldValue.Kind() != reflect.Ptr {
+				return errors.Wrapf(ErrInterfaceUnsupported, "field %s of type %s cannot be set", key, fieldValue.Type())
+			}
+			ptrValue := reflect.New(fieldValue.Type()).Elem()
+			ptrValue.Set(fieldValue)
+			fieldValue = ptrValue
+		}
+		err := v.unmarshalValue(s, fieldValue)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalStruct")
 		}
-- 
2.43.0


From 3fdd40d5fda2feeebd4682a58d3f911fd2d09e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 41/52] fix: lists with elements of different depth came back
 wrong from query strings

---
 stringsegment.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index 50cf533..f9d6e77 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -95,12 +95,7 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
-	for ii := range ss[i] {
+	for ii := 0; ii < len(ss[i]) && ii < len(ss[j]); ii++ {
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -108,7 +103,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From 2033c88c4969ef4bea83cd92a5bc9ca94accb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 42/52] fix: renamed fields of cyclic graphs wrote nodes twice
 and could not be parsed

---
 jsonpointer.go     |  1 +
 marshal.go         |  9 ++++----
 marshal_session.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index 1f453c1..be8b896 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -54,6 +54,7 @@ func (s *sJsonMarshalSession) setAllNodeId() {
 			jsonPtrNode.pointer.node.(*JSONDict).setNodeId(nodeId)
 		}
 	}
+	s.setAllAliases()
 }
 
 func (ptr *sJSONPointer) String() string {
diff --git a/marshal.go b/marshal.go
index 8c75bb8..2cd9c30 100644
--- a/marshal.go
+++ b/marshal.go
@@ -110,11 +110,13 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 }
 
 func (s *sJsonMarshalSession) marshalStruct(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
-	objPairs := s.struct2JSONPairs(val, omitEmpty)
+	objPairs, depPairs := s.struct2JSONPairs(val, omitEmpty)
+	objPairs = append(objPairs, depPairs...)
 	if len(objPairs) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 		return nil
 	}
 	dict := NewDict(objPairs...)
+	s.addAliases(dict, depPairs)
 	if info != nil && info.ForceString {
 		return NewString(dict.String())
 	} else {
@@ -131,7 +133,7 @@ func findValueByKey(pairs []JSONPair, key string) JSONObject {
 	return nil
 }
 
-func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool) []JSONPair {
+func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool) ([]JSONPair, []JSONPair) {
 	fields := reflectutils.FetchStructFieldValueSet(val)
 	objPairs := make([]JSONPair, 0, len(fields))
 	depFields := make(map[string]string)
@@ -177,8 +179,7 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 			depPairs = append(depPairs, objPair)
 		}
 	}
-	objPairs = append(objPairs, depPairs...)
-	return objPairs
+	return objPairs, depPairs
 }
 
 func marshalInt64(val int64, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
diff --git a/marshal_session.go b/marshal_session.go
index 7c1f869..9e70e12 100644
--- a/marshal_session.go
+++ b/marshal_session.go
@@ -18,6 +18,13 @@ type sJsonMarshalSession struct {
 	nodeIndex   int
 	objectTrace *sJsonPointerTrace
 	nodeMap     map[int]*sJsonPointerNode
+	aliases     []sJsonAlias
+}
+
+// sJsonAlias is a member that repeats the value of another member
+type sJsonAlias struct {
+	dict *JSONDict
+	key  string
 }
 
 func newJsonMarshalSession() *sJsonMarshalSession {
@@ -27,3 +34,53 @@ func newJsonMarshalSession() *sJsonMarshalSession {
 		nodeMap:     make(map[int]*sJsonPointerNode),
 	}
 }
+
+func (s *sJsonMarshalSession) addAliases(dict *JSONDict, pairs []JSONPair) {
+	for i := range pairs {
+		if pairs[i].val.isCompond() {
+			s.aliases = append(s.aliases, sJsonAlias{dict: dict, key: pairs[i].key})
+		}
+	}
+}
+
+// setAllAliases makes the repeated values refer to the nodes of the original
+// values, as a node can be defined once only
+func (s *sJsonMarshalSession) setAllAliases() {
+	for _, alias := range s.aliases {
+		val, _ := alias.dict.Get(alias.key)
+		alias.dict.Set(alias.key, nodes2References(val))
+	}
+}
+
+func nodes2References(obj JSONObject) JSONObject {
+	switch val := obj.(type) {
+	case *JSONDict:
+		if val.nodeId > 0 {
+			return &sJSONPointer{node: val, nodeId: val.nodeId}
+		}
+		ret := val
+		for _, key := range val.SortedKeys() {
+			member, _ := val.Get(key)
+			if ref := nodes2References(member); ref != member {
+				if ret == val {
+					ret = val.Copy()
+				}
+				ret.Set(key, ref)
+			}
+		}
+		return ret
+	case *JSONArray:
+		ret := val
+		for i, elem := range val.data {
+			if ref := nodes2References(elem); ref != elem {
+				if ret == val {
+					ret = val.Copy()
+				}
+				ret.SetAt(i, ref)
+			}
+		}
+		return ret
+	default:
+		return obj
+	}
+}
-- 
2.43.0


From f6e27dba44c48e82d51ff7f9d99696e16de9d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 43/52] fix: pretty printing copied inner texts once for every
 outer container

---
 jsonutils.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 13e3a0b..2ee4008 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -384,6 +384,19 @@ func jsonPrettyString(o JSONObject, level int) string {
 	return buffer.String()
 }
 
+// buildPrettyString writes nested containers to the same buffer, as the text
+// of an inner container would otherwise be copied once for every outer one
+func buildPrettyString(buffer *bytes.Buffer, o JSONObject, level int) {
+	switch val := o.(type) {
+	case *JSONDict:
+		val.buildPrettyString(buffer, level)
+	case *JSONArray:
+		val.buildPrettyString(buffer, level)
+	default:
+		buffer.WriteString(o.prettyString(level))
+	}
+}
+
 func (this *JSONString) PrettyString() string {
 	return this.String()
 }
@@ -594,6 +607,11 @@ func (this *JSONDict) PrettyString() string {
 
 func (this *JSONDict) prettyString(level int) string {
 	var buffer bytes.Buffer
+	this.buildPrettyString(&buffer, level)
+	return buffer.String()
+}
+
+func (this *JSONDict) buildPrettyString(buffer *bytes.Buffer, level int) {
 	var linebuf bytes.Buffer
 	for i := 0; i < level; i++ {
 		linebuf.WriteString("  ")
@@ -626,7 +644,7 @@ func (this *JSONDict) prettyString(level int) string {
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
 			buffer.WriteByte('\n')
-			buffer.WriteString(v.prettyString(level + 2))
+			buildPrettyString(buffer, v, level+2)
 		} else {
 			buffer.WriteByte(' ')
 			buffer.WriteString(v.String())
@@ -638,7 +656,6 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteString(tab)
 	}
 	buffer.WriteByte('}')
-	return buffer.String()
 }
 
 func (this *JSONArray) parse(s *sJsonParseSession, str []byte, offset int) (int, error) {
@@ -655,6 +672,11 @@ func (this *JSONArray) PrettyString() string {
 
 func (this *JSONArray) prettyString(level int) string {
 	var buffer bytes.Buffer
+	this.buildPrettyString(&buffer, level)
+	return buffer.String()
+}
+
+func (this *JSONArray) buildPrettyString(buffer *bytes.Buffer, level int) {
 	var linebuf bytes.Buffer
 	for i := 0; i < level; i++ {
 		linebuf.WriteString("  ")
@@ -667,14 +689,13 @@ func (this *JSONArray) prettyString(level int) string {
 			buffer.WriteString(",")
 		}
 		buffer.WriteByte('\n')
-		buffer.WriteString(v.prettyString(level + 1))
+		buildPrettyString(buffer, v, level+1)
 	}
 	if len(this.data) > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
 	buffer.WriteByte(']')
-	return buffer.String()
 }
 
 func ParseString(str string) (JSONObject, error) {
-- 
2.43.0


From 93e283f91855c63b12308e3c2e71f11424ae2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 44/52] fix: query strings of nested documents copied inner
 parameters once for every level

---
 querystring.go | 51 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/querystring.go b/querystring.go
index faded21..b23af05 100644
--- a/querystring.go
+++ b/querystring.go
@@ -145,28 +145,45 @@ func (this *JSONBool) _queryString(key string) string {
 }
 
 func (this *JSONArray) _queryString(key string) string {
-	rets := make([]string, 0)
-	for i, val := range this.data {
-		k := strconv.FormatInt(int64(i), 10)
-		if len(key) > 0 {
-			k = key + "." + k
-		}
-		rets = append(rets, val._queryString(k))
-	}
-	return strings.Join(rets, "&")
+	return strings.Join(appendQueryStrings(nil, this, key), "&")
 }
 
 func (this *JSONDict) _queryString(key string) string {
-	rets := make([]string, 0)
-	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
-		k, vinf := iter.Get()
-		v := vinf.(JSONObject)
-		if len(key) > 0 {
-			k = key + "." + k
+	return strings.Join(appendQueryStrings(nil, this, key), "&")
+}
+
+// appendQueryStrings collects the parameters of nested containers in one list,
+// as the text of an inner container would otherwise be copied once for every
+// outer one
+func appendQueryStrings(rets []string, obj JSONObject, key string) []string {
+	switch this := obj.(type) {
+	case *JSONArray:
+		if len(this.data) == 0 {
+			rets = append(rets, "")
+		}
+		for i, val := range this.data {
+			k := strconv.FormatInt(int64(i), 10)
+			if len(key) > 0 {
+				k = key + "." + k
+			}
+			rets = appendQueryStrings(rets, val, k)
+		}
+	case *JSONDict:
+		if len(this.data) == 0 {
+			rets = append(rets, "")
 		}
-		rets = append(rets, v._queryString(k))
+		for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
+			k, vinf := iter.Get()
+			v := vinf.(JSONObject)
+			if len(key) > 0 {
+				k = key + "." + k
+			}
+			rets = appendQueryStrings(rets, v, k)
+		}
+	default:
+		rets = append(rets, obj._queryString(key))
 	}
-	return strings.Join(rets, "&")
+	return rets
 }
 
 func (this *JSONValue) QueryString() string {
-- 
2.43.0


From 91048ef627789e3d217ae56312d2f8f10cbaf15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 45/52] fix: Unmarshal replaces the elements of a JSONArray
 held by value

---
 unmarshal.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4058d1e..1088e24 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -418,11 +418,9 @@ func (this *JSONArray) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONArrayType:
-		array := val.Interface().(JSONArray)
-		if this.data != nil {
-			array.Add(this.data...)
-		}
-		val.Set(reflect.ValueOf(array))
+		// do not mix the elements with those of a previous use
+		array := NewArray(this.data...)
+		val.Set(reflect.ValueOf(*array))
 		return nil
 	case JSONArrayPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
-- 
2.43.0


From d57d2775cb5055b1b0018e2641f77c292d31f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 46/52] fix: cyclic graphs with pointers to pointers got
 dangling references and could not be rebuilt

---
 jsonpointer.go       | 17 ++++++++++++++---
 unmarshal_session.go |  7 +++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index be8b896..099b001 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -42,16 +42,27 @@ func (s *sJsonMarshalSession) newJsonPointer(inf interface{}) *sJSONPointer {
 }
 
 func (s *sJsonMarshalSession) setJsonObject(ptr *sJSONPointer, obj JSONObject) {
-	if _, ok := obj.(*JSONDict); ok {
+	switch val := obj.(type) {
+	case *JSONDict:
 		ptr.node = obj
+	case *sJSONPointer:
+		// a pointer to a pointer that is known already
+		s.nodeMap[ptr.nodeId].pointer = val
 	}
 	s.objectTrace.pop()
 }
 
 func (s *sJsonMarshalSession) setAllNodeId() {
-	for nodeId, jsonPtrNode := range s.nodeMap {
+	for nodeId := 1; nodeId <= s.nodeIndex; nodeId++ {
+		jsonPtrNode := s.nodeMap[nodeId]
 		if jsonPtrNode.refcnt > 1 && jsonPtrNode.pointer.node != nil {
-			jsonPtrNode.pointer.node.(*JSONDict).setNodeId(nodeId)
+			dict := jsonPtrNode.pointer.node.(*JSONDict)
+			if dict.nodeId > 0 {
+				// reached through a pointer to its pointer, too
+				jsonPtrNode.pointer.nodeId = dict.nodeId
+				continue
+			}
+			dict.setNodeId(nodeId)
 		}
 	}
 	s.setAllAliases()
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 0772463..dcad078 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -41,6 +41,13 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 }
 
 func setNodeValue(target, nodeValue reflect.Value) error {
+	for target.CanSet() && target.Kind() == reflect.Ptr && target.Type().Elem().Kind() == reflect.Ptr && nodeValue.Type() != target.Type() {
+		// a pointer to the pointer to the value
+		if target.IsNil() {
+			target.Set(reflect.New(target.Type().Elem()))
+		}
+		target = target.Elem()
+	}
 	if !target.CanSet() || !nodeValue.Type().AssignableTo(target.Type()) {
 		return errors.Wrapf(ErrTypeMismatch, "reference of %s vs. %s", nodeValue.Type(), target.Type())
 	}
-- 
2.43.0


From ee4db7b19474ef7869f700489b46dc22a1f9c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:53 +0000
Subject: [PATCH 47/52] fix: make equality with references symmetric

---
 jsonpointer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index 099b001..eea08a4 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -176,10 +176,12 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
-	if ptr2, ok := obj.(*sJSONPointer); ok {
-		return ptr.nodeId == ptr2.nodeId
+	// a reference equals references only, as nothing else equals a reference
+	ptr2, ok := obj.(*sJSONPointer)
+	if !ok {
+		return false
 	}
-	return ptr.getNode().Equals(obj)
+	return ptr.nodeId == ptr2.nodeId
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-- 
2.43.0


From 079216326d7af86481fe714a1adea7f743748ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:22 +0000
Subject: [PATCH 48/52] fix: marshalling linked objects took time quadratic in
 their number

---
 json_pointer_trace.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/json_pointer_trace.go b/json_pointer_trace.go
index 465cf11..6ca5aa8 100644
--- a/json_pointer_trace.go
+++ b/json_pointer_trace.go
@@ -31,11 +31,16 @@ func (n *sJsonPointerNode) String() string {
 
 type sJsonPointerTrace struct {
 	trace []*sJsonPointerNode
+	// index of every object in trace
+	index map[interface{}]int
+	// single lists the indexes of the nodes in trace that are not referenced
+	single []int
 }
 
 func newJsonPointerTrace() *sJsonPointerTrace {
 	return &sJsonPointerTrace{
 		trace: make([]*sJsonPointerNode, 0, 10),
+		index: make(map[interface{}]int),
 	}
 }
 
@@ -45,27 +50,33 @@ func (t *sJsonPointerTrace) push(inf interface{}, ptr *sJSONPointer) *sJsonPoint
 		inf:     inf,
 		refcnt:  1,
 	}
+	t.index[inf] = len(t.trace)
+	t.single = append(t.single, len(t.trace))
 	t.trace = append(t.trace, node)
 	// log.Debugf("push: %s", t.String())
 	return node
 }
 
 func (t *sJsonPointerTrace) find(inf interface{}) *sJsonPointerNode {
-	var ret *sJsonPointerNode
-	for i := range t.trace {
-		if t.trace[i].inf == inf {
-			ret = t.trace[i]
-		}
-		if ret != nil {
-			t.trace[i].refcnt++
-		}
+	index, ok := t.index[inf]
+	if !ok {
+		return nil
+	}
+	// the object and all that it encloses are part of a loop
+	n := len(t.single)
+	for n > 0 && t.single[n-1] >= index {
+		n--
+		t.trace[t.single[n]].refcnt++
 	}
-	return ret
+	t.single = t.single[:n]
+	return t.trace[index]
 }
 
 func (t *sJsonPointerTrace) pop() {
-	if len(t.trace) > 0 && t.trace[len(t.trace)-1].refcnt == 1 {
-		t.trace = t.trace[0 : len(t.trace)-1]
+	if n := len(t.trace) - 1; n >= 0 && t.trace[n].refcnt == 1 {
+		delete(t.index, t.trace[n].inf)
+		t.trace = t.trace[0:n]
+		t.single = t.single[:len(t.single)-1]
 	}
 	// log.Debugf("pop: %s", t.String())
 }
-- 
2.43.0


From 9a684d784216552ce17a97e59c2a8cafd8d020a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:24 +0000
Subject: [PATCH 49/52] fix: an object or array in place of a key was taken for
 part of the key

---
 jsonutils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 2ee4008..65a7996 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -461,6 +461,10 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			i++
 			continue
 		}
+		if str[i] == '{' || str[i] == '[' {
+			// a value is no key
+			return smap, i, nodeId, NewJSONError(str, i, "key not found")
+		}
 		key, _, i, e = parseString(str, i)
 		if e != nil {
 			return smap, i, nodeId, errors.Wrap(e, "parseString")
-- 
2.43.0


From afa569e1a3d3a5e7ac7925983f9ebe431d1ba616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:55 +0000
Subject: [PATCH 50/52] fix: building objects from unsorted members took time
 quadratic in their number

---
 access.go    | 26 ++++++++++++++++++++++----
 jsonutils.go |  6 ++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/access.go b/access.go
index 4db6cc6..c658c71 100644
--- a/access.go
+++ b/access.go
@@ -15,6 +15,7 @@
 package jsonutils
 
 import (
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -30,11 +31,28 @@ type JSONPair struct {
 }
 
 func NewDict(objs ...JSONPair) *JSONDict {
-	dict := JSONDict{data: sortedmap.NewSortedMapWithCapa(len(objs))}
-	for _, o := range objs {
-		dict.Set(o.key, o.val)
+	if !sort.SliceIsSorted(objs, lessPair(objs)) {
+		// leave the list of the caller alone
+		objs = append([]JSONPair(nil), objs...)
+	}
+	return &JSONDict{data: pairs2SortedMap(objs)}
+}
+
+func lessPair(pairs []JSONPair) func(i, j int) bool {
+	return func(i, j int) bool { return pairs[i].key < pairs[j].key }
+}
+
+// pairs2SortedMap sorts pairs first, as every insertion before the end moves
+// all later members. The last one of pairs with the same key counts.
+func pairs2SortedMap(pairs []JSONPair) sortedmap.SSortedMap {
+	if !sort.SliceIsSorted(pairs, lessPair(pairs)) {
+		sort.SliceStable(pairs, lessPair(pairs))
+	}
+	smap := sortedmap.NewSortedMapWithCapa(len(pairs))
+	for _, pair := range pairs {
+		smap = sortedmap.Add(smap, pair.key, pair.val)
 	}
-	return &dict
+	return smap
 }
 
 func NewArray(objs ...JSONObject) *JSONArray {
diff --git a/jsonutils.go b/jsonutils.go
index 65a7996..a78b2bb 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -443,7 +443,8 @@ func (this *JSONBool) prettyString(level int) string {
 
 func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSortedMap, int, int, error) {
 	var nodeId int
-	smap := sortedmap.NewSortedMap()
+	var smap sortedmap.SSortedMap
+	var members []JSONPair
 	if str[offset] != '{' {
 		return smap, offset, nodeId, NewJSONError(str, offset, "{ not found")
 	}
@@ -506,7 +507,7 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			}
 			nodeId = int(nodeVal.data)
 		} else {
-			smap = sortedmap.Add(smap, key, val)
+			members = append(members, JSONPair{key: key, val: val})
 		}
 		i = skipEmpty(str, i)
 		if i >= len(str) {
@@ -525,6 +526,7 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 	if !stop {
 		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
 	}
+	smap = pairs2SortedMap(members)
 	return smap, i, nodeId, nil
 }
 
-- 
2.43.0


From d316f34e0ef21001b492ea0f2abf0b75edb9c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:13 +0000
Subject: [PATCH 51/52] fix: deep copies of objects took time quadratic in the
 number of members

---
 clone.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clone.go b/clone.go
index e310dba..d717832 100644
--- a/clone.go
+++ b/clone.go
@@ -133,9 +133,10 @@ func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 		if v.nodeId > 0 {
 			s.nodes[v] = vc
 		}
-		m, _ := v.GetMap()
-		for mk, mv := range m {
-			mvc := s.deepCopy(mv)
+		// in order, as every insertion before the end moves all later members
+		for iter := sortedmap.NewIterator(v.data); iter.HasMore(); iter.Next() {
+			mk, mv := iter.Get()
+			mvc := s.deepCopy(mv.(JSONObject))
 			vc.Set(mk, mvc)
 		}
 		return vc
-- 
2.43.0


From 4da733c2ff31cee6356400b2abca1fa26a1a002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:36 +0000
Subject: [PATCH 52/52] fix: errors of nested texts were wrapped at every
 level, which took memory and time without bounds

---
 jsonutils.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index a78b2bb..ebd099d 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -497,7 +497,8 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			val, i, e = s.parseJSONValue(str, i)
 		}
 		if e != nil {
-			return smap, i, nodeId, errors.Wrap(e, "parse misc")
+			// not wrapped, as the nesting may be deep
+			return smap, i, nodeId, e
 		}
 		if key == jsonPointerKey {
 			// node id
@@ -561,7 +562,8 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			val, i, e = s.parseJSONValue(str, i)
 		}
 		if e != nil {
-			return list, i, errors.Wrap(e, "parse misc")
+			// not wrapped, as the nesting may be deep
+			return list, i, e
 		}
 		if i >= len(str) {
 			return list, i, NewJSONError(str, i, "Truncated")
@@ -600,7 +602,7 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		}
 		return i, nil
 	}
-	return i, errors.Wrap(e, "parseDict")
+	return i, e
 }
 
 func (this *JSONDict) SortedKeys() []string {
@@ -669,7 +671,7 @@ func (this *JSONArray) parse(s *sJsonParseSession, str []byte, offset int) (int,
 	if e == nil {
 		this.data = val
 	}
-	return i, errors.Wrap(e, "parseArray")
+	return i, e
 }
 
 func (this *JSONArray) PrettyString() string {
-- 
2.43.0

