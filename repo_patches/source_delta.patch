From 303b079f008549a8a6662ad5ce16e757bc4f1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 01/33] fix: parse an empty bare token as null instead of
 panicking

---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..81b2699 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 1 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From 57971c60e1b8c45194e45919f3d8a8582c261bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/33] fix: reject malformed or duplicate node ids with an
 error instead of panicking

---
 jsonutils.go     | 11 +++++++++--
 parse_session.go |  7 ++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 81b2699..ed087bf 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			nodeIdJson, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(nodeIdJson.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
@@ -557,7 +561,10 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			e = s.saveNode(nodeId, this)
+			if e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..a0fdd83 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrDuplicateId, "node id %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From d257f6d7701d188cdb4dd7596bb6280cc0d13b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/33] fix: reject documents truncated inside a string, array
 or dict

---
 jsonutils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index ed087bf..9a7e0e0 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -167,7 +167,6 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runen     int
 		i         = offset
 	)
-ret:
 	for i < len(str) {
 		switch str[i] {
 		case '\\':
@@ -224,13 +223,13 @@ ret:
 			}
 		case quotec:
 			i++
-			break ret
+			return string(buffer), i, nil
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
-	return string(buffer), i, nil
+	return "", i, NewJSONError(str, i, "Truncated")
 }
 
 func parseString(str []byte, offset int) (string, bool, int, error) {
@@ -498,6 +497,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -552,6 +554,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 63487b682d37f5f9a110cd9c90e174938860a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 04/33] fix: decode escaped UTF-16 surrogate pairs in quoted
 strings

---
 jsonutils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 9a7e0e0..e134997 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -182,9 +183,19 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 < len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// RFC 8259: a character outside the BMP is escaped as a UTF-16 surrogate pair
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if e == nil {
+							if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
+								r = dec
+								i += 6
+							}
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From e66ef4260aaa74c08989d5a521edfa735927caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/33] fix: escape dict keys and keep node ids in PrettyString

---
 jsonutils.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index e134997..3d77ec5 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -605,6 +605,15 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString("  ")
+		buffer.WriteString(quoteString(jsonPointerKey))
+		buffer.WriteString(": ")
+		buffer.WriteString(strconv.Itoa(this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -614,9 +623,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
@@ -628,7 +636,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From 766895bc2eccffaba8371e69a23b31a3a20f2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 06/33] fix: do not write to a JSONFloat when formatting it

---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 0261c5d070d85abd6fe06524ad91c266ba3da594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 07/33] fix: keep node ids and pointers in DeepCopy

---
 clone.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..1d1d02f 100644
--- a/clone.go
+++ b/clone.go
@@ -82,6 +82,23 @@ func (this *JSONDict) DeepCopy() interface{} {
 }
 
 func DeepCopy(obj JSONObject) JSONObject {
+	s := &sDeepCopySession{nodes: make(map[JSONObject]JSONObject)}
+	ret := s.deepCopy(obj)
+	// let the copied pointers refer to the copied nodes
+	for _, ptr := range s.pointers {
+		if node, ok := s.nodes[ptr.node]; ok {
+			ptr.node = node
+		}
+	}
+	return ret
+}
+
+type sDeepCopySession struct {
+	nodes    map[JSONObject]JSONObject
+	pointers []*sJSONPointer
+}
+
+func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,19 +119,27 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := s.deepCopy(elem)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
 		vc := NewDict()
+		if v.nodeId > 0 {
+			vc.nodeId = v.nodeId
+			s.nodes[v] = vc
+		}
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := s.deepCopy(mv)
 			vc.Set(mk, mvc)
 		}
 		return vc
+	case *sJSONPointer:
+		vc := *v
+		s.pointers = append(s.pointers, &vc)
+		return &vc
 	case *JSONValue:
 		vc := *v
 		return &vc
-- 
2.43.0


From b548ce6aeac707b5d3f281e7387367b68801bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 08/33] fix: marshal values of named bool types

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 0c9d3f61b47480e0f46dfc998a839a8f0e9ca0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 09/33] fix: marshal JSONNull and node pointers as themselves

---
 marshal.go | 2 +-
 reflect.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6679e59..b5506bc 100644
--- a/marshal.go
+++ b/marshal.go
@@ -288,7 +288,7 @@ func (s *sJsonMarshalSession) marshalValueWithObjectMap(objValue reflect.Value,
 
 func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	switch objValue.Type() {
-	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, JSONObjectType:
+	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, jsonValuePtrType, jsonPointerPtrType, JSONObjectType:
 		if objValue.IsNil() {
 			if omitEmpty {
 				return nil
diff --git a/reflect.go b/reflect.go
index db73dd7..aba992a 100644
--- a/reflect.go
+++ b/reflect.go
@@ -35,6 +35,9 @@ var (
 	JSONFloatPtrType  reflect.Type
 	JSONBoolPtrType   reflect.Type
 	JSONObjectType    reflect.Type
+
+	jsonValuePtrType   reflect.Type
+	jsonPointerPtrType reflect.Type
 )
 
 func init() {
@@ -52,6 +55,9 @@ func init() {
 	JSONBoolPtrType = reflect.TypeOf(&JSONBool{})
 	JSONObjectType = reflect.TypeOf((*JSONObject)(nil)).Elem()
 
+	jsonValuePtrType = reflect.TypeOf(&JSONValue{})
+	jsonPointerPtrType = reflect.TypeOf(&sJSONPointer{})
+
 	gotypes.RegisterSerializable(JSONObjectType, func() gotypes.ISerializable {
 		return nil
 	})
-- 
2.43.0


From 4de07d6b6dcea9fabb62cf200cb9b4153ff98dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 10/33] fix: stop on deprecated-by chains that lead into a loop

---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index b5506bc..6ace223 100644
--- a/marshal.go
+++ b/marshal.go
@@ -141,13 +141,15 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				if visited[key] {
 					// loop detected
 					findLoop = true
 					break
 				}
+				visited[key] = true
 				key = okey
 			} else {
 				break
-- 
2.43.0


From 3ba6238dbb71e2b015dcf9a7468e15acca87ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/33] fix: Unmarshal of a number or a boolean stores the
 value instead of zeroing the target

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..4f4d5cb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From d132d2304d43dce2eca36fa37df679a900f1aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 12/33] fix: unmarshal booleans and floats into unsigned
 integers

---
 unmarshal.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4f4d5cb..17f44dd 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -194,13 +194,20 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16,
+		reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16,
+		reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -282,9 +289,12 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16,
+		reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16,
+		reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From 76ee7cf36bc0d488721a51f4adf70bc3d9fabc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 13/33] fix: do not overwrite unmarshalled tristate values with
 the raw text

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 17f44dd..9672fd7 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -126,6 +126,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -192,6 +193,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -287,6 +289,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -383,6 +386,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From cba551413328b08178a8fa3644c534449c741651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 14/33] fix: unmarshal scalars into JSON typed targets by
 setting them, not by changing aliased objects

---
 unmarshal.go | 78 ++++++++++++----------------------------------------
 1 file changed, 17 insertions(+), 61 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 9672fd7..c9c32e1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -98,25 +98,16 @@ func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value)
 func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%d", this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -165,25 +156,16 @@ func (this *JSONBool) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(JSONString{data: strconv.FormatBool(this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -244,42 +226,25 @@ func (this *JSONFloat) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONFloatType:
-		json := val.Interface().(JSONFloat)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(JSONBool{data: int(this.data) != 0}))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -331,8 +296,7 @@ func (this *JSONString) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -351,27 +315,19 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(tm))
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
-			json.data = true
+			val.Set(reflect.ValueOf(*JSONTrue))
 		default:
-			json.data = false
+			val.Set(reflect.ValueOf(*JSONFalse))
 		}
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
-		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
-			data = true
+			val.Set(reflect.ValueOf(JSONTrue))
 		default:
-			data = false
-		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
+			val.Set(reflect.ValueOf(JSONFalse))
 		}
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
-- 
2.43.0


From 3b5864ab8f34276c4518152d687b0069adb4803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/33] fix: resolve node pointers that precede their node and
 reject mismatched ones with an error

---
 unmarshal.go         | 10 ++++--
 unmarshal_session.go | 80 +++++++++++++++++++++++++++++++-------------
 2 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index c9c32e1..0f8f3ac 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -77,6 +77,7 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	s := newJsonUnmarshalSession()
 	value := reflect.ValueOf(o)
 	err := jo.unmarshalValue(s, reflect.Indirect(value))
+	s.restoreMapItems()
 	if err != nil {
 		return errors.Wrap(err, "jo.unmarshalValue")
 	}
@@ -457,8 +458,11 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr && val.Kind() != reflect.Interface {
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -551,7 +555,7 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
-		val.SetMapIndex(keyVal, valVal)
+		s.setMapIndex(val, keyVal, valVal)
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..f40ba73 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -26,6 +28,10 @@ type sJsonNodeValues struct {
 
 type sJsonUnmarshalSession struct {
 	objectMap map[int]*sJsonNodeValues
+	// mapItems restores the map items that hold unresolved pointers
+	mapItems []func()
+	// pending is the number of unresolved pointers
+	pending int
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -34,34 +40,62 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
-	if nv, ok := s.objectMap[nodeId]; !ok {
-		s.objectMap[nodeId] = &sJsonNodeValues{
-			nodeValue:    val,
-			nodeValueSet: true,
-		}
-	} else {
-		nv.nodeValue = val
-		nv.nodeValueSet = true
-		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
+	nv, ok := s.objectMap[nodeId]
+	if !ok {
+		nv = &sJsonNodeValues{}
+		s.objectMap[nodeId] = nv
+	}
+	nv.nodeValue = val
+	nv.nodeValueSet = true
+	errs := make([]error, 0)
+	for i := range nv.targetValues {
+		err := setNodeValue(nv.targetValues[i], val)
+		if err != nil {
+			errs = append(errs, err)
 		}
-		nv.targetValues = nil
 	}
+	s.pending -= len(nv.targetValues)
+	nv.targetValues = nil
+	return errors.NewAggregate(errs)
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
-	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
-		val.Set(nv.nodeValue)
-	} else if ok && !nv.nodeValueSet {
-		nv.targetValues = append(nv.targetValues, val)
-	} else {
-		s.objectMap[nodeId] = &sJsonNodeValues{
-			nodeValueSet: false,
-			targetValues: []reflect.Value{
-				val,
-			},
-		}
+	nv, ok := s.objectMap[nodeId]
+	if !ok {
+		nv = &sJsonNodeValues{}
+		s.objectMap[nodeId] = nv
 	}
+	if nv.nodeValueSet {
+		return setNodeValue(val, nv.nodeValue)
+	}
+	nv.targetValues = append(nv.targetValues, val)
+	s.pending++
 	return nil
 }
+
+func setNodeValue(target, nodeValue reflect.Value) error {
+	if !target.CanSet() || !nodeValue.Type().AssignableTo(target.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "node %s vs. %s", nodeValue.Type(), target.Type())
+	}
+	target.Set(nodeValue)
+	return nil
+}
+
+// setMapIndex sets a map item. An item is copied into the map. If it holds unresolved
+// pointers, it has to be copied again when all pointers have been resolved.
+func (s *sJsonUnmarshalSession) setMapIndex(mapVal, key, val reflect.Value) {
+	mapVal.SetMapIndex(key, val)
+	if s.pending > 0 {
+		s.mapItems = append(s.mapItems, func() {
+			mapVal.SetMapIndex(key, val)
+		})
+	}
+}
+
+func (s *sJsonUnmarshalSession) restoreMapItems() {
+	for i := range s.mapItems {
+		s.mapItems[i]()
+	}
+	s.mapItems = nil
+}
-- 
2.43.0


From 49289c12137c1e5662a60d538c88c9007b8adf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 16/33] fix: unmarshal into a non-empty interface reports a
 type mismatch instead of panicking

---
 unmarshal.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0f8f3ac..1b4f420 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -92,6 +92,15 @@ func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	return nil
 }
 
+func setInterfaceValue(val reflect.Value, data interface{}) error {
+	dataVal := reflect.ValueOf(data)
+	if !dataVal.Type().AssignableTo(val.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "%s vs. %s", dataVal.Type(), val.Type())
+	}
+	val.Set(dataVal)
+	return nil
+}
+
 func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -143,7 +152,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -213,7 +222,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -280,7 +289,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -380,7 +389,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -430,7 +439,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From bbd13c82b1777e2fd520e91655b214fb106f0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 17/33] fix: do not call AfterUnmarshal of an unexported
 embedded struct through reflection

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 1b4f420..6ef373c 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -638,6 +638,10 @@ func callStructAfterUnmarshal(val reflect.Value) {
 			}
 		}
 		valPtr := val.Addr()
+		if !valPtr.CanInterface() {
+			// cannot call methods of an unexported embedded struct
+			return
+		}
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
 		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
 			afterMarshalFunc.Call([]reflect.Value{})
-- 
2.43.0


From f5ad41c53b38b1f90b800d2a88826d4a227fb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 18/33] fix: keep query string keys that look like numbers but
 are no array index

---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..0cc4dde 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || num < 0 || strconv.FormatInt(num, 10) != str {
+		// not an array index
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From 867f5d37fcc2bca69c5957539941ace36d6a90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/33] fix: parse query string array items in index order
 regardless of their depth

---
 stringsegment.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index 0cc4dde..cf648dc 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -95,12 +95,7 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
-	for ii := range ss[i] {
+	for ii := 0; ii < len(ss[i]) && ii < len(ss[j]); ii++ {
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -108,7 +103,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From 307c026700cfb18d71013792a533a47ecb86c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 20/33] fix: report query string parameters that conflict
 instead of dropping them

---
 querystring.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/querystring.go b/querystring.go
index faded21..5d7b9f8 100644
--- a/querystring.go
+++ b/querystring.go
@@ -55,18 +55,28 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsondict %s with %s fail", body, key)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			if _, err := addQueryStringSeg(next, segs[1:], val); err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)
+			}
 		}
 		return jbody, nil
 	case *JSONArray:
+		if !segs[0].isNumber {
+			return nil, errors.Wrapf(ErrTypeMismatch, "invalid array index %s of %s", segs[0], body)
+		}
 		index := segs[0].number
 		arrSize := int64(jbody.Size())
 		if index < arrSize {
+			if len(segs) == 1 {
+				return nil, errors.Wrapf(ErrTypeMismatch, "duplicate array index %d of %s", index, body)
+			}
 			next, err := jbody.GetAt(int(index))
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			if _, err := addQueryStringSeg(next, segs[1:], val); err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s at %d fail", body, index)
+			}
 		} else if arrSize == index {
 			// new
 			next, err := addQueryStringSeg(nil, segs[1:], val)
-- 
2.43.0


From 7e5b7b2be559adf50ba7eb7105a6507d8ddb1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 21/33] fix: marshal maps with non-string keys under readable
 key names

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6ace223..ce7849f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -85,7 +85,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 110a8846f2c4b1412d425f66932c22348ef7742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 22/33] fix: do not lose precision when a float is converted to
 a string

---
 marshal.go   | 4 ++--
 unmarshal.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/marshal.go b/marshal.go
index ce7849f..5fcb380 100644
--- a/marshal.go
+++ b/marshal.go
@@ -182,7 +182,7 @@ func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat64(val).String())
 	} else {
 		return NewFloat64(val)
 	}
@@ -192,7 +192,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat32(val).String())
 	} else {
 		return NewFloat32(val)
 	}
diff --git a/unmarshal.go b/unmarshal.go
index 6ef373c..b09414d 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -242,10 +242,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
+		val.Set(reflect.ValueOf(JSONString{data: this.String()}))
 		return nil
 	case JSONStringPtrType:
-		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
+		val.Set(reflect.ValueOf(NewString(this.String())))
 		return nil
 	case JSONIntType:
 		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
@@ -282,7 +282,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(this.String())
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From 0b5cfd1fd03ae53c94f6fc34b35e95f5954e69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 23/33] fix: a document with node pointers equals itself

---
 jsonpointer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..ec22018 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -164,6 +164,10 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
+	if ptr2, ok := obj.(*sJSONPointer); ok {
+		// compare the references, following them may never end
+		return ptr.nodeId == ptr2.nodeId
+	}
 	return ptr.getNode().Equals(obj)
 }
 
-- 
2.43.0


From 5f5f7ba8be900018277030272adab992f1acfe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 24/33] fix: Int, Float and Bool of a dict report an error
 instead of recursing endlessly

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..de6d3a1 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt // fmt.Errorf("%s is a dict", keys)
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat // fmt.Errorf("%s is a dict", keys)
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean // fmt.Errorf("%s is a dict", keys)
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From 80070cd7a4ed49e9528bbe25bcaac6974c277f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 25/33] fix: reject arrays and dicts as tristate values

---
 unmarshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index b09414d..07a398f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -422,7 +422,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONDictType, JSONIntType, JSONStringType, JSONBoolType, JSONFloatType,
-		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType:
+		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch //fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
@@ -487,7 +488,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONArrayType, JSONIntType, JSONBoolType, JSONFloatType, JSONStringType,
-		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType:
+		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch // fmt.Errorf("JSONDict type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
-- 
2.43.0


From 49bdf516eee990ab6337d770183f2c9cb88c1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 26/33] fix: an array unmarshalled into an interface{} does not
 share its items with the document

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 07a398f..6821f89 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -440,7 +440,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		return setInterfaceValue(val, this.data)
+		array, _ := this.GetArray()
+		return setInterfaceValue(val, array)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 2353153ee7411912dbb3dc0677b2b380c430b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 27/33] fix: marshalling a map with other than string keys
 numbers shared nodes at random

---
 marshal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 5fcb380..8a161c8 100644
--- a/marshal.go
+++ b/marshal.go
@@ -64,7 +64,15 @@ type tMapKeys []reflect.Value
 
 func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
+func (a tMapKeys) Less(i, j int) bool { return mapKeyString(a[i]) < mapKeyString(a[j]) }
+
+func mapKeyString(key reflect.Value) string {
+	if key.Kind() == reflect.String {
+		return key.String()
+	}
+	// reflect.Value.String() of other kinds does not tell the value
+	return fmt.Sprintf("%v", key)
+}
 
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
-- 
2.43.0


From d00c21f216171665f83eb2c811f82baf8f702ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 28/33] fix: an integral JSONFloat field is read back instead
 of refused

A JSONFloat of an integral value is printed without fraction and parsed as
JSONInt, which JSONFloat fields refused.
---
 unmarshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 6821f89..ea7ff40 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -119,7 +119,13 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringPtrType:
 		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
-	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
+	case JSONFloatType:
+		val.Set(reflect.ValueOf(*NewFloat64(float64(this.data))))
+		return nil
+	case JSONFloatPtrType:
+		val.Set(reflect.ValueOf(NewFloat64(float64(this.data))))
+		return nil
+	case JSONBoolType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
 	case tristate.TriStateType:
 		if this.data == 0 {
-- 
2.43.0


From ac03865bca94b63a21996920db59b0565be0ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 29/33] fix: marshal maps with keys of a string type under the
 keys themselves, not their String() text

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 8a161c8..9576a3a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -93,7 +93,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyString(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 37a270afbe7fec29bc504979bc0834b4912802c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:53 +0000
Subject: [PATCH 30/33] fix: unmarshal a map holding a reference that is
 replaced later

---
 unmarshal_session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unmarshal_session.go b/unmarshal_session.go
index f40ba73..1c41829 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -86,7 +86,11 @@ func setNodeValue(target, nodeValue reflect.Value) error {
 // pointers, it has to be copied again when all pointers have been resolved.
 func (s *sJsonUnmarshalSession) setMapIndex(mapVal, key, val reflect.Value) {
 	mapVal.SetMapIndex(key, val)
-	if s.pending > 0 {
+	// once an item is to be restored, so are those set after it, which may
+	// replace it
+	if s.pending > 0 || len(s.mapItems) > 0 {
+		// the variable of the map may be set to another map, or to nil
+		mapVal = reflect.ValueOf(mapVal.Interface())
 		s.mapItems = append(s.mapItems, func() {
 			mapVal.SetMapIndex(key, val)
 		})
-- 
2.43.0


From fe6c53da63176ccc0d3ee0623806262657d797b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:53 +0000
Subject: [PATCH 31/33] fix: unmarshal a string into a slice type that contains
 itself

---
 unmarshal.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index ea7ff40..1be8ed3 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -397,6 +397,9 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case reflect.Interface:
 		return setInterfaceValue(val, this.data)
 	case reflect.Slice:
+		if isRecursiveSlice(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONString vs. %s", val.Type())
+		}
 		dataLen := 1
 		if val.Cap() < dataLen {
 			newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
@@ -411,6 +414,20 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	return nil
 }
 
+// isRecursiveSlice tells whether the items of a slice type are again slices of
+// that type, so that no item can be a scalar
+func isRecursiveSlice(t reflect.Type) bool {
+	visited := make(map[reflect.Type]bool)
+	for t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr {
+		if visited[t] {
+			return true
+		}
+		visited[t] = true
+		t = t.Elem()
+	}
+	return false
+}
+
 func (this *JSONArray) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
-- 
2.43.0


From dcaf30f8a2698a70024529448ab82daa2b38956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:40 +0000
Subject: [PATCH 32/33] fix: marshal a struct reached through a named pointer
 type as the same node

---
 marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 9576a3a..65657d2 100644
--- a/marshal.go
+++ b/marshal.go
@@ -279,7 +279,8 @@ func (s *sJsonMarshalSession) marshalValue(objValue reflect.Value, info *reflect
 func (s *sJsonMarshalSession) marshalValueWithObjectMap(objValue reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	var jsonPtr *sJSONPointer
 	if objValue.Kind() == reflect.Ptr {
-		inf := objValue.Interface()
+		// the node is the same through a pointer of a named type
+		inf := objValue.Convert(reflect.PtrTo(objValue.Type().Elem())).Interface()
 		if !gotypes.IsNil(inf) {
 			jsonPtrNode := s.objectTrace.find(inf)
 			if jsonPtrNode != nil {
-- 
2.43.0


From 3a46c6bdcee3e5458888fae0efe0b142fa80bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:56 +0000
Subject: [PATCH 33/33] fix: marshal a deprecated name with the value that its
 successor is written with

---
 marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 65657d2..1f68323 100644
--- a/marshal.go
+++ b/marshal.go
@@ -118,7 +118,8 @@ func (s *sJsonMarshalSession) marshalStruct(val reflect.Value, info *reflectutil
 }
 
 func findValueByKey(pairs []JSONPair, key string) JSONObject {
-	for i := range pairs {
+	// of several pairs of one key the last one wins
+	for i := len(pairs) - 1; i >= 0; i-- {
 		if pairs[i].key == key {
 			return pairs[i].val
 		}
-- 
2.43.0

