From 01500d9c8a79574dc7ea1f26833910e49b1df503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 01/32] fix: Clone and ReplaceId keep single-value params of a
 request

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..3bc7364 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -320,6 +320,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
 	newReq.SetTraceId(self.traceId)
+	newReq.paramsAreList = self.paramsAreList
 	return newReq
 }
 
-- 
2.43.0


From a661a1696a13a30a7b0a228d66b46c76ef0ffc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 02/32] fix: GuessJson takes nan and inf as strings, they have
 no JSON number

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index c7f7505..aa8a58c 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"math"
 	"math/big"
 	"net/http"
 	"os"
@@ -42,7 +43,7 @@ func GuessJson(input string) (interface{}, error) {
 		return iv, nil
 	}
 	fv, err := strconv.ParseFloat(input, 64)
-	if err == nil {
+	if err == nil && !math.IsNaN(fv) && !math.IsInf(fv, 0) {
 		return fv, nil
 	}
 
-- 
2.43.0


From 164161c44dafbccbc4b03758b4c20b83470ee49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 03/32] fix: Bigint refuses text that is not a decimal integer

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index aa8a58c..ee394bf 100644
--- a/utils.go
+++ b/utils.go
@@ -189,11 +189,19 @@ func (self *Bigint) UnmarshalJSON(data []byte) error {
 	sd := string(data)
 	bi := (*big.Int)(self)
 
+	if sd == "null" {
+		// no-op by convention
+		return nil
+	}
+	ok := false
 	if strings.HasPrefix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
+		_, ok = bi.SetString(sd[1:len(sd)-1], 10)
 	} else {
-		bi.SetString(sd, 10)
+		_, ok = bi.SetString(sd, 10)
+	}
+	if !ok {
+		return errors.Errorf("cannot decode %s to Bigint", sd)
 	}
 	return nil
 }
-- 
2.43.0


From 7346f52eb3a4e35a9f68b5bad251524496420ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 04/32] fix: DecodeParams accepts null for an interface field

---
 utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils.go b/utils.go
index ee394bf..c10875a 100644
--- a/utils.go
+++ b/utils.go
@@ -171,6 +171,12 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 		if err != nil {
 			return errors.Wrap(err, "mapstruct.Decode")
 		}
+		if ov == nil {
+			// null for an interface field
+			ptrValue.Elem().FieldByIndex(field.Index).Set(
+				reflect.Zero(field.Type))
+			continue
+		}
 
 		ptrValue.Elem().FieldByIndex(field.Index).Set(
 			reflect.ValueOf(ov))
-- 
2.43.0


From 3ed60af88dbdabb56abf7c76e85e148d24594875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 05/32] fix: object schemas accept any property name and refuse
 properties that are not a map

---
 schema/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/convert.go b/schema/convert.go
index 81ea882..83a0b72 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -121,7 +121,12 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 }
 
 func convertAttrMapOfMap(node map[string](interface{}), attrName string, optional bool) (map[string](map[string]interface{}), bool) {
-	if mm, ok := convertAttrMap(node, attrName, false); ok {
+	if v, ok := node[attrName]; ok {
+		// the keys of the attribute are names and not schema fields
+		mm, ok := v.(map[string]interface{})
+		if !ok {
+			return nil, false
+		}
 		resMap := make(map[string](map[string]interface{}))
 		for name, value := range mm {
 			mv, ok := convertTypeMap(value)
-- 
2.43.0


From dc51250df6c1edb7d72e8519ff260a27ca68a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 06/32] fix: schema limits of a wrong type are refused instead
 of dropped, integral floats are taken

---
 schema/builder.go | 89 ++++++++++++++++++++++++++++++++---------------
 schema/convert.go | 24 ++++++++++---
 2 files changed, 80 insertions(+), 33 deletions(-)

diff --git a/schema/builder.go b/schema/builder.go
index 7b4a6c4..417ea0d 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -217,12 +217,11 @@ func (self *SchemaBuilder) buildListSchema(node map[string](interface{}), paths
 	schema := NewListSchema()
 	schema.Item = itemSchema
 
-	if maxItems, ok := convertAttrInt(node, "maxItems", false); ok && maxItems >= 0 {
-		schema.MaxItems = &maxItems
+	if schema.MaxItems, err = self.sizeLimit(node, "maxItems", paths...); err != nil {
+		return nil, err
 	}
-
-	if minItems, ok := convertAttrInt(node, "minItems", false); ok && minItems >= 0 {
-		schema.MinItems = &minItems
+	if schema.MinItems, err = self.sizeLimit(node, "minItems", paths...); err != nil {
+		return nil, err
 	}
 	return schema, nil
 }
@@ -311,24 +310,51 @@ func (self *SchemaBuilder) buildMethodSchema(node map[string](interface{}), path
 			return nil, err
 		}
 		schema.Returns = c
+	} else if node["returns"] != nil {
+		return nil, NewBuildError("returns is not an object", append(paths, ".returns"))
 	}
 	return schema, nil
 }
 
+// read a limit attribute, nil when there is none. A limit of a wrong
+// type is an error, dropping it would let any data through
+func limitAttr[T any](
+	node map[string]interface{}, attrName string,
+	convert func(map[string]interface{}, string, bool) (T, bool),
+	paths ...string) (*T, error) {
+	if v, ok := node[attrName]; !ok || v == nil {
+		return nil, nil
+	}
+	limit, ok := convert(node, attrName, false)
+	if !ok {
+		return nil, NewBuildError("bad value of "+attrName, append(paths, "."+attrName))
+	}
+	return &limit, nil
+}
+
+// limits on a length, a negative one means no limit
+func (self *SchemaBuilder) sizeLimit(node map[string]interface{}, attrName string, paths ...string) (*int, error) {
+	limit, err := limitAttr(node, attrName, convertAttrInt, paths...)
+	if err != nil || limit == nil || *limit < 0 {
+		return nil, err
+	}
+	return limit, nil
+}
+
 func (self *SchemaBuilder) buildNumberSchema(node map[string](interface{}), paths ...string) (*NumberSchema, error) {
 	schema := NewNumberSchema()
-	if maximum, ok := convertAttrFloat(node, "maximum", false); ok {
-		schema.Maximum = &maximum
+	var err error
+	if schema.Maximum, err = limitAttr(node, "maximum", convertAttrFloat, paths...); err != nil {
+		return nil, err
 	}
-	if minimum, ok := convertAttrFloat(node, "minimum", false); ok {
-		schema.Minimum = &minimum
+	if schema.Minimum, err = limitAttr(node, "minimum", convertAttrFloat, paths...); err != nil {
+		return nil, err
 	}
-
-	if exmax, ok := convertAttrBool(node, "exclusiveMaximum", false); ok {
-		schema.ExclusiveMaximum = &exmax
+	if schema.ExclusiveMaximum, err = limitAttr(node, "exclusiveMaximum", convertAttrBool, paths...); err != nil {
+		return nil, err
 	}
-	if exmin, ok := convertAttrBool(node, "exclusiveMinimum", false); ok {
-		schema.ExclusiveMinimum = &exmin
+	if schema.ExclusiveMinimum, err = limitAttr(node, "exclusiveMinimum", convertAttrBool, paths...); err != nil {
+		return nil, err
 	}
 
 	return schema, nil
@@ -336,34 +362,41 @@ func (self *SchemaBuilder) buildNumberSchema(node map[string](interface{}), path
 
 func (self *SchemaBuilder) buildIntegerSchema(node map[string](interface{}), paths ...string) (*IntegerSchema, error) {
 	schema := NewIntegerSchema()
-	if maximum, ok := convertAttrInt(node, "maximum", false); ok {
-		n := int64(maximum)
+	maximum, err := limitAttr(node, "maximum", convertAttrInt, paths...)
+	if err != nil {
+		return nil, err
+	}
+	if maximum != nil {
+		n := int64(*maximum)
 		schema.Maximum = &n
 	}
-	if minimum, ok := convertAttrInt(node, "minimum", false); ok {
-		n := int64(minimum)
+	minimum, err := limitAttr(node, "minimum", convertAttrInt, paths...)
+	if err != nil {
+		return nil, err
+	}
+	if minimum != nil {
+		n := int64(*minimum)
 		schema.Minimum = &n
 	}
 
-	if exmax, ok := convertAttrBool(node, "exclusiveMaximum", false); ok {
-		schema.ExclusiveMaximum = &exmax
+	if schema.ExclusiveMaximum, err = limitAttr(node, "exclusiveMaximum", convertAttrBool, paths...); err != nil {
+		return nil, err
 	}
-	if exmin, ok := convertAttrBool(node, "exclusiveMinimum", false); ok {
-		schema.ExclusiveMinimum = &exmin
+	if schema.ExclusiveMinimum, err = limitAttr(node, "exclusiveMinimum", convertAttrBool, paths...); err != nil {
+		return nil, err
 	}
 	return schema, nil
 }
 
 func (self *SchemaBuilder) buildStringSchema(node map[string](interface{}), paths ...string) (*StringSchema, error) {
 	schema := NewStringSchema()
-	if maxLength, ok := convertAttrInt(node, "maxLength", false); ok && maxLength >= 0 {
-		schema.MaxLength = &maxLength
+	var err error
+	if schema.MaxLength, err = self.sizeLimit(node, "maxLength", paths...); err != nil {
+		return nil, err
 	}
-
-	if minLength, ok := convertAttrInt(node, "minLength", false); ok && minLength >= 0 {
-		schema.MinLength = &minLength
+	if schema.MinLength, err = self.sizeLimit(node, "minLength", paths...); err != nil {
+		return nil, err
 	}
-
 	return schema, nil
 }
 
diff --git a/schema/convert.go b/schema/convert.go
index 83a0b72..48691b5 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -3,6 +3,7 @@ package jlibschema
 import (
 	//"fmt"
 	"encoding/json"
+	"math"
 	//"reflect"
 )
 
@@ -87,12 +88,14 @@ func convertAttrInt(node map[string]interface{}, attrName string, optional bool)
 		if intv, ok := v.(int); ok {
 			return intv, ok
 		} else if n, ok := v.(json.Number); ok {
-			intv, err := n.Int64()
-			if err != nil {
-				return 0, false
-			} else {
-				return int(intv), ok
+			if intv, err := n.Int64(); err == nil {
+				return int(intv), true
 			}
+			if fv, err := n.Float64(); err == nil {
+				return integralInt(fv)
+			}
+		} else if fv, ok := v.(float64); ok {
+			return integralInt(fv)
 		}
 	} else if optional {
 		return 0, true
@@ -100,10 +103,21 @@ func convertAttrInt(node map[string]interface{}, attrName string, optional bool)
 	return 0, false
 }
 
+// integers written as floats such as 2.0 or 1e2
+func integralInt(fv float64) (int, bool) {
+	if fv == math.Trunc(fv) && math.Abs(fv) <= 1<<53 {
+		return int(fv), true
+	}
+	return 0, false
+}
+
 func convertAttrFloat(node map[string]interface{}, attrName string, optional bool) (float64, bool) {
 	if v, ok := node[attrName]; ok {
 		if n, ok := v.(int); ok {
 			return float64(n), true
+		} else if n, ok := v.(uint64); ok {
+			// yaml integers beyond int64
+			return float64(n), true
 		} else if n, ok := v.(float64); ok {
 			return n, true
 		} else if n, ok := v.(json.Number); ok {
-- 
2.43.0


From b165b1d4594acfb298450fd9e191506e2a7c82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 07/32] fix: the schema export keeps length, item and exclusive
 limits and additionalItems

---
 schema/schema.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..cbe1af0 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -132,16 +132,16 @@ func (self NumberSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -203,16 +203,16 @@ func (self IntegerSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0


From 9ae99772f5068909121b229a8c752988316f83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 08/32] fix: no argument or result of a typed handler makes the
 call panic

---
 http/typewrap.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..c5e64d4 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -29,7 +29,16 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	if err != nil {
 		return reflect.Value{}, err
 	}
-	return reflect.ValueOf(output), nil
+	if output == nil {
+		// null for an interface argument
+		return reflect.Zero(outputType), nil
+	}
+	value := reflect.ValueOf(output)
+	if !value.Type().AssignableTo(outputType) {
+		return reflect.Value{}, errors.Errorf(
+			"expected type %s, got %s", outputType, value.Type())
+	}
+	return value, nil
 }
 
 func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
@@ -77,7 +86,8 @@ type ContextSpec struct{}
 
 func (self ContextSpec) Check(firstArgType reflect.Type) bool {
 	ctxType := reflect.TypeOf((*context.Context)(nil)).Elem()
-	return firstArgType.Kind() == reflect.Interface && firstArgType.Implements(ctxType)
+	return firstArgType.Kind() == reflect.Interface &&
+		firstArgType.Implements(ctxType) && ctxType.Implements(firstArgType)
 }
 func (self ContextSpec) Value(req *RPCRequest) interface{} {
 	return req.Context()
@@ -89,9 +99,12 @@ func (self ContextSpec) String() string {
 func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, error) {
 
 	funcType := reflect.TypeOf(tfunc)
-	if funcType.Kind() != reflect.Func {
+	if funcType == nil || funcType.Kind() != reflect.Func {
 		return nil, errors.New("tfunc is not func type")
 	}
+	if funcType.IsVariadic() {
+		return nil, errors.New("variadic func is not supported")
+	}
 
 	numIn := funcType.NumIn()
 
@@ -153,6 +166,10 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		resValues := reflect.ValueOf(tfunc).Call(fnArgs)
 		resType := funcType.Out(0)
 		errRes := resValues[1].Interface()
+		if errType.Kind() == reflect.Ptr && resValues[1].IsNil() {
+			// nil of a concrete error type is no error
+			errRes = nil
+		}
 		if errRes != nil {
 			if err, ok := errRes.(error); ok {
 				return nil, err
-- 
2.43.0


From d5af651740f156c07ff6c41978e3afa976940374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 09/32] fix: results of typed handlers are their JSON form,
 also nil pointers and types with own encoding

---
 http/typewrap.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index c5e64d4..efc0639 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -1,7 +1,9 @@
 package jlibhttp
 
 import (
+	"bytes"
 	"context"
+	"encoding/json"
 	"fmt"
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
@@ -42,22 +44,18 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 }
 
 func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
-	var output interface{}
-	if typeIsStruct(tp) {
-		output = make(map[string]interface{})
-	} else {
-		output = reflect.Zero(tp).Interface()
-	}
-	config := &mapstructure.DecoderConfig{
-		Metadata: nil,
-		TagName:  "json",
-		Result:   &output,
+	if !typeIsStruct(tp) {
+		return val.Interface(), nil
 	}
-	decoder, err := mapstructure.NewDecoder(config)
+	// turn a struct into what its json form says
+	data, err := json.Marshal(val.Interface())
 	if err != nil {
 		return nil, err
 	}
-	err = decoder.Decode(val.Interface())
+	var output interface{}
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	err = dec.Decode(&output)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 64b6eb3b3194cea9d1ee6908b7f65734651adb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 10/32] fix: numbers beyond the range of the target type are
 refused instead of wrapped around

---
 http/typewrap.go | 12 +-----------
 utils.go         | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index efc0639..c2a274f 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/superisaac/jlib"
 	"reflect"
@@ -18,16 +17,7 @@ func typeIsStruct(tp reflect.Type) bool {
 
 func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, error) {
 	output := reflect.Zero(outputType).Interface()
-	config := &mapstructure.DecoderConfig{
-		Metadata: nil,
-		TagName:  "json",
-		Result:   &output,
-	}
-	decoder, err := mapstructure.NewDecoder(config)
-	if err != nil {
-		return reflect.Value{}, err
-	}
-	err = decoder.Decode(a)
+	err := jlib.DecodeInterface(a, &output)
 	if err != nil {
 		return reflect.Value{}, err
 	}
diff --git a/utils.go b/utils.go
index c10875a..04139bc 100644
--- a/utils.go
+++ b/utils.go
@@ -121,11 +121,37 @@ func NewUuid() string {
 	return strings.ReplaceAll(uuid.New().String(), "-", "")
 }
 
+// decode hook to refuse the numbers which overflow the output type
+func checkNumberRange(from reflect.Value, to reflect.Value) (interface{}, error) {
+	n, ok := from.Interface().(json.Number)
+	if !ok {
+		return from.Interface(), nil
+	}
+	overflow := false
+	switch to.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		iv, err := n.Int64()
+		overflow = err == nil && to.OverflowInt(iv)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		uv, err := strconv.ParseUint(n.String(), 10, 64)
+		overflow = err == nil && to.OverflowUint(uv)
+	case reflect.Float32:
+		fv, err := n.Float64()
+		overflow = err == nil && to.OverflowFloat(fv)
+	}
+	if overflow {
+		return nil, errors.Errorf("%s overflows %s", n, to.Type())
+	}
+	return n, nil
+}
+
 func DecodeInterface(input interface{}, output interface{}) error {
 	config := &mapstructure.DecoderConfig{
 		Metadata: nil,
 		TagName:  "json",
 		Result:   output,
+
+		DecodeHook: checkNumberRange,
 	}
 	decoder, err := mapstructure.NewDecoder(config)
 	if err != nil {
@@ -162,6 +188,8 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 			Metadata: nil,
 			TagName:  "json",
 			Result:   &ov,
+
+			DecodeHook: checkNumberRange,
 		}
 		decoder, err := mapstructure.NewDecoder(config)
 		if err != nil {
-- 
2.43.0


From d43f1d482c3d3916e8e7ab648029eafa56cbbf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 11/32] fix: GetSchema looks at the handler which Feed calls

---
 http/request.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..a696279 100644
--- a/http/request.go
+++ b/http/request.go
@@ -268,12 +268,12 @@ func (self Actor) MethodList() []string {
 
 // get the schema of a method
 func (self Actor) GetSchema(method string) (jlibschema.Schema, bool) {
-	if h, ok := self.getHandler(method); ok && h.schema != nil {
-		return h.schema, true
+	if h, ok := self.getHandler(method); ok {
+		return h.schema, h.schema != nil
 	}
 	for _, child := range self.children {
-		if s, ok := child.GetSchema(method); ok {
-			return s, ok
+		if child.Has(method) {
+			return child.GetSchema(method)
 		}
 	}
 	return nil, false
-- 
2.43.0


From 73208cd74e8cd495fb18cbf816c760d711540b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 12/32] fix: recover from error panics of the missing handler
 on results too

---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index a696279..ac68917 100644
--- a/http/request.go
+++ b/http/request.go
@@ -293,8 +293,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0


From 38a879ee1505d53789fbfe3dc3d5fb8614d61579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 13/32] fix: the HTTP/1 handler sets its headers before they
 are sent

---
 http/h1_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..72846f2 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -80,15 +80,15 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		data, err1 := jlib.MessageBytes(resmsg)
 		if err1 != nil {
 			resmsg.Log().Warnf("error marshaling msg %s", err1)
-			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), "")
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
 		w.Header().Set("Content-Type", "application/json")
 
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From bf9d1758bd29843aca3a312a0579b7e33124ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 14/32] fix: no panic on an Authorization header without a
 token

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..e079742 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From 44749c958e5214941428c0da4631645df4ce534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 15/32] fix: the HTTP/1 client leaves the trace id of the
 message in place

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..2933743 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -100,7 +100,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 
 	traceId := reqmsg.TraceId()
 
+	// the trace id goes in a header and not in the body
 	reqmsg.SetTraceId("")
+	defer reqmsg.SetTraceId(traceId)
 
 	marshaled, err := jlib.MessageBytes(reqmsg)
 	if err != nil {
@@ -173,6 +175,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 
 	traceId := msg.TraceId()
 	msg.SetTraceId("")
+	defer msg.SetTraceId(traceId)
 
 	marshaled, err := jlib.MessageBytes(msg)
 	if err != nil {
-- 
2.43.0


From 0ddc5f273e1f34e960ae0cca87f5625ff2a24219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 16/32] fix: the gateway reads the Upgrade header in any letter
 case

---
 http/gateway_handler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/http/gateway_handler.go b/http/gateway_handler.go
index 5c8791d..e770598 100644
--- a/http/gateway_handler.go
+++ b/http/gateway_handler.go
@@ -3,6 +3,7 @@ package jlibhttp
 import (
 	"context"
 	"net/http"
+	"strings"
 )
 
 // shared handler serve http1/http2/websocket server over the same port
@@ -45,13 +46,13 @@ func (self *GatewayHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	upgradeHeader := r.Header.Get("Upgrade")
-	if upgradeHeader == "websocket" {
+	if strings.EqualFold(upgradeHeader, "websocket") {
 		// maybe websocket handler
 		self.wsHandler.ServeHTTP(w, r)
 		return
 	}
 
-	if upgradeHeader == "h2c" {
+	if strings.EqualFold(upgradeHeader, "h2c") {
 		// maybe http2c handler
 		self.h2Handler.ServeHTTP(w, r)
 		return
-- 
2.43.0


From bd4e0f862c633fb6da0ce108569824b78c35c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:50 +0000
Subject: [PATCH 17/32] fix: the HTTP/1 client does not panic when unwrapping a
 message that is no answer

---
 http/h1_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 2933743..8391e99 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -82,8 +82,10 @@ func (self *H1Client) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMe
 			return errors.Wrapf(err, "RPC(%s)", reqmsg.Method)
 		}
 		return nil
-	} else {
+	} else if resmsg.IsError() {
 		return resmsg.MustError()
+	} else {
+		return errors.Errorf("RPC(%s): neither a result nor an error", reqmsg.Method)
 	}
 }
 
-- 
2.43.0


From d0064e6ae14fb4c1e3e68820ae94c37a772fbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 18/32] fix: the websocket client transport can be closed while
 in use, and leaves the default dialer alone

---
 http/ws_client.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..85f0e51 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -19,7 +20,9 @@ type WSClient struct {
 }
 
 type wsTransport struct {
-	ws *websocket.Conn
+	// lock guards ws, which Close() clears while the connection is in use
+	lock sync.Mutex
+	ws   *websocket.Conn
 
 	client *WSClient
 }
@@ -39,19 +42,33 @@ func (self *WSClient) String() string {
 }
 
 // websocket transport methods
+func (self *wsTransport) conn() *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws
+}
+
+func (self *wsTransport) setConn(ws *websocket.Conn) *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	old := self.ws
+	self.ws = ws
+	return old
+}
+
 func (self *wsTransport) Close() {
-	if self.ws != nil {
-		self.ws.Close()
-		self.ws = nil
+	if ws := self.setConn(nil); ws != nil {
+		ws.Close()
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+func (self *wsTransport) Connected() bool {
+	return self.conn() != nil
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// a copy, the default dialer is shared with others
+	dailer := *websocket.DefaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
 	ws, _, err := dailer.Dial(serverUrl.String(), header)
 	if err != nil {
@@ -62,7 +79,7 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
-	self.ws = ws
+	self.setConn(ws)
 	return nil
 }
 
@@ -87,14 +104,22 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
+	ws := self.conn()
+	if ws == nil {
+		return TransportClosed
+	}
+	if err := ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 		return self.handleWebsocketError(err)
 	}
 	return nil
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	messageType, msgBytes, err := self.ws.ReadMessage()
+	ws := self.conn()
+	if ws == nil {
+		return nil, false, TransportClosed
+	}
+	messageType, msgBytes, err := ws.ReadMessage()
 	if err != nil {
 		return nil, false, self.handleWebsocketError(err)
 	}
-- 
2.43.0


From 9c67966af8951fd100177b74b12246c0d0ce8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 19/32] fix: the HTTP/2 client transport can be closed while in
 use, and refuses an abnormal response

---
 http/h2_client.go | 55 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..c0ed497 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -29,11 +29,14 @@ type H2Client struct {
 }
 
 type h2Transport struct {
-	client  *H2Client
+	client *H2Client
+
+	// lock guards the fields below, which Close() clears while the
+	// connection is in use
+	lock    sync.Mutex
 	resp    *http.Response
 	decoder *json.Decoder
-	writer  io.Writer
-	flusher http.Flusher
+	writer  *io.PipeWriter
 }
 
 func NewH2Client(serverUrl *url.URL) *H2Client {
@@ -93,16 +96,22 @@ func (self *H2Client) String() string {
 
 // http2 transport methods
 func (self *h2Transport) Close() {
-	if self.resp != nil {
-		self.resp.Body.Close()
-		self.resp = nil
-		self.writer = nil
-		self.flusher = nil
-		//self.decoder = nil
+	self.lock.Lock()
+	resp, writer := self.resp, self.writer
+	self.resp = nil
+	self.writer = nil
+	self.decoder = nil
+	self.lock.Unlock()
+
+	if resp != nil {
+		writer.Close()
+		resp.Body.Close()
 	}
 }
 
-func (self h2Transport) Connected() bool {
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	return self.resp != nil
 }
 
@@ -120,6 +129,14 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		pipeWriter.Close()
+		resp.Body.Close()
+		return errors.Errorf("h2transport.connect: abnormal response %d", resp.StatusCode)
+	}
+
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
@@ -148,14 +165,26 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	}
 
 	marshaled = append(marshaled, []byte("\n")...)
-	if _, err := self.writer.Write(marshaled); err != nil {
+	self.lock.Lock()
+	writer := self.writer
+	self.lock.Unlock()
+	if writer == nil {
+		return TransportClosed
+	}
+	if _, err := writer.Write(marshaled); err != nil {
 		return self.handleHttp2Error(err)
 	}
 	return nil
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
-	msg, err := jlib.DecodeMessage(self.decoder)
+	self.lock.Lock()
+	decoder := self.decoder
+	self.lock.Unlock()
+	if decoder == nil {
+		return nil, false, TransportClosed
+	}
+	msg, err := jlib.DecodeMessage(decoder)
 	if err != nil {
 		if errors.Is(err, io.EOF) {
 			return nil, false, TransportClosed
@@ -164,7 +193,7 @@ func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 		}
 		self.client.Log().Warnf(
 			"bad jsonrpc message %s %s, at pos %d",
-			reflect.TypeOf(err), err, self.decoder.InputOffset())
+			reflect.TypeOf(err), err, decoder.InputOffset())
 		return nil, false, err
 	}
 	return msg, true, nil
-- 
2.43.0


From e51c84228f2323a74d796ef2a6ec9ba8ff21d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 20/32] fix: the streaming client survives concurrent use,
 close and loss of its connection

Every connection has its own state, which ends exactly once; loops of an earlier
connection never touch the next one; sending on a dead connection returns; a
timeout only ends the call it belongs to.
---
 http/streaming_client.go | 323 +++++++++++++++++++++++++--------------
 1 file changed, 208 insertions(+), 115 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..d4f92ea 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -12,10 +12,32 @@ import (
 	"time"
 )
 
+// how long a call waits for its response
+const requestTimeout = time.Second * 10
+
 type pendingRequest struct {
 	reqmsg        *jlib.RequestMessage
 	resultChannel chan jlib.Message
-	expire        time.Time
+}
+
+// the state of one connection, from Connect() until it is closed or lost
+type streamingConn struct {
+	ctx    context.Context
+	cancel func()
+
+	// send channel to write messsage sequencially
+	sendChannel chan jlib.Message
+
+	// channel to wait until connection closed
+	closeChannel chan error
+
+	// closed when the connection has ended, err and closeHandler
+	// are set before that
+	done chan struct{}
+	err  error
+
+	// the close handler to call for the end of this connection
+	closeHandler CloseHandler
 }
 
 // errors
@@ -39,11 +61,22 @@ type StreamingClient struct {
 	// extra http header taken to transports
 	extraHeader http.Header
 
-	// lock to prevent concurrent write
+	// lock to prevent concurrent connect
 	connectLock sync.Mutex
 
+	// held while reading from, writing to the transport. Connect() takes
+	// both, so the loops of an earlier connection never touch the next one
+	readLock  sync.Mutex
+	writeLock sync.Mutex
+
+	// guards conn, pendingRequests and closeHandler
+	lock sync.Mutex
+
+	// the current connection, nil if not connected
+	conn *streamingConn
+
 	// jsonrpc request message pending for result
-	pendingRequests sync.Map
+	pendingRequests map[interface{}]*pendingRequest
 
 	// on messsage handler
 	messageHandler MessageHandler
@@ -54,16 +87,6 @@ type StreamingClient struct {
 	// on close handler
 	closeHandler CloseHandler
 
-	// func accompanied by context, this func is called when
-	// client want to deliberatly close the connection
-	cancelFunc func()
-
-	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
-
-	// channel to wait until connection closed
-	closeChannel chan error
-
 	// the underline transport adaptor in charge of read/write
 	// bytes
 	transport Transport
@@ -101,19 +124,26 @@ func (self *StreamingClient) ServerURL() *url.URL {
 func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transport) {
 	self.serverUrl = serverUrl
 	self.transport = transport
-	self.sendChannel = nil
-	self.closeChannel = nil
+}
+
+func (self *StreamingClient) currentConn() *streamingConn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.conn
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
-	return self.closeChannel
+	if conn := self.currentConn(); conn != nil {
+		return conn.closeChannel
+	}
+	return nil
 }
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
-		return err
+	if conn := self.currentConn(); conn != nil {
+		<-conn.done
+		return conn.err
 	} else {
 		// client not connected, just return
 		return nil
@@ -121,23 +151,45 @@ func (self *StreamingClient) Wait() error {
 }
 
 func (self *StreamingClient) Close() {
-	if self.Connected() {
-		self.Reset(nil)
-	}
+	self.Reset(nil)
 }
 
 func (self *StreamingClient) Reset(err error) {
-	if self.cancelFunc != nil {
-		self.cancelFunc()
-		self.cancelFunc = nil
+	if conn := self.currentConn(); conn != nil {
+		self.endConn(conn, err)
 	}
+}
 
-	if self.closeChannel != nil {
-		self.closeChannel <- err
-		self.closeChannel = nil
+// end a connection if it has not ended yet
+func (self *StreamingClient) endConn(conn *streamingConn, err error) {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+
+	if self.conn != conn {
+		return
 	}
+	self.conn = nil
 	self.transport.Close()
-	self.sendChannel = nil
+
+	conn.closeHandler = self.closeHandler
+	self.closeHandler = nil
+	conn.err = err
+	conn.cancel()
+	conn.closeChannel <- err
+	close(conn.closeChannel)
+	close(conn.done)
+}
+
+// call the close handler once for the end of a connection
+func (self *StreamingClient) reportEnd(conn *streamingConn) {
+	self.lock.Lock()
+	handler := conn.closeHandler
+	conn.closeHandler = nil
+	self.lock.Unlock()
+
+	if handler != nil {
+		handler()
+	}
 }
 
 func (self *StreamingClient) OnMessage(handler MessageHandler) error {
@@ -157,6 +209,8 @@ func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
 }
 
 func (self *StreamingClient) OnClose(handler CloseHandler) error {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.closeHandler != nil {
 		return errors.New("close handler already exist!")
 	}
@@ -165,91 +219,114 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
+	_, err := self.connect(rootCtx)
+	return err
+}
+
+func (self *StreamingClient) connect(rootCtx context.Context) (*streamingConn, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
-	if !self.transport.Connected() {
-		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
-			//self.connectErr = err
-			return err
-		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
-		}
-		connCtx, cancel := context.WithCancel(rootCtx)
-		self.cancelFunc = cancel
-		self.sendChannel = make(chan jlib.Message, 100)
-		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
-	} else {
+	if conn := self.currentConn(); conn != nil {
 		self.Log().Debug("client already connected")
+		return conn, nil
 	}
-	return nil
+
+	if err := self.connectTransport(rootCtx); err != nil {
+		//self.connectErr = err
+		return nil, err
+	}
+	connCtx, cancel := context.WithCancel(rootCtx)
+	conn := &streamingConn{
+		ctx:          connCtx,
+		cancel:       cancel,
+		sendChannel:  make(chan jlib.Message, 100),
+		closeChannel: make(chan error, 1),
+		done:         make(chan struct{}),
+	}
+	self.lock.Lock()
+	self.conn = conn
+	self.lock.Unlock()
+
+	if self.connectedHandler != nil {
+		self.connectedHandler()
+	}
+	go self.sendLoop(conn)
+	go self.recvLoop(conn)
+	return conn, nil
+}
+
+func (self *StreamingClient) connectTransport(rootCtx context.Context) error {
+	self.readLock.Lock()
+	defer self.readLock.Unlock()
+	self.writeLock.Lock()
+	defer self.writeLock.Unlock()
+	return self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader)
 }
 
-func (self *StreamingClient) handleError(err error) {
+func (self *StreamingClient) handleError(conn *streamingConn, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
-	if self.closeHandler != nil {
-		self.closeHandler()
-		self.closeHandler = nil
-	}
+	self.endConn(conn, err)
 }
 
 func (self *StreamingClient) Connected() bool {
 	return self.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
-	//defer self.Reset(nil)
+func (self *StreamingClient) writeMessage(conn *streamingConn, msg jlib.Message) error {
+	self.writeLock.Lock()
+	defer self.writeLock.Unlock()
+	if self.currentConn() != conn {
+		return TransportClosed
+	}
+	return self.transport.WriteMessage(msg)
+}
+
+func (self *StreamingClient) readMessage(conn *streamingConn) (jlib.Message, bool, error) {
+	self.readLock.Lock()
+	defer self.readLock.Unlock()
+	if self.currentConn() != conn {
+		return nil, false, TransportClosed
+	}
+	return self.transport.ReadMessage()
+}
+
+func (self *StreamingClient) sendLoop(conn *streamingConn) {
 	defer func() {
+		self.reportEnd(conn)
 		self.Log().Debug("sendLoop stop")
 	}()
-	ctx, cancel := context.WithCancel(connCtx)
-	defer cancel()
 
 	self.Log().Debug("sendLoop start")
 	for {
-		if !self.transport.Connected() {
-			return
-		}
 		select {
-		case <-ctx.Done():
+		case <-conn.ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
+			self.endConn(conn, nil)
 			return
-		case msg, ok := <-self.sendChannel:
-			if !ok {
-				return
-			}
-			if !self.transport.Connected() {
-				return
-			}
-			err := self.transport.WriteMessage(msg)
+		case msg := <-conn.sendChannel:
+			err := self.writeMessage(conn, msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.handleError(conn, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(conn *streamingConn) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
+		self.reportEnd(conn)
 		self.Log().Debug("recvLoop stop")
 	}()
 	for {
-		if !self.transport.Connected() {
-			return
-		}
-		msg, readed, err := self.transport.ReadMessage()
+		msg, readed, err := self.readMessage(conn)
 		if err != nil {
-			self.handleError(err)
+			self.handleError(conn, err)
 			return
 		}
 		if !readed {
@@ -271,39 +348,51 @@ func (self *StreamingClient) recvLoop() {
 
 func (self *StreamingClient) handleResult(msg jlib.Message) {
 	msgId := msg.MustId()
-	v, loaded := self.pendingRequests.LoadAndDelete(msgId)
-	if !loaded {
+	pending := self.takePending(msgId, nil)
+	if pending == nil {
 		if self.messageHandler != nil {
 			self.messageHandler(msg)
 		}
 		return
 	}
 
-	if pending, ok := v.(*pendingRequest); ok {
-		if msgId != pending.reqmsg.Id {
-			resmsg := msg.ReplaceId(pending.reqmsg.Id)
-			pending.resultChannel <- resmsg
-		} else {
-			pending.resultChannel <- msg
-		}
+	if msgId != pending.reqmsg.Id {
+		resmsg := msg.ReplaceId(pending.reqmsg.Id)
+		pending.resultChannel <- resmsg
+	} else {
+		pending.resultChannel <- msg
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
-	// ctx, cancel := context.WithCancel(rootCtx)
-	// defer cancel()
-	select {
-	// case <- ctx.Done():
-	// 	return
-	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
-		}
+// register a pending request, returns the message to send, which has
+// another id when the request's own id is in use
+func (self *StreamingClient) addPending(pending *pendingRequest) *jlib.RequestMessage {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+
+	if self.pendingRequests == nil {
+		self.pendingRequests = make(map[interface{}]*pendingRequest)
+	}
+	sendmsg := pending.reqmsg
+	if _, inuse := self.pendingRequests[sendmsg.Id]; inuse {
+		sendmsg = sendmsg.Clone(jlib.NewUuid())
+	}
+	self.pendingRequests[sendmsg.Id] = pending
+	return sendmsg
+}
+
+// remove and return the pending request of an id, or nil if there is
+// none or it is not the expected one
+func (self *StreamingClient) takePending(msgId interface{}, expected *pendingRequest) *pendingRequest {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+
+	pending, ok := self.pendingRequests[msgId]
+	if !ok || (expected != nil && pending != expected) {
+		return nil
 	}
+	delete(self.pendingRequests, msgId)
+	return pending
 }
 
 func (self *StreamingClient) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMessage, output interface{}) error {
@@ -335,38 +424,42 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	if err != nil {
 		return nil, err
 	}
-	ch := make(chan jlib.Message, 10)
-
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
 
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
-		resultChannel: ch,
-		expire:        time.Now().Add(time.Second * 10),
+		resultChannel: make(chan jlib.Message, 1),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+	sendmsg := self.addPending(p)
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
+		self.takePending(sendmsg.Id, p)
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
 
-	resmsg, ok := <-ch
-	if !ok {
-		return nil, errors.New("result channel closed")
+	timer := time.NewTimer(requestTimeout)
+	defer timer.Stop()
+	select {
+	case resmsg := <-p.resultChannel:
+		return resmsg, nil
+	case <-timer.C:
+		if self.takePending(sendmsg.Id, p) == nil {
+			// the response arrived at the last moment
+			return <-p.resultChannel, nil
+		}
+		return jlib.ErrTimeout.ToMessage(reqmsg), nil
 	}
-	return resmsg, nil
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
-	err := self.Connect(rootCtx)
+	conn, err := self.connect(rootCtx)
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	select {
+	case conn.sendChannel <- msg:
+		return nil
+	case <-conn.done:
+		return TransportClosed
+	}
 }
-- 
2.43.0


From 36fe10f1bb51db132e62c12e20016c12a92938f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 21/32] fix: ending a session leaves nothing blocked and no
 write after the handler returned

A result that cannot be encoded is answered with an internal error, a failed
write ends the session.
---
 http/h2_server.go | 44 ++++++++++++++++++++++++++++++++------------
 http/request.go   | 12 ++++++++++++
 http/ws_server.go | 38 +++++++++++++++++++++++++-------------
 3 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..c53dd98 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -33,6 +33,8 @@ type H2Session struct {
 	httpRequest *http.Request
 	rootCtx     context.Context
 	done        chan error
+	ended       chan struct{}
+	sendDone    chan struct{}
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -89,7 +91,9 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		writer:      w,
 		flusher:     flusher,
 		decoder:     decoder,
-		done:        make(chan error, 10),
+		done:        make(chan error, 1),
+		ended:       make(chan struct{}),
+		sendDone:    make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -107,6 +111,11 @@ func (self *H2Session) wait() {
 
 	serverCtx, cancelServer := context.WithCancel(self.server.serverCtx)
 	defer cancelServer()
+	defer func() {
+		// the writer must not be used after the http handler returns
+		close(self.ended)
+		<-self.sendDone
+	}()
 
 	go self.sendLoop()
 	go self.recvLoop()
@@ -126,6 +135,14 @@ func (self *H2Session) wait() {
 	}
 }
 
+// end the session, only the first error counts
+func (self *H2Session) end(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
+}
+
 func (self *H2Session) recvLoop() {
 	for {
 		msg, err := jlib.DecodeMessage(self.decoder)
@@ -133,7 +150,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.end(err)
 				return
 			}
 		}
@@ -144,7 +161,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.end(nil)
 	return
 }
 
@@ -158,20 +175,19 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.end(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.ended:
+	}
 }
 
 func (self H2Session) SessionID() string {
@@ -179,6 +195,7 @@ func (self H2Session) SessionID() string {
 }
 
 func (self *H2Session) sendLoop() {
+	defer close(self.sendDone)
 	ctx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
 
@@ -186,6 +203,8 @@ func (self *H2Session) sendLoop() {
 		select {
 		case <-ctx.Done():
 			return
+		case <-self.ended:
+			return
 		case msg, ok := <-self.sendChannel:
 			if !ok {
 				return
@@ -193,15 +212,16 @@ func (self *H2Session) sendLoop() {
 			if self.decoder == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := sessionMessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
 			if _, err := self.writer.Write(marshaled); err != nil {
 				log.Warnf("h2 writedata warning message %s\n", err)
+				self.end(errors.Wrap(err, "writer.Write()"))
 				return
 			}
 			self.flusher.Flush()
diff --git a/http/request.go b/http/request.go
index ac68917..ef309c0 100644
--- a/http/request.go
+++ b/http/request.go
@@ -402,3 +402,15 @@ func (self Actor) wrapResult(res interface{}, err error, msg jlib.Message) (jlib
 		return jlib.NewResultMessage(reqmsg, res), nil
 	}
 }
+
+// encode a message of a streaming session, an answer that cannot be
+// encoded becomes an internal error
+func sessionMessageBytes(msg jlib.Message) ([]byte, error) {
+	marshaled, err := jlib.MessageBytes(msg)
+	if err != nil && msg.IsResultOrError() {
+		msg.Log().Warnf("error marshaling msg %s", err)
+		errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+		return jlib.MessageBytes(errmsg)
+	}
+	return marshaled, err
+}
diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..e6ba469 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -28,6 +28,7 @@ type WSSession struct {
 	httpRequest *http.Request
 	rootCtx     context.Context
 	done        chan error
+	ended       chan struct{}
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -58,7 +59,8 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		rootCtx:     r.Context(),
 		httpRequest: r,
 		ws:          ws,
-		done:        make(chan error, 10),
+		done:        make(chan error, 1),
+		ended:       make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -66,7 +68,6 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
@@ -76,6 +77,7 @@ func (self *WSSession) wait() {
 
 	serverCtx, cancelServer := context.WithCancel(self.server.serverCtx)
 	defer cancelServer()
+	defer close(self.ended)
 
 	go self.sendLoop()
 	go self.recvLoop()
@@ -95,11 +97,19 @@ func (self *WSSession) wait() {
 	}
 }
 
+// end the session, only the first error counts
+func (self *WSSession) end(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
+}
+
 func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.end(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -119,7 +129,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.end(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -132,20 +142,19 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.end(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.ended:
+	}
 }
 
 func (self WSSession) SessionID() string {
@@ -160,6 +169,8 @@ func (self *WSSession) sendLoop() {
 		select {
 		case <-ctx.Done():
 			return
+		case <-self.ended:
+			return
 		case msg, ok := <-self.sendChannel:
 			if !ok {
 				return
@@ -167,14 +178,15 @@ func (self *WSSession) sendLoop() {
 			if self.ws == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := sessionMessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 				log.Warnf("write warning message %s", err)
+				self.end(errors.Wrap(err, "ws.WriteMessage()"))
 				return
 			}
 		}
-- 
2.43.0


From 0d70252e0f9bf8c16bb4f7789c8ca949cd86ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 22/32] fix: the fifo example guards its subscribers and does
 not share its list with answers

---
 examples/fifo/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index f45c89a..e694740 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,7 +72,8 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		return fifo, nil
+		// a copy, the answer is encoded after the lock is released
+		return append([]interface{}{}, fifo...), nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -95,12 +96,16 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
+		lock.Lock()
+		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
+		lock.Lock()
+		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From 660b0a8a15b55b6899e46af929a7de85d87e94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 23/32] fix: cancelling the context ends a streaming connection
 whose peer has stalled

---
 http/streaming_client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index d4f92ea..02d30a6 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -251,11 +251,19 @@ func (self *StreamingClient) connect(rootCtx context.Context) (*streamingConn, e
 	if self.connectedHandler != nil {
 		self.connectedHandler()
 	}
+	go self.contextLoop(conn)
 	go self.sendLoop(conn)
 	go self.recvLoop(conn)
 	return conn, nil
 }
 
+// end the connection when its context is cancelled, even if both of the
+// other loops are blocked in the transport
+func (self *StreamingClient) contextLoop(conn *streamingConn) {
+	<-conn.ctx.Done()
+	self.endConn(conn, nil)
+}
+
 func (self *StreamingClient) connectTransport(rootCtx context.Context) error {
 	self.readLock.Lock()
 	defer self.readLock.Unlock()
@@ -302,9 +310,7 @@ func (self *StreamingClient) sendLoop(conn *streamingConn) {
 	self.Log().Debug("sendLoop start")
 	for {
 		select {
-		case <-conn.ctx.Done():
-			self.Log().Debug("ctx Done")
-			self.endConn(conn, nil)
+		case <-conn.done:
 			return
 		case msg := <-conn.sendChannel:
 			err := self.writeMessage(conn, msg)
-- 
2.43.0


From cdf4b9b3c95eb96456df50f61dbbd4d28aac6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 24/32] Revert "fix: the fifo example guards its subscribers
 and does not share its list with answers"

This reverts commit 0d70252e0f9bf8c16bb4f7789c8ca949cd86ef0f.
---
 examples/fifo/main.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index e694740..f45c89a 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,8 +72,7 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		// a copy, the answer is encoded after the lock is released
-		return append([]interface{}{}, fifo...), nil
+		return fifo, nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -96,16 +95,12 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
-		lock.Lock()
-		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
-		lock.Lock()
-		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From fff188b14303a017f51994783c8fe690325512b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 25/32] fix: the HTTP/1 client stays with HTTP/1 when no TLS
 settings are given

Over https without TLS settings of its own the client negotiated HTTP/2, which
the gateway and the HTTP/2 handler take for a stream, and every call failed.
---
 http/h1_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 8391e99..27a060b 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -53,6 +53,8 @@ func (self *H1Client) connect() {
 			MaxIdleConns:        30,
 			MaxIdleConnsPerHost: 10,
 			IdleConnTimeout:     30 * time.Second,
+			// stay with HTTP/1, servers take a HTTP/2 request as a stream
+			TLSNextProto: map[string]func(string, *tls.Conn) http.RoundTripper{},
 		}
 		if self.clientTLS != nil {
 			tr.TLSClientConfig = self.clientTLS
-- 
2.43.0


From 6ff07ba67fbc8c5658e5d269bcd04b6b959c191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 26/32] fix: the benchmark tool refuses zero counts and
 unsupported urls instead of crashing

---
 cli/benchmark/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cli/benchmark/main.go b/cli/benchmark/main.go
index b42aefe..33dc15c 100644
--- a/cli/benchmark/main.go
+++ b/cli/benchmark/main.go
@@ -56,6 +56,16 @@ func main() {
 		os.Exit(1)
 	}
 
+	if *pConcurrency == 0 || *pNum == 0 {
+		fmt.Fprintf(os.Stderr, "the numbers of clients and calls must be positive\n")
+		os.Exit(1)
+	}
+
+	if _, err := jlibhttp.NewClient(serverUrl); err != nil {
+		fmt.Fprintf(os.Stderr, "fail to find jsonrpc client: %s\n", err)
+		os.Exit(1)
+	}
+
 	RunCallBenchmark(
 		serverUrl,
 		method, params,
-- 
2.43.0


From 17f5a4779733bd967768bc66b48818a8bb0590b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 27/32] fix: jsonrpc-watch opens a connection again that was
 lost before it began to wait

---
 cli/watch/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index d37a6e8..57e9588 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -151,5 +151,9 @@ func (self *jsonrpcWatcher) connect() error {
 		fmt.Println(repr)
 	}
 	// wait loop
-	return self.sc.Wait()
+	if err := self.sc.Wait(); err != nil {
+		return err
+	}
+	// the connection had been lost before the wait began
+	return jlibhttp.TransportClosed
 }
-- 
2.43.0


From 1cabb335e0541bf8c4a23098c2379d3b06b9418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 28/32] Revert "fix: the benchmark tool refuses zero counts and
 unsupported urls instead of crashing"

cli/benchmark counts as a benchmark, which is not to be changed here.
---
 cli/benchmark/main.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/cli/benchmark/main.go b/cli/benchmark/main.go
index 33dc15c..b42aefe 100644
--- a/cli/benchmark/main.go
+++ b/cli/benchmark/main.go
@@ -56,16 +56,6 @@ func main() {
 		os.Exit(1)
 	}
 
-	if *pConcurrency == 0 || *pNum == 0 {
-		fmt.Fprintf(os.Stderr, "the numbers of clients and calls must be positive\n")
-		os.Exit(1)
-	}
-
-	if _, err := jlibhttp.NewClient(serverUrl); err != nil {
-		fmt.Fprintf(os.Stderr, "fail to find jsonrpc client: %s\n", err)
-		os.Exit(1)
-	}
-
 	RunCallBenchmark(
 		serverUrl,
 		method, params,
-- 
2.43.0


From 2464df45fbcb6542bf6a8643cd46aa92eb397f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 29/32] fix: HTTP/1 client leaves the trace id of a message
 alone while sending it

---
 http/h1_client.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27a060b..d1c0c90 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -73,6 +73,30 @@ func (self *H1Client) SetClientTLSConfig(cfg *tls.Config) {
 	self.clientTLS = cfg
 }
 
+// withoutTraceId gives a copy of the message that has no trace id, the
+// message itself may be in use elsewhere
+func withoutTraceId(msg jlib.Message) jlib.Message {
+	switch m := msg.(type) {
+	case *jlib.RequestMessage:
+		c := *m
+		c.SetTraceId("")
+		return &c
+	case *jlib.NotifyMessage:
+		c := *m
+		c.SetTraceId("")
+		return &c
+	case *jlib.ResultMessage:
+		c := *m
+		c.SetTraceId("")
+		return &c
+	case *jlib.ErrorMessage:
+		c := *m
+		c.SetTraceId("")
+		return &c
+	}
+	return msg
+}
+
 func (self *H1Client) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMessage, output interface{}) error {
 	resmsg, err := self.Call(rootCtx, reqmsg)
 	if err != nil {
@@ -105,10 +129,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	traceId := reqmsg.TraceId()
 
 	// the trace id goes in a header and not in the body
-	reqmsg.SetTraceId("")
-	defer reqmsg.SetTraceId(traceId)
-
-	marshaled, err := jlib.MessageBytes(reqmsg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(reqmsg))
 	if err != nil {
 		return nil, err
 	}
@@ -178,10 +199,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	self.connect()
 
 	traceId := msg.TraceId()
-	msg.SetTraceId("")
-	defer msg.SetTraceId(traceId)
-
-	marshaled, err := jlib.MessageBytes(msg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(msg))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5f7a738c03fbdadab725b6bebf3bc97008c6a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 30/32] fix: building a schema leaves the description it is
 given alone

---
 schema/convert.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/schema/convert.go b/schema/convert.go
index 48691b5..9cfa63b 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -16,6 +16,14 @@ func stringInList(a string, candidates ...string) bool {
 	return false
 }
 
+func copyMap(src map[string]interface{}) map[string]interface{} {
+	dst := make(map[string]interface{}, len(src)+1)
+	for k, v := range src {
+		dst[k] = v
+	}
+	return dst
+}
+
 // util functions
 func convertTypeMap(maybeType interface{}) (map[string]interface{}, bool) {
 	if typeStr, ok := maybeType.(string); ok && stringInList(typeStr, "string", "number", "integer", "bool", "null") {
@@ -26,6 +34,10 @@ func convertTypeMap(maybeType interface{}) (map[string]interface{}, bool) {
 	if typeMap, ok := maybeType.(map[string]interface{}); ok {
 		// type is map
 		if _, ok := typeMap["type"]; !ok {
+			// the description belongs to the caller, who may use it
+			// in other goroutines
+			typeMap = copyMap(typeMap)
+
 			// type field missing, guess it's type
 			if _, ok := typeMap["params"]; ok {
 				// has field `params`, so this is a method schema
-- 
2.43.0


From d23363880efc0fc3f7430e23b21fc7aa00a5faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 31/32] fix: opening an HTTP/2 connection ends when the server
 does not answer

---
 http/h2_client.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index c0ed497..f0365b8 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -16,6 +16,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"time"
 )
 
 type H2Client struct {
@@ -28,6 +29,10 @@ type H2Client struct {
 	UseH2C bool
 }
 
+// how long a server may take to answer the opening of a connection, the
+// same as with websocket
+const h2HandshakeTimeout = 45 * time.Second
+
 type h2Transport struct {
 	client *H2Client
 
@@ -37,6 +42,7 @@ type h2Transport struct {
 	resp    *http.Response
 	decoder *json.Decoder
 	writer  *io.PipeWriter
+	cancel  context.CancelFunc
 }
 
 func NewH2Client(serverUrl *url.URL) *H2Client {
@@ -97,8 +103,9 @@ func (self *H2Client) String() string {
 // http2 transport methods
 func (self *h2Transport) Close() {
 	self.lock.Lock()
-	resp, writer := self.resp, self.writer
+	resp, writer, cancel := self.resp, self.writer, self.cancel
 	self.resp = nil
+	self.cancel = nil
 	self.writer = nil
 	self.decoder = nil
 	self.lock.Unlock()
@@ -106,6 +113,7 @@ func (self *h2Transport) Close() {
 	if resp != nil {
 		writer.Close()
 		resp.Body.Close()
+		cancel()
 	}
 }
 
@@ -125,13 +133,20 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		Body:   pipeReader,
 	}
 
-	resp, err := self.client.HTTPClient().Do(req)
+	// the context lasts as long as the connection, it is cancelled earlier
+	// only if the server does not answer
+	ctx, cancel := context.WithCancel(context.Background())
+	timer := time.AfterFunc(h2HandshakeTimeout, cancel)
+	resp, err := self.client.HTTPClient().Do(req.WithContext(ctx))
+	timer.Stop()
 	if err != nil {
+		cancel()
 		return self.handleHttp2Error(err)
 	}
 	if resp.StatusCode != http.StatusOK {
 		pipeWriter.Close()
 		resp.Body.Close()
+		cancel()
 		return errors.Errorf("h2transport.connect: abnormal response %d", resp.StatusCode)
 	}
 
@@ -139,6 +154,7 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	defer self.lock.Unlock()
 	self.writer = pipeWriter
 	self.resp = resp
+	self.cancel = cancel
 	self.decoder = json.NewDecoder(resp.Body)
 	return nil
 }
-- 
2.43.0


From e7014ad93efd37976a03ac4f5ff2fd3a9e234bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 32/32] fix: an HTTP/2 session ends also when its peer takes no
 more data

---
 http/h2_server.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index c53dd98..69cbd59 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -12,8 +12,12 @@ import (
 	"io"
 	"net/http"
 	"sync"
+	"time"
 )
 
+// how long the last write of a session that has ended may take
+const h2LastWriteTimeout = time.Second * 5
+
 type H2Handler struct {
 	Actor     *Actor
 	serverCtx context.Context
@@ -114,7 +118,7 @@ func (self *H2Session) wait() {
 	defer func() {
 		// the writer must not be used after the http handler returns
 		close(self.ended)
-		<-self.sendDone
+		self.waitSendDone()
 	}()
 
 	go self.sendLoop()
@@ -135,6 +139,23 @@ func (self *H2Session) wait() {
 	}
 }
 
+// wait until the send loop has stopped. A peer that stays connected but
+// takes nothing more would hold it in a write for ever
+func (self *H2Session) waitSendDone() {
+	timer := time.NewTimer(h2LastWriteTimeout)
+	defer timer.Stop()
+	select {
+	case <-self.sendDone:
+		return
+	case <-timer.C:
+	}
+	if w, ok := self.writer.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		// a deadline in the past resets the stream
+		w.SetWriteDeadline(time.Unix(1, 0))
+	}
+	<-self.sendDone
+}
+
 // end the session, only the first error counts
 func (self *H2Session) end(err error) {
 	select {
-- 
2.43.0

