From c87b541f7e072737271c05e8ae48aae1ff2f6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 01/36] fix: release the visited mark of the inheritance source
 on every exit

BaseShape.Inherit left ShapeVisited set on the source when the source was an any
type, a union, or when the merge failed. The next type that inherited from the
same source was then treated as a recursion and silently replaced by its parent.
---
 shape.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 09e7252..2e70af2 100644
--- a/shape.go
+++ b/shape.go
@@ -134,6 +134,9 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return sourceBase, nil
 	}
 	sourceBase.ShapeVisited = true
+	// The mark must not outlive this call on any exit, otherwise the next type that inherits
+	// from the same source would take it for a recursion.
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +178,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From adbfcbfe47b324f2af495f7af9801e9ed763d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 02/36] fix: release the visited mark when recursion marking
 fails

FindAndMarkRecursion returned early on an error with ShapeVisited still set, so a
later traversal of the same shape reported a recursion that does not exist.
---
 unwrap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unwrap.go b/unwrap.go
index 13c6410..f5e7254 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -195,15 +195,15 @@ func (r *RAML) FindAndMarkRecursion(base *BaseShape) (*BaseShape, error) {
 	case *UnionShape:
 		err = r.findAndMarkRecursionInUnionShape(t)
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	// Reset the context to avoid generating recursive shape
 	// for trait that points to the same type that defines this trait.
 	// This is OK because traits cannot have nested traits and
 	// cannot be used as a source for inheritance.
 	base.ShapeVisited = false
+	if err != nil {
+		return nil, err
+	}
 	err = r.findAndMarkRecursionInCustomShapeFacetDefinitions(base)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2267ce9ae120bd9758ebfa0225eeea0cff9a7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 03/36] fix: keep enum when a boolean type is aliased

BooleanShape.alias dropped the enum facet of the aliased type, so the alias accepted
values that the original type rejects.
---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..420e896 100644
--- a/scalars.go
+++ b/scalars.go
@@ -836,13 +836,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From 733f2ff187466c194914d9eb3448c7a224b11880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 04/36] fix: keep own multipleOf of a number type on
 inheritance

NumberShape.inherit overwrote multipleOf declared by the type with the one of its
parent, unlike every other facet and unlike IntegerShape.
---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 420e896..3511dee 100644
--- a/scalars.go
+++ b/scalars.go
@@ -396,7 +396,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From 79e1806c4dfb90fdf0647ae9b011b93e907dc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/36] fix: compare enum members by value

Members that are maps or sequences made the comparison panic, and equal numbers
decoded to different Go types were taken for different members.
---
 scalars.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 3511dee..4ff42ba 100644
--- a/scalars.go
+++ b/scalars.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"fmt"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -41,7 +42,7 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if isEqualValue(v.Value, e.Value) {
 				found = true
 				break
 			}
@@ -53,6 +54,35 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	return true
 }
 
+// isEqualValue compares two data values. Numbers are compared by value, whatever Go type they were decoded to.
+func isEqualValue(a, b any) bool {
+	if x, ok := numberToRat(a); ok {
+		y, isNumber := numberToRat(b)
+		return isNumber && x.Cmp(y) == 0
+	}
+	// Members can be maps and slices, which are not comparable with "==".
+	return reflect.DeepEqual(a, b)
+}
+
+// numberToRat returns the exact value of a number decoded from YAML or JSON.
+func numberToRat(v any) (*big.Rat, bool) {
+	switch v := v.(type) {
+	case int:
+		return new(big.Rat).SetInt64(int64(v)), true
+	case int64:
+		return new(big.Rat).SetInt64(v), true
+	case uint:
+		return new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(v))), true
+	case uint64:
+		return new(big.Rat).SetInt(new(big.Int).SetUint64(v)), true
+	case float64:
+		// NaN and infinities are not representable.
+		r := new(big.Rat).SetFloat64(v)
+		return r, r != nil
+	}
+	return nil, false
+}
+
 type FormatFacets struct {
 	Format *string
 }
-- 
2.43.0


From db59084d8fcfdec5c8f6b4aeda6419728fe3f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 06/36] fix: validate integer values without truncation

A fractional or out of range float64 was truncated before it was compared with the
facets, and integers that go-yaml decodes to int64 or uint64 were rejected.
---
 scalars.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/scalars.go b/scalars.go
index 4ff42ba..bd8de67 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"regexp"
@@ -143,11 +144,19 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	switch v := v.(type) {
 	case int:
 		val.SetInt64(int64(v))
+	// go-yaml unmarshals integers that do not fit into int as int64 or uint64
+	case int64:
+		val.SetInt64(v)
 	case uint:
 		val.SetUint64(uint64(v))
+	case uint64:
+		val.SetUint64(v)
 	// json unmarshals numbers as float64
 	case float64:
-		val.SetInt64(int64(v))
+		if math.IsInf(v, 0) || math.Trunc(v) != v {
+			return fmt.Errorf("invalid value, got %v, expected whole number", v)
+		}
+		big.NewFloat(v).Int(&val)
 	default:
 		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
 	}
@@ -161,16 +170,9 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement multipleOf validation
 	// TODO: Implement format validation
 	if s.Enum != nil {
-		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if isEqualValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -239,7 +241,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, int64, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From f909896f9b82e93448506e5e5c05be6ce169845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 07/36] fix: match number enum members by value

An enum member written as an integer was never equal to the float64 the value is
converted to, and integers that go-yaml decodes to int64 or uint64 were rejected.
---
 scalars.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index bd8de67..88ca23e 100644
--- a/scalars.go
+++ b/scalars.go
@@ -371,8 +371,12 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	// go-yaml unmarshals integers as int
 	case int:
 		val = float64(v)
+	case int64:
+		val = float64(v)
 	case uint:
 		val = float64(v)
+	case uint64:
+		val = float64(v)
 	case float64:
 		val = v
 	default:
@@ -390,7 +394,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if isEqualValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -459,7 +463,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, int64, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From 5d27eb9f83dcfa490eda9efaf699b36d6d3d0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 08/36] fix: inherit members of a target union from the source
 type

The members inherited from the union itself, so the constraints of the source were lost.
---
 shape.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 2e70af2..3ef75a7 100644
--- a/shape.go
+++ b/shape.go
@@ -170,7 +170,12 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		// Every member of the target union must inherit from the source.
+		sourceBase.ShapeVisited = false
+		if _, err := sourceBase.inheritUnionTarget(targetUnion); err != nil {
+			return nil, err
+		}
+		return s, nil
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
-- 
2.43.0


From 6a6d734eaef0453215866518b11a343c30c3631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 09/36] fix: use the shape that inheritance returns

Inheriting from a union can produce another shape than the one that inherits. Callers
dropped it, so the constraints of the union member were lost.
---
 complex.go | 11 ++++++++---
 shape.go   |  2 +-
 unwrap.go  |  4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..9f03391 100644
--- a/complex.go
+++ b/complex.go
@@ -130,11 +130,12 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
-		_, err := s.Items.Inherit(ss.Items)
+		items, err := s.Items.Inherit(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
+		s.Items = items
 	}
 	if s.MinItems == nil {
 		s.MinItems = ss.MinItems
@@ -552,13 +553,15 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			_, err := targetProp.Base.Inherit(sourceProp.Base)
+			base, err := targetProp.Base.Inherit(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			targetProp.Base = base
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -575,13 +578,15 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
-				_, err := targetProp.Base.Inherit(sourceProp.Base)
+				base, err := targetProp.Base.Inherit(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				targetProp.Base = base
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
diff --git a/shape.go b/shape.go
index 3ef75a7..87ce4c4 100644
--- a/shape.go
+++ b/shape.go
@@ -131,7 +131,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	// Avoid recursion caused by inheritance chain
 	if sourceBase.ShapeVisited {
 		// NOTE: We do not mark any recursions here. External code must handle this case.
-		return sourceBase, nil
+		return s, nil
 	}
 	sourceBase.ShapeVisited = true
 	// The mark must not outlive this call on any exit, otherwise the next type that inherits
diff --git a/unwrap.go b/unwrap.go
index f5e7254..b57add7 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -361,12 +361,12 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
-			us, errUnwrap = ss.Inherit(us)
+			ss, errUnwrap = ss.Inherit(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = us
+			inherits[i] = ss
 		}
 		source = ss
 	}
-- 
2.43.0


From f4638fc4b145461640e314763d6cecdc3ce66e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 10/36] fix: do not panic on conversion of empty or invalid
 file types

---
 jsonschemaconv.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..5f7dc25 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -253,12 +253,11 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
-		maybeStr, ok := s.FileTypes[0].Value.(string)
-		if !ok {
-			panic("file type must be a string")
+	if len(s.FileTypes) > 0 {
+		// Non-string file types are reported by the type check.
+		if mediaType, ok := s.FileTypes[0].Value.(string); ok {
+			schema.ContentMediaType = mediaType
 		}
-		schema.ContentMediaType = maybeStr
 	}
 	return node
 }
-- 
2.43.0


From d004774bcd1ddd0c30a7b798ed1c219bfe1694c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 11/36] fix: convert to plain JSON schema without a wrapper

The generic schema was asserted to be the dialect type itself, which always panicked.
---
 jsonschemaconv.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 5f7dc25..891ad08 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -77,11 +77,7 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		Definitions: c.definitions,
 	}
 
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil), nil
-	}
-
-	return any(core).(T), nil
+	return c.wrapSchema(core, nil), nil
 }
 
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
@@ -472,18 +468,12 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.Definitions[k] = c.recast(v)
 		}
 	}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrapSchema(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
 	core := &JSONSchemaGeneric[T]{}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrapSchema(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
@@ -506,8 +496,18 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 	if base.Example != nil {
 		core.Examples = []any{base.Example.Data.Value}
 	}
+	return c.wrapSchema(core, base)
+}
+
+// wrapSchema turns the generic schema into the schema of the converter dialect.
+func (c *JSONSchemaConverter[T]) wrapSchema(core *JSONSchemaGeneric[T], base *BaseShape) T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, base)
 	}
-	return any(core).(T)
+	// Without wrapper the dialect is always the plain JSONSchema, see NewJSONSchemaConverter.
+	var schema T
+	if plain, ok := any(core).(*JSONSchemaGeneric[*JSONSchema]); ok {
+		schema, _ = any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
+	}
+	return schema
 }
-- 
2.43.0


From d3f343774b37a93b59b8e62c00146bd8a447e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 12/36] fix: reject reserved type names and empty lists of
 parents

Both led to a panic: an empty list on resolution, a user-written "json" type on
conversion to JSON schema, a user-written "composite" type on resolution.
---
 shape.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/shape.go b/shape.go
index 87ce4c4..77afcdd 100644
--- a/shape.go
+++ b/shape.go
@@ -662,6 +662,12 @@ func (r *RAML) makeShapeType(
 		switch shapeTypeNode.Tag {
 		case TagStr:
 			shapeType = shapeTypeNode.Value
+			switch shapeType {
+			case TypeJSON, TypeComposite:
+				// These names denote internal types and must not be confused with user-defined ones.
+				return "", nil, StacktraceNew("type name is reserved", location,
+					WithNodePosition(shapeTypeNode), stacktrace.WithInfo("type", shapeType))
+			}
 			if shapeType == "" {
 				shapeTypeI, err := identifyShapeType(shapeFacets)
 				if err != nil {
@@ -693,6 +699,10 @@ func (r *RAML) makeShapeType(
 				WithNodePosition(shapeTypeNode))
 		}
 	case yaml.SequenceNode:
+		if len(shapeTypeNode.Content) == 0 {
+			return "", nil, StacktraceNew("type must have at least one parent", location,
+				WithNodePosition(shapeTypeNode))
+		}
 		var inherits = make([]*BaseShape, len(shapeTypeNode.Content))
 		for i, node := range shapeTypeNode.Content {
 			if node.Kind != yaml.ScalarNode {
-- 
2.43.0


From 23247add981560649ab774f766f46e0ab1c7d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 13/36] fix: require maps for facets and for uses of a data
 type

A sequence with an odd number of items panicked, a scalar was silently ignored.
---
 fragment.go | 3 +++
 shape.go    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..08569f2 100644
--- a/fragment.go
+++ b/fragment.go
@@ -345,6 +345,9 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 				break
 			}
 
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
 			for j := 0; j != len(valueNode.Content); j += 2 {
diff --git a/shape.go b/shape.go
index 77afcdd..31afa44 100644
--- a/shape.go
+++ b/shape.go
@@ -820,6 +820,12 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Tag == TagNull {
+		return nil
+	}
+	if valueNode.Kind != yaml.MappingNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 07a94cedfd4584fbbc58fb9e2911216015fa503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 14/36] fix: report fragments that are reused as another kind

Referencing an already loaded fragment where another kind is expected panicked.
---
 parse.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index a50be10..c67a2e2 100644
--- a/parse.go
+++ b/parse.go
@@ -131,7 +131,12 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		dataType, ok := dt.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return dataType, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -224,7 +229,12 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		library, ok := lib.(*Library)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return library, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -274,7 +284,12 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		namedExample, ok := lib.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return namedExample, nil
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From 181221f63be0141c9957db394e78159602c2d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 15/36] fix: validate and convert examples included from a
 NamedExample

---
 jsonschemaconv.go | 2 +-
 shape.go          | 8 ++++++++
 validate.go       | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 891ad08..b2ea408 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -488,7 +488,7 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 		core.Default = base.Default.Value
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		for pair := base.Examples.All().Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			core.Examples = append(core.Examples, ex.Data.Value)
 		}
diff --git a/shape.go b/shape.go
index 31afa44..f9858fd 100644
--- a/shape.go
+++ b/shape.go
@@ -423,6 +423,14 @@ type Examples struct {
 	stacktrace.Position
 }
 
+// All returns the examples defined in place or in the included NamedExample fragment.
+func (e *Examples) All() *orderedmap.OrderedMap[string, *Example] {
+	if e.Link != nil {
+		return e.Link.Map
+	}
+	return e.Map
+}
+
 // ShapeBaser is the interface that represents a retriever of a base shape.
 type ShapeBaser interface {
 	Base() *BaseShape
diff --git a/validate.go b/validate.go
index 9275a5e..7859c61 100644
--- a/validate.go
+++ b/validate.go
@@ -311,7 +311,7 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 		}
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		for pair := base.Examples.All().Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			if err := base.Validate(ex.Data.Value); err != nil {
 				return StacktraceNewWrapped("validate example", err, ex.Location,
-- 
2.43.0


From ca053b4fad9e2c96c31dca2eb83d1b53cb6fa267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 16/36] fix: report a failure to close a file instead of
 exiting the process

---
 node.go  | 22 ++++++-------------
 parse.go | 64 ++++++++++++++++++++++----------------------------------
 2 files changed, 31 insertions(+), 55 deletions(-)

diff --git a/node.go b/node.go
index 728ab77..6248ebd 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"log"
 	"path/filepath"
 	"strings"
 
@@ -39,7 +38,7 @@ func (n *Node) String() string {
 	return fmt.Sprintf("%v", n.Value)
 }
 
-func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error) {
+func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (n *Node, err error) {
 	baseDir := filepath.Dir(location)
 	fragmentPath := filepath.Join(baseDir, node.Value)
 	rdr, err := ReadRawFile(fragmentPath)
@@ -47,12 +46,7 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 		return nil, StacktraceNewWrapped("include: read raw file", err, location, WithNodePosition(node),
 			stacktrace.WithInfo("path", fragmentPath))
 	}
-	defer func(rdr io.ReadCloser) {
-		err = rdr.Close()
-		if err != nil {
-			log.Fatal(fmt.Errorf("close file error: %w", err))
-		}
-	}(rdr)
+	defer closeFragmentFile(rdr, fragmentPath, &err)
 	var value any
 	ext := filepath.Ext(node.Value)
 	switch ext {
@@ -123,7 +117,7 @@ func (r *RAML) makeYamlNode(node *yaml.Node, location string) (*Node, error) {
 	}, nil
 }
 
-func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any, error) {
+func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (data any, err error) {
 	switch node.Tag {
 	default:
 		var val any
@@ -145,17 +139,13 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 		baseDir := filepath.Dir(location)
 		fragmentPath := filepath.Join(baseDir, node.Value)
 		// TODO: Need to refactor and move out IO logic from this function.
-		r, err := ReadRawFile(filepath.Join(baseDir, node.Value))
+		var r io.ReadCloser
+		r, err = ReadRawFile(fragmentPath)
 		if err != nil {
 			return nil, StacktraceNewWrapped("include: read raw file", err, location, WithNodePosition(node),
 				stacktrace.WithInfo("path", fragmentPath))
 		}
-		defer func(r io.ReadCloser) {
-			err = r.Close()
-			if err != nil {
-				log.Fatal(fmt.Errorf("close file error: %w", err))
-			}
-		}(r)
+		defer closeFragmentFile(r, fragmentPath, &err)
 		// TODO: This logic should be more complex because content type may depend on the header reported
 		//  by remote server.
 		ext := filepath.Ext(node.Value)
diff --git a/parse.go b/parse.go
index c67a2e2..2db4bae 100644
--- a/parse.go
+++ b/parse.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"log"
 	"os"
 	"path/filepath"
 	"strings"
@@ -120,7 +119,7 @@ func CheckFragmentKind(f *os.File, kind FragmentKind) error {
 
 const HookBeforeParseDataType = "before:RAML.parseDataType"
 
-func (r *RAML) parseDataType(path string) (*DataType, error) {
+func (r *RAML) parseDataType(path string) (dt *DataType, err error) {
 	if err := r.callHooks(HookBeforeParseDataType, path); err != nil {
 		return nil, err
 	}
@@ -129,9 +128,9 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	// Fragment paths must be normalized to absolute paths to simplify dependent libraries resolution.
 
-	if dt := r.GetFragment(path); dt != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// log.Printf("reusing fragment %s", path)
-		dataType, ok := dt.(*DataType)
+		dataType, ok := frag.(*DataType)
 		if !ok {
 			return nil, StacktraceNew("unexpected fragment kind", path,
 				stacktrace.WithType(StacktraceTypeReading))
@@ -145,19 +144,14 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFragmentFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentDataType); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	dt, err := r.decodeDataType(f, path)
+	dt, err = r.decodeDataType(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode data type", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -166,6 +160,14 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 	return dt, nil
 }
 
+// closeFragmentFile closes the file and reports the failure through errPtr unless an error is reported already.
+func closeFragmentFile(f io.Closer, path string, errPtr *error) {
+	if err := f.Close(); err != nil && *errPtr == nil {
+		*errPtr = StacktraceNewWrapped("close file", err, path,
+			stacktrace.WithType(StacktraceTypeReading))
+	}
+}
+
 func openFragmentFile(path string) (*os.File, error) {
 	// TODO: Maybe fragments should be loaded against specified base URI.
 	// If base URI is not specified, use current workdir.
@@ -219,17 +221,16 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	return lib, nil
 }
 
-func (r *RAML) parseLibrary(path string) (*Library, error) {
+func (r *RAML) parseLibrary(path string) (lib *Library, err error) {
 	// IMPORTANT: May generate recursive structure.
 	// Consumers (resolvers, validators, external clients) must implement recursion detection when traversing links.
 
 	// Fragment paths must be normalized to absolute paths to simplify dependent libraries resolution.
 	// TODO: Add support for URI
-	var err error
 
-	if lib := r.GetFragment(path); lib != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		library, ok := lib.(*Library)
+		library, ok := frag.(*Library)
 		if !ok {
 			return nil, StacktraceNew("unexpected fragment kind", path,
 				stacktrace.WithType(StacktraceTypeReading))
@@ -243,19 +244,14 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 			stacktrace.WithType(StacktraceTypeLoading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFragmentFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentLibrary); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	lib, err := r.decodeLibrary(f, path)
+	lib, err = r.decodeLibrary(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode library", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -278,13 +274,13 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 	return ne, nil
 }
 
-func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
+func (r *RAML) parseNamedExample(path string) (ne *NamedExample, err error) {
 	// Library paths must be normalized to simplify dependent libraries resolution.
 	// Convert rel to abs relative to current workdir if necessary.
 
-	if lib := r.GetFragment(path); lib != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		namedExample, ok := lib.(*NamedExample)
+		namedExample, ok := frag.(*NamedExample)
 		if !ok {
 			return nil, StacktraceNew("unexpected fragment kind", path,
 				stacktrace.WithType(StacktraceTypeReading))
@@ -297,19 +293,14 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 		return nil, fmt.Errorf("open fragment file: %w", err)
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFragmentFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentNamedExample); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	ne, err := r.decodeNamedExample(f, path)
+	ne, err = r.decodeNamedExample(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode named example", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -318,7 +309,7 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 	return ne, nil
 }
 
-func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
+func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) (err error) {
 	// Library paths must be normalized to simplify dependent libraries resolution.
 	// Convert rel to abs relative to current workdir if necessary.
 
@@ -333,12 +324,7 @@ func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFragmentFile(f, path, &err)
 
 	return r.parseFragment(f, f.Name(), pOpts)
 }
-- 
2.43.0


From ab1f520df0ba75b4e7a4cf77edbf8188f0eced36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 17/36] fix: clean the path of the entry point

A path that is absolute but not clean made the entry point load twice when another
fragment refers to it.
---
 parse.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 2db4bae..e601e45 100644
--- a/parse.go
+++ b/parse.go
@@ -171,12 +171,10 @@ func closeFragmentFile(f io.Closer, path string, errPtr *error) {
 func openFragmentFile(path string) (*os.File, error) {
 	// TODO: Maybe fragments should be loaded against specified base URI.
 	// If base URI is not specified, use current workdir.
-	if !filepath.IsAbs(path) {
-		workdir, err := os.Getwd()
-		if err != nil {
-			return nil, fmt.Errorf("get workdir: %w", err)
-		}
-		path = filepath.Join(workdir, path)
+	// Cleaned absolute path makes every reference to the file look the same.
+	path, err := filepath.Abs(path)
+	if err != nil {
+		return nil, fmt.Errorf("get absolute path: %w", err)
 	}
 	f, err := os.OpenFile(path, os.O_RDONLY, os.ModePerm)
 	if err != nil {
-- 
2.43.0


From 6329b96bda685a619e8ca760de2b7a8b0b7b3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 18/36] fix: do not modify lists of hooks in place

A hook that removed itself made the next hook be skipped, and instances that share a
context changed hooks of each other.
---
 raml.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 683fc5e..90766ec 100644
--- a/raml.go
+++ b/raml.go
@@ -56,7 +56,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 }
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
-	hooks := r.getHooks(key)
+	// Hooks are copied since the list may be in use or be shared through the context.
+	hooks := append([]HookFunc{}, r.getHooks(key)...)
 	hooks = append(hooks, hook)
 	r.setHooks(key, hooks)
 }
@@ -68,7 +69,8 @@ func (r *RAML) PrependHook(key HookKey, hook HookFunc) {
 }
 
 func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
-	hooks := r.getHooks(key)
+	// Hooks are copied since the list may be in use or be shared through the context.
+	hooks := append([]HookFunc{}, r.getHooks(key)...)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
 			hooks = append(hooks[:i], hooks[i+1:]...)
-- 
2.43.0


From db12e376cebfb428c912ab6e8a0d1f512ccfd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 19/36] fix: register unwrapped types in the fragment

The shape from before the unwrapping was registered when inheritance returned another one.
---
 unwrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unwrap.go b/unwrap.go
index b57add7..1ffbcd9 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -38,9 +38,9 @@ func (r *RAML) unwrapTypes(
 		}
 		types.Set(pair.Key, us)
 		if isAnnotationType {
-			r.PutAnnotationTypeIntoFragment(us.Name, f.Location, base)
+			r.PutAnnotationTypeIntoFragment(pair.Key, f.Location, us)
 		} else {
-			r.PutTypeIntoFragment(us.Name, f.Location, base)
+			r.PutTypeIntoFragment(pair.Key, f.Location, us)
 		}
 	}
 	return st
-- 
2.43.0


From 1c677334de25666c4379e521c7e984dc81b3150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 20/36] fix: process fragments, properties and custom facets in
 a stable order

The order of Go maps decided which shape was unwrapped first and which error was reported.
---
 complex.go  | 10 +++++++++-
 raml.go     | 15 +++++++++++++++
 unwrap.go   |  4 ++--
 validate.go | 11 ++++++-----
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index 9f03391..cf5f30d 100644
--- a/complex.go
+++ b/complex.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -451,7 +452,14 @@ func (s *ObjectShape) validateProperties(ctxPath string, props map[string]interf
 	}
 
 	restrictedAdditionalProperties := s.AdditionalProperties != nil && !*s.AdditionalProperties
-	for k, item := range props {
+	keys := make([]string, 0, len(props))
+	for k := range props {
+		keys = append(keys, k)
+	}
+	// Stable order makes the reported error stable.
+	sort.Strings(keys)
+	for _, k := range keys {
+		item := props[k]
 		// Explicitly defined properties have priority over pattern properties.
 		ctxPathK := ctxPath + "." + k
 
diff --git a/raml.go b/raml.go
index 90766ec..eefd896 100644
--- a/raml.go
+++ b/raml.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 type HookKey string
@@ -203,6 +204,20 @@ func (r *RAML) GetFragment(location string) Fragment {
 	return r.fragmentsCache[location]
 }
 
+// sortedFragments returns all fragments in a stable order.
+func (r *RAML) sortedFragments() []Fragment {
+	locations := make([]string, 0, len(r.fragmentsCache))
+	for location := range r.fragmentsCache {
+		locations = append(locations, location)
+	}
+	sort.Strings(locations)
+	fragments := make([]Fragment, len(locations))
+	for i, location := range locations {
+		fragments[i] = r.fragmentsCache[location]
+	}
+	return fragments
+}
+
 // PutFragment puts a fragment.
 func (r *RAML) PutFragment(location string, fragment Fragment) {
 	if _, ok := r.fragmentsCache[location]; !ok {
diff --git a/unwrap.go b/unwrap.go
index 1ffbcd9..6f0e4fe 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -76,7 +76,7 @@ func (r *RAML) unwrapDataType(f *DataType) *stacktrace.StackTrace {
 
 func (r *RAML) unwrapFragments() *stacktrace.StackTrace {
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			se := r.unwrapLibrary(f)
@@ -146,7 +146,7 @@ func (r *RAML) UnwrapShapes() error {
 // markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
 func (r *RAML) markShapeRecursions() error {
 	// TODO: Maybe count shapes here?
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
diff --git a/validate.go b/validate.go
index 7859c61..62b659d 100644
--- a/validate.go
+++ b/validate.go
@@ -136,7 +136,7 @@ func (r *RAML) validateFragments(unwrapCache map[int64]*BaseShape) *stacktrace.S
 		return StacktraceNewWrapped("handle step", err, r.GetLocation())
 	}
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			if err := r.validateLibrary(f, unwrapCache); err != nil {
@@ -337,7 +337,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// TODO: Doesn't support multiple inheritance.
 	inherits := base.Inherits
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
-	validationFacetDefs := make(map[string]Property)
+	validationFacetDefs := orderedmap.New[string, Property]()
 	for {
 		if len(inherits) == 0 {
 			break
@@ -349,14 +349,15 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 				return StacktraceNew("duplicate custom facet", f.Base.Location,
 					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
 			}
-			validationFacetDefs[f.Name] = f
+			validationFacetDefs.Set(f.Name, f)
 		}
 		inherits = parent.Inherits
 	}
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
+	for pair := validationFacetDefs.Oldest(); pair != nil; pair = pair.Next() {
+		k, facetDef := pair.Key, pair.Value
 		f, ok := shapeFacets.Get(k)
 		if !ok {
 			if facetDef.Required {
@@ -374,7 +375,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// If we encounter an undefined facet - it's an error.
 	for pair := shapeFacets.Oldest(); pair != nil; pair = pair.Next() {
 		k, f := pair.Key, pair.Value
-		if _, ok := validationFacetDefs[k]; !ok {
+		if _, ok := validationFacetDefs.Get(k); !ok {
 			return StacktraceNew("unknown facet", f.Location, stacktrace.WithPosition(&f.Position),
 				stacktrace.WithInfo("facet", k))
 		}
-- 
2.43.0


From f5ed6855a8f800cf910b02a97473c35ea681e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 21/36] fix: keep the parents in a recursive shape

A recursive type with custom facets was rejected because the facet definitions of its
parents were not found.
---
 shape.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shape.go b/shape.go
index f9858fd..7bbfa5a 100644
--- a/shape.go
+++ b/shape.go
@@ -543,6 +543,8 @@ func (r *RAML) MakeRecursiveShape(headBase *BaseShape) *BaseShape {
 	recursiveBase.Description = headBase.Description
 	recursiveBase.CustomDomainProperties = headBase.CustomDomainProperties
 	recursiveBase.CustomShapeFacets = headBase.CustomShapeFacets
+	// Custom facets are validated against the definitions of the parents.
+	recursiveBase.Inherits = headBase.Inherits
 	// Recursive shapes must not provide facet definitions,
 	// they are provided by the head shape.
 	s := &RecursiveShape{BaseShape: recursiveBase, Head: headBase}
-- 
2.43.0


From b2aa8d0bbee527efb0b9cc4f7e4150996f62c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 22/36] fix: clone the head of a recursive shape

The clone validated nested values against the original shape.
---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index cf5f30d..027cb41 100644
--- a/complex.go
+++ b/complex.go
@@ -1067,9 +1067,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if c.Head != nil {
+		c.Head = c.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From 2a63e041f9baafb183081cce1db9f1ce0db19434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 23/36] fix: report types that are defined by nothing but
 themselves

Cyclic references and a data type that includes itself overflowed the stack.
---
 complex.go |  5 +++++
 parse.go   |  4 ++--
 raml.go    |  2 ++
 resolve.go | 12 ++++++++++++
 shape.go   |  3 +++
 5 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/complex.go b/complex.go
index 027cb41..f714992 100644
--- a/complex.go
+++ b/complex.go
@@ -1007,6 +1007,11 @@ type UnknownShape struct {
 	*BaseShape
 
 	facets []*yaml.Node
+
+	// resolving is set while the shape is being resolved.
+	resolving bool
+	// resolvedShapes is the number of shapes resolved by the time the resolution of this shape was started.
+	resolvedShapes int64
 }
 
 func (s *UnknownShape) Base() *BaseShape {
diff --git a/parse.go b/parse.go
index e601e45..6e9463a 100644
--- a/parse.go
+++ b/parse.go
@@ -77,13 +77,13 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// The fragment must be known before decoding since it may include itself.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
diff --git a/raml.go b/raml.go
index eefd896..33d6cac 100644
--- a/raml.go
+++ b/raml.go
@@ -26,6 +26,8 @@ type RAML struct {
 	shapes []*BaseShape
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
+	// resolvedShapes is a counter of shapes that were made concrete.
+	resolvedShapes int64
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/resolve.go b/resolve.go
index 7a5869a..27d6d03 100644
--- a/resolve.go
+++ b/resolve.go
@@ -152,6 +152,18 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	// The shape may refer to itself as long as there is an array, a union or a property in between. Getting back
+	// to the shape without resolving anything on the way means that the type is defined by nothing but itself.
+	if unknownShape.resolving && unknownShape.resolvedShapes == r.resolvedShapes {
+		return StacktraceNew("cyclic type reference", base.Location,
+			stacktrace.WithPosition(&base.Position))
+	}
+	prevResolving, prevResolvedShapes := unknownShape.resolving, unknownShape.resolvedShapes
+	unknownShape.resolving, unknownShape.resolvedShapes = true, r.resolvedShapes
+	defer func() {
+		unknownShape.resolving, unknownShape.resolvedShapes = prevResolving, prevResolvedShapes
+	}()
+
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
diff --git a/shape.go b/shape.go
index 7bbfa5a..4db0d4b 100644
--- a/shape.go
+++ b/shape.go
@@ -613,6 +613,9 @@ func (r *RAML) MakeConcreteShapeYAML(base *BaseShape, shapeType string, shapeFac
 		shape = &JSONShape{BaseShape: base}
 	}
 	base.SetShape(shape)
+	if _, ok := shape.(*UnknownShape); !ok {
+		r.resolvedShapes++
+	}
 
 	if err := shape.unmarshalYAMLNodes(shapeFacets); err != nil {
 		return nil, StacktraceNewWrapped("unmarshal yaml nodes", err, base.Location,
-- 
2.43.0


From d98b5f4d3222ce3bdaaecf0e92858d9685c72208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 24/36] fix: report an invalid file that is followed by a valid
 one

The validate command kept only the result of the last file.
---
 cmd/raml/validate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/raml/validate.go b/cmd/raml/validate.go
index b20bdb9..2e5ccd3 100644
--- a/cmd/raml/validate.go
+++ b/cmd/raml/validate.go
@@ -27,21 +27,22 @@ func NewValidateCmd(opts ValidateOptions, args []string) *ValidateCommand {
 }
 
 func (v ValidateCommand) Execute(ctx context.Context) error {
-	var err error
+	var hasErrors bool
 	var stOpts []stacktrace.TracesOpt
 	if v.Opts.EnsureDuplicates {
 		stOpts = append(stOpts, stacktrace.WithEnsureDuplicates())
 	}
 	for _, arg := range v.Args {
 		slog.Info("Validating RAML...", slog.String("path", arg))
-		_, err = raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
+		_, err := raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
 		if err != nil {
+			hasErrors = true
 			slog.Error("RAML is invalid", slogex.ErrToSlogAttr(err, stOpts...))
 		} else {
 			slog.Info("RAML is valid", slog.String("path", arg))
 		}
 	}
-	if err != nil {
+	if hasErrors {
 		return fmt.Errorf("errors have been found in the RAML files")
 	}
 	return nil
-- 
2.43.0


From 4addadc751d037ee202c0736f30f9a32a1891133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 25/36] fix: count characters in the length of a string

Lengths were compared in bytes, so that non-ASCII strings were rejected by
maxLength and accepted by minLength wrongly, and differently from the
converted JSON schema.
---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 88ca23e..34589f1 100644
--- a/scalars.go
+++ b/scalars.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -571,7 +572,7 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 5374ab555879897e71e4f9b025b376bf6fddda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:55 +0000
Subject: [PATCH 26/36] fix: report failures to make the types of an expression

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..289d6fd 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make new shape: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From 451099f936cd507d820e4450e95cc58aa338d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 27/36] fix: keep the facets of a built-in type in parentheses

---
 rdt_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 289d6fd..142baf0 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -80,7 +80,7 @@ func (visitor *RdtVisitor) VisitType(ctx *rdt.TypeContext, target *UnknownShape)
 }
 
 func (visitor *RdtVisitor) VisitPrimitive(ctx *rdt.PrimitiveContext, target *UnknownShape) (Shape, error) {
-	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), nil)
+	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
 	}
-- 
2.43.0


From c6f05673c2dba2aaa2668731e7aa7622232b5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 28/36] fix: deep copies of schemas do not share empty maps

---
 schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..9b98702 100644
--- a/schema.go
+++ b/schema.go
@@ -141,21 +141,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
-- 
2.43.0


From 219c735008322fea78e6c39a3a296689c60cd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 29/36] fix: multiple inheritance must not change the first
 parent

---
 complex.go | 12 ++++++++++++
 unwrap.go  |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index f714992..07a92b3 100644
--- a/complex.go
+++ b/complex.go
@@ -351,6 +351,18 @@ func (s *ObjectShape) Base() *BaseShape {
 func (s *ObjectShape) cloneShallow(base *BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if s.Properties != nil {
+		c.Properties = orderedmap.New[string, Property](s.Properties.Len())
+		for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			c.Properties.Set(pair.Key, pair.Value)
+		}
+	}
+	if s.PatternProperties != nil {
+		c.PatternProperties = orderedmap.New[string, PatternProperty](s.PatternProperties.Len())
+		for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			c.PatternProperties.Set(pair.Key, pair.Value)
+		}
+	}
 	return &c
 }
 
diff --git a/unwrap.go b/unwrap.go
index 6f0e4fe..eb99f07 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -356,6 +356,11 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		inherits[0] = ss
+		if len(inherits) > 1 {
+			// The parents are merged into a copy since other types may refer to the first parent.
+			ss = ss.CloneShallow()
+			ss.ID = r.generateShapeID()
+		}
 		for i := 1; i < len(inherits); i++ {
 			us, errUnwrap := r.UnwrapShape(inherits[i])
 			if errUnwrap != nil {
@@ -366,7 +371,7 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = ss
+			inherits[i] = us
 		}
 		source = ss
 	}
-- 
2.43.0


From 13fc042dc63b665f2258d57c78ce4813c2dc331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 30/36] fix: copies of union members are types of their own

---
 complex.go |  7 ++++---
 shape.go   | 27 +++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/complex.go b/complex.go
index 07a92b3..0efc929 100644
--- a/complex.go
+++ b/complex.go
@@ -914,15 +914,16 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
+				cs, copies := s.raml.cloneAsNew(targetMember)
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
 					continue
 				}
+				for _, c := range copies {
+					s.raml.PutShape(c)
+				}
 				filtered = append(filtered, ms)
 			}
 		}
diff --git a/shape.go b/shape.go
index 4db0d4b..96d680a 100644
--- a/shape.go
+++ b/shape.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sort"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -201,10 +202,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
+			tc, copies := s.raml.cloneAsNew(s)
 			is, err := tc.Inherit(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
@@ -217,6 +215,9 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 				// Skip shapes that didn't pass inheritance check
 				continue
 			}
+			for _, c := range copies {
+				s.raml.PutShape(c)
+			}
 			filtered = append(filtered, is)
 		}
 	}
@@ -336,6 +337,24 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
+// cloneAsNew creates a detached deep copy in which all shapes are new shapes with IDs of their own.
+// It returns the copy of the shape and the list of all copies.
+func (r *RAML) cloneAsNew(s *BaseShape) (*BaseShape, []*BaseShape) {
+	clonedMap := make(map[int64]*BaseShape)
+	c := s.clone(clonedMap)
+	ids := make([]int64, 0, len(clonedMap))
+	for id := range clonedMap {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
+	copies := make([]*BaseShape, len(ids))
+	for i, id := range ids {
+		copies[i] = clonedMap[id]
+		copies[i].ID = r.generateShapeID()
+	}
+	return c, copies
+}
+
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if shape, ok := clonedMap[s.ID]; ok {
 		return shape
-- 
2.43.0


From 943e92b7c5e11d51f0f4a89af448eef2382f2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:56 +0000
Subject: [PATCH 31/36] fix: a library that includes a data type using it was
 loaded twice

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 6e9463a..79ef118 100644
--- a/parse.go
+++ b/parse.go
@@ -187,6 +187,8 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// The fragment must be known before decoding since a data type that it includes may use it.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -194,8 +196,6 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From 87df5f55d1f09c180d4951f8d558662276e15f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:52 +0000
Subject: [PATCH 32/36] fix: a document that is null was taken for a fragment,
 and using it panicked

---
 parse.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parse.go b/parse.go
index 79ef118..b7ff37b 100644
--- a/parse.go
+++ b/parse.go
@@ -83,6 +83,11 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document leaves nothing behind.
+	if dt == nil {
+		return nil, StacktraceNew("fragment is empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
@@ -193,6 +198,11 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document leaves nothing behind.
+	if lib == nil {
+		return nil, StacktraceNew("fragment is empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -266,6 +276,11 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document leaves nothing behind.
+	if ne == nil {
+		return nil, StacktraceNew("fragment is empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
-- 
2.43.0


From 58325a02b4c2f2bf81436e525035802b9b8e7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:00 +0000
Subject: [PATCH 33/36] fix: errors and values of an included file were given
 the position of the node that includes it

---
 node.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index 6248ebd..24234e9 100644
--- a/node.go
+++ b/node.go
@@ -53,32 +53,33 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (n *Node, err
 	default:
 		v, errDecode := io.ReadAll(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath)
 		}
 		value = string(v)
 	case ".json":
 		var data any
 		d := json.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath)
 		}
 		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath)
 		}
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
 			return nil, StacktraceNewWrapped("include: yaml node to data node", err, fragmentPath,
-				WithNodePosition(node))
+				WithNodePosition(&data))
 		}
 	}
 	return &Node{
 		Value:    value,
 		Location: fragmentPath,
-		Position: stacktrace.Position{Line: node.Line, Column: node.Column},
+		// The value is the whole content of the included file.
+		Position: stacktrace.Position{Line: 1, Column: 1},
 		raml:     r,
 	}, nil
 }
@@ -153,16 +154,14 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (dat
 		default:
 			v, errRead := io.ReadAll(r)
 			if errRead != nil {
-				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath)
 			}
 			return string(v), nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
 			if errDecode := d.Decode(&data); errDecode != nil {
-				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath)
 			}
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
-- 
2.43.0


From ddb644e40ea7d63d577969ae88e938b994ae8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:04 +0000
Subject: [PATCH 34/36] fix: errors of checking a nested type named the file of
 the outer type with the position of the nested one

---
 complex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/complex.go b/complex.go
index 0efc929..04829ef 100644
--- a/complex.go
+++ b/complex.go
@@ -169,7 +169,7 @@ func (s *ArrayShape) check() error {
 	}
 	if s.Items != nil {
 		if err := s.Items.Check(); err != nil {
-			return StacktraceNewWrapped("check items", err, s.Location,
+			return StacktraceNewWrapped("check items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 	}
@@ -670,7 +670,7 @@ func (s *ObjectShape) checkPatternProperties() error {
 	for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check pattern property", err, s.Location,
+			return StacktraceNewWrapped("check pattern property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Pattern.String()))
 		}
@@ -686,7 +686,7 @@ func (s *ObjectShape) checkProperties() error {
 	for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check property", err, s.Location,
+			return StacktraceNewWrapped("check property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Name))
 		}
@@ -940,7 +940,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 func (s *UnionShape) check() error {
 	for _, item := range s.AnyOf {
 		if err := item.Check(); err != nil {
-			return StacktraceNewWrapped("check union member", err, s.Location,
+			return StacktraceNewWrapped("check union member", err, item.Location,
 				stacktrace.WithPosition(&item.Position))
 		}
 	}
-- 
2.43.0


From ed665e69e3db47c71a3744efe3afb38bbeb6bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:01 +0000
Subject: [PATCH 35/36] fix: errors about inherited enum values named the file
 of the inheriting type with the position of the value

---
 scalars.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scalars.go b/scalars.go
index 34589f1..4d61e07 100644
--- a/scalars.go
+++ b/scalars.go
@@ -244,7 +244,7 @@ func (s *IntegerShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64:
 			default:
-				return StacktraceNew("enum value must be int or uint", s.Location,
+				return StacktraceNew("enum value must be int or uint", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -466,7 +466,7 @@ func (s *NumberShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64, float64:
 			default:
-				return StacktraceNew("enum value must be int, uint, float64", s.Location,
+				return StacktraceNew("enum value must be int, uint, float64", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -646,7 +646,7 @@ func (s *StringShape) check() error {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(string); !ok {
 				return StacktraceNew("enum value must be string",
-					s.Location, stacktrace.WithPosition(&e.Position))
+					e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
@@ -925,7 +925,7 @@ func (s *BooleanShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(bool); !ok {
-				return StacktraceNew("enum value must be boolean", s.Location, stacktrace.WithPosition(&e.Position))
+				return StacktraceNew("enum value must be boolean", e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
-- 
2.43.0


From acf3f616443d0a150e5ef617ef019910c73b0d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:03 +0000
Subject: [PATCH 36/36] fix: errors about values of pattern properties and
 union members, and about discriminators, named the file of the outer type
 with the position of the nested one

---
 complex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/complex.go b/complex.go
index 04829ef..2b798d7 100644
--- a/complex.go
+++ b/complex.go
@@ -425,7 +425,7 @@ func (s *ObjectShape) validatePatternProperty(
 		if err == nil {
 			return true, nil
 		}
-		se := StacktraceNewWrapped("validate pattern property", err, s.Location,
+		se := StacktraceNewWrapped("validate pattern property", err, pp.Base.Location,
 			stacktrace.WithPosition(&pp.Base.Position),
 			stacktrace.WithInfo("property", pp.Pattern.String()))
 		if st == nil {
@@ -702,7 +702,7 @@ func (s *ObjectShape) checkProperties() error {
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
 		if !prop.Base.IsScalar() {
-			return StacktraceNew("discriminator property must be a scalar", s.Location,
+			return StacktraceNew("discriminator property must be a scalar", prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
@@ -883,7 +883,7 @@ func (s *UnionShape) validate(v interface{}, ctxPath string) error {
 			StacktraceNewWrapped(
 				"validate union member",
 				err,
-				s.Location,
+				item.Location,
 				stacktrace.WithPosition(&item.Position),
 				stacktrace.WithInfo("type", item.Type),
 				stacktrace.WithInfo("name", item.Name),
-- 
2.43.0

