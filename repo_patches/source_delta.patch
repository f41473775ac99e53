From 979420314b9a3fba31bc66b335df3196be09592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 01/48] fix: thawed copy of a map entry must not modify the
 entry

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..89362b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From b9ffe4397b2ecffb842e903823709889df685480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 02/48] fix: collections derived from a frozen collection are
 frozen at every depth and share no storage

---
 internal/array.go  | 16 ++++++++++++----
 internal/map.go    |  9 +++++++++
 internal/struct.go |  6 ++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..36d0b89 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1141,7 +1141,11 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	a := v.slice
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
-		vs[i] = Value(mapper(a[i]))
+		e := Value(mapper(a[i]))
+		if v.frozen {
+			e = frozenCopy(e)
+		}
+		vs[i] = e
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
@@ -1423,7 +1427,7 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
@@ -1435,7 +1439,9 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 		values = values.FrozenCopy().(dgo.Iterable)
 	}
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
+	if v.frozen {
+		c.Freeze()
+	}
 	return c
 }
 
@@ -1443,7 +1449,9 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	// the capacity is limited to force a copy. Two arrays cannot share the same slice storage
+	l := len(v.slice)
+	return &array{slice: append(v.slice[:l:l], valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
diff --git a/internal/map.go b/internal/map.go
index 89362b5..cbd724a 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -573,6 +573,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.copyFreeze()
+		}
 	}
 	return c
 }
@@ -585,6 +588,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -794,6 +800,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..2a42630 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -229,6 +229,9 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := v.toHashMap()
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if v.frozen {
+			e.copyFreeze()
+		}
 	}
 	c.frozen = v.frozen
 	return c
@@ -308,6 +311,9 @@ func (v *structVal) Values() dgo.Array {
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
 	c := v.toHashMap()
+	if v.frozen {
+		value = frozenCopy(Value(value))
+	}
 	c.Put(key, value)
 	c.frozen = v.frozen
 	return c
-- 
2.43.0


From 95c651d099ecd4c405c8d8d1faa2f37feb773b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 03/48] fix: a map that is built from an array or a Go map has
 unique frozen keys in predictable order and entries of its own

---
 internal/array.go | 65 +++++++++----------------------------------
 internal/map.go   | 70 +++++++++++++++++++++++++++--------------------
 2 files changed, 53 insertions(+), 82 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 36d0b89..4eed0d0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1312,70 +1312,31 @@ func (v *array) String() string {
 func (v *array) ToMap() dgo.Map {
 	ms := v.slice
 	top := len(ms)
-
-	ts := top / 2
-	if top%2 != 0 {
-		ts++
-	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
-
-	for i := 0; i < top; {
-		mk := ms[i]
-		i++
+	m := MapWithCapacity((top + 1) / 2).(*hashMap)
+	for i := 0; i < top; i += 2 {
 		var mv dgo.Value = Nil
-		if i < top {
-			mv = ms[i]
-			i++
-		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+		if i+1 < top {
+			mv = ms[i+1]
 		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(ms[i], mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
-
+	m := MapWithCapacity(len(ms)).(*hashMap)
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
-				return nil, false
-			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
+		if nd, ok := ms[i].(*hashNode); ok {
+			m.Put(nd.key, nd.value)
+		} else if ea, ok := ms[i].(*array); ok && len(ea.slice) == 2 {
+			m.Put(ea.slice[0], ea.slice[1])
 		} else {
-			m.last.next = nd
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
diff --git a/internal/map.go b/internal/map.go
index cbd724a..dfcd2b7 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -275,50 +275,60 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	}
 	keys := rm.MapKeys()
 	top := len(keys)
-	ic := top
-	if top == 0 {
-		if frozen {
-			return emptyMap
-		}
-		ic = initialCapacity
+	if top == 0 && frozen {
+		return emptyMap
 	}
-	tbl := make([]*hashNode, tableSizeFor(int(float64(ic)/loadFactor)))
-	hl := len(tbl) - 1
-	se := make([][2]dgo.Value, len(keys))
+	se := make([][2]dgo.Value, top)
 	for i := range keys {
 		key := keys[i]
 		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
 	}
 
 	// Sort by key to always get predictable order
-	sort.Slice(se, func(i, j int) bool {
-		less := false
-		if cm, ok := se[i][0].(dgo.Comparable); ok {
-			var c int
-			if c, ok = cm.CompareTo(se[j][0]); ok {
-				less = c < 0
-			}
-		}
-		return less
-	})
+	sort.Slice(se, func(i, j int) bool { return keyLess(se[i], se[j]) })
 
-	m := &hashMap{table: tbl, len: top, frozen: frozen}
+	m := MapWithCapacity(top).(*hashMap)
 	for i := range se {
-		e := se[i]
-		k := e[0]
-		hk := hl & hash(k.HashCode())
-		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
-		if m.last == nil {
-			m.first = hn
-		} else {
-			m.last.next = hn
+		v := se[i][1]
+		if frozen {
+			v = frozenCopy(v)
 		}
-		m.last = hn
-		tbl[hk] = hn
+		m.Put(se[i][0], v)
 	}
+	m.frozen = frozen
 	return m
 }
 
+// keyLess provides an ordering of associations that doesn't depend on their original order. Values that aren't
+// comparable are ordered by kind and then by their string representation.
+func keyLess(a, b [2]dgo.Value) bool {
+	for i := range a {
+		x, y := a[i], b[i]
+		xr, yr := kindRank(x), kindRank(y)
+		if xr != yr {
+			return xr < yr
+		}
+		if xr == 0 {
+			if c, ok := x.(dgo.Comparable).CompareTo(y); ok && c != 0 {
+				return c < 0
+			}
+		}
+		if xs, ys := x.String(), y.String(); xs != ys {
+			return xs < ys
+		}
+	}
+	return false
+}
+
+// kindRank returns zero for all numbers and a number that is unique for each kind for other values
+func kindRank(v dgo.Value) int {
+	switch v.(type) {
+	case intVal, floatVal:
+		return 0
+	}
+	return 1 + int(v.Type().TypeIdentifier())
+}
+
 // FromReflectedStruct creates a frozen Map from the exported fields of a go struct. It panics if rm's kind is not
 // reflect.Struct.
 func FromReflectedStruct(rv reflect.Value) dgo.Struct {
-- 
2.43.0


From 9a54091fce61f1745e17ea8f4eb0dbdcdcbc2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 04/48] fix: a map that lacks a key is not equal to a map where
 the value of that key is nil

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index dfcd2b7..c583c41 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -476,7 +476,10 @@ func (g *hashMap) deepEqual(seen []dgo.Value, other deepEqual) bool {
 
 func mapEqual(seen []dgo.Value, g dgo.Map, other deepEqual) bool {
 	if om, ok := other.(dgo.Map); ok && g.Len() == om.Len() {
-		return g.All(func(e dgo.MapEntry) bool { return equals(seen, e.Value(), om.Get(e.Key())) })
+		return g.All(func(e dgo.MapEntry) bool {
+			ov := om.Get(e.Key())
+			return ov != nil && equals(seen, e.Value(), ov)
+		})
 	}
 	return false
 }
-- 
2.43.0


From 338e2b7c1f7c9d0c932a8037896b19aa1d8c62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 05/48] fix: a frozen struct shares nothing with the original
 struct and exposes no pointer to its content

---
 internal/struct.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 2a42630..99dd5a9 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -80,10 +80,7 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return v.ThawedCopy().(dgo.Map)
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
@@ -107,6 +104,10 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		v = v.ThawedCopy().(*structVal)
+	}
 	return v.rs.Addr().Interface()
 }
 
@@ -134,15 +135,15 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
 	if !v.frozen {
-		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
 		v.EachValue(func(e dgo.Value) {
 			if f, ok := e.(dgo.Freezable); ok {
 				f.Freeze()
 			}
 		})
+		// Use a copy of the struct. The original may be referenced from elsewhere
+		v.rs = v.FrozenCopy().(*structVal).rs
+		v.frozen = true
 	}
 }
 
@@ -162,9 +163,12 @@ func (v *structVal) FrozenCopy() dgo.Value {
 	for i, n := 0, rs.NumField(); i < n; i++ {
 		ef := rs.Field(i)
 		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
+		if f, ok := ev.(dgo.Freezable); ok {
+			ev = f.FrozenCopy()
+		} else if ef.Kind() != reflect.Ptr || ef.IsNil() {
+			continue
 		}
+		ReflectTo(ev, ef)
 	}
 	return &structVal{rs: rs, frozen: true}
 }
@@ -178,8 +182,11 @@ func (v *structVal) ThawedCopy() dgo.Value {
 		ef := rs.Field(i)
 		ev := ValueFromReflected(ef)
 		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
+			ev = f.ThawedCopy()
+		} else if ef.Kind() != reflect.Ptr || ef.IsNil() {
+			continue
 		}
+		ReflectTo(ev, ef)
 	}
 	return &structVal{rs: rs, frozen: false}
 }
@@ -268,15 +275,12 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	if v.frozen {
+		// Don't expose the frozen struct, nor anything that it refers to
+		v = v.ThawedCopy().(*structVal)
+	}
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(v.rs.Addr())
 	} else {
 		// copy struct by value
 		value.Set(v.rs)
-- 
2.43.0


From 963b1153a17eea00446216ee57db3ce5ce1be4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 06/48] fix: integer conversions fail instead of wrapping
 around

---
 internal/float.go   |  2 +-
 internal/integer.go | 61 ++++++++++++++++-----------------------------
 2 files changed, 23 insertions(+), 40 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..559e459 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -313,7 +313,7 @@ func (v floatVal) ToFloat() float64 {
 }
 
 func (v floatVal) ToInt() int64 {
-	return int64(v)
+	return floatToInt(float64(v))
 }
 
 // ToFloat returns the given value as a float64 if, and only if, the value is a float32 or float64. An
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..60d3bdc 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -306,51 +306,26 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if value.OverflowInt(int64(v)) {
+			panic(v.overflow(value.Type()))
+		}
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v < 0 || value.OverflowUint(uint64(v)) {
+			panic(v.overflow(value.Type()))
+		}
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
-	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
-	}
-	return p
+func (v intVal) overflow(t reflect.Type) error {
+	return fmt.Errorf(`value %d overflows %s`, int64(v), t)
 }
 
 func (v intVal) String() string {
@@ -390,12 +365,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
@@ -435,7 +410,7 @@ func intFromConvertible(from dgo.Value, radix int) int64 {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		return floatToInt(from.GoFloat())
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
@@ -450,3 +425,11 @@ func intFromConvertible(from dgo.Value, radix int) int64 {
 	}
 	panic(fmt.Errorf(`the value '%s' cannot be converted to an int`, from))
 }
+
+// floatToInt returns the integer part of the given float. It panics unless that part can be represented as an int64
+func floatToInt(f float64) int64 {
+	if f >= math.MinInt64 && f < -math.MinInt64 {
+		return int64(f)
+	}
+	panic(fmt.Errorf(`value %g overflows int64`, f))
+}
-- 
2.43.0


From 17be10a0df711cdb5a0c86ccd55203b41b9e8ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 07/48] fix: recursion guard is passed on to nested types and
 never modified by a sibling branch

---
 internal/array.go     |  2 +-
 internal/compare.go   | 15 ++++++++-------
 internal/function.go  |  6 +++++-
 internal/map.go       |  2 +-
 internal/meta.go      | 18 +++++++++++++-----
 internal/not.go       | 35 +++++++++++++++++++++++++++--------
 internal/sensitive.go |  6 +++++-
 7 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 4eed0d0..3adfcbd 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -192,7 +192,7 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	case defaultArrayType:
 		return false // lacks size
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..d86a3fc 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -24,18 +24,19 @@ func (s *doubleSeen) Hit() bool {
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
+	// The receiver must remain untouched since it is used when checking siblings
+	c := *s
+	if !c.seenInA {
+		c.seenInA = util.RecursionHit(s.aSeen, a)
 	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
+	if !c.seenInB {
+		c.seenInB = util.RecursionHit(s.bSeen, b)
 	}
-	c := *s
 	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
+		c.aSeen = append(s.aSeen[:len(s.aSeen):len(s.aSeen)], a)
 	}
 	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
+		c.bSeen = append(s.bSeen[:len(s.bSeen):len(s.bSeen)], b)
 	}
 	return &c
 }
diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..12467a4 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -77,7 +77,11 @@ func (t *exactFunctionTuple) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *exactFunctionTuple) Instance(value interface{}) bool {
-	return tupleInstance(nil, t, value)
+	return Instance(nil, t, value)
+}
+
+func (t *exactFunctionTuple) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return tupleInstance(guard, t, value)
 }
 
 func (t *exactFunctionTuple) Len() int {
diff --git a/internal/map.go b/internal/map.go
index c583c41..faf642e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1099,7 +1099,7 @@ func (t *sizedMapType) DeepInstance(guard dgo.RecursionGuard, value interface{})
 				return ov.AllValues(func(v dgo.Value) bool { return Instance(guard, vt, v) })
 			}
 			if DefaultAnyType == vt {
-				return ov.AllKeys(func(k dgo.Value) bool { return kt.Instance(k) })
+				return ov.AllKeys(func(k dgo.Value) bool { return Instance(guard, kt, k) })
 			}
 			return ov.All(func(e dgo.MapEntry) bool { return Instance(guard, kt, e.Key()) && Instance(guard, vt, e.Value()) })
 		}
diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..5c3c0b2 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
-		if t.tp == nil {
-			return mt.tp == nil
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
+		if t.tp == nil || mt.tp == nil {
+			return t.tp == nil && mt.tp == nil
 		}
-		return t.tp.Equals(mt.tp)
+		return equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..8c3bea7 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,25 +23,40 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
+	return Assignable(nil, t, other)
+}
+
+func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
 	case *notType:
 		// Reverse order of Negated test
-		return ot.negated.Assignable(t.negated)
+		if guard != nil {
+			guard = guard.Swap()
+		}
+		return Assignable(guard, ot.negated, t.negated)
 	case *anyOfType:
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				return true
 			}
 		}
@@ -49,7 +64,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 	case *allOfType:
 		ts := ot.slice
 		for i := range ts {
-			if !t.Assignable(ts[i].(dgo.Type)) {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
 				return false
 			}
 		}
@@ -58,7 +73,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		f := false
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				if f {
 					return false
 				}
@@ -67,12 +82,16 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		}
 		return f
 	default:
-		return !t.negated.Assignable(other)
+		return !Assignable(guard, t.negated, other)
 	}
 }
 
 func (t *notType) Instance(value interface{}) bool {
-	return !t.negated.Instance(value)
+	return Instance(nil, t, value)
+}
+
+func (t *notType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return !Instance(guard, t.negated, value)
 }
 
 func (t *notType) Operand() dgo.Type {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..c36a6a9 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -64,8 +64,12 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *sensitiveType) Instance(value interface{}) bool {
+	return Instance(nil, t, value)
+}
+
+func (t *sensitiveType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.value)
+		return Instance(guard, t.wrapped, ov.value)
 	}
 	return false
 }
-- 
2.43.0


From f77de455d852f3d1d30c4b0b0b2bbc52a6cbdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 08/48] fix: ContainsAll finds elements regardless of their
 position

---
 internal/array.go   | 11 ++++++-----
 internal/ternary.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 3adfcbd..4d7fb67 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -969,7 +969,7 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 
 	var vs []dgo.Value
 	if oa, ok := other.(*array); ok {
-		vs = util.SliceCopy(oa.slice)
+		vs = oa.slice
 	} else {
 		vs = sliceFromIterable(other)
 	}
@@ -977,13 +977,14 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
+	a = util.SliceCopy(a)
 	for i := range vs {
-		ea := a[i]
+		be := vs[i]
 		f := false
-		for j := range vs {
-			if be := vs[j]; be != nil {
+		for j := range a {
+			if ea := a[j]; ea != nil {
 				if equals(seen, be, ea) {
-					vs[j] = nil
+					a[j] = nil
 					f = true
 					break
 				}
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..4785120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From 4b1762788620052076e57e516e76625b98a45613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 09/48] fix: an array created from a reflected slice contains
 no unset elements

---
 internal/array.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/array.go b/internal/array.go
index 4d7fb67..f654ed4 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -733,6 +733,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 			if frozen {
 				arr = util.SliceCopy(arr)
 			}
+			ReplaceNil(arr)
 		}
 	}
 
-- 
2.43.0


From 32a15d6ee4807d1a7b29c98049937f6f41c9d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 10/48] fix: adding a nil value for a missing key using With is
 not ignored

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index faf642e..3448500 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -819,7 +819,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if old := g.Get(key); old != nil && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From ce5e88e6a01813e55dffbbe4eaa665b995791a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 11/48] fix: data race when the hash code of a string is cached

---
 internal/string.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index f6cd983..6cc170b 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -41,10 +42,11 @@ type (
 		*regexp.Regexp
 	}
 
-	// hstring is a string that caches the hash value when it is computed
+	// hstring is a string that caches the hash value when it is computed. The cached value is accessed
+	// using atomic operations since a string can be shared by several go routines.
 	hstring struct {
 		s string
-		h int
+		h int64
 	}
 )
 
@@ -589,10 +591,12 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	h := atomic.LoadInt64(&v.h)
+	if h == 0 {
+		h = int64(util.StringHash(v.s))
+		atomic.StoreInt64(&v.h, h)
 	}
-	return v.h
+	return int(h)
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From 8592b150be8d2ad7cba09c77fb756347534a90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 12/48] fix: converting a string or an error to a pointer
 exposes no internal storage

---
 internal/error.go  | 3 ++-
 internal/string.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..2da3e8f 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/string.go b/internal/string.go
index 6cc170b..e06a071 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -604,7 +604,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 5d6e5fe4ecd2caa2ef4f56c2caa7040a330e08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 13/48] fix: a loader never uses its entries unlocked, never
 calls on values while locked, and child loaders have their own type

Equals, HashCode and the extraction of init arguments used the entries and the
namespaces of a mutable loader without holding the lock. Values were compared
with the lock held, which deadlocks when they refer back to the loader. A loader
created from a map shared that map with its creator, and the type of child
loaders was registered for the wrong implementation type, so the type found for
a mutable loader depended on the iteration order of the registry.
---
 loader/loader.go | 51 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..7e82a41 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -94,7 +94,7 @@ var Type = tf.NewNamed(`mapLoader`,
 
 func (l *mapLoader) init(im dgo.Map) {
 	l.name = im.Get(`name`).(dgo.String).GoString()
-	l.entries = im.Get(`entries`).(dgo.Map)
+	l.entries = im.Get(`entries`).(dgo.Map).FrozenCopy().(dgo.Map)
 }
 
 func (l *mapLoader) initMap() dgo.Map {
@@ -176,23 +176,46 @@ var MutableType = tf.NewNamed(`loader`,
 
 func (l *loader) init(im dgo.Map) {
 	l.mapLoader.init(im)
-	l.namespaces = im.Get(`namespaces`).(dgo.Map)
+	l.namespaces = im.Get(`namespaces`).(dgo.Map).FrozenCopy().(dgo.Map)
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	m := vf.MapWithCapacity(5)
+	entries, namespaces := l.snapshot()
+	m.Put(`name`, l.name)
+	m.Put(`entries`, entries)
+	m.Put(`namespaces`, namespaces)
 	return m
 }
 
-func (l *loader) add(key, value dgo.Value) dgo.Value {
+// snapshot returns copies of the entries and the namespaces
+func (l *loader) snapshot() (dgo.Map, dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+
+	entries := vf.MapWithCapacity(l.entries.Len())
+	entries.PutAll(l.entries)
+	namespaces := vf.MapWithCapacity(l.namespaces.Len())
+	namespaces.PutAll(l.namespaces)
+	return entries, namespaces
+}
+
+// define adds the entry unless the key is already defined. It returns the value that was already defined or nil.
+func (l *loader) define(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
+	old := l.entries.Get(key)
+	if old == nil {
+		l.entries.Put(key, value)
+	}
+	return old
+}
+
+func (l *loader) add(key, value dgo.Value) dgo.Value {
 	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
-			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
+		// the lock is not held here, the values may refer back to this loader
+		if old := l.define(key, value); old != nil && !old.Equals(value) {
 			panic(fmt.Errorf(`attempt to override entry %q`, key))
 		}
 	}
@@ -211,13 +234,19 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		entries, namespaces := l.snapshot()
+		otherEntries, otherNamespaces := ov.snapshot()
+		return entries.Equals(otherEntries) && namespaces.Equals(otherNamespaces)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	entries, namespaces := l.snapshot()
+	return entries.HashCode()*31 + namespaces.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
@@ -300,7 +329,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From 7c364fdadf6b35c8d98c0d5d4b596ddc727317c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 14/48] fix: the default aliases and the type for struct maps
 are no longer read and replaced without synchronization

---
 internal/alias.go     | 9 ++++++++-
 internal/mapstruct.go | 8 +++++---
 tf/type.go            | 3 ++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..588cbc7 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -46,9 +46,12 @@ func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked while the appointed AliasMap is read but never when the adder function is called. No swap
+// will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
 		lock.Lock()
@@ -59,6 +62,8 @@ func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder d
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	return defaultAliases
 }
 
@@ -67,6 +72,8 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	defaultAliases = builtinAliases
 }
 
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..c87b79c 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -75,20 +76,21 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmTypeOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmTypeOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
 // StructMapTypeFromMap returns a new type built from a map[string](dgo|type|{type:dgo|type,required?:bool,...})
 func StructMapTypeFromMap(additional bool, entries dgo.Map) dgo.StructMapType {
 	if !StructFromMapType().Instance(entries) {
-		panic(IllegalAssignment(sfmType, entries))
+		panic(IllegalAssignment(StructFromMapType(), entries))
 	}
 	l := entries.Len()
 	keys := make([]dgo.Value, l)
diff --git a/tf/type.go b/tf/type.go
index f6abf9b..d30dfce 100644
--- a/tf/type.go
+++ b/tf/type.go
@@ -45,7 +45,8 @@ func AddDefaultAliases(adderFunc func(aliasAdder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked while the appointed AliasMap is read but never when the adder function is called. No swap
+// will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
 	internal.AddAliases(mapToReplace, lock, adder)
 }
-- 
2.43.0


From 15fa78f996ce2a024673cbef5688555f2aa937c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 15/48] fix: operands of the default ternary types are frozen,
 they are shared by everyone

---
 internal/ternary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 4785120..fb416b3 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -17,13 +17,13 @@ type (
 )
 
 // DefaultAllOfType is the unconstrained AllOf type
-var DefaultAllOfType = &allOfType{}
+var DefaultAllOfType = &allOfType{frozen: true}
 
 // DefaultAnyOfType is the unconstrained AnyOf type
-var DefaultAnyOfType = &anyOfType{}
+var DefaultAnyOfType = &anyOfType{frozen: true}
 
 // DefaultOneOfType is the unconstrained OneOf type
-var DefaultOneOfType = &oneOfType{}
+var DefaultOneOfType = &oneOfType{frozen: true}
 
 // AllOfType returns a type that represents all values that matches all of the included types
 func AllOfType(types []interface{}) dgo.Type {
-- 
2.43.0


From 2187c760ecf061e9dd49dda5316eafc1c6a45ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 16/48] fix: a number that cannot be represented is reported,
 not replaced by another number

---
 parser/parser.go         | 10 ++++++++--
 streamer/json.go         |  5 ++++-
 streamer/pcore/parser.go | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..da7c009 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -789,12 +789,18 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(err)
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(err)
+	}
 	return f
 }
 
diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..02b0954 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -77,7 +77,10 @@ func (j *jsonDecoder) decodeElem(end json.Delim) bool {
 		if i, err := t.Int64(); err == nil {
 			j.consumer.Add(vf.Integer(i))
 		} else {
-			f, _ := t.Float64()
+			f, err := t.Float64()
+			if err != nil {
+				panic(err)
+			}
 			j.consumer.Add(vf.Float(f))
 		}
 	case bool:
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..920456e 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -208,10 +208,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From 1098ad2584346a2603c4bf311741ce8107aa423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 17/48] fix: data that follows the JSON value is reported, not
 ignored

---
 streamer/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 02b0954..850b751 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -48,6 +48,12 @@ func UnmarshalJSON(b []byte, dialect Dialect) dgo.Value {
 
 	j := &jsonDecoder{consumer: vc, refKey: opts.Dialect.RefKey().GoString(), decoder: je}
 	j.decode()
+	if t, err := je.Token(); err != io.EOF {
+		if err == nil {
+			err = fmt.Errorf(`unexpected %v after JSON value`, t)
+		}
+		panic(err)
+	}
 	return vc.Value()
 }
 
-- 
2.43.0


From 8b9b8fe50d222527809905dba22baec569aac8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 18/48] fix: a value that cannot be encoded as JSON is
 reported, not replaced by null

---
 streamer/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 850b751..66edad6 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -240,8 +240,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
 		v, err = json.Marshal(e.GoBool())
-	default:
+	case dgo.Nil:
 		v = []byte(`null`)
+	default:
+		err = fmt.Errorf(`unable to encode a value of type %s as JSON`, e.Type())
 	}
 	assertOk(0, err)
 	assertOk(j.out.Write(v))
-- 
2.43.0


From 82a768c8e5090ca307a621adc8fe3c508fdb84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 19/48] fix: the token that follows an unbounded float range is
 not skipped

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index da7c009..55eb2e5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -655,7 +655,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From 94d43e34466ece10d4967753738cd6ce57320f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 20/48] fix: optional keys and variadic elements that are
 malformed are reported, not dropped

---
 parser/parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 55eb2e5..df5ba2f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,6 +26,7 @@ const (
 	exStringLiteral
 	exTypeExpression
 	exAliasRef
+	exColon
 	exEnd
 )
 
@@ -72,6 +73,8 @@ func expect(state int) (s string) {
 		s = `a type expression`
 	case exAliasRef:
 		s = `an identifier`
+	case exColon:
+		s = `':'`
 	case exEnd:
 		s = `end of expression`
 	}
@@ -281,6 +284,9 @@ func (p *parser) list(endChar int) {
 			expectEntry = 0
 			p.anyOf(t)
 			t = p.NextToken()
+			if t.Type != endChar {
+				panic(badSyntax(t, exListEnd))
+			}
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
 		}
@@ -388,7 +394,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
@@ -401,6 +407,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	optional := nt.Type == '?'
 	if optional {
 		p.NextToken()
+		if nt = p.PeekToken(); nt.Type != ':' {
+			panic(badSyntax(nt, exColon))
+		}
 	}
 
 	if p.PeekToken().Type == ':' {
-- 
2.43.0


From 275bb26a4bfd7f58b3c060aae7caf96be0c94c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 21/48] fix: control characters are reported, not taken for
 named tokens or the end of the text

---
 parser/lexer.go         | 3 +++
 streamer/pcore/lexer.go | 3 +++
 util/reader.go          | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..5450f3f 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -150,6 +150,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r < ' ':
+		// must not be confused with the type of a named token
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..fa543d4 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -106,6 +106,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r < ' ':
+		// must not be confused with the type of a named token
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
diff --git a/util/reader.go b/util/reader.go
index 601b305..de3cf40 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -28,6 +28,10 @@ func (r *StringReader) Next() rune {
 		return 0
 	}
 	c := rune(r.s[r.p])
+	if c == 0 {
+		// must not be confused with the end of the string
+		panic(errors.New("unexpected NUL character"))
+	}
 	if c < utf8.RuneSelf {
 		r.p++
 		if c == '\n' {
-- 
2.43.0


From a0bb6c7077588088931b7aef0bd388eecce69a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 22/48] fix: floats that are out of range for an integer or a
 time are not converted to some other number

---
 internal/time.go         |  2 +-
 streamer/pcore/parser.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/time.go b/internal/time.go
index 6176d89..8179849 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -105,7 +105,7 @@ func newTime(t dgo.Type, arg dgo.Value) dgo.Time {
 		tv = Time(time.Unix(arg.GoInt(), 0))
 	case dgo.Float:
 		s, f := math.Modf(arg.GoFloat())
-		tv = Time(time.Unix(int64(s), int64(f*1000000000.0)))
+		tv = Time(time.Unix(floatToInt(s), int64(f*1000000000.0)))
 	case dgo.String:
 		tv = TimeFromString(arg.GoString())
 	default:
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 920456e..4dc8b07 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -443,11 +443,19 @@ func integerType(p *pcoreParser) dgo.Value {
 
 func numberType(p *pcoreParser) dgo.Value {
 	tp := floatType(p).(dgo.FloatType)
+	min := int64(math.MinInt64)
 	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
+	if tp.Min() >= -math.MinInt64 || tp.Max() < math.MinInt64 {
+		// there are no integers in the range
+		return tp
+	}
+	if tp.Min() >= math.MinInt64 {
+		min = int64(tp.Min())
+	}
+	if tp.Max() < -math.MinInt64 {
 		max = int64(tp.Max())
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return tf.AnyOf(tf.Integer(min, max, true), tp)
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From 5ac4bc99450b56808a2141a4bf188c9c74f80b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 23/48] fix: the default float type and combined types let the
 other type decide assignability before answering no

---
 internal/float.go   | 2 +-
 internal/ternary.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 559e459..1abe399 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -179,7 +179,7 @@ func (t defaultFloatType) Assignable(other dgo.Type) bool {
 	case defaultFloatType, *exactFloatType, *floatType:
 		return true
 	}
-	return false
+	return CheckAssignableTo(nil, other, t)
 }
 
 func (t defaultFloatType) Equals(other interface{}) bool {
diff --git a/internal/ternary.go b/internal/ternary.go
index fb416b3..891b5d3 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -160,7 +160,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	}
 	for i := range ts {
 		if !Assignable(guard, ts[i].Type(), other) {
-			return false
+			return CheckAssignableTo(guard, other, t)
 		}
 	}
 	return true
@@ -272,7 +272,7 @@ func (t *anyOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 	ts := t.slice
 	if len(ts) == 0 {
 		_, ok := other.(*anyOfType)
-		return ok
+		return ok || CheckAssignableTo(guard, other, t)
 	}
 	for i := range ts {
 		if Assignable(guard, ts[i].(dgo.Type), other) {
@@ -381,7 +381,7 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 	ts := t.slice
 	if len(ts) == 0 {
 		_, ok := other.(*oneOfType)
-		return ok
+		return ok || CheckAssignableTo(guard, other, t)
 	}
 	found := false
 	for i := range ts {
-- 
2.43.0


From b90df474515b4c9ca6da2634173db57a750f72f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 24/48] fix: the unconstrained map and array types accept all
 map and array types

---
 internal/array.go | 2 +-
 internal/map.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index f654ed4..28aeefa 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -128,7 +128,7 @@ func newArrayType(elementType dgo.Type, min, max int) dgo.ArrayType {
 
 func (t defaultArrayType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultArrayType, *tupleType, *exactArrayType, *sizedArrayType:
+	case defaultArrayType, *tupleType, *exactFunctionTuple, *exactArrayType, *sizedArrayType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
diff --git a/internal/map.go b/internal/map.go
index 3448500..75f10c3 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1163,7 +1163,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
-- 
2.43.0


From 6820aa6d722e5f7d8f3ed6f245e780f1e2fa30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 25/48] fix: named and sensitive types only create instances of
 themselves

Instance of a named type without an implementation type no longer panics.
---
 internal/named.go     |  9 +++++++--
 internal/sensitive.go | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..2a67114 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,12 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		rt, at := ot.ReflectType(), t.AssignableType()
+		if rt == nil || at == nil {
+			// implementation types are optional
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(at)
 	}
 	return false
 }
@@ -259,7 +264,7 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
+	if rt.Instance(v) {
 		return v
 	}
 	panic(IllegalAssignment(rt, v))
diff --git a/internal/sensitive.go b/internal/sensitive.go
index c36a6a9..01c98e9 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -93,10 +93,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) String() string {
-- 
2.43.0


From 6b357c4773832f3cc692fb88cb8e78a7de401cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 26/48] fix: equality of self-referential values compares
 pairs, and a type that only leads to itself has no instances

---
 dgo/primitive.go    |  3 ++-
 internal/compare.go | 57 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..080aba8 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -145,7 +145,8 @@ type (
 	// A Hit is detected once both a and b has been added more than once (can be on separate calls to Append). The
 	// RecursionGuard is in itself immutable.
 	RecursionGuard interface {
-		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
+		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned. The
+		// value b is nil when it is something that cannot contain other values.
 		Append(a, b Value) RecursionGuard
 
 		// Hit returns true if both a and b has been appended more than once.
diff --git a/internal/compare.go b/internal/compare.go
index d86a3fc..f624d06 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -17,15 +17,22 @@ type doubleSeen struct {
 	bSeen   []dgo.Value
 	seenInA bool
 	seenInB bool
+	shallow []dgo.Value // types that are asked about a value that cannot contain other values
+	again   bool        // true when the same type is asked about that value again
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.seenInA && s.seenInB || s.again
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
 	// The receiver must remain untouched since it is used when checking siblings
 	c := *s
+	if b == nil {
+		c.again = util.RecursionHit(s.shallow, a)
+		c.shallow = append(s.shallow[:len(s.shallow):len(s.shallow)], a)
+		return &c
+	}
 	if !c.seenInA {
 		c.seenInA = util.RecursionHit(s.aSeen, a)
 	}
@@ -70,6 +77,11 @@ func Assignable(guard dgo.RecursionGuard, a dgo.Type, b dgo.Type) bool {
 				return true
 			}
 		}
+	} else {
+		// b has nothing to descend into, so a must not lead back to itself
+		if guard = appendShallow(guard, a); guard.Hit() {
+			return false
+		}
 	}
 	return da.DeepAssignable(guard, b)
 }
@@ -92,10 +104,22 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 				return true
 			}
 		}
+	} else {
+		// b has nothing to descend into, so a must not lead back to itself
+		if guard = appendShallow(guard, a); guard.Hit() {
+			return false
+		}
 	}
 	return da.DeepInstance(guard, b)
 }
 
+func appendShallow(guard dgo.RecursionGuard, a dgo.Type) dgo.RecursionGuard {
+	if guard == nil {
+		return &doubleSeen{shallow: []dgo.Value{a}}
+	}
+	return guard.Append(a, nil)
+}
+
 func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 	if de, ok := e.(deepEqual); ok {
 		if util.RecursionHit(seen, e) {
@@ -106,8 +130,18 @@ func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 	return e.HashCode()
 }
 
-// equals performs a deep equality comparison of a and b using the Value.Equals method. The given seen slice
-// is used to prevent endless recursion. The rationale using a slice rather than a map for this is that the
+// pairHit returns true if a and b are one of the pairs in seen, where each pair consists of two consecutive values.
+func pairHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 1; i < len(seen); i += 2 {
+		if a == seen[i-1] && b == seen[i] {
+			return true
+		}
+	}
+	return false
+}
+
+// equals performs a deep equality comparison of a and b using the Value.Equals method. The given seen slice holds
+// the pairs being compared and is used to prevent endless recursion. It's a slice rather than a map because the
 // depth is typically very limited. The seen slice should be nil at the point where the comparison starts.
 func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if a == b {
@@ -120,16 +154,17 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
-	db, ok := Value(b).(deepEqual)
+	bv := Value(b)
+	db, ok := bv.(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	if pairHit(seen, a, bv) {
+		// Recursion, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
@@ -168,9 +203,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
+	if pairHit(seen, a, b) {
 		// Recursion, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From 54d57068a9f7b987251614b2f6c81aaf3145f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 27/48] fix: equality and hash of types of functions are
 guarded from endless recursion, and equality is symmetric

---
 internal/function.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/function.go b/internal/function.go
index 12467a4..c15c95a 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -143,17 +143,19 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
-	}
-	return false
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t exactFunctionType) HashCode() int {
-	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
-	return h
+	return deepHashCode(nil, t)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
 }
 
 func (t exactFunctionType) In() dgo.TupleType {
@@ -230,20 +232,28 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
+	return functionTypeEquals(seen, t, other)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other interface{}) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
 func (t *functionType) HashCode() int {
-	return t.deepHashCode(nil)
+	return deepHashCode(nil, t)
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
+}
+
+func functionTypeHashCode(seen []dgo.Value, t dgo.FunctionType) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + deepHashCode(seen, t.arguments)
-	h = h*31 + deepHashCode(seen, t.returns)
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
-- 
2.43.0


From 52755a20eefddc7a1e57f893fb09c1f71eba6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 28/48] fix: equality is symmetric across kinds of values and
 types

An error was equal to the error values of this package, an entry of a map to
an entry of a struct type, a tuple type to the type of one array, and an
Arguments to an array, without being so in the other direction.
---
 internal/array.go | 9 ++++++++-
 internal/error.go | 4 ++++
 internal/map.go   | 4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 28aeefa..df51c42 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -515,6 +515,10 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(dgo.ExactType); ok {
+		// The type of one array is never equal to a type of many arrays
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
@@ -1017,7 +1021,10 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	switch ov := other.(type) {
+	case *array:
+		return sliceEquals(seen, v.slice, ov.slice)
+	case *arguments:
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
diff --git a/internal/error.go b/internal/error.go
index 2da3e8f..729d1c9 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -90,6 +90,10 @@ func (e *errw) Equals(other interface{}) bool {
 	if oe, ok := other.(*errw); ok {
 		return e.error.Error() == oe.error.Error()
 	}
+	if _, ok := other.(dgo.Value); ok {
+		// Other kinds of values that are errors don't consider themselves equal to this one
+		return false
+	}
 	if oe, ok := other.(error); ok {
 		return e.error.Error() == oe.Error()
 	}
diff --git a/internal/map.go b/internal/map.go
index 75f10c3..5f1e21e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -95,6 +95,10 @@ func (v *mapEntry) Equals(other interface{}) bool {
 }
 
 func (v *mapEntry) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if _, ok := other.(dgo.StructMapEntry); ok {
+		// An entry of a struct type is never equal to an entry of a map
+		return false
+	}
 	if ov, ok := other.(dgo.MapEntry); ok {
 		return equals(seen, v.key, ov.Key()) && equals(seen, v.value, ov.Value())
 	}
-- 
2.43.0


From 908a8540fa8404fdad279e7225c7a2d6d5c3717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:30 +0000
Subject: [PATCH 29/48] fix: nil sorts below every other value, and comparison
 agrees in both directions

A string or boolean wasn't comparable with Go's nil, an array that holds a
value that cannot be compared wasn't comparable with one that has a nil in its
place unless it was the argument, and an array was only comparable with
an Arguments when it was the argument.
---
 internal/array.go   | 15 ++++++++-------
 internal/boolean.go |  2 +-
 internal/compare.go |  5 ++++-
 internal/string.go  |  2 +-
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index df51c42..21a3579 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -903,12 +903,17 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
-	if !ok {
+	var b []dgo.Value
+	ok := true
+	switch ov := other.(type) {
+	case *array:
+		b = ov.slice
+	case *arguments:
+		b = ov.slice
+	default:
 		return 0, false
 	}
 	a := v.slice
-	b := ov.slice
 	top := len(a)
 	max := len(b)
 	r := 0
@@ -920,10 +925,6 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
-		if _, ok = a[i].(dgo.Comparable); !ok {
-			r = 0
-			break
-		}
 		var c int
 		if c, ok = compare(seen, a[i], b[i]); !ok {
 			r = 0
diff --git a/internal/boolean.go b/internal/boolean.go
index 24c4c72..2beafe8 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -118,7 +118,7 @@ func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 		} else if ov {
 			r = -1
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
diff --git a/internal/compare.go b/internal/compare.go
index f624d06..8dbaa97 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -193,7 +193,10 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 
 	da, ok := a.(deepCompare)
 	if !ok {
-		return a.(dgo.Comparable).CompareTo(b)
+		if ca, ok := a.(dgo.Comparable); ok {
+			return ca.CompareTo(b)
+		}
+		return 0, false
 	}
 
 	db, ok := b.(deepCompare)
diff --git a/internal/string.go b/internal/string.go
index e06a071..d0dd432 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -566,7 +566,7 @@ func (v *hstring) CompareTo(other interface{}) (r int, ok bool) {
 		default:
 			r = 0
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
-- 
2.43.0


From d56eefd5c2d20c34441dd951286a8abe9412e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 30/48] fix: the biggest range with an exclusive end, and the
 max size of a string when assigned a dgo string, are honoured

---
 internal/float.go      | 2 +-
 internal/integer.go    | 2 +-
 internal/string.go     | 2 +-
 stringer/typestring.go | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 1abe399..4c447be 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if inclusive && min == -math.MaxFloat64 && max == math.MaxFloat64 {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index 60d3bdc..acf9e8b 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if inclusive && min == math.MinInt64 && max == math.MaxInt64 {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/string.go b/internal/string.go
index d0dd432..2c07516 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -461,7 +461,7 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= ot.Min() && t.max >= ot.Max()
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..acde24b 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -347,7 +347,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxInt64 {
+	if max != math.MaxInt64 || min == math.MinInt64 {
 		util.WriteString(sb, strconv.FormatInt(max, 10))
 	}
 }
@@ -361,7 +361,7 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxFloat64 {
+	if max != math.MaxFloat64 || min == -math.MaxFloat64 {
 		util.WriteString(sb, util.Ftoa(max))
 	}
 }
-- 
2.43.0


From 39658c449aade2b278021a21ad55725520c28e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 31/48] fix: the named type for a reflected type doesn't depend
 on the order of the registry

---
 internal/named.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 2a67114..3da09d7 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -106,10 +106,9 @@ func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
 func NamedTypeFromReflected(rt reflect.Type) dgo.NamedType {
 	var t dgo.NamedType
 	namedTypes.Range(func(k, v interface{}) bool {
-		nt := v.(*named)
-		if rt == nt.implType {
+		// the order is random, so go for the first by name when several types have the same implementation
+		if nt := v.(*named); rt == nt.implType && (t == nil || nt.name < t.Name()) {
 			t = nt
-			return false
 		}
 		return true
 	})
-- 
2.43.0


From 077da5f19841a63ea9c36d0c706d8e2d1690cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 32/48] fix: the type identifier of an exact named type has a
 name

---
 dgo/typeidentifier.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dgo/typeidentifier.go b/dgo/typeidentifier.go
index 7a1e603..1521d90 100644
--- a/dgo/typeidentifier.go
+++ b/dgo/typeidentifier.go
@@ -168,6 +168,7 @@ var tiLabels = map[TypeIdentifier]string{
 	TiRegexpExact:   `regexp`,
 	TiTime:          `time`,
 	TiTimeExact:     `time`,
+	TiNamedExact:    `named`,
 	TiNative:        `native`,
 	TiArray:         `slice`,
 	TiArrayExact:    `slice`,
-- 
2.43.0


From 8b468f7ef33a72f8aa6ae0498877886358f625e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 33/48] fix: the words that the default error, native, regexp,
 and time types are printed as can be parsed

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index df5ba2f..58c03ce 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -610,6 +610,10 @@ var identifierToTypeMap = map[string]dgo.Value{
 	`float`:  internal.DefaultFloatType,
 	`dgo`:    internal.DefaultDgoStringType,
 	`binary`: internal.DefaultBinaryType,
+	`error`:  internal.DefaultErrorType,
+	`native`: internal.DefaultNativeType,
+	`regexp`: internal.DefaultRegexpType,
+	`time`:   internal.DefaultTimeType,
 	`true`:   internal.True,
 	`false`:  internal.False,
 	`nil`:    internal.Nil,
-- 
2.43.0


From d58a9c70d0bca171677ac3260eb628a75cb5bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 34/48] fix: the default native type has a hash code

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..abbdf89 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
-- 
2.43.0


From 1140e11d726f04a7842e73476d031c5707b69f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 35/48] fix: exact binary types and meta types have a generic
 form, so that the type of a sensitive value doesn't reveal it

---
 internal/binary.go | 4 ++++
 internal/meta.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..f0eae18 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -155,6 +155,10 @@ func (v *exactBinaryType) Max() int {
 	return len(v.value.bytes)
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) Min() int {
 	return len(v.value.bytes)
 }
diff --git a/internal/meta.go b/internal/meta.go
index 5c3c0b2..8c63c24 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -57,6 +57,10 @@ func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+func (t *metaType) Generic() dgo.Type {
+	return DefaultMetaType
+}
+
 func (t *metaType) HashCode() int {
 	return deepHashCode(nil, t)
 }
-- 
2.43.0


From 127a4a22f1ea40e11a0028ba907948874077bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 36/48] fix: no formatting verb prints the content of a
 sensitive value

---
 internal/sensitive.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 01c98e9..6af4446 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,7 +1,9 @@
 package internal
 
 import (
+	"fmt"
 	"reflect"
+	"strconv"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -131,6 +133,32 @@ func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+// Format formats the redacted string for all verbs. Without it, the fmt package would print the contained value
+// for some verbs.
+func (v *sensitive) Format(s fmt.State, verb rune) {
+	switch verb {
+	case 's', 'q', 'v', 'x', 'X':
+	default:
+		verb = 's'
+	}
+	f := []byte{'%'}
+	for _, c := range `+-# 0` {
+		if s.Flag(int(c)) {
+			f = append(f, byte(c))
+		}
+	}
+	if w, ok := s.Width(); ok {
+		f = strconv.AppendInt(f, int64(w), 10)
+	}
+	if p, ok := s.Precision(); ok {
+		f = strconv.AppendInt(append(f, '.'), int64(p), 10)
+	}
+	_, err := fmt.Fprintf(s, string(append(f, byte(verb))), v.String())
+	if err != nil {
+		panic(err)
+	}
+}
+
 func (v *sensitive) Freeze() {
 	if f, ok := v.value.(dgo.Freezable); ok {
 		f.Freeze()
-- 
2.43.0


From 480211dab2ef09094861f50c5b464bc1b8530945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 37/48] fix: count the entries of a copied alias map

---
 internal/alias.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/alias.go b/internal/alias.go
index 588cbc7..341811f 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -168,6 +168,8 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	c := &aliasMap{}
 	ns := am.namedTypes
 	na := ns.Len()
+	c.namedTypes.len = a.namedTypes.len
+	c.typeNames.len = a.typeNames.len
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
 
-- 
2.43.0


From 9a9f4ca5471ca9f2716d184931d897e89a4fc3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 38/48] fix: don't let Slice return unset elements beyond the
 length of the array

---
 internal/array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 21a3579..518a892 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1287,7 +1287,8 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	l := len(v.slice)
+	ss := v.slice[:l:l][i:j] // never more than what the array contains
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From 3758cf9412959741ee75d4b22b7558534f311d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 39/48] fix: exact types made from other exact types contain
 frozen copies of their values

---
 internal/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 518a892..35d9959 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -121,7 +121,7 @@ func newArrayType(elementType dgo.Type, min, max int) dgo.ArrayType {
 		return DefaultArrayType
 	}
 	if min == 1 && min == max && dgo.IsExact(elementType) {
-		return (&array{slice: []dgo.Value{elementType.(dgo.ExactType).ExactValue()}, frozen: true}).Type().(dgo.ArrayType)
+		return (&array{slice: []dgo.Value{frozenCopy(elementType.(dgo.ExactType).ExactValue())}, frozen: true}).Type().(dgo.ArrayType)
 	}
 	return &sizedArrayType{elementType: elementType, min: min, max: max}
 }
@@ -389,7 +389,7 @@ func newTupleType(types []interface{}, variadic bool) dgo.TupleType {
 	}
 	if exact {
 		for i := 0; i < l; i++ {
-			es[i] = es[i].(dgo.ExactType).ExactValue()
+			es[i] = frozenCopy(es[i].(dgo.ExactType).ExactValue())
 		}
 		return (&array{slice: es, frozen: true}).Type().(dgo.TupleType)
 	}
-- 
2.43.0


From 4e5f5ce191cda4227649a7e29b362fad882266a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 40/48] fix: freeze the key of a created map entry

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 5f1e21e..de43107 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -74,7 +74,7 @@ func (t *exactEntryType) TypeIdentifier() dgo.TypeIdentifier {
 
 // NewMapEntry returns a new MapEntry instance with the given key and value
 func NewMapEntry(key, value interface{}) dgo.MapEntry {
-	return &mapEntry{Value(key), Value(value)}
+	return &mapEntry{frozenCopy(Value(key)), Value(value)}
 }
 
 func (t *exactEntryType) ExactValue() dgo.Value {
-- 
2.43.0


From 5f66a3f93baadd718e9d90f573f02d3e331447b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 41/48] fix: an array made from a reflected array value is
 frozen

---
 internal/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 35d9959..5759b6b 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -688,9 +688,9 @@ func Array(value interface{}) dgo.Array {
 		}
 		return &array{slice: arr, frozen: true}
 	case reflect.Value:
-		return ValueFromReflected(value).(dgo.Array)
+		return ValueFromReflected(value).(dgo.Array).FrozenCopy().(dgo.Array)
 	default:
-		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array)
+		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array).FrozenCopy().(dgo.Array)
 	}
 }
 
-- 
2.43.0


From 2233651a3024203359f1c299d803b8ad56f4016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 42/48] fix: hash codes of allOf, anyOf, and oneOf types don't
 depend on the order of the elements

---
 internal/ternary.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 891b5d3..b523715 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"reflect"
+	"sort"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -96,7 +97,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +201,8 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	// an allOfValueType can be equal to an allOfType
+	return unorderedHash(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +310,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -426,7 +428,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return unorderedHash(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -537,6 +539,20 @@ func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) b
 	return false
 }
 
+// unorderedHash computes a hash code for the types that is independent of their order, on par with sameValues
+func unorderedHash(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	hs := make([]int, len(s))
+	for i := range s {
+		hs[i] = deepHashCode(seen, fc(s[i]))
+	}
+	sort.Ints(hs)
+	h := 1
+	for i := range hs {
+		h = h*31 + hs[i]
+	}
+	return h
+}
+
 // lessRestrictive is true if slice 'a' is less restrictive than slice 'b'
 //
 // This is true if:
-- 
2.43.0


From 88ce1a237ea9a80466bb7c3e8a8642525cfd64af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 43/48] fix: the hash code of a native uintptr can be computed

---
 internal/native.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index abbdf89..9e764f9 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -122,9 +122,12 @@ func (v *native) HashCode() int {
 		}
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
+	case reflect.Uintptr:
+		p := rv.Uint()
+		return int(p ^ (p >> 32))
 	case reflect.Struct:
 		return structHash(rv) * 3
 	}
-- 
2.43.0


From 04efc972cbc5259dde3b2785a8e8524687fac9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 44/48] fix: references to decoded rich data are resolved to
 the decoded value

---
 streamer/decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..b1ae729 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,15 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	ref := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		// Subsequent references to the map are references to the decoded value
+		d.Values.Set(ref, v)
 	}
 }
 
-- 
2.43.0


From 71633e08df398053b3037ab76aa3c1d8f6ea56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 45/48] fix: MarshalJSON writes references using the key of the
 given dialect

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 66edad6..6e6cb93 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From 32e84ec3127ea8def44fad6029b84e7840adb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 46/48] fix: a type without an alias is serialized by its name
 when aliases are given

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..1744ad8 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -185,10 +185,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From cc436887b74bfaecde03852c22453e665d822f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 47/48] fix: a named value with an empty init map isn't
 serialized as a type

---
 streamer/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1744ad8..92b3d6c 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -127,7 +127,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if vm, ok := v.(dgo.Map); ok && vm.Len() > 0 {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
-- 
2.43.0


From b07a45c976722dfd94738fb17ace74d5ca953b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 48/48] fix: decoding of a map with other keys than strings
 that contains self-referential values terminates

---
 streamer/decoder.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index b1ae729..97e5fa2 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -61,7 +61,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		nm := mv.(dgo.Array).ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
-		replaceInstance(m, nm, nm)
+		replaceInstance(m, nm, nm, make(map[dgo.Value]bool))
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
@@ -89,7 +89,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]bool) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
@@ -98,21 +98,31 @@ func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
 
 	switch iv := in.(type) {
 	case dgo.Map:
+		if seen[in] {
+			// the map contains itself
+			return in, false
+		}
+		seen[in] = true
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
+			if re, rh := replaceInstance(orig, repl, v.Value(), seen); rh {
 				replaceHappened = true
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
+		if seen[in] {
+			// the array contains itself
+			return in, false
+		}
+		seen[in] = true
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
+			if re, rh := replaceInstance(orig, repl, v, seen); rh {
 				replaceHappened = true
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
+		if rw, rh := replaceInstance(orig, repl, iv.Unwrap(), seen); rh {
 			replaceHappened = true
 			in = vf.Sensitive(rw)
 		}
-- 
2.43.0

