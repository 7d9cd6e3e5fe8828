From c165236f6c5bb5171a30622b1918ef7e5bbf1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 01/41] fix: read patch and lookup paths as JSON pointers

Split before decoding, keep '.' inside pointer segments, drop the empty
segment before the leading slash, and never panic on a dotted or empty path.
---
 internal/tson/tson.go           | 33 +++++++++++++++++++++++++++++----
 internal/tsonpatch/tsonpatch.go | 19 +++++--------------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..664ea8f 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -55,6 +55,31 @@ const DefaultTimestamp int64 = -1
 ///////// OPERATIONS
 //////////////////////////////////
 
+// pathDecoder decodes a single segment of a JSON pointer.
+// Note: http://tools.ietf.org/html/rfc6901#section-4 :
+var pathDecoder = strings.NewReplacer("~1", "/", "~0", "~")
+
+// SplitPath splits a path into its decoded segments.
+// A path starting with '/' is a JSON pointer (RFC 6901);
+// any other path separates its segments with '.' (or '/').
+// The empty path has no segment, and refers to the whole document.
+func SplitPath(path string) []string {
+	if path == "" {
+		return nil
+	}
+	if strings.HasPrefix(path, "/") {
+		path = path[1:]
+	} else {
+		path = strings.ReplaceAll(path, ".", "/")
+	}
+	// Split first: a decoded segment may contain '/'
+	parts := strings.Split(path, "/")
+	for i, part := range parts {
+		parts[i] = pathDecoder.Replace(part)
+	}
+	return parts
+}
+
 // GetValue returns the value of the given key from the TSON object.
 func GetValue(t Tson, path string) (v Value, err error) {
 	var getValue func(t Tson, parts []string) (Value, error)
@@ -100,10 +125,10 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
-
+	parts := SplitPath(path)
+	if len(parts) == 0 {
+		return t, nil
+	}
 	return getValue(t, parts)
 }
 
diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..5e15629 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,11 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
 	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	parts := tson.SplitPath(op.Path)
+	if len(parts) == 0 {
+		return nil, fmt.Errorf("ApplyOperation(): Empty path")
+	}
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -432,19 +432,10 @@ func getIndex(part string) (idx int, err error) {
 }
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
+var rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From d6884de973ed0632b3827d082b0b45ba94e6e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 02/41] fix: apply every operation of a patch to the result of
 the previous one

ApplyPatch applied each operation to the original document and returned
a nil document for an empty patch.
---
 internal/tsonpatch/tsonpatch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 5e15629..8eb7ca3 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -140,8 +140,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 5737c3857f64103220a325025d5af4ca3758cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 03/41] fix: reach nested array elements and report
 inapplicable operations as errors

An element inside an array inside an object was overwritten or removed as a
whole when the path went deeper, a path through a leaf, an out-of-range or
negative index and an unsupported kind panicked or were silently ignored.
---
 internal/tsonpatch/tsonpatch.go | 56 +++++----------------------------
 1 file changed, 8 insertions(+), 48 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 8eb7ca3..98ff1d4 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -169,9 +169,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		return doc, nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // If doc is a leaf node, it has no child to change
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): Leaf found in the middle of the path at %s", parts[0])
 	}
 
 	switch part := parts[0]; j := doc.(type) {
@@ -201,7 +201,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -210,54 +210,11 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
-		case tson.Object:
+			return nil, fmt.Errorf("applyTraverse(): Leaf found in the middle of the path at %s", part)
+		case tson.Object, tson.Array:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
-				return nil, err
-			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
@@ -429,6 +386,9 @@ func getIndex(part string) (idx int, err error) {
 	if idx, err = strconv.Atoi(part); err != nil {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
+	if idx < 0 {
+		return -1, fmt.Errorf("getIndex(): Negative index %s", part)
+	}
 	return idx, nil
 }
 
-- 
2.43.0


From ae5eb7ae38c457076688bb90f86255f1b5f6bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 04/41] fix: leave the input document untouched when applying a
 patch

Operations were applied in place, so a snapshot, its base and the caller's
document all changed together, also when the patch failed half-way.
---
 internal/tsonpatch/tsonpatch.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 98ff1d4..a2cb1f1 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -164,6 +164,7 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 }
 
 // applyTraverse 함수 수정
+// It never modifies doc: containers along the path are copied before they change.
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
 	if len(parts) == 0 { // If the path is empty, return
 		return doc, nil
@@ -176,6 +177,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		j = cloneObject(j)
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -260,6 +262,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			} else {
 				return nil, fmt.Errorf("applyTraverse(): Index %d out of range for array of length %d", idx, len(j))
 			}
+		} else {
+			j = append(make(tson.Array, 0, len(j)), j...)
 		}
 
 		if len(parts) == 1 {
@@ -297,6 +301,15 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 	}
 }
 
+// cloneObject returns a shallow copy of obj.
+func cloneObject(obj tson.Object) tson.Object {
+	clone := make(tson.Object, len(obj)+1)
+	for key, value := range obj {
+		clone[key] = value
+	}
+	return clone
+}
+
 // func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
 // 	if len(parts) == 0 { // If the path is empty, return
 // 		return doc, nil
-- 
2.43.0


From 19718cc5a860105f0b2416b7a910d65845dc9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 05/41] fix: generate correct patches between arrays of
 different lengths and element types

A changed element type or a null panicked, and an insertion before the end of
an array produced a patch that did not lead to the modified document.
---
 internal/tsonpatch/tsonpatch.go | 165 ++++++++++++++------------------
 1 file changed, 71 insertions(+), 94 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a2cb1f1..6a7cb0b 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -473,7 +473,7 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 			case tson.Object:
 				// TODO: is there a way to calculate the timestamp?
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
-			case tson.Array:
+			case tson.Array, nil:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
@@ -485,6 +485,12 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+
+	// "replace": Type has changed
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return appendLeaf(patch, OpReplace, path, modValue)
+	}
+
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -521,7 +527,11 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
+			ops, err := compareArray(origin, modified, path, false)
+			if err != nil {
+				return nil, err
+			}
+			patch = append(patch, ops...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -558,6 +568,11 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
 
+	// "replace": Type has changed
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return appendLeaf(patch, OpReplace, path, modValue)
+	}
+
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
@@ -608,7 +623,11 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
+			ops, err := compareArray(origin, modified, path, true)
+			if err != nil {
+				return nil, err
+			}
+			patch = append(patch, ops...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -744,106 +763,64 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// appendLeaf appends an operation which writes the given leaf at the path.
+func appendLeaf(patch Patch, op OpType, path string, value tson.Value) (Patch, error) {
+	switch leaf := value.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("appendLeaf(): Unknown type %T for value", value)
 	}
-	patch = reversed
-
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
-		case tson.Leaf[string]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[float64]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[bool]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
-		}
-	})
-	return patch
 }
 
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// compareArray generates the operations between two arrays of different lengths.
+func compareArray(origArr, modArr tson.Array, p string, withTimestamp bool) (patch Patch, err error) {
+	// If elements were only removed, the others keep their order.
+	// Remove from the end, so that the remaining indexes stay valid.
+	if removed, ok := findRemoved(origArr, modArr); ok {
+		for i := len(removed) - 1; i >= 0; i-- {
+			// TODO: is there a way to calculate the timestamp?
+			patch = append(patch, NewOperation(OpRemove, makePath(p, removed[i]), nil, 0))
+		}
+		return patch, nil
 	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
+
+	// Otherwise, compare the elements by their positions
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if withTimestamp {
+			patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch)
 		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
+			patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
-
-	return patch
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
+		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
+	}
+	for i := len(origArr); i < len(modArr); i++ {
+		if patch, err = appendLeaf(patch, OpAdd, makePath(p, i), modArr[i]); err != nil {
+			return nil, err
+		}
+	}
+	return patch, nil
 }
 
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
+// findRemoved returns the indexes of origArr which are missing in modArr,
+// if modArr is what remains of origArr after removing some of its elements.
+func findRemoved(origArr, modArr tson.Array) (removed []int, ok bool) {
+	next := 0
+	for i, value := range origArr {
+		if next < len(modArr) && reflect.DeepEqual(value, modArr[next]) {
+			next++
+		} else {
+			removed = append(removed, i)
 		}
 	}
+	return removed, next == len(modArr)
 }
-- 
2.43.0


From eace6fce2c8a4cebea04579f76a7ae9323505395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 06/41] fix: escape the path when a patch is written as text

---
 internal/tsonpatch/tsonpatch.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 6a7cb0b..b7c1d77 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -88,14 +88,14 @@ type Operation struct {
 // String converts the Operation to a JSON string.
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
-		op        = p.Op
-		path      = p.Path
+		op, _     = json.Marshal(p.Op)
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": %s, "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -103,7 +103,9 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	op, _ := json.Marshal(p.Op)
+	path, _ := json.Marshal(p.Path)
+	fmt.Fprintf(&buf, `{ "op": %s, "path": %s`, op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 82eec70f8e1b32349d078a74e17b3130673b95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 07/41] fix: let the empty path of a generated patch address
 the whole document

---
 internal/tsonpatch/tsonpatch.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index b7c1d77..4f48980 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -154,8 +154,11 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	// Split the path into parts, ignoring the first empty string
 	parts := tson.SplitPath(op.Path)
-	if len(parts) == 0 {
-		return nil, fmt.Errorf("ApplyOperation(): Empty path")
+	if len(parts) == 0 { // The empty path refers to the whole document
+		if op.Op != OpAdd && op.Op != OpReplace {
+			return nil, fmt.Errorf("ApplyOperation(): Cannot %s the whole document", op.Op)
+		}
+		return newRoot(op)
 	}
 
 	// Traverse the TSON document
@@ -165,6 +168,15 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	return t, nil
 }
 
+// newRoot returns the document which consists of the value of op only.
+func newRoot(op Operation) (tson.Tson, error) {
+	root, err := applyTraverse(tson.Object{}, []string{""}, op)
+	if err != nil {
+		return nil, err
+	}
+	return root.(tson.Object)[""], nil
+}
+
 // applyTraverse 함수 수정
 // It never modifies doc: containers along the path are copied before they change.
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
-- 
2.43.0


From 801e0483b6ff9f220cdf219917d150af4dfdc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 08/41] fix: accept null members and elements in every tson
 conversion

null is part of the TSON grammar, but parsing, serializing or converting a
document with a null member or element panicked or failed.
---
 internal/tson/serialization.go | 4 ++++
 internal/tson/tson.go          | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..db48430 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -48,6 +48,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -470,6 +472,8 @@ func wrapIfPrimitive(v any, timestamp int64) Value {
 			val.Timestamp = timestamp
 		}
 		return val
+	case nil:
+		return nil
 	default:
 		return v.(Value)
 	}
diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 664ea8f..02be3ad 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -178,6 +178,8 @@ func GetLatestTimestamp(t Tson) int64 {
 	}
 
 	switch v := t.(type) {
+	case nil: // null has no timestamp
+		return DefaultTimestamp
 	case Leaf[string]:
 		return v.Timestamp
 	case Leaf[float64]:
@@ -266,6 +268,8 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 				arr = append(arr, convert(elem))
 			}
 			return arr
+		case nil:
+			return nil
 		default:
 			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
@@ -516,6 +520,8 @@ func ToCompatibleTsonBytesSorted(t Tson) ([]byte, error) {
 // toSortedInterface recursively converts TSON -> map/slice with sorted keys.
 func toSortedInterface(t Tson) (any, error) {
 	switch val := t.(type) {
+	case nil:
+		return nil, nil
 	case Leaf[string]:
 		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil
 	case Leaf[float64]:
-- 
2.43.0


From c73847526dc249b6fd452272a498d4a4d6f37831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 09/41] fix: parse the numbers and escapes that Marshal writes

Numbers with an exponent and the \a, \v, \x, \u and \U escapes could be
written but not read back.
---
 internal/tson/serialization.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index db48430..0033d5e 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -639,6 +640,18 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'a', 'v', 'x', 'u', 'U': // written by strconv.Quote
+				end := min(p.pos+8, len(p.input)) // the longest is \UXXXXXXXX
+				r, multibyte, tail, err := strconv.UnquoteChar(string(p.input[p.pos-2:end]), '"')
+				if err != nil {
+					return "", fmt.Errorf("invalid escape sequence: %c at pos %d", esc, p.pos)
+				}
+				if multibyte {
+					result = utf8.AppendRune(result, r)
+				} else {
+					result = append(result, byte(r))
+				}
+				p.pos = end - len(tail)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -666,6 +679,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.peek() == 'e' || p.peek() == 'E' { // exponent
+		p.pos++
+		if p.peek() == '+' || p.peek() == '-' {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From f1d5bafb5e6322691d672f14cdd63003cd8d4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 10/41] fix: keep the timestamp after a value in objects and
 arrays

The missing timestamp of the key or element overwrote it with 0, and leaves
without a timestamp got 0 instead of the default timestamp.
---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 0033d5e..debae03 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -741,7 +741,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -785,7 +785,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From 5b25c85ffeb9a429000c5a329290489fd09f7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 11/41] fix: reject text after the end of a TSON document

---
 internal/tson/serialization.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index debae03..d48a245 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -445,8 +445,14 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		*t = nil
+		return fmt.Errorf("unexpected character '%c' after the document at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From 3ffd0144b6b2e180efb585810e65221d2c01c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 12/41] fix: do not round numbers in MarshalIndent

---
 internal/tson/serialization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index d48a245..0dbc42d 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -193,7 +193,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return strconv.Quote(t), nil
 
-- 
2.43.0


From cb9fdf6b105a7a16e7bd28abd53897ca8ae4dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 13/41] fix: keep full 64-bit timestamps in conversions and
 Equal

---
 internal/tson/tson.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 02be3ad..56e506f 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -147,7 +148,8 @@ func Equal(t1, t2 Tson) (ret bool, err error) {
 	if err = json.Unmarshal(b2, &o2); err != nil {
 		return false, err
 	}
-	return reflect.DeepEqual(o1, o2), nil
+	// Compare the TSONs themselves: o1 and o2 hold rounded timestamps
+	return reflect.DeepEqual(t1, t2), nil
 }
 
 // EqualWithoutTimestamp checks if two TSONs are equal, excluding timestamps.
@@ -241,6 +243,7 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
+	var convertErr error
 	var convert func(v any) Value
 	convert = func(v any) Value {
 		switch t := v.(type) {
@@ -249,8 +252,12 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 				switch leafVal.(type) {
 				case string:
 					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+				case json.Number:
+					f, err := leafVal.(json.Number).Float64()
+					if err != nil {
+						convertErr = err
+					}
+					return Leaf[float64]{Value: f, Timestamp: ts}
 				case bool:
 					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
 				default:
@@ -275,12 +282,18 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 		}
 	}
 
+	// Keep the numbers as they are: float64 cannot hold every int64 timestamp
 	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	if !json.Valid(data) {
+		return json.Unmarshal(data, &intermediate)
+	}
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&intermediate); err != nil {
 		return err
 	}
 	*t = convert(intermediate)
-	return nil
+	return convertErr
 }
 
 // ToCompatibleTson converts the given TSON to a JSON object.
@@ -501,6 +514,12 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
+				ts, _ := t.Float64()
+				return true, val, int64(ts)
 			}
 		}
 	}
-- 
2.43.0


From 9ae8e50a4f5ca5fe43946e3d18e52b7433f28a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 14/41] fix: convert documents that are a single leaf, and
 leave the input of FromJson alone

---
 internal/tson/tson.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 56e506f..6d5c67e 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -359,8 +359,12 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
-	removeTimestamp(*j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	root := []any{*j} // The root itself may be a leaf
+	removeTimestamp(root)
+	*j = root[0]
 
 	return nil
 }
@@ -400,10 +404,21 @@ func FromJson(o any, t *Tson) (err error) {
 		}
 	}
 
-	addTimestamp(o)
+	// Step 0: Copy the given object in order not to change it
+	str, err := json.Marshal(o)
+	if err != nil {
+		return err
+	}
+	root := make([]any, 1) // The root itself may be a primitive
+	if err = json.Unmarshal(str, &root[0]); err != nil {
+		return err
+	}
+	addTimestamp(root)
 
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	if str, err = json.Marshal(root[0]); err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
-- 
2.43.0


From 088afc1dfb28befc0c33c9b0a4750586f788c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 15/41] fix: copy the operations given to Store

---
 internal/logument/logument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..49d5da7 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -159,6 +159,10 @@ func (lgm *Logument) Store(inputPatches any) {
 		panic("Invalid type for initialPatches. Must be Patch or []Patch.")
 	}
 
+	if patches != nil { // Do not share the operations with the caller
+		patches = append(make(tsonPatches, 0, len(patches)), patches...)
+	}
+
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = patches
 	} else {
-- 
2.43.0


From 757e4c50bd12bef67554a856e05c31cf310018c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 16/41] fix: apply every version between the cached and the
 requested snapshot

---
 internal/logument/logument.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 49d5da7..e500cb3 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -223,19 +223,17 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
+	timedSnapshot := latestSnapshot
 
 	if latestVersion != vk {
 		// Apply patches from the latest version to the target version
 		for i := latestVersion + 1; i <= vk; i++ {
 			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
+			timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
 			if err != nil {
 				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 			}
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From e06aba87315c2fd85af9bb855ca3db57a998c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 17/41] fix: return the tracked patches instead of overwriting
 the recorded ones

---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index e500cb3..ce52a8e 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -471,7 +471,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
-- 
2.43.0


From c0153060745ed45d9a34d3c74214df7ae51f0460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 18/41] fix: keep the operations that follow a removal or a
 change around their path

---
 internal/logument/logument.go | 57 +++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index ce52a8e..47217f7 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -457,10 +458,11 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		patches := packedPatches[path]
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
+			forgetChanged(latestValues, patch)
 			// Compare to previous value if it exists at the same path
 			if prev, exists := latestValues[patch.Path]; exists {
 				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
+				if !equalValues(prev, patch.Value) {
 					compactPatches = append(compactPatches, patch)
 					latestValues[patch.Path] = patch.Value
 				}
@@ -497,10 +499,11 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
+				forgetChanged(latestValues, p)
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !equalValues(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
@@ -520,6 +523,53 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	return trackedPatches
 }
 
+// forgetChanged removes the locations whose latest value may no longer hold
+// after op: those above or below its path, the path itself if it is removed,
+// and the elements which may move when an array element is removed.
+func forgetChanged(latestValues map[string]any, op tsonpatch.Operation) {
+	if _, exists := latestValues[op.Path]; exists && op.Op != tsonpatch.OpRemove {
+		return // The known locations are never above or below each other
+	}
+
+	parts := tson.SplitPath(op.Path)
+	if op.Op == tsonpatch.OpRemove && len(parts) > 0 {
+		if _, err := strconv.Atoi(parts[len(parts)-1]); err == nil {
+			parts = parts[:len(parts)-1]
+		}
+	}
+
+	for path := range latestValues {
+		known := tson.SplitPath(path)
+		if hasPrefix(known, parts) || hasPrefix(parts, known) {
+			delete(latestValues, path)
+		}
+	}
+}
+
+// hasPrefix checks if the path consists of the segments of prefix and possibly more.
+func hasPrefix(path, prefix []string) bool {
+	if len(path) < len(prefix) {
+		return false
+	}
+	for i, part := range prefix {
+		if path[i] != part {
+			return false
+		}
+	}
+	return true
+}
+
+// equalValues checks if two values of operations write the same leaf.
+func equalValues(a, b any) bool {
+	if num, ok := a.(int); ok {
+		a = float64(num)
+	}
+	if num, ok := b.(int); ok {
+		b = float64(num)
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 	// Set the value at the target path in the snapshot at the target version
 	// if !lgm.isContinuous() {
@@ -609,12 +659,13 @@ func (lgm *Logument) Compact(targetPath string) {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
+			forgetChanged(latestValues, p)
 			pt := rfc6901Decoder.Replace(p.Path)
 			if strings.HasPrefix(pt, targetPath) {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
+					if !equalValues(prev, p.Value) {
 						compactPatches = append(compactPatches, p)
 						latestValues[p.Path] = p.Value
 					}
-- 
2.43.0


From 846a5e6b1dc7b9f9975c2923b3271c03ee46bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 19/41] fix: replay all versions up to the timestamp in
 TemporalSnapshot

---
 internal/logument/logument.go | 61 +++++++++++------------------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 47217f7..59194ea 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -245,62 +245,39 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	// The pending patches may also have been made before the target timestamp
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
+	return lgm.replayUntil(func(ts int64) bool { return ts <= tsk })
+}
 
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
+// replayUntil applies the patches of all versions in the order of their timestamps
+// to the first snapshot, as far as their timestamps are in the given (lower) range.
+func (lgm *Logument) replayUntil(inRange func(ts int64) bool) tsonSnapshot {
+	var latestPatches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] { // Already in the first snapshot
+			continue
 		}
-	}
-
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+		for _, p := range lgm.Patches[version] {
+			if inRange(p.Timestamp) {
+				latestPatches = append(latestPatches, p)
 			}
 		}
 	}
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	sort.SliceStable(latestPatches, func(i, j int) bool {
+		return latestPatches[i].Timestamp < latestPatches[j].Timestamp
+	})
 
 	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
+	timedSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshots[lgm.Version[0]], latestPatches)
 	if err != nil {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
 	return timedSnapshot
 }
 
-- 
2.43.0


From 15d1d68b8f840b3bbcc18c970dc7e882954035ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 20/41] fix: make Slice return a complete log of the version
 range

---
 internal/logument/logument.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 59194ea..b4530af 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -311,29 +311,25 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 		}
 	}
 
-	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
-	for _, version := range versionsFromPatch {
-		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
-			SlicedVersions = append(SlicedVersions, version)
-			SlicedPatches[version] = lgm.Patches[version]
+	for version := vi; version <= vj; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+		if patches, exists := lgm.Patches[version]; exists {
+			SlicedPatches[version] = patches
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
+	if _, exists := SlicedSnapshots[vi]; !exists {
 		SlicedSnapshots[vi] = lgm.Snapshot(vi)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From 867710c5b8f58d703e94c3ece22685c3ef3addcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 21/41] fix: make TemporalSlice start from the state before the
 time range

---
 internal/logument/logument.go | 50 +++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index b4530af..912bd0c 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -347,45 +347,49 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
-	var SlicedVersions []uint64
-
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
+	// The pending patches may also have been made in the time range
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
+	startVersion, endVersion := lgm.Version[0], lgm.Version[0]
+
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
+		if version <= lgm.Version[0] { // Already in the first snapshot
+			continue
+		}
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					startVersion = version - 1
+				}
+				endVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
+			} else if patch.Timestamp < tsi && len(SlicedPatches) == 0 {
+				startVersion, endVersion = version, version
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// Versions should be continuous, even if some have no patches in the range
+	var SlicedVersions []uint64
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
 	}
 
+	// Start with the state before the start time
+	SlicedSnapshots := make(map[uint64]tsonSnapshot)
+	SlicedSnapshots[startVersion] = lgm.replayUntil(func(ts int64) bool { return ts < tsi })
+
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.TemporalSnapshot(tsj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From cc917d2e313877a6859f0cefc7b3d588bba51fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 22/41] fix: keep the current state when Set fails

---
 internal/logument/logument.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 912bd0c..225d5bd 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -557,11 +557,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	currentState, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = currentState
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
-- 
2.43.0


From 99cc86e4171433561c83f7ee094b822b7c626840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 23/41] fix: compare with the latest state in TestSet

---
 internal/logument/logument.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 225d5bd..45abb15 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -581,7 +581,11 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
+	// The latest state includes the pending patches
+	latesetSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshot(lgm.Version[len(lgm.Version)-1]), lgm.PatchPool)
+	if err != nil {
+		panic(fmt.Sprintf("failed to apply pending patches: %v", err))
+	}
 	// if _, exists := lgm.Snapshots[vk]; !exists {
 	// 	s := lgm.Snapshot(vk)
 	// 	lgm.Snapshots[vk] = s
@@ -614,6 +618,9 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 		if floatVal, ok := value.(float64); ok {
 			return leaf.Value == floatVal
 		}
+		if intVal, ok := value.(int); ok {
+			return leaf.Value == float64(intVal)
+		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
 			return leaf.Value == boolVal
-- 
2.43.0


From 066cd4d579b2b360112def5f5093bfd91fec13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 24/41] fix: match whole path segments in Compact and History,
 and order the history by time

---
 internal/logument/logument.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 45abb15..f84c07e 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -12,12 +12,6 @@ import (
 	"github.com/davecgh/go-spew/spew"
 )
 
-// Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
-
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
 
@@ -637,6 +631,7 @@ func (lgm *Logument) Compact(targetPath string) {
 	}
 
 	latestValues := make(map[string]any)
+	target := tson.SplitPath(strings.TrimSuffix(targetPath, "/"))
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
@@ -644,8 +639,7 @@ func (lgm *Logument) Compact(targetPath string) {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			forgetChanged(latestValues, p)
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
+			if hasPrefix(tson.SplitPath(p.Path), target) {
 				// Compare to previous value if it exists at the same path
 				if prev, exists := latestValues[p.Path]; exists {
 					// If value has changed, keep the patch and update the status
@@ -678,11 +672,12 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	lgm.Compact(targetPath)
 
+	target := tson.SplitPath(strings.TrimSuffix(targetPath, "/"))
+
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range lgm.Patches[version] {
+			if hasPrefix(tson.SplitPath(patch.Path), target) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
@@ -690,11 +685,13 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	// Add the initial value to the history
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
-		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
-		}
-		if val != nil {
+		sort.SliceStable(historyPatches[key], func(i, j int) bool {
+			return historyPatches[key][i].Timestamp < historyPatches[key][j].Timestamp
+		})
+
+		// The location may have been created later
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
+		if err == nil && val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
 				Path:      key,
-- 
2.43.0


From 0f6cc0c391b29a6aa11fb47ee9a8671053921ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 25/41] fix: generate a dataset without a maintain rate, as the
 command line and the web demo do

---
 internal/vssgen/args.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..dc0a735 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -76,7 +76,7 @@ func Generate(metadata map[string]any, dataFolder string) {
 		cars         = metadata["cars"].(int)
 		files        = metadata["files"].(int)
 		changeRate   = metadata["change_rate"].(float64)
-		maintainRate = metadata["maintain_rate"].(float64)
+		maintainRate = optionalRate(metadata, "maintain_rate")
 		size         = metadata["size"].(float64)
 	)
 
@@ -113,3 +113,9 @@ func Generate(metadata map[string]any, dataFolder string) {
 		}
 	}
 }
+
+// optionalRate returns the rate of the given name, or zero if it is not set
+func optionalRate(metadata map[string]any, name string) float64 {
+	rate, _ := metadata[name].(float64)
+	return rate
+}
-- 
2.43.0


From ccc13a9d30d1ddd0bf1b8da43d36c02872c1bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 26/41] fix: generate each file of a dataset from the previous
 one

---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index dc0a735..82803aa 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -106,7 +106,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			var patch *VssJson
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From 7b3608e30f9b38c0db99e9d47359c58011cea1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 27/41] fix: write patch files with exact timestamps and valid
 JSON values

---
 internal/vssgen/vss.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..4abb6ff 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -366,11 +366,14 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
 
 	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
+	b, _ = json.Marshal(ops)
 
 	// Step 3. Unmarshal the []byte to a JSON object
+	// float64 cannot hold a timestamp in nanoseconds
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber()
+	decoder.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -393,9 +396,13 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
+			op, _ := json.Marshal(d["op"])
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
+			timestamp, _ := json.Marshal(d[tsonTimestamp])
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				`{ "op": %s, "path": %s, "value": %s, "timestamp": %s }`,
+				op, path, value, timestamp)
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From ab28498e789f909a3ac5d81d318d463bd46c122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 28/41] fix: keep nodes of unsupported types in every file of a
 dataset

---
 internal/tson/serialization.go | 2 ++
 internal/vssgen/vss.go         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 0dbc42d..d8b96dd 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -422,6 +422,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 // formatPrimitive converts a primitive value (string, float64, bool) into its string representation.
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
+	case nil:
+		return "null", nil
 	case string:
 		return strconv.Quote(t), nil
 	case float64, int, int64, uint, uint64:
diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 4abb6ff..311a1fc 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -244,7 +244,7 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 					tsonTimestamp: timestamp,
 				})
 			}
-		case dtype == nil:
+		default: // Unknown or unsupported type
 			new[node] = map[string]any{
 				tsonValue:     nil,
 				tsonTimestamp: timestamp,
@@ -327,6 +327,8 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default: // Keep a value which cannot be changed
+					new[node] = value
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
-- 
2.43.0


From 0ee4941590dd5a526789e65f3dbc2b8fa53ab76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 29/41] fix: serve the first document when there is no patch to
 apply

---
 web_demo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..0586fd9 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -104,7 +104,7 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	lgm.Append()
 
 	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From 06913c09e30c565a5c732d7d740c45d5becf961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 30/41] fix: keep the value of a top-level item in a temporal
 JSON document

---
 exp/tjson.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..587b31c 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -75,16 +75,14 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
+	}
 
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
+	// 마지막 부분의 값 설정
+	version := &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
 	}
+	currentItem.Versions = append(currentItem.Versions, version)
 
 	return nil
 }
-- 
2.43.0


From ecc4c4bd5454976afffde319a6134b3741377219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 31/41] fix: leave the patches given to FromTSONPatches in
 their order

---
 exp/tjson.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 587b31c..570261b 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -275,8 +275,9 @@ func parseTimeRange(timeRange string) (int64, int64) {
 func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
-	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	// Sort patches by timestamp, in a copy and in the recorded order among equal timestamps
+	patches = append([]TsonPatch(nil), patches...)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
-- 
2.43.0


From b7c0e83ee678c4208fb8bf3cac2e7e84c91d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 32/41] fix: end the periods of a temporal JSON document where
 the values end

---
 exp/tjson.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 570261b..9337b0f 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -2,11 +2,11 @@ package exp
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/davecgh/go-spew/spew"
 )
@@ -115,7 +115,7 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 	var versionData interface{}
 	var versionFound bool
 
-	// 버전에서 데이터 찾기 (시간 범위 내의 가장 마지막 버전 사용)
+	// 버전에서 데이터 찾기
 	for i := 0; i < len(item.Versions); i++ {
 		version := item.Versions[i]
 		if isTimeInRange(timestamp, version.Timestamp) {
@@ -123,9 +123,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
@@ -301,7 +298,7 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 			lastValue, exists := lastValues[path]
 			if !exists || !reflect.DeepEqual(lastValue, patch.Value) {
 				// If we have a previous value, close its time range
-				if exists {
+				if exists && lastTimes[path] < patch.Timestamp {
 					prevTime := lastTimes[path]
 					// Add the previous item with its time range
 					err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
@@ -317,10 +314,11 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 		} else if patch.Op == "remove" {
 			// Handle deletion by closing the time range
 			if lastValue, exists := lastValues[path]; exists {
-				prevTime := lastTimes[path]
-				err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
-				if err != nil {
-					fmt.Printf("Warning: Failed to add item for %s (remove): %v\n", path, err)
+				if prevTime := lastTimes[path]; prevTime < patch.Timestamp {
+					err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
+					if err != nil {
+						fmt.Printf("Warning: Failed to add item for %s (remove): %v\n", path, err)
+					}
 				}
 				delete(lastValues, path)
 				delete(lastTimes, path)
@@ -329,9 +327,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	}
 
 	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
 	for path, value := range lastValues {
-		err := doc.AddItem(path, lastTimes[path], currentTime, value)
+		err := doc.AddItem(path, lastTimes[path], math.MaxInt64, value)
 		if err != nil {
 			fmt.Printf("Warning: Failed to add final item for %s: %v\n", path, err)
 		}
-- 
2.43.0


From 1d807f54a4d0d98b85dcc1f0a7ff84eab8981798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 33/41] fix: keep initial values before the changes of the same
 time in the temporal query experiment

---
 exp/utils_temporal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..7e897bc 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -73,8 +73,8 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, initialPatches...)
 	allPatches = append(allPatches, tsonPatches...)
 
-	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	// Sort by timestamp, keeping the initial patches first
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
-- 
2.43.0


From 3619f191ccace94494a70cf686d33c532d03c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 34/41] fix: make the patches of the temporal query experiment
 a version, so that they can be tracked

---
 exp/utils_temporal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 7e897bc..3b917a2 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -386,6 +386,12 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 
 	// Create the Logument
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+
+	// Make the patches a version, so that they can be tracked
+	if err := lgm.Append(); err != nil {
+		panic(err)
+	}
+
 	return lgm
 }
 
-- 
2.43.0


From 00a5d09633886fddc94e99770f6ef09ef3d69496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 35/41] fix: ToMapStringInterface always failed: Save writes
 TSON, which is not JSON

---
 internal/vssgen/extension.go | 44 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..ed57cd6 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -1,10 +1,7 @@
 package vssgen
 
 import (
-	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,28 +13,31 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
-	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
-	}
-	defer os.RemoveAll(tempDir)
-
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
+	data, ok := copyValue(vss.data).(map[string]interface{})
+	if !ok {
+		return nil, fmt.Errorf("ToMapStringInterface(): unexpected data type %T", vss.data)
 	}
+	return data, nil
+}
 
-	var result map[string]interface{}
-	if err := json.Unmarshal(jsonBytes, &result); err != nil {
-		return nil, fmt.Errorf("JSON 파싱 실패: %v", err)
+// copyValue returns a deep copy of a generated value
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{}, len(v))
+		for key, child := range v {
+			m[key] = copyValue(child)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(v))
+		for i, child := range v {
+			arr[i] = copyValue(child)
+		}
+		return arr
+	default:
+		return v
 	}
-
-	return result, nil
 }
 
 // BuildFromLeafNodes 메서드는 LeafNodes()로 얻은 데이터를 map[string]interface{}로 변환합니다
-- 
2.43.0


From 18be310cf5f6fc399506429da852f773dde7f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 36/41] fix: keep full 64-bit timestamps in ToCompatibleTson

---
 internal/tson/tson.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 6d5c67e..5af57e1 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -299,15 +299,12 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 // ToCompatibleTson converts the given TSON to a JSON object.
 // NOTE: The timestamp field is kept
 func ToCompatibleTson(t Tson, o *any) error {
-	// Convert TSON to Compatible TSON (JSON with timestamp)
-	barr, err := ToCompatibleTsonBytes(t)
+	// Build the object directly: JSON text read back has no int64 timestamps
+	obj, err := toSortedInterface(t)
 	if err != nil {
 		return err
 	}
-	// Convert JSON byte slice to JSON object
-	if err = json.Unmarshal(barr, o); err != nil {
-		return err
-	}
+	*o = obj
 
 	return nil
 }
-- 
2.43.0


From c111d816a4003d33011f671e58de227cd7af5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 37/41] fix: a removal leaves no value behind that a following
 operation could repeat

---
 internal/logument/logument.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index f84c07e..8f952fa 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -441,7 +441,9 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 			} else {
 				// Always keep the patch when it appears for the first time
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
+				if patch.Op != tsonpatch.OpRemove { // A removal leaves no value behind
+					latestValues[patch.Path] = patch.Value
+				}
 			}
 		}
 		packedPatches[path] = compactPatches
@@ -482,7 +484,9 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 				} else {
 					// Always keep the patch when it appears for the first time
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
+					if p.Op != tsonpatch.OpRemove { // A removal leaves no value behind
+						latestValues[p.Path] = p.Value
+					}
 				}
 			}
 		}
@@ -651,7 +655,9 @@ func (lgm *Logument) Compact(targetPath string) {
 				} else {
 					// Always keep the patch when it appears for the first time
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
+					if p.Op != tsonpatch.OpRemove { // A removal leaves no value behind
+						latestValues[p.Path] = p.Value
+					}
 				}
 			} else {
 				// Keep patches that do not match the targetPath
-- 
2.43.0


From 021f1bfec5e1838c7160ee0c2e01f02207fd1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 38/41] fix: the temporal query experiments leave the list of
 scenarios alone

---
 exp/exp_temporal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp/exp_temporal.go b/exp/exp_temporal.go
index 4b4ee3f..f19cf12 100644
--- a/exp/exp_temporal.go
+++ b/exp/exp_temporal.go
@@ -20,7 +20,7 @@ func RunTemporalQueryExperiments() {
 	// Create output directory
 	os.MkdirAll(temporalOutputDir, os.ModePerm)
 
-	scenarios = []string{"urban_traffic"}
+	scenarios := []string{"urban_traffic"}
 
 	// Run experiments for each scenario
 	for _, scenario := range scenarios {
-- 
2.43.0


From 9943bc396d220d013ce42e7dcba2e693f29025de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 39/41] fix: show the texts of the server as they are, with all
 digits of their timestamps

---
 index.html | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index cb28f79..3ad1a1a 100644
--- a/index.html
+++ b/index.html
@@ -260,17 +260,11 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             );
         }
 
-        // Parse text given by server, and applies syntaxHighlight to display in <code>
+        // Takes text given by server, and applies syntaxHighlight to display in <code>
         function setCodeBlockContent(elementId, textData) {
+            // The server sends indented text; parsing it would round the 64-bit timestamps
             const codeBlock = document.getElementById(elementId);
-            try {
-                const parsed = JSON.parse(textData);
-                const pretty = JSON.stringify(parsed, null, 2);
-                codeBlock.innerHTML = syntaxHighlight(pretty);
-            } catch (e) {
-                // Try highlighting even if JSON.parse fails
-                codeBlock.innerHTML = syntaxHighlight(textData);
-            }
+            codeBlock.innerHTML = syntaxHighlight(textData);
         }
 
         // If car changes, fetch the original TSON of the car
-- 
2.43.0


From f9c5f8824f0744ee0969350ba695a71847bad3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 40/41] fix: a new selection has to be appended before its
 snapshot can be saved

---
 index.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.html b/index.html
index 3ad1a1a..d3a0504 100644
--- a/index.html
+++ b/index.html
@@ -166,7 +166,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Vehicle State</div>
                     <!-- Car selection -->
-                    <select id="carSelect" onchange="updateVehicle()">
+                    <select id="carSelect" onchange="updateVehicleAndReset()">
                         <option value="1">Car 1</option>
                         <option value="2">Car 2</option>
                         <option value="3">Car 3</option>
@@ -185,7 +185,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Patches</div>
                     <!-- Patch Selection -->
-                    <select id="patchSelect" onchange="updatePatch()">
+                    <select id="patchSelect" onchange="updatePatchAndReset()">
                         <!-- 2 <= patchIdx <= 9 -->
                         <option value="2">Patch 1</option>
                         <option value="3">Patch 2</option>
-- 
2.43.0


From 6e5a0c249333b549c074e62d7ebd82ff20227b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 41/41] fix: ignore answers for an earlier selection, and save
 no snapshot before its result is there

---
 index.html | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/index.html b/index.html
index d3a0504..8df3066 100644
--- a/index.html
+++ b/index.html
@@ -267,11 +267,18 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             codeBlock.innerHTML = syntaxHighlight(textData);
         }
 
+        // Whether these are still selected; an answer for another selection comes too late
+        function isSelected(car, patch) {
+            return car === document.getElementById("carSelect").value
+                && patch === document.getElementById("patchSelect").value;
+        }
+
         // If car changes, fetch the original TSON of the car
         async function updateVehicle() {
             const car = document.getElementById("carSelect").value;
             const res = await fetch(`/update?car=${car}`);
             const data = await res.text();
+            if (car !== document.getElementById("carSelect").value) return;
             setCodeBlockContent("view", data);
             await updatePatch();
         }
@@ -281,6 +288,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             const patch = document.getElementById("patchSelect").value;
             const res = await fetch(`/update?car=${car}&patch=${patch}`);
             const data = await res.text();
+            if (!isSelected(car, patch)) return;
             setCodeBlockContent("patch", data);
         }
 
@@ -296,6 +304,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
         }
 
         // When Apply is pressed, fetch /patch?car=X&patch=Y and shows the result
+        // Returns whether it does
         async function applyPatches() {
             const car = document.getElementById("carSelect").value;
             const patch = document.getElementById("patchSelect").value;
@@ -303,7 +312,9 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             patch>=2 -> patch applied TSON */
             const res = await fetch(`/patch?car=${car}&patch=${patch}`);
             const data = await res.text();
+            if (!isSelected(car, patch)) return false;
             setCodeBlockContent("result", data);
+            return true;
         }
 
         const snapshots = {};
@@ -336,10 +347,11 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
-        function onAppendSnapshotClicked() {
+        async function onAppendSnapshotClicked() {
             const btn = document.getElementById("appendSnapshotBtn");
             if (!isAppended) {
-                applyPatches();
+                // There is no snapshot to save before the result is there
+                if (!await applyPatches()) return;
                 isAppended = true;
                 btn.textContent = "Snapshot";
             } else {
-- 
2.43.0

