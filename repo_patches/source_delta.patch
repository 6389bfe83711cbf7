From e41b6533d6b81852a8934a6d5603ea624cb6132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 01/33] fix: do not put an empty key into the absolute paths of
 unwrapped array elements

GetAbsolutePaths made the amended path one key too long before appending the index, so
the Absolute of every element of a selected array had a zero StringKey before its index.
---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..162a96b 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -675,7 +675,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From b460f2c92932506a89c7d1c92f700f34d0f21ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 02/33] fix: a filter no longer clears the error of an earlier
 key of the same path

$.arr[9][?(true)] set the out of bounds error and then overwrote it with the nil error of
the filter, so the selection succeeded with the elements of the array.
---
 jom/jom.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 162a96b..18e4ceb 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -482,8 +482,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
+				if filterErr != nil {
+					// An error of an earlier key must not be overwritten by a filter that succeeds
+					err = filterErr
 					break
 				}
 			case json_map.First:
@@ -546,8 +549,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
+				if filterErr != nil {
+					// An error of an earlier key must not be overwritten by a filter that succeeds
+					err = filterErr
 					break
 				}
 			case json_map.First:
-- 
2.43.0


From 70261fefbfadb8c31e64268f303660d00994eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 03/33] fix: a slice that ends past the end of the array is an
 error whatever the capacity of the array

The bounds check was that of a Go slice expression, which allows an end up to the capacity,
so $.arr[0:4] of a three element array could select a nil that is not in the document.
---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 18e4ceb..b7e6f6c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -604,7 +604,7 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 					}()
 					// Then set the current value to the slice
 					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
+					currValue = arr[:len(arr):len(arr)][sliceIndices[0]:sliceIndices[1]]
 				}()
 
 				// Break from the loop if an error has occurred
-- 
2.43.0


From 55b9b99ea75fc3c499181ad3254b90f681f4b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 04/33] fix: setting or deleting an empty slice no longer
 changes the whole array

No indices means all indices to setterArr, so $.arr[1:1] overwrote (or deleted) every element.
An end before the start is an error, as it already is when getting.
---
 jom/jom.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index b7e6f6c..c38ef9c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -980,7 +980,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					//fmt.Println("sliceIndices", sliceIndices)
 
-					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) {
+					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
 						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices)})
 					}
 
@@ -989,8 +989,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
-					// Then we iterate through a range of slice indices
-					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					// Then we iterate through a range of slice indices (if there are any, as no indices means all of them)
+					if sliceIndices[0] < sliceIndices[1] {
+						setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					}
 				case json_map.RecursiveLookup:
 					// NOTE: The RecursiveLookup case is a special scenario where the traversal is continued within the
 					// recursive lookup function. This means after the function returns we can empty the path queue so
-- 
2.43.0


From 44c8abe9c7ce9f7de807985e7095ecf45746ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 05/33] fix: setting or deleting all elements of an empty array
 no longer panics

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index c38ef9c..c5b42ab 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -762,6 +762,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 			setterArr := func(arrRef *[]interface{}, indices... int) {
 				// If the length of indices is 0 then we assume that the caller wants all the indices
 				if len(indices) == 0 {
+					if len(*arrRef) == 0 {
+						// There are no indices in an empty array
+						return
+					}
 					indices = ints.Range(0, len(*arrRef) - 1, 1)
 				}
 
-- 
2.43.0


From b607c3c4bd4b147454af0227fa3f4713a15d0231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 06/33] fix: each dot after the second of a run descends one
 level further

$.....a parsed into three copies of the path [First a] instead of the path
[First First First a], because AddToAll was given the First keys as alternatives.
---
 jom/json_map/json_path_parse.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..d7e3851 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -242,7 +242,18 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
 		// Add the nextPath variable to the end of all absolute paths
-		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		if next == &dot {
+			// The First keys of a run of dots follow each other, so they have to be added one after the other (if they
+			// are added all at once then each one would be an alternative)
+			for _, nextPath := range nextPaths {
+				errs = absolutePaths.AddToAll(nil, false, nextPath)
+				if errs != nil {
+					break
+				}
+			}
+		} else {
+			errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		}
 		if errs != nil {
 			return nil, globals.JsonPathError.FillFromErrors(errs)
 		}
-- 
2.43.0


From 375df7d4960b963691c152832b8643febcc0ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 07/33] fix: a negative array index is not silently dropped
 from the path

The tokenizer accepts [-1] but no key was added for it, so $.arr[-1] selected (and deleted!)
$.arr. It is now a negative IndexKey, which is out of bounds for every array.
---
 jom/json_map/json_path_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index d7e3851..c05d9e8 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -74,9 +74,9 @@ var (
 			// Create an array of AbsolutePathKeys which will be added to the AbsolutePaths at the end
 			absolutePathKeys = make([]AbsolutePathKey, 0)
 			switch {
-			case regexp.MustCompile("\\[\\d+]").Match(token):
+			case regexp.MustCompile("\\[-?\\d+]").Match(token):
 				// Normal array index
-				n, err := strconv.Atoi(string(regexp.MustCompile("\\d+").Find(token)))
+				n, err := strconv.Atoi(string(regexp.MustCompile("-?\\d+").Find(token)))
 				if err != nil {
 					return absolutePathKeys, []error{globals.JsonPathError.FillError(fmt.Sprintf("Could not convert index %s into an integer", string(token)))}
 				}
-- 
2.43.0


From fec965e1d7c8ace7142b3b65fc3d73359ccd7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 08/33] fix: parsing JSON paths concurrently is not a data race

ParseJsonPath called Longest on the shared regular expressions on every call.
---
 jom/json_map/json_path_parse.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index c05d9e8..a32f71a 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -264,6 +264,14 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 	return next, nil
 }
 
+// Always match the longest token. This is done once as Longest modifies the regular expressions, which are shared by all
+// the goroutines that are parsing JSON paths.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Given a JSON path will return the list of absolute paths to each value pointed to by that JSON path.
 //
 // This does NOT check if the JSON path is valid.
@@ -274,10 +282,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	currentState := &root
 	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From f41e104b124acf0efc56e78d63cbcf69a4e9195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/33] fix: a filter expression ends where its brackets are
 closed

The filter token matched up to the last ")]" of the path, so two filters in one path were
read as a single one, and every "[?(" and ")]" within an expression was removed from it.
---
 jom/json_map/json_path_parse.go | 40 ++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index a32f71a..2d7c6df 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?("):len(token) - len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
@@ -206,6 +206,40 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Finds the location of the token of the state within the characters to go (nil if there isn't one).
+func (s *state) findToken(togo []byte) []int {
+	occurrences := s.tokenRegex.FindIndex(togo)
+	if s != &filter || occurrences == nil {
+		return occurrences
+	}
+
+	// The regular expression of a filter matches up to the last ")]". The filter ends at the ")]" which closes its "[?(",
+	// so we look for it while skipping over string literals
+	depth := 0
+	var quote byte
+	for i := occurrences[0] + len("[?"); i < occurrences[1]; i++ {
+		char := togo[i]
+		switch {
+		case quote != 0:
+			if char == '\\' {
+				i++
+			} else if char == quote {
+				quote = 0
+			}
+		case char == '"' || char == '\'':
+			quote = char
+		case char == '(':
+			depth++
+		case char == ')':
+			depth--
+			if depth == 0 && i + 1 < occurrences[1] && togo[i + 1] == ']' {
+				return []int{occurrences[0], i + 2}
+			}
+		}
+	}
+	return occurrences
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -219,7 +253,7 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		// Find which state is next by checking the regex of each possible state on the characters to go
 		for _, possibleState := range possibleStates {
 			// If possible state's regex matches the start of the characters to go then that is the next state
-			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
+			if occurrences := possibleState.findToken(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
 				token = togo[occurrences[0]:occurrences[1]]
 				break
@@ -292,7 +326,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// Peak all the bytes until the end of the buffer
 		next, _ := jsonPathReader.Peek(jsonPathReader.Size())
 		// Always try to find the longest
-		occurrences := currentState.tokenRegex.FindIndex(next)
+		occurrences := currentState.findToken(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-- 
2.43.0


From 1f57e7bcd847027841981c060ff325f33e9ef9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 10/33] fix: a clone that is not cleared keeps the kind of its
 root

Clone(false) of a JsonMap with an array at its root marshalled as a map.
---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index c5b42ab..d8eb203 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -87,6 +87,7 @@ func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 		return &JsonMap{
 			insides:   jsonMap.insides,
 			traversal: jsonMap.traversal,
+			Array:     jsonMap.Array,
 		}
 	}
 	cleared := New()
-- 
2.43.0


From f18ace49248a7a346c4c31782996bfa971f15fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 11/33] fix: FindScriptFields forgets the fields that it found
 earlier

Fields that were deleted, changed or became scripts since an earlier FindScriptFields, Strip or
Run were still in the result, so Strip could bring deleted values back and keep scripts.
---
 jom/jom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index d8eb203..ce90fe7 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1185,6 +1185,9 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// Indicates whether a script tag has been found at the current depth or a nested depth. Used to indicate when to
 	// join a scriptFields subtree to its parent tree.
 	found = false
+	// Forget the fields of earlier traversals
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
 
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
-- 
2.43.0


From ff816bc607726f7898814dc3d5747f369f1a57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 12/33] fix: find, strip and run the scripts of objects in
 arrays within arrays

Only the objects directly within an array were searched, so the scripts of {a: [[{s: <script>}]]}
were neither run, removed nor stripped.
---
 jom/jom.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index ce90fe7..0fbbedc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1222,6 +1222,14 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 					}
 					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
 					nonScriptArrayInner[i] = innerMap.traversal.nonScript
+				case []interface{}:
+					// Search arrays within arrays as the value of a field of their own
+					innerMap := NewFromMap(map[string]interface{}{key: inner})
+					if innerMap.FindScriptFields() {
+						foundInner = true
+						scriptArrayInner[i] = innerMap.traversal.script[key]
+					}
+					nonScriptArrayInner[i] = innerMap.traversal.nonScript[key]
 				default:
 					// Fill current element with nil in the scriptArray to indicate that there is no script here
 					scriptArrayInner[i] = nil
@@ -1342,18 +1350,24 @@ func (jsonMap *JsonMap) Run() {
 			jsonMap.insides[key] = jsonInnerMap.insides
 		case []interface{}:
 			elementArray := element.([]interface{})
-			// Iterate over array and recurse on all objects that may be inside the array
-			for i, inner := range elementArray {
-				switch inner.(type) {
-				case map[string]interface{}:
-					jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
-					// Remember to update the scope path of the new JsonMap
-					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s.[%d]", jsonMap.traversal.scopePath.String(), key, i)
-					jsonInnerInnerMap.Run()
-					// Join the subtree back into the array
-					elementArray[i] = jsonInnerInnerMap.insides
+			// Iterate over array and recurse on all objects that may be inside the array (or arrays within the array)
+			var runElements func(elements []interface{}, scopePath string)
+			runElements = func(elements []interface{}, scopePath string) {
+				for i, inner := range elements {
+					switch inner.(type) {
+					case map[string]interface{}:
+						jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
+						// Remember to update the scope path of the new JsonMap
+						_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.[%d]", scopePath, i)
+						jsonInnerInnerMap.Run()
+						// Join the subtree back into the array
+						elements[i] = jsonInnerInnerMap.insides
+					case []interface{}:
+						runElements(inner.([]interface{}), fmt.Sprintf("%s.[%d]", scopePath, i))
+					}
 				}
 			}
+			runElements(elementArray, fmt.Sprintf("%s.%s", jsonMap.traversal.scopePath.String(), key))
 			// Join array back into the main tree
 			jsonMap.insides[key] = elementArray
 		}
-- 
2.43.0


From e9a135b91103459b990a8b044b4ac9ede435b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 13/33] fix: a negative index given to MustPop is ignored

The loop waited for the negative index, so none of the other indices were popped.
---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0fbbedc..c56e2bb 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1541,8 +1541,14 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
-	var currIdx int
-	currIdx, indices = indices[0], indices[1:]
+	// Ignore the (sorted) indices which come before the start of the array
+	for len(indices) > 0 && indices[0] < 0 {
+		indices = indices[1:]
+	}
+	currIdx := -1
+	if len(indices) > 0 {
+		currIdx, indices = indices[0], indices[1:]
+	}
 
 	for i, node := range nodes {
 		if currIdx == i {
-- 
2.43.0


From 3ba702a00c7235ac9fe05efdaeaa0b12306cbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 14/33] fix: running a Go callback does not leak a goroutine

Only one of the two interrupts is read, so the timer (or the callback that was too slow) waited
forever to push the other one.
---
 code/go/go.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..55e1a84 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,9 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// Both the callback and the timer push a single interrupt. The channel is buffered so that neither has to wait for
+	// a reader, as only the first interrupt is ever read
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From 3c5297c6219a5aacff82c55bb59c0ed342cd242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/33] fix: the timer of a filter does not interrupt the
 evaluation of a later node

The timer read the channel of the VM when it fired, which by then was that of a later node, so a
filter over many nodes failed after a second, and timers were stuck once that channel was full.
---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index c56e2bb..28f49d8 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -288,12 +288,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			// The timer must only interrupt this evaluation, and not that of a later node
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
 
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
 			}()
-- 
2.43.0


From 333bd275133722f6660b94592d8f207c3129cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 16/33] fix: a recursive lookup also finds the property where
 the lookup starts

$..a did not find (or set) the property a of the root, and $.x..a not that of x.
---
 jom/jom.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 28f49d8..8fbae05 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -408,6 +408,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 		switch arrOrMap.(type) {
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
+			// The property can also be at the depth that the lookup starts from
+			if value, ok := m[toFind]; ok {
+				inFound <- value
+			}
 			subWg.Add(len(m))
 			for _, value := range m {
 				go subFinder(value, &subWg, toFind, inFound)
@@ -839,7 +843,12 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					m := arrOrMap.(map[string]interface{})
 					mCopy := maps.CopyMap(m)
 					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
+						// The property can also be at the depth that the lookup starts from
+						if k == toFind {
+							setterMap(&mCopy, k)
+						} else {
+							mCopy[k] = subFinder(v, toFind)
+						}
 					}
 					newTree = mCopy
 				case []interface{}:
-- 
2.43.0


From 041f36c26e22ded77e9719a57042d2677564b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 17/33] fix: MustPush can push to an empty array

Getting an empty array gives no values, which was taken for a path without a node.
---
 jom/jom.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 8fbae05..165d3e4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1493,6 +1493,25 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
+// Checks whether the given JSON path can only point to a single node.
+//
+// If there are no values at such a path, and no error occurred when getting them, then it points to an empty array.
+func pointsToOne(jsonPath string) bool {
+	paths, err := json_map.ParseJsonPath(jsonPath)
+	if err != nil || len(paths) != 1 {
+		return false
+	}
+	for _, key := range paths[0] {
+		switch key.KeyType {
+		case json_map.StringKey, json_map.IndexKey, json_map.First:
+			continue
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // Pushes to an []interface{} indicated by the given JSON path at the given indices and panics if any errors occur.
 //
 // Note: This assumes that the JSON path points to an array and will use JsonPathSetter to set the JSON path to be the array selected + the pushed values.
@@ -1508,7 +1527,7 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 // • If a given index is greater than the length of the array to insert to, all empty spaces will be filled with nil.
 func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices... int) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	if nodes == nil && !pointsToOne(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to push to", jsonPath)))
 	}
 
-- 
2.43.0


From 82383177c3dd23951aaebf939b5e52b15f622edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 18/33] fix: a recursive lookup finds the values in the same
 order each time

The order was that of the goroutines and of the map iteration, so $..a[0] was a different value
from one call to the next and $..a[0, 1] could select one value twice.
---
 jom/jom.go | 63 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 165d3e4..d03a414 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -352,6 +352,16 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	return truers, nil
 }
 
+// Returns the keys of the given map in lexicographical order.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Run by GetAbsolutePaths in parallel for each absolute path in an json_map.AbsolutePaths array to find the requested values.
 //
 // Each found value is pushed to valChan and each error is pushed to errChan. Once it has complete it calls Done on the wait group.
@@ -365,8 +375,9 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 		// We'll have to spin up additional finders for every key within this map
 		// Create a wait group which all Sub-Finders will be added to
 		var subWg sync.WaitGroup
-		// Create an in and out channel using the InOut data structure
-		inFound, outFound := concurrency.InOut()
+		// Each Sub-Finder has an in and out channel (using the InOut data structure) of its own, so that the values are
+		// found in the same order each time
+		inFounds, outFounds := make([]chan<- interface{}, 0), make([]<-chan interface{}, 0)
 		toFind := key.Value.(string)
 		foundValues := make([]interface{}, 0)
 
@@ -381,7 +392,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				for _, subSubKey := range sortedKeys(subM) {
+					subSubtree := subM[subSubKey]
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
@@ -403,6 +415,13 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
+		startFinder := func(subtree interface{}) {
+			inFound, outFound := concurrency.InOut()
+			inFounds, outFounds = append(inFounds, inFound), append(outFounds, outFound)
+			subWg.Add(1)
+			go subFinder(subtree, &subWg, toFind, inFound)
+		}
+
 		// Start the sub-finders for each sub-tree of depth one
 		// We do a type switch here to work out whether we are iterating over a map or on array
 		switch arrOrMap.(type) {
@@ -410,34 +429,38 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			m := arrOrMap.(map[string]interface{})
 			// The property can also be at the depth that the lookup starts from
 			if value, ok := m[toFind]; ok {
-				inFound <- value
+				startFinder(map[string]interface{}{toFind: value})
 			}
-			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
+			for _, k := range sortedKeys(m) {
+				if k != toFind {
+					startFinder(m[k])
+				}
 			}
 		case []interface{}:
 			arr := arrOrMap.([]interface{})
-			subWg.Add(len(arr))
 			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
+				startFinder(value)
 			}
 		}
 
-		// Wait for all Finders and then close the input channel
+		// Wait for all Finders and then close the input channels
 		subWg.Wait()
-		close(inFound)
+		for _, inFound := range inFounds {
+			close(inFound)
+		}
 
-		// Finally we read all the values from the out channel and append them to the foundValues array
-		for v := range outFound {
-			// If the value added was an array then we will "unwrap" it
-			switch v.(type) {
-			case []interface{}:
-				for _, av := range v.([]interface{}) {
-					foundValues = append(foundValues, av)
+		// Finally we read all the values from the out channels and append them to the foundValues array
+		for _, outFound := range outFounds {
+			for v := range outFound {
+				// If the value added was an array then we will "unwrap" it
+				switch v.(type) {
+				case []interface{}:
+					for _, av := range v.([]interface{}) {
+						foundValues = append(foundValues, av)
+					}
+				default:
+					foundValues = append(foundValues, v)
 				}
-			default:
-				foundValues = append(foundValues, v)
 			}
 		}
 		return foundValues
-- 
2.43.0


From aa402fe0bea5181f51ae426c783aa5510f75aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 19/33] fix: a filter on a map gives the values in the same
 order each time

The order was that of the map iteration, so $.m[?(true)][0] was a different value from one call to
the next.
---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index d03a414..40d29ef 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -330,8 +330,10 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		// The keys are sorted so that the nodes are always in the same order
+		m := obj.(map[string]interface{})
+		for _, k := range sortedKeys(m) {
+			err = loopBody(k, m[k])
 			if err != nil {
 				break
 			}
-- 
2.43.0


From b653725db18b7a6722151a53d03d2845eee0ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 20/33] fix: the values of a selection with several paths are
 in the order of the paths

$.arr[2, 0] gave the elements (or the errors) in whatever order the goroutines finished.
---
 jom/jom.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 40d29ef..d1a1c30 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -678,35 +678,36 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	// Create a wait group which all Finders will be added to
 	var wg sync.WaitGroup
 
-	// Both the channels can be buffered to be the length of the array of absolute paths to be evaluated
-	// Create a channel of errors which records all the errors that happen within the Finders
-	errsChan := make(chan error, len(*absolutePaths))
-	// Also create a channel for the return values found by the Finders
-	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
+	// Each Finder has a channel for its errors and one for its value, so that the results are in the order of the paths
+	errsChans := make([]chan error, len(*absolutePaths))
+	valuesChans := make([]chan json_map.JsonPathNode, len(*absolutePaths))
 
 	// Start the finders
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	for i, absolutePath := range *absolutePaths {
+		// A Finder pushes either one error or one value
+		errsChans[i] = make(chan error, 1)
+		valuesChans[i] = make(chan json_map.JsonPathNode, 1)
+		go pathFinder(absolutePath, jsonMap.insides, errsChans[i], valuesChans[i], &wg)
 	}
 
-	// Wait for all Finders and then close the errors channel
+	// Wait for all Finders
 	wg.Wait()
-	close(errsChan)
-	close(valuesChan)
-
-	if len(errsChan) > 0 {
-		errs = make([]error, 0)
-		// Consume all the errors in the channel and append them to the error return array
-		for err := range errsChan {
-			errs = append(errs, err)
+
+	// Consume all the errors in the channels and append them to the error return array
+	for _, errsChan := range errsChans {
+		if len(errsChan) > 0 {
+			errs = append(errs, <-errsChan)
 		}
+	}
+	if len(errs) > 0 {
 		return values, errs
 	}
 
-	// Fill out the values array by consuming from the values channel
+	// Fill out the values array by consuming from the values channels
 	values = make([]*json_map.JsonPathNode, 0)
-	for value := range valuesChan {
+	for _, valuesChan := range valuesChans {
+		value := <-valuesChan
 		//fmt.Println("Appending", value)
 		switch value.Value.(type) {
 		case []interface{}:
-- 
2.43.0


From f681cea87877a1c11954903bfc468d87bda63733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 21/33] fix: a JSON path that does not start at the root is an
 error

The error was made and then dropped, so selecting or setting "friends" (without "$.") silently did
nothing.
---
 jom/json_map/json_path_parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 2d7c6df..009b22a 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -329,8 +329,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		occurrences := currentState.findToken(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
-			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From 6fed6c771e6d80d69d6ef0c9d15b640f6e6db3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 22/33] fix: scripts in arrays are found and stripped when
 there are no others

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index d1a1c30..54c32d1 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1276,6 +1276,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
-- 
2.43.0


From 440626e04cbd9ad50e8c6d7fab47ff9e89b80c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 23/33] fix: unmarshalling into a used JsonMap reports errors
 and sets the kind of its root

---
 jom/jom.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 54c32d1..d0b8959 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1418,18 +1418,18 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				jsonMap.Array = true
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
 	}
+	// The JsonMap might have had an array at its root before
+	jsonMap.Array = false
 	return nil
 }
 
-- 
2.43.0


From 4e64a25412cde466a5ef5e0032cfa2b7ab221a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 24/33] fix: setValues keeps arrays and nulls within the value

---
 code/js/js.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..5e25542 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -306,6 +306,19 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 			valueGo = reflect.Indirect(reflect.ValueOf(valueGo)).Interface()
 		}
 
+		// Objects are passed as JSON so that arrays and nulls within them are kept
+		if value.IsObject() && !value.IsFunction() {
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err == nil && valueString.IsString() {
+				valueGo = nil
+				err = json.Unmarshal([]byte(valueString.String()), &valueGo)
+			}
+			if err != nil {
+				throw(err.Error())
+			}
+		}
+
 		// Then we call SetAbsolutePaths
 		// NOTE: This is referencing the absolute paths from outside the scope of this function but this doesn't matter
 		//       because if the user has changed the JSON structure for the worse then its kinda their fault for using
-- 
2.43.0


From 4f4670e630d023f2bec8a057749281b581afc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 25/33] fix: an object within itself that is given to the
 console or setValues does not end the process

---
 code/js/js.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 5e25542..0dc7111 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -31,8 +31,11 @@ var (
 var toBeCloned json_map.JsonMapInt
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The ancestors are the objects which the object is within. An object within itself is not traversed again.
+func traverseObject(object *otto.Object, ancestors ...otto.Value) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	ancestors = append(ancestors[:len(ancestors):len(ancestors)], object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -59,8 +62,16 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			realVal = boolean
 		} else if val.IsObject() {
 			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			circular := false
+			for _, ancestor := range ancestors {
+				circular = circular || ancestor == obj.Value()
+			}
+			if circular {
+				realVal = "[Circular]"
+			} else {
+				objectMapInner := traverseObject(obj, ancestors...)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
-- 
2.43.0


From d3b1082eed979fd476fe54ca1a31189fe79cea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 26/33] fix: endless recursion in a script or filter is an
 error and does not end the process

---
 code/js/js.go    | 2 ++
 globals/const.go | 2 ++
 jom/jom.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 0dc7111..09d1134 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -534,6 +534,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	}()
 
 	vm.Interrupt = make(chan func(), 1)
+	// Endless recursion would end the whole process before the timer does
+	vm.SetStackDepthLimit(globals.CallDepth)
 
 	// Start the timer
 	go func() {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..7ea4877 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -22,6 +22,8 @@ const (
 var (
 	// The delay time in HaltingDelayUnits after which a running script will panic to stop execution of infinitely executing scripts.
 	HaltingDelay = 4
+	// The depth to which the function calls of a script or a filter expression can be nested.
+	CallDepth = 10000
 )
 
 // Returns a map of the descriptions for the subcommands that are used in the CLI application.
diff --git a/jom/jom.go b/jom/jom.go
index d0b8959..aefd98d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -233,6 +233,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	// Endless recursion would end the whole process before the timer does
+	vm.SetStackDepthLimit(globals.CallDepth)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From ef06e3af0815a8e45501df0c9bb74f211bee5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 27/33] fix: getValues does not take apart an array that is the
 only element of the selected array

GetAbsolutePaths has already returned the elements of an array that a path ends at. Doing so again gave
the elements of the inner array for $.l where l is [[1, 2]].
---
 code/js/js.go | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 09d1134..2420d46 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -280,21 +280,6 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 		_, _ = vmTemp.Run("nodeValues = []")
 		nodes := getAbsPaths(&absolutePaths, jsonMap)
 
-		// Expand the first element if we only have one element and its an array
-		if len(nodes) == 1 {
-			switch nodes[0].Value.(type) {
-			case []interface{}:
-				expandedNodes := make([]*json_map.JsonPathNode, 0)
-				for _, node := range nodes[0].Value.([]interface{}) {
-					expandedNodes = append(expandedNodes, &json_map.JsonPathNode{
-						Absolute: nodes[0].Absolute,
-						Value:    node,
-					})
-				}
-				nodes = expandedNodes
-			}
-		}
-
 		for _, value := range nodes {
 			pushValue("nodeValues", value.Value)
 		}
-- 
2.43.0


From 1a4ac4fef9dc8e4517c501a15cf9cfa5f4c0552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 28/33] fix: a quote of the other kind within a string of a
 filter does not end the string

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index aefd98d..57a9b15 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -117,7 +117,7 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("'([^\\\\']|\\\\.)*'|\"([^\\\\\"]|\\\\.)*\"")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From a7e3efd5a3c233e9dbfb107625a30fecfefc5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 29/33] fix: characters of several bytes in a filter survive
 JSON paths in it

---
 jom/jom.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 57a9b15..a00a431 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -194,7 +194,13 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// (byte by byte, as there may be characters of several bytes between the paths)
+		replaced, end := make([]byte, 0), 0
+		for i, jsonPathLoc := range jsonPathIndices {
+			replaced = append(append(replaced, filterExp[end:jsonPathLoc[0]]...), jsonPathLiterals[i]...)
+			end = jsonPathLoc[1]
+		}
+		filterExp = append(replaced, filterExp[end:]...)
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 84187966ad70255916ab1a55e31a14491e09e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 30/33] fix: files are evaluated and marked up in the order
 they are given

---
 json-dom.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..d33127e 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -176,6 +176,8 @@ func main() {
 			inputPtr := element["input"].(*string)
 
 			dataSet := make(map[string][]byte, 0)
+			// The names of the data in the order that they were given
+			dataNames := make([]string, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
 				var data []byte
@@ -207,12 +209,16 @@ func main() {
 						if err != nil {
 							globals.ReadFileErr.Handle(err)
 						}
+						if _, given := dataSet[file]; !given {
+							dataNames = append(dataNames, file)
+						}
 						dataSet[file] = data
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
 					dataSet["stdin"] = data
+					dataNames = append(dataNames, "stdin")
 				}
 			} else {
 				// Files and input not given so throw RequiredFlagErr
@@ -220,7 +226,8 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, dataName := range dataNames {
+				data := dataSet[dataName]
 				if verbose {
 					fmt.Printf("\n%s:\n", dataName)
 				}
-- 
2.43.0


From 09971b477d0553c6139d28329bb35fa203a67c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 31/33] fix: scripts are marked up in an order that is always
 the same

---
 json-dom.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index d33127e..07fc0ca 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -13,6 +13,7 @@ import (
 	"github.com/andygello555/json-dom/jom/json_map"
 	"io/ioutil"
 	"os"
+	"sort"
 	"strings"
 	"unicode/utf8"
 )
@@ -269,9 +270,14 @@ func main() {
 						jsonMap.Strip()
 					}
 
-					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					// Run the Markup for all paths (sorted so that the outcome is always the same)
+					paths := make([]string, 0)
+					for path := range *pathScripts {
+						paths = append(paths, path)
+					}
+					sort.Strings(paths)
+					for _, path := range paths {
+						err = jsonMap.MarkupCode(path, *language, (*pathScripts)[path])
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From 001880f23d71c49cd317a6c6accb3c1148e5764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 32/33] fix: scripts of different documents that run at once no
 longer share a variable

---
 code/js/js.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 2420d46..fb5a4cc 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 //
 // The ancestors are the objects which the object is within. An object within itself is not traversed again.
@@ -160,7 +158,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+//
+// • The JsonMaps that json.trail is unmarshalled to are clones of toBeCloned.
+func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -373,7 +373,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(call, jsonMap)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -473,7 +475,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From c721d29449d85b3173100cb415ef73c8b00aa220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 33/33] fix: a token of a JSON path can be longer than 4096
 bytes

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 009b22a..3c7bb68 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -314,7 +314,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// The buffer has to hold the entire JSON path as tokens can be of any length
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
 	for {
 		// Break out if at finish state
-- 
2.43.0

