package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// The harnesses here follow longer paths through larger documents of fixed
// shape; the steps are symbolic.

// shape is one of a family of documents in which containers of every kind nest in each other.
func shape() obj {
	switch sym.Choose("shape", 7) {
	case 0:
		return obj{"a": list{obj{"a": 1.0, "b": list{2.0, 3.0}}, obj{"b": 4.0}, 5.0}, "b": obj{"a": 6.0}}
	case 1:
		return obj{"a": list{list{obj{"a": 1.0}, list{2.0}}, list{}, nil}, "c": list{}}
	case 2:
		return obj{"a": obj{"a": obj{"a": list{1.0, 2.0, 3.0}, "b": nil}, "b": list{obj{"a": 4.0}}}, "b": 5.0}
	case 3:
		return obj{"a": obj{"b": list{}, "c": obj{"a": list{obj{"b": 1.0}}}}, "b": obj{}}
	case 4:
		return obj{"a": list{1.0, "x", nil, true}, "b": list{obj{"a": obj{"a": 2.0}}, obj{"a": list{3.0, obj{"a": 4.0}}}}}
	case 5:
		return obj{"a": obj{"a": list{obj{"a": 1.0, "b": 2.0}, obj{"a": nil}, list{obj{"a": 3.0}}}}, "b": "x"}
	}
	return obj{"b": list{list{list{1.0, obj{"a": list{2.0, 3.0}}}}}, "a": list{obj{"b": list{4.0}}, obj{"b": list{}}, obj{"b": obj{"a": 5.0}}}}
}

// smallStep is a step over few values: what it can mean in a shape is what counts.
func smallStep(kinds ...int) step {
	s := step{kind: kinds[sym.Choose("kind", len(kinds))]}
	switch s.kind {
	case sKey, sRec:
		s.key = sym.Str("key", 1, "ab")
	case sIndex:
		s.i = sym.Int("index", -2, 3)
	case sSlice:
		switch sym.Choose("sliceform", 3) {
		case 0:
			s.hasI, s.hasJ = true, true
			s.i, s.j = sym.Int("start", 0, 2), sym.Int("end", -1, 3)
		case 1:
			s.hasI, s.i = true, sym.Int("start", -2, 2)
		case 2:
			s.hasJ, s.j = true, sym.Int("end", -2, 3)
		}
	}
	return s
}

// longSteps is a path of 3 (thorough 4) steps; shorter ones are the business of the other harnesses.
func longSteps(kinds ...int) []step {
	var r []step
	for i := 0; i < 3+sym.Tier(); i++ {
		r = append(r, smallStep(kinds...))
	}
	return r
}

var longKinds = []int{sKey, sIndex, sWild, sFirst, sSlice}

// HGetShapes: selections along three steps.
func HGetShapes() {
	doc := shape()
	steps := longSteps(longKinds...)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, true)
}

// HGetShapesRec: a recursive lookup at any of three places of a path.
func HGetShapesRec() {
	doc := shape()
	at := sym.Choose("at", 3)
	var steps []step
	for i := 0; i < 3; i++ {
		if i == at {
			steps = append(steps, smallStep(sRec))
		} else if i < at {
			steps = append(steps, smallStep(sKey, sIndex, sWild, sFirst))
		} else {
			steps = append(steps, smallStep(sKey, sWild, sRec))
		}
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, false)
}

// HGetKeys: the order of keys is that of their bytes, for wildcards and first descents.
func HGetKeys() {
	k1 := sym.Str("one", 1+sym.Choose("n1", 2), "")
	k2 := sym.Str("two", 1+sym.Choose("n2", 2), "")
	sym.Assume(k1 < k2)
	doc := obj{k2: list{obj{"n": 2.0}}, k1: obj{"n": 1.0}}
	three := sym.Choose("three", 2) == 1
	if three {
		k3 := sym.Str("three", 1, "")
		sym.Assume(k2 < k3)
		doc[k3] = 3.0
	}
	j := jom.NewFromMap(doc)
	sym.MapOrder(1)
	out := j.MustGet("$...n")
	sym.Assert(sameList(out, list{1.0}), "a first descent does not take the lexicographically first property")
	out = j.MustGet("$.*")
	want := list{doc[k1], doc[k2]}
	if three {
		want = append(want, 3.0)
	}
	sym.Assert(sameList(out, want), "a wildcard does not give the values of an object in the order of its keys")
	p := json_map.AbsolutePaths{{{KeyType: json_map.StringKey, Value: k2}, {KeyType: json_map.StringKey, Value: "n"}}}
	nodes, errs := j.GetAbsolutePaths(&p)
	sym.Assert(len(errs) == 0 && sameList(values(nodes), list{2.0}), "a property is not found by its key")
}

// HReadOnlyShapes: the document after selections along three steps, and the path.
func HReadOnlyShapes() {
	doc := shape()
	var steps []step
	for i := 0; i < 3; i++ {
		kinds := []int{sKey, sIndex, sWild, sSlice}
		if i != 1 {
			kinds = []int{sKey, sIndex, sFirst, sRec}
		}
		steps = append(steps, smallStep(kinds...))
	}
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	keys := keysOf(steps)
	paths := json_map.AbsolutePaths{keys}
	n1, e1 := j.GetAbsolutePaths(&paths)
	sym.Observe(len(n1), len(e1))
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "selecting changed the document")
	for i, k := range keysOf(steps) {
		if k.KeyType != json_map.Slice {
			sym.Assert(paths[0][i] == k, "selecting changed the path it was given")
		}
	}
	v1 := sym.Clone(values(n1)).(list)
	n2, e2 := j.GetAbsolutePaths(&paths)
	sym.Assert(len(e1) == len(e2) && sameList(values(n2), v1), "a selection gives something else the second time")
	sym.Assert(sameList(values(n1), v1), "a second selection changed the values of the first")
}

// HLocateShapes: locations of the nodes of longer paths, given with room to grow.
func HLocateShapes() {
	doc := shape()
	steps := longSteps(sKey, sIndex, sWild, sFirst, sSlice)[:2+sym.Choose("len", 2)]
	j := jom.NewFromMap(doc)
	keys := make([]json_map.AbsolutePathKey, 0, 4)
	paths := json_map.AbsolutePaths{append(keys, keysOf(steps)...)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	for _, n := range nodes {
		sym.Reach("node")
		p := json_map.AbsolutePaths{n.Absolute}
		again, errs := j.GetAbsolutePaths(&p)
		sym.Assert(len(errs) == 0, "the location of a node cannot be selected")
		sym.Assert(sameList(values(again), results(n.Value)), "the location of a node selects something else")
	}
}

// onePlace says that no step designates more than one place of the document.
func onePlace(cur interface{}, steps []step) bool {
	if !definite(steps) {
		return false
	}
	for i, s := range steps {
		if a, isA := cur.(list); isA && s.kind == sKey {
			n := 0
			for _, e := range a {
				if m, isM := e.(obj); isM {
					if _, has := m[s.key]; has {
						n++
					}
				}
			}
			return n == 0
		}
		next, ok := refGet(cur, steps[i:i+1])
		if !ok {
			return true
		}
		cur = next
	}
	return true
}

// changeShapes is a set or delete along three steps.
func changeShapes(del bool, fail bool) {
	doc := shape()
	steps := longSteps(longKinds...)
	var v, rv interface{} = 42.0, 42.0
	if del {
		v, rv = nil, gone{}
	}
	before := sym.Clone(doc)
	want, ok := refSet(before, steps, rv)
	if ok == fail {
		sym.Assume(false)
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	p := sym.Panics(func() { err = j.SetAbsolutePaths(&paths, v) })
	sym.Observe(err == nil)
	if !fail {
		sym.Assert(p == nil && err == nil, "an applicable path was refused")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
		return
	}
	sym.Assert(p == nil, "a path that cannot be applied made the call panic")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	if onePlace(before, steps) {
		sym.Reach("definite")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change of a single place changed the document")
	}
}

func HSetShapes() {
	changeShapes(false, false)
}

func HDeleteShapes() {
	changeShapes(true, false)
}

// HFailShapes: the same with steps that cannot be applied.
func HFailShapes() {
	changeShapes(sym.Choose("delete", 2) == 1, true)
}

// changeShapesRec: the last step is a recursive lookup.
func changeShapesRec(del bool) {
	doc := shape()
	var steps []step
	for n := sym.Choose("before", 3); n > 0; n-- {
		steps = append(steps, smallStep(sKey, sIndex, sWild, sFirst, sSlice))
	}
	steps = append(steps, smallStep(sRec))
	var v, rv interface{} = list{42.0}, list{42.0}
	if del {
		v, rv = nil, gone{}
	}
	want, ok := refSet(sym.Clone(doc), steps, rv)
	sym.Assume(ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	err := j.SetAbsolutePaths(&paths, v)
	sym.Assert(err == nil, "an applicable path was refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
}

func HSetShapesRec() {
	changeShapesRec(false)
}

func HDeleteShapesRec() {
	changeShapesRec(true)
}

// HGetFailsShapes: the first step that cannot be applied fails the selection whatever follows.
func HGetFailsShapes() {
	doc := shape()
	var steps []step
	for i := 0; i < 3; i++ {
		steps = append(steps, smallStep(sKey, sIndex, sWild, sFirst, sSlice, sRec))
	}
	_, ok := refGet(doc, steps)
	sym.Assume(!ok)
	// whether an index or slice after a recursive lookup applies depends on the order of what it found
	for i := 0; i < 2; i++ {
		if steps[i].kind == sRec {
			for _, s := range steps[i+1:] {
				sym.Assume(s.kind == sKey || s.kind == sWild || s.kind == sRec)
			}
		}
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var nodes []*json_map.JsonPathNode
	var errs []error
	p := sym.Panics(func() { nodes, errs = j.GetAbsolutePaths(&paths) })
	sym.Assert(p == nil, "an inapplicable path made the selection panic")
	sym.Assert(len(errs) == 1 && errs[0] != nil, "an inapplicable step did not fail the selection")
	sym.Assert(len(nodes) == 0, "a failed selection gave values")
}

// The printable characters.
const ascii = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// HDetKeys: any keys, map iteration in any order.
func HDetKeys() {
	k1 := sym.Str("one", 1+sym.Choose("n1", 2), ascii)
	k2 := sym.Str("two", 1+sym.Choose("n2", 2), ascii)
	sym.Assume(k1 != k2)
	doc := obj{k1: obj{"n": 1.0, "m": 2.0}, k2: list{obj{"n": 3.0}}}
	j := jom.NewFromMap(doc)
	p, err := json_map.ParseJsonPath([]string{"$...n", "$.*", "$..n", "$.*.n", "$...zz"}[sym.Choose("path", 5)])
	sym.Assert(err == nil, "parse")
	n1, e1 := j.GetAbsolutePaths(&p)
	sym.MapOrder(1)
	n2, e2 := j.GetAbsolutePaths(&p)
	sym.Assert(len(e1) == len(e2), "the same selection fails for some orders of map iteration only")
	sym.Assert(sameList(values(n1), values(n2)), "the same selection depends on the order of map iteration")
}

// HDetWide: objects of many keys, map iteration in any order (of many keys: in any rotation of either direction).
func HDetWide() {
	n := []int{3, 4, 5, 9, 12, 40}[sym.Choose("keys", 6)]
	wide, wider := obj{}, obj{}
	for i := 0; i < n; i++ {
		k := string([]byte{byte('A' + (i*7+3)%n)})
		wide[k] = float64(i)
		wider[k] = obj{"n": float64(i)}
		if i%3 == 1 {
			wider[k] = list{obj{"n": list{float64(i), 0.5}}}
		}
	}
	doc := obj{"w": wide, "o": wider}
	j := jom.NewFromMap(doc)
	p, err := json_map.ParseJsonPath([]string{"$.w.*", "$.o...n", "$.o..n", "$.o.*.n", "$.w[?(@ > 1)]", "$.o..n[1]"}[sym.Choose("path", 6)])
	sym.Assert(err == nil, "parse")
	n1, e1 := j.GetAbsolutePaths(&p)
	if n <= 4 || n == 5 && sym.Tier() > 0 {
		sym.MapOrder(1)
	} else {
		sym.MapOrder(3)
	}
	n2, e2 := j.GetAbsolutePaths(&p)
	sym.Assert(len(e1) == len(e2), "the same selection fails for some orders of map iteration only")
	sym.Assert(sameList(values(n1), values(n2)), "the same selection depends on the order of map iteration")
}
