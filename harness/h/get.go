package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

func symStep(i int, kinds ...int) step {
	s := step{kind: kinds[sym.Choose("kind", len(kinds))]}
	switch s.kind {
	case sKey, sRec:
		s.key = sym.Str("key", 1, "abc")
	case sIndex:
		s.i = sym.Int("index", -3, 3)
	case sSlice:
		switch sym.Choose("sliceform", 3) {
		case 0:
			s.hasI, s.hasJ = true, true
		case 1:
			s.hasI = true
		case 2:
			s.hasJ = true
		}
		if s.hasI {
			s.i = sym.Int("start", -4, 4)
		}
		if s.hasJ {
			s.j = sym.Int("end", -4, 4)
		}
	}
	return s
}

// symSteps is a path of 1..max steps of the given kinds.
func symSteps(max int, kinds ...int) []step {
	n := 1 + sym.Choose("len", max)
	var steps []step
	for i := 0; i < n; i++ {
		steps = append(steps, symStep(i, kinds...))
	}
	return steps
}

func sameList(a, b list) bool {
	if len(a) != len(b) {
		return false
	}
	return sym.DeepEqual(a, b)
}

// getDoc is a document whose containers nest depth deep; arrays may have spare capacity.
func getDoc(depth, width int) obj {
	return sym.JSON("doc", sym.Spec{Depth: depth, Width: width, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum | sym.LNil, Root: sym.RootMap, CapExtra: true}).(obj)
}

func checkGet(doc obj, steps []step, nodes []*json_map.JsonPathNode, errs []error, ordered bool) {
	want, ok := refGet(doc, steps)
	if !ok {
		sym.Reach("inapplicable")
		sym.Assert(len(errs) > 0, "a path with an inapplicable step was answered without an error")
		sym.Observe("err")
		return
	}
	sym.Reach("selected")
	sym.Assert(len(errs) == 0, "an applicable path was refused")
	got, exp := values(nodes), results(want)
	sym.Observe("n", len(got))
	sym.Assert(len(got) == len(exp), "wrong number of selected nodes")
	if ordered {
		sym.Assert(sameList(got, exp), "the selected values are not the designated ones, in order")
	} else {
		sym.Assert(sym.SameMultiset(got, exp), "the selected values are not the designated ones")
	}
}

// HGet: every path of keys, indices, slices, wildcards and first descents.
func HGet() {
	steps := symSteps(2+sym.Tier(), sKey, sIndex, sWild, sSlice, sFirst)
	doc := getDoc(2+sym.Tier(), 2)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, true)
}

// HGetWide: the steps that look at many entries, on wider containers.
func HGetWide() {
	steps := []step{symStep(0, sKey, sWild, sFirst)}
	steps = append(steps, symStep(1, sKey, sIndex, sSlice, sFirst))
	doc := sym.JSON("doc", sym.Spec{Depth: 2, Width: 3 + sym.Tier(), KeyLo: 'a', KeyHi: 'd', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap, CapExtra: true}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, true)
}

// HGetRec: recursive lookups from anywhere, and steps after them that do not depend on the order.
func HGetRec() {
	var steps []step
	if sym.Choose("before", 2) == 1 {
		steps = append(steps, symStep(0, sKey, sWild))
	}
	steps = append(steps, symStep(1, sRec))
	if sym.Choose("after", 2) == 1 {
		steps = append(steps, symStep(2, sKey, sWild, sFirst))
	}
	doc := sym.JSON("doc", sym.Spec{Depth: 2 + sym.Tier(), Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, false)
}

// HGetRecDeep: one recursive lookup on deeper documents.
func HGetRecDeep() {
	steps := []step{{kind: sRec, key: "a"}}
	doc := sym.JSON("doc", sym.Spec{Depth: 3, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, false)
}

// HGetUnion: a list of indices after a prefix, in the order of the list.
func HGetUnion() {
	prefix := []step{symStep(0, sKey, sWild)}
	n := 2 + sym.Choose("n", 2)
	doc := sym.JSON("doc", sym.Spec{Depth: 2, Width: 3, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap, CapExtra: true}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{}
	exp, ok := list{}, true
	for i := 0; i < n; i++ {
		st := append(append([]step{}, prefix...), step{kind: sIndex, i: sym.Int("index", 0, 3)})
		paths = append(paths, keysOf(st))
		v, is := refGet(doc, st)
		if !is {
			ok = false
			continue
		}
		exp = append(exp, results(v)...)
	}
	nodes, errs := j.GetAbsolutePaths(&paths)
	if !ok {
		sym.Reach("inapplicable")
		sym.Assert(len(errs) > 0, "one of several paths cannot be followed, and no error was given")
		sym.Observe("err")
		return
	}
	sym.Reach("selected")
	sym.Assert(len(errs) == 0, "applicable paths were refused")
	got := values(nodes)
	sym.Observe(len(got))
	sym.Assert(sameList(got, exp), "a list of indices did not give the elements in the order of the list")
}

var getTexts = []struct {
	text  string
	steps []step
}{
	{"$.a", []step{{kind: sKey, key: "a"}}},
	{"$.a.b", []step{{kind: sKey, key: "a"}, {kind: sKey, key: "b"}}},
	{"$.a[1]", []step{{kind: sKey, key: "a"}, {kind: sIndex, i: 1}}},
	{"$.a[*].b", []step{{kind: sKey, key: "a"}, {kind: sWild}, {kind: sKey, key: "b"}}},
	{"$.*", []step{{kind: sWild}}},
	{"$...a", []step{{kind: sFirst}, {kind: sKey, key: "a"}}},
	{"$.a[-1:]", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasI: true, i: -1}}},
	{"$.a[:-1]", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasJ: true, j: -1}}},
	{"$.a[0:1]", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasI: true, hasJ: true, j: 1}}},
	{"$..a", []step{{kind: sRec, key: "a"}}},
	{"$....b[0]", []step{{kind: sFirst}, {kind: sFirst}, {kind: sKey, key: "b"}, {kind: sIndex, i: 0}}},
}

// HGetText: the text forms of selection, and the panicking form, against the same reference.
func HGetText() {
	c := getTexts[sym.Choose("path", len(getTexts))]
	doc := getDoc(2, 2)
	j := jom.NewFromMap(doc)
	want, ok := refGet(doc, c.steps)
	if sym.Choose("must", 2) == 0 {
		nodes, err := j.JsonPathSelector(c.text)
		sym.Assert((err == nil) == ok, "selection by text succeeds on the wrong documents")
		if ok {
			sym.Assert(sym.SameMultiset(values(nodes), results(want)), "selection by text selects the wrong values")
		} else {
			sym.Assert(len(nodes) == 0, "a failed selection gave values")
		}
		sym.Observe(ok, len(nodes))
		return
	}
	var out list
	p := sym.Panics(func() { out = j.MustGet(c.text) })
	sym.Assert((p == nil) == ok, "MustGet panics on the wrong documents")
	sym.Assert(!sym.IsRuntime(p), "MustGet raised a run-time error")
	if ok {
		sym.Assert(sym.SameMultiset(out, results(want)), "MustGet gives the wrong values")
	}
	sym.Observe(ok, len(out))
}
