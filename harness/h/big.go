package h

import (
	"strconv"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// The harnesses here work on one larger document of fixed shape: arrays and
// objects of 12 entries (so that indices and keys have two digits) and chains
// 9 deep; the steps are symbolic.

const bigN = 12

func bigElem(i int) interface{} {
	f := float64(i)
	switch i % 4 {
	case 0:
		return f
	case 1:
		return obj{"a": f, "n": list{f, f + 0.5}}
	case 2:
		return list{f, obj{"a": f + 0.25}, f + 0.75}
	}
	return "s" + strconv.Itoa(i)
}

// bigChain is n objects and arrays within each other, a property c or a second element leading on.
func bigChain(n int) interface{} {
	if n == 0 {
		return obj{"a": -1.0, "b": list{}}
	}
	if n%4 == 1 {
		return list{float64(-n), bigChain(n - 1)}
	}
	return obj{"b": float64(-n), "c": bigChain(n - 1), "d": list{float64(-n)}}
}

func bigDoc() obj {
	l, m := list{}, obj{}
	for i := 0; i < bigN; i++ {
		l = append(l, bigElem(i))
		m["k"+strconv.Itoa(i)] = bigElem(100 + i)
	}
	g := list{}
	for i := 0; i < 4; i++ {
		row := list{}
		for k := 0; k < 11; k++ {
			row = append(row, float64(1000+100*i+k))
		}
		g = append(g, row)
	}
	return obj{"c": bigChain(9), "g": g, "l": l, "m": m, "t": "text", "z": nil}
}

func bigIndex() int { return sym.Int("index", -1, bigN+1) }

func bigSlice() step {
	s := step{kind: sSlice}
	form := sym.Choose("sliceform", 3)
	s.hasI, s.hasJ = form != 1, form != 0
	if s.hasI {
		s.i = sym.Int("start", -13, 13)
	}
	if s.hasJ {
		lo := -13
		if s.hasI {
			// both: the start anywhere, the end at a few places
			s.j = []int{-12, -3, 0, 1, 9, 10, 11, 12, 13}[sym.Choose("end", 9)]
			return s
		}
		s.j = sym.Int("end", lo, 13)
	}
	return s
}

func key(k string) step { return step{kind: sKey, key: k} }

// bigSteps is one of a family of paths through bigDoc; rec adds recursive lookups.
func bigSteps(rec bool) []step {
	n := 7
	if rec {
		n = 9
	}
	switch sym.Choose("path", n) {
	case 0:
		r := []step{key("l"), {kind: sIndex, i: bigIndex()}}
		switch sym.Choose("then", 3) {
		case 1:
			r = append(r, key("a"))
		case 2:
			r = append(r, step{kind: sIndex, i: sym.Int("second", 0, 3)})
		}
		return r
	case 1:
		r := []step{key("l"), bigSlice()}
		if sym.Choose("then", 2) == 1 {
			r = append(r, key("a"))
		}
		return r
	case 2:
		k := "k" + sym.Str("one", 1, "0129") + sym.Str("two", sym.Choose("digits", 2), "0129")
		r := []step{key("m"), key(k)}
		if sym.Choose("then", 2) == 1 {
			r = append(r, smallStep(sKey, sIndex, sWild, sFirst))
		}
		return r
	case 3:
		r := []step{key([]string{"m", "l", "g"}[sym.Choose("of", 3)]), {kind: sWild}}
		if sym.Choose("then", 2) == 1 {
			r = append(r, smallStep(sKey, sIndex, sWild, sFirst))
			if r[2].kind == sIndex {
				r[2].i += 9
			}
		}
		return r
	case 4:
		r := []step{}
		for k := 1 + sym.Choose("descents", 11); k > 0; k-- {
			r = append(r, step{kind: sFirst})
		}
		return append(r, smallStep(sKey, sIndex, sWild))
	case 5:
		// along the chain, by keys and indices, with one step anywhere replaced
		r := []step{key("c")}
		for k := 9; k > 0; k-- {
			if k%4 == 1 {
				r = append(r, step{kind: sIndex, i: 1})
			} else {
				r = append(r, key("c"))
			}
		}
		r = r[:1+sym.Choose("down", 10)]
		at := sym.Choose("at", len(r)+1)
		if at < len(r) {
			r[at] = smallStep(sKey, sIndex, sWild, sFirst)
		}
		if sym.Choose("then", 2) == 1 {
			r = append(r, key([]string{"a", "b"}[sym.Choose("last", 2)]))
		}
		return r
	case 6:
		r := []step{key("g"), {kind: sIndex, i: sym.Int("row", 0, 4)}}
		if sym.Choose("more", 2) == 0 {
			return append(r, step{kind: sIndex, i: sym.Int("index", 8, 11)})
		}
		return append(r, bigSlice())
	case 7:
		return []step{{kind: sRec, key: sym.Str("key", 1, "abcdnz")}}
	}
	r := []step{key([]string{"c", "m", "l"}[sym.Choose("of", 3)]), {kind: sRec, key: sym.Str("key", 1, "abn")}}
	if sym.Choose("then", 2) == 1 {
		r = append(r, smallStep(sKey, sWild, sRec))
	}
	return r
}

// HGetBig: selections in a large document.
func HGetBig() {
	doc := bigDoc()
	steps := bigSteps(true)
	rec := false
	for _, s := range steps {
		rec = rec || s.kind == sRec
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, !rec)
}

// HGetBigUnion: lists of 4 to 6 indices, one of them any, applicable or not.
func HGetBigUnion() {
	doc := bigDoc()
	n := 4 + sym.Choose("n", 3)
	idx := []int{11, 3, 10, 0, 3, 7}[:n]
	idx[sym.Choose("at", n)] = sym.Int("index", 0, bigN+1)
	paths := json_map.AbsolutePaths{}
	exp, bad := list{}, 0
	for _, x := range idx {
		st := []step{key("l"), {kind: sIndex, i: x}}
		paths = append(paths, keysOf(st))
		v, is := refGet(doc, st)
		if is {
			exp = append(exp, results(v)...)
		} else {
			bad++
		}
	}
	j := jom.NewFromMap(doc)
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assert(len(errs) == bad, "not every path that cannot be followed is reported, or more")
	if bad > 0 {
		sym.Assert(len(nodes) == 0, "a failed selection gave values")
		return
	}
	sym.Reach("selected")
	sym.Assert(sameList(values(nodes), exp), "a list of indices did not give the elements in the order of the list")
}

// HGetFailsBig: paths through a large document that cannot be followed.
func HGetFailsBig() {
	doc := bigDoc()
	steps := bigSteps(true)
	_, ok := refGet(doc, steps)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	if sym.Choose("both", 2) == 1 {
		good := keysOf([]step{key("l"), {kind: sIndex, i: 10}})
		paths = json_map.AbsolutePaths{good, paths[0], good}
	}
	var nodes []*json_map.JsonPathNode
	var errs []error
	p := sym.Panics(func() { nodes, errs = j.GetAbsolutePaths(&paths) })
	sym.Assert(p == nil, "an inapplicable path made the selection panic")
	sym.Assert(len(errs) == 1 && errs[0] != nil, "an inapplicable step did not fail the selection")
	sym.Assert(len(nodes) == 0, "a failed selection gave values")
}

// HReadOnlyBig: selections in a large document leave it and the path alone, and give the same again.
func HReadOnlyBig() {
	doc := bigDoc()
	steps := bigSteps(true)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	n1, e1 := j.GetAbsolutePaths(&paths)
	v1 := sym.Clone(values(n1)).(list)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "selecting changed the document")
	sym.Assert(samePath(paths[0], keysOf(steps)), "selecting changed the path it was given")
	n2, e2 := j.GetAbsolutePaths(&paths)
	sym.Assert(len(e1) == len(e2) && sameList(values(n2), v1), "a selection gives something else the second time")
	sym.Assert(sameList(values(n1), v1), "a second selection changed the values of the first")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "selecting changed the document")
}

// HLocateBig: the locations of nodes of a large document.
func HLocateBig() {
	doc := bigDoc()
	steps := bigSteps(true)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	for _, n := range nodes {
		sym.Reach("node")
		p := json_map.AbsolutePaths{n.Absolute}
		again, errs := j.GetAbsolutePaths(&p)
		sym.Assert(len(errs) == 0, "the location of a node cannot be selected")
		sym.Assert(sameList(values(again), results(n.Value)), "the location of a node selects something else")
	}
}

func bigChange(del, fail bool) {
	doc := bigDoc()
	steps := bigSteps(false)
	if !fail && sym.Choose("rec", 4) == 0 {
		steps = append(steps[:1:1], step{kind: sRec, key: sym.Str("key", 1, "an")})
	}
	var v, rv interface{} = 42.0, 42.0
	if del {
		v, rv = nil, gone{}
	}
	before := sym.Clone(doc)
	want, ok := refSet(before, steps, rv)
	if ok == fail {
		sym.Assume(false)
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	p := sym.Panics(func() { err = j.SetAbsolutePaths(&paths, v) })
	if !fail {
		sym.Assert(p == nil && err == nil, "an applicable path was refused")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
		return
	}
	sym.Assert(p == nil, "a path that cannot be applied made the call panic")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	if onePlace(before, steps) {
		sym.Reach("definite")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change of a single place changed the document")
	}
}

func HSetBig() {
	bigChange(false, false)
}

func HDeleteBig() {
	bigChange(true, false)
}

func HFailBig() {
	bigChange(sym.Choose("delete", 2) == 1, true)
}

// bigIdx is a list of indices of which one is symbolic.
func bigIdx(lo, hi int) []int {
	lists := [][]int{{0}, {10, 2}, {2, 10, 11}, {9, 10, 11, 12}, {0, 0, 5, 5, 11}, {12, 3, 7, 1, 0, 9}, {11, 9, 7, 5, 3, 1}}
	idx := append([]int{}, lists[sym.Choose("indices", len(lists))]...)
	idx[sym.Choose("at", len(idx))] = sym.Int("index", lo, hi)
	return idx
}

func bigArr() list {
	a := list{}
	for i := 10 + sym.Choose("length", 3); i > 0; i-- {
		a = append(a, bigElem(i))
	}
	return a
}

// HPushBig: pushes into arrays of 10 to 12 elements at up to 6 indices.
func HPushBig() {
	a := bigArr()
	idx := bigIdx(0, 15)
	given := append([]int{}, idx...)
	want := refPush(sym.Clone(a).(list), "new", idx)
	j := jom.NewFromMap(obj{"a": a, "b": 1.0})
	p := sym.Panics(func() { j.MustPush("$.a", "new", idx...) })
	sym.Assert(p == nil, "pushing to an array panicked")
	for i := range idx {
		sym.Assert(idx[i] == given[i], "pushing changed the indices it was given")
	}
	now := *j.GetInsides()
	sym.Assert(sameList(now["a"].(list), want), "the array does not hold the old elements with the value at the given indices")
	sym.Assert(len(now) == 2 && now["b"] == 1.0, "pushing changed something else")
}

// HPopBig: pops from arrays of 10 to 12 elements at up to 6 indices.
func HPopBig() {
	a := bigArr()
	idx := bigIdx(-13, 14)
	given := append([]int{}, idx...)
	popped, left := refPop(sym.Clone(a).(list), idx)
	j := jom.NewFromMap(obj{"a": a, "b": 1.0})
	var got list
	p := sym.Panics(func() { got = j.MustPop("$.a", idx...) })
	sym.Assert(p == nil, "popping from an array panicked")
	for i := range idx {
		sym.Assert(idx[i] == given[i], "popping changed the indices it was given")
	}
	now := *j.GetInsides()
	sym.Assert(sameList(got, popped), "the popped values are not those at the given indices, in order")
	sym.Assert(sameList(now["a"].(list), left), "the array does not hold the other elements in their order")
	sym.Assert(len(now) == 2 && now["b"] == 1.0, "popping changed something else")
}

// bigScripts is bigDoc with scripts at two of many places.
func bigScripts(script string) obj {
	doc := bigDoc()
	for n := 0; n < 2; n++ {
		switch sym.Choose("place", 6) {
		case 0:
			doc["m"].(obj)["k"+strconv.Itoa([]int{0, 2, 3, 9, 10, 11}[sym.Choose("key", 6)])] = script
		case 1:
			doc["l"].(list)[4*sym.Choose("of", 3)+1].(obj)["x"] = script
		case 2:
			doc["l"].(list)[[]int{2, 6, 10}[sym.Choose("of", 3)]].(list)[1].(obj)["a"] = script
		case 3:
			var v interface{} = doc["c"]
			for k := sym.Choose("down", 10); k > 0; k-- {
				if a, isA := v.(list); isA {
					v = a[1]
				} else {
					v = v.(obj)["c"]
				}
			}
			if m, isM := v.(obj); isM {
				m["a"] = script
			} else {
				v.(list)[1].(obj)["b"] = script
			}
		case 4:
			doc["zz"] = script
		case 5:
			w := list{}
			for i := 0; i < 102; i++ {
				w = append(w, obj{"i": float64(i)})
			}
			w[[]int{0, 9, 10, 11, 99, 100, 101}[sym.Choose("of", 7)]].(obj)["x"] = script
			doc["w"] = w
		}
	}
	return doc
}

// HStripBig: scripts deep in a large document are found and stripped, and nothing else.
func HStripBig() {
	code.RegisterLang("js", noRunner)
	doc := bigScripts("#//!js" + sym.Str("end", 1, "\nx "))
	want, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	sym.Assert(j.FindScriptFields() == found, "scripts are found (or not) against the document")
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping does not leave exactly what is no script entry")
	sym.Assert(!j.FindScriptFields(), "a script is found after stripping")
}

// HRunBig: scripts deep in a large document are run at their places.
func HRunBig() {
	checkRun(bigScripts("#//!js\n" + sym.Str("action", 1, "nsx")))
}

// HRunMany: 12 scripts side by side, in the order of their keys.
func HRunMany() {
	doc := obj{}
	odd := sym.Choose("odd", bigN)
	for i := 0; i < bigN; i++ {
		s := "#//!js\nn"
		if i == odd {
			s = []string{"#//!js\ns", "#//!js\nc", "data"}[sym.Choose("script", 3)]
		}
		doc["k"+strconv.Itoa(i)] = s
	}
	checkRun(obj{"a": doc, "b": list{1.0, 2.0}})
}
