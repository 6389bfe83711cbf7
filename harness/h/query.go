package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// HReadOnly: every query leaves the document as it was, whether it succeeds or not.
func HReadOnly() {
	steps := symSteps(2, sKey, sIndex, sWild, sSlice, sFirst, sRec)
	doc := setDoc(2, 2)
	if sym.Tier() > 0 {
		doc = getDoc(2, 2)
	}
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	n1, e1 := j.GetAbsolutePaths(&paths)
	sym.Observe(len(n1), len(e1))
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "selecting changed the document")
	sym.Assert(!j.IsArray(), "selecting changed the kind of the root")
	sym.Assert(len(paths) == 1 && samePath(paths[0], keysOf(steps)), "selecting changed the path it was given")
}

// HReadOnlyOps: the other queries.
func HReadOnlyOps() {
	doc := sym.JSON("doc", sym.Spec{Depth: 2, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum | sym.LStr | sym.LNil, StrLen: 2, Root: sym.RootMap, CapExtra: true}).(obj)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	switch sym.Choose("op", 8) {
	case 0:
		sym.Panics(func() { j.MustGet("$.a[0]") })
	case 1:
		j.FindScriptFields()
	case 2:
		j.Clone(true)
	case 3:
		c := j.Clone(false)
		sym.Assert(sym.DeepEqual(*c.GetInsides(), before), "a clone does not hold the document")
	case 4:
		_, err := j.Marshal()
		sym.Assert(err == nil, "a document cannot be marshalled")
	case 5:
		j.GetCurrentScopePath()
	case 6:
		j.JsonPathSelector("$..a")
	case 7:
		j.JsonPathSelector("$.*[-1:]")
	}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a query changed the document")
}

// HReadOnlyTwice: a selection gives the same again after any other selection.
func HReadOnlyTwice() {
	first := symSteps(1+sym.Tier(), sKey, sWild, sSlice, sRec)
	second := symSteps(1, sKey, sIndex, sWild, sRec)
	doc := setDoc(2, 2)
	j := jom.NewFromMap(doc)
	p1, p2 := json_map.AbsolutePaths{keysOf(first)}, json_map.AbsolutePaths{keysOf(second)}
	n1, e1 := j.GetAbsolutePaths(&p1)
	v1 := sym.Clone(values(n1)).(list)
	j.GetAbsolutePaths(&p2)
	sym.Assert(samePath(p1[0], keysOf(first)), "selecting changed the path it was given")
	n3, e3 := j.GetAbsolutePaths(&p1)
	sym.Assert(len(e1) == len(e3), "a selection fails differently the second time")
	sym.Assert(sameList(values(n3), v1), "a selection gives something else the second time")
	sym.Assert(sameList(values(n1), v1), "a later selection changed the values of an earlier one")
}

// HGetFails: one step that cannot be applied fails the whole selection, and it gives no values.
func HGetFails() {
	steps := symSteps(3, sKey, sIndex, sWild, sSlice, sFirst)
	doc := getDoc(2, 2)
	_, ok := refGet(doc, steps)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var nodes []*json_map.JsonPathNode
	var errs []error
	p := sym.Panics(func() { nodes, errs = j.GetAbsolutePaths(&paths) })
	sym.Assert(p == nil, "an inapplicable path made the selection panic")
	sym.Assert(len(errs) > 0 && errs[0] != nil, "an inapplicable step did not fail the selection")
	sym.Assert(len(nodes) == 0, "a failed selection gave values")
	sym.Observe("failed")
}

// HGetFailsRec: a recursive lookup before or after the inapplicable step does not hide it.
func HGetFailsRec() {
	var steps []step
	if sym.Choose("where", 2) == 0 {
		steps = []step{symStep(0, sKey, sIndex, sFirst), symStep(1, sRec)}
		if sym.Choose("more", 2) == 1 {
			steps = append(steps, symStep(2, sWild, sKey))
		}
	} else {
		steps = []step{symStep(0, sRec), symStep(1, sFirst, sKey), symStep(2, sWild, sKey, sFirst)}
	}
	doc := setDoc(2, 2)
	if steps[0].kind == sRec {
		// an index after a recursive lookup can be out of bounds whatever the order of the values
		if n := sym.Choose("index", 2); n == 1 {
			steps = []step{steps[0], {kind: sIndex, i: 0}}
			steps[1].i = len(refRec(doc, steps[0].key)) + sym.Int("past", 0, 2)
		}
	}
	_, ok := refGet(doc, steps)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assert(len(errs) > 0, "an inapplicable step did not fail the selection")
	sym.Assert(len(nodes) == 0, "a failed selection gave values")
}

// HGetFailsUnion: one bad index of a list fails the whole list.
func HGetFailsUnion() {
	n := 2 + sym.Choose("n", 2)
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: 1, Width: 2, KeyLo: 'a', KeyHi: 'a', KeyLen: 1, Leaves: sym.LNum, CapExtra: true, Root: sym.RootArr})}
	paths := json_map.AbsolutePaths{}
	ok, bad := true, 0
	for i := 0; i < n; i++ {
		st := []step{{kind: sKey, key: "a"}, {kind: sIndex, i: sym.Int("index", 0, 3)}}
		paths = append(paths, keysOf(st))
		if _, is := refGet(doc, st); !is {
			ok = false
			bad++
		}
	}
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assert(len(errs) == bad, "not every path that cannot be followed is reported")
	sym.Assert(len(nodes) == 0, "a failed selection gave values")
	_, err := j.JsonPathSelector("$.a[0,9]")
	sym.Assert(err != nil, "a list with an index out of bounds was answered")
	p := sym.Panics(func() { j.MustGet("$.a[9,0]") })
	_, isErr := p.(error)
	sym.Assert(isErr && !sym.IsRuntime(p), "the panicking form did not panic with an error")
}

// HLocate: the location of a selected node selects that node.
func HLocate() {
	steps := symSteps(2+sym.Tier(), sKey, sIndex, sWild, sSlice, sFirst, sRec)
	doc := sym.JSON("doc", sym.Spec{Depth: 2, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap, CapExtra: true}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	for _, n := range nodes {
		sym.Reach("node")
		p := json_map.AbsolutePaths{n.Absolute}
		again, errs := j.GetAbsolutePaths(&p)
		sym.Assert(len(errs) == 0, "the location of a node cannot be selected")
		sym.Assert(sameList(values(again), results(n.Value)), "the location of a node selects something else")
	}
	sym.Observe(len(nodes))
}

// HLocateSet: setting the location of a node of a plain path changes what that selection gives at that place, and only there.
func HLocateSet() {
	steps := []step{symStep(0, sKey), symStep(1, sIndex, sKey, sFirst)}[:1+sym.Choose("len", 2)]
	doc := setDoc(2, 2)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	old := values(nodes)
	for i, n := range nodes {
		p := json_map.AbsolutePaths{n.Absolute}
		if cur, _ := refGet(*j.GetInsides(), steps); !isList(cur) {
			// a single value: its location is the path itself
			sym.Assert(len(n.Absolute) == len(steps), "the location of a single value is not the path")
		}
		err := j.SetAbsolutePaths(&p, float64(100+i))
		sym.Assert(err == nil, "the location of a node cannot be set")
		old[i] = float64(100 + i)
		now, errs := j.GetAbsolutePaths(&paths)
		sym.Assert(len(errs) == 0, "the selection fails after its node was set")
		sym.Assert(sameList(values(now), old), "setting the location of a node changed another node or none")
	}
}

func isList(v interface{}) bool {
	_, ok := v.(list)
	return ok
}

// HLocateUnion: nodes of several paths.
func HLocateUnion() {
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: 2, Width: 3, KeyLo: 'a', KeyHi: 'a', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootArr, CapExtra: true})}
	paths := json_map.AbsolutePaths{}
	for i := 0; i < 2; i++ {
		paths = append(paths, keysOf([]step{{kind: sKey, key: "a"}, {kind: sIndex, i: sym.Int("index", 0, 2)}}))
	}
	j := jom.NewFromMap(doc)
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	for _, n := range nodes {
		p := json_map.AbsolutePaths{n.Absolute}
		again, errs := j.GetAbsolutePaths(&p)
		sym.Assert(len(errs) == 0, "the location of a node cannot be selected")
		sym.Assert(sameList(values(again), results(n.Value)), "the location of a node selects something else")
	}
}

// detGet runs one selection twice: in the plain order of things, and with any order of goroutines and map iteration.
func detGet(j *jom.JsonMap, paths json_map.AbsolutePaths, preempts int) {
	n1, e1 := j.GetAbsolutePaths(&paths)
	sym.Schedules(preempts, false)
	n2, e2 := j.GetAbsolutePaths(&paths)
	sym.Assert(len(e1) == len(e2), "the same selection fails on some schedules only")
	for i := range e1 {
		sym.Assert(e1[i].Error() == e2[i].Error(), "the same selection reports its errors in another order")
	}
	sym.Assert(sameList(values(n1), values(n2)), "the same selection gives other values or another order")
}

// HDetUnion: several paths at once.
func HDetUnion() {
	doc := obj{"a": list{1.0, 2.0, 3.0}, "b": obj{"x": list{4.0, 5.0}, "y": 6.0}}
	texts := []string{"$.a[2,0,1]", "$.a[0,7,9]", "$.b.*", "$.b[0,1]", "$.b.x[1,0]"}
	paths, err := json_map.ParseJsonPath(texts[sym.Choose("path", len(texts))])
	sym.Assert(err == nil, "parse")
	sym.MapOrder(1)
	detGet(jom.NewFromMap(doc), paths, 1+sym.Tier())
}

// HDetRec: recursive lookups, and the steps after them.
func HDetRec() {
	docs := []obj{
		{"k": obj{"a": 1.0, "b": obj{"a": 2.0}}, "a": 6.0},
		{"l": list{obj{"a": 3.0}, obj{"a": list{4.0, 5.0}}}},
		{"k": obj{"c": obj{"a": 1.0}, "b": obj{"a": 2.0}}},
	}
	texts := []string{"$..a", "$..a[0]", "$..a[1:]", "$.l..a", "$.k..a[1]"}
	paths, err := json_map.ParseJsonPath(texts[sym.Choose("path", len(texts))])
	sym.Assert(err == nil, "parse")
	detGet(jom.NewFromMap(docs[sym.Choose("doc", len(docs))]), paths, sym.Tier())
}

// HDetDoc: every small document, map iteration in any order.
func HDetDoc() {
	steps := symSteps(2, sWild, sFirst, sRec, sKey)
	if sym.Choose("more", 2) == 1 {
		steps = append(steps, symStep(2, sIndex))
	}
	doc := sym.JSON("doc", sym.Spec{Depth: 2, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap}).(obj)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	n1, e1 := j.GetAbsolutePaths(&paths)
	sym.MapOrder(1)
	n2, e2 := j.GetAbsolutePaths(&paths)
	sym.Assert(len(e1) == len(e2), "the same selection fails for some orders of map iteration only")
	sym.Assert(sameList(values(n1), values(n2)), "the same selection depends on the order of map iteration")
}

// HRaces: selections, parses and queries running at once touch nothing unprotected, and each gives what it gives alone.
func HRaces() {
	doc := obj{"a": list{1.0, 2.0}, "k": obj{"a": 3.0, "b": obj{"a": 4.0}}}
	j := jom.NewFromMap(doc)
	texts := []string{"$..a", "$.a[0,1]", "$.k.*", "$...a", "$.a[-1:]", "$.zz", "$.a[?(@ > $.k.a - 2)]"}
	one := sym.Choose("one", len(texts))
	two := one + sym.Choose("two", len(texts)-one)
	t1, t2 := texts[one], texts[two]
	w1, we1 := j.JsonPathSelector(t1)
	w2, we2 := j.JsonPathSelector(t2)
	sym.Races()
	if one > 1 && two < 6 || sym.Tier() > 0 && two < 6 {
		// the goroutines of a recursive lookup or of several paths and those of
		// another selection interleave in too many ways for the quick tier, and those of
		// filters for both
		sym.Schedules(sym.Tier(), false)
	}
	done := make(chan bool, 2)
	var n1, n2 []*json_map.JsonPathNode
	var e1, e2 error
	go func() {
		n1, e1 = j.JsonPathSelector(t1)
		done <- true
	}()
	go func() {
		n2, e2 = j.JsonPathSelector(t2)
		done <- true
	}()
	<-done
	<-done
	sym.Assert(sym.RaceFound() == "", "concurrent selections race")
	sym.Assert((e1 == nil) == (we1 == nil) && (e2 == nil) == (we2 == nil), "concurrent selections fail differently")
	sym.Assert(sameList(values(n1), values(w1)), "a selection gives something else while another one runs")
	sym.Assert(sameList(values(n2), values(w2)), "a selection gives something else while another one runs")
}

// HLeak: a selection leaves no goroutine behind, on any schedule.
func HLeak() {
	texts := []string{"$.a[0,1]", "$..a", "$.a[0,9]", "$..a[7]", "$.k..zz"}
	doc := obj{"a": list{1.0, 2.0}, "k": obj{"a": 3.0}}
	j := jom.NewFromMap(doc)
	sym.Schedules(sym.Tier(), false)
	j.JsonPathSelector(texts[sym.Choose("path", len(texts))])
	sym.Assert(sym.Drain() == 0, "a selection left a goroutine behind")
}
