package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Values of every kind, at places of every kind.

func anyLeaf(name string) interface{} {
	var f callback = func(json_map.JsonMapInt) {}
	vals := []interface{}{nil, true, false, "", sym.Str(name, 1, ""), 0.0, sym.Float(name), 7, "#//!js\nx", "$.a", obj{}, list{}, obj{"a": nil}, list{nil}, f}
	return vals[sym.Choose(name, len(vals))]
}

func leafStep() []step {
	steps := [][]step{
		{key("a")}, {key("l"), {kind: sIndex, i: 1}}, {key("l"), {kind: sSlice, hasI: true, i: 1}}, {key("o"), key("a")}, {{kind: sFirst}, {kind: sIndex, i: 1}},
		{{kind: sRec, key: "a"}}, {key("l"), {kind: sWild}}, {{kind: sWild}}, {key("l"), key("a")}, {key("o"), {kind: sWild}}, {key("o"), {kind: sFirst}, key("a")}, {key("a"), key("a")}, {key("a"), {kind: sIndex, i: 0}},
	}
	return steps[sym.Choose("path", len(steps))]
}

func leafDoc() obj {
	v := anyLeaf("leaf")
	return obj{"a": v, "l": list{obj{"a": v}, v, 3.0}, "o": obj{"a": v, "b": list{v}}}
}

// HGetLeaf: selections that lead to, past or through values of every kind.
func HGetLeaf() {
	doc := leafDoc()
	steps := leafStep()
	want, ok := refGet(doc, steps)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assert((len(errs) == 0) == ok, "a selection succeeds on the wrong documents")
	if !ok {
		sym.Assert(len(nodes) == 0, "a failed selection gave values")
		return
	}
	got, exp := values(nodes), results(want)
	sym.Assert(len(got) == len(exp), "wrong number of selected nodes")
	ng, ne := named(got).(list), named(exp).(list)
	if steps[0].kind == sRec {
		sym.Assert(sym.SameMultiset(ng, ne), "the selected values are not the designated ones")
	} else {
		sym.Assert(sameList(ng, ne), "the selected values are not the designated ones, in order")
	}
	again, _ := j.JsonPathSelector(text(steps))
	sym.Assert(len(again) == len(nodes), "selection by text gives something else")
}

// leafChange sets or deletes values of every kind.
func leafChange(del bool) {
	doc := leafDoc()
	steps := leafStep()
	var v, rv interface{} = nil, gone{}
	if !del {
		v = anyLeaf("value")
		if v == nil {
			sym.Assume(false)
		}
		rv = v
	}
	want, ok := refSet(doc, steps, rv)
	before := named(doc)
	j := jom.NewFromMap(doc)
	var err error
	p := sym.Panics(func() { err = j.JsonPathSetter(text(steps), v) })
	sym.Assert(p == nil, "a change panicked")
	sym.Assert((err == nil) == ok, "a path that can be applied was refused, or one that cannot be was not")
	if ok {
		sym.Assert(sym.DeepEqual(named(*j.GetInsides()), named(want)), "the document is not the old one with exactly the designated places changed")
	} else {
		sym.Assert(!definite(steps) || sym.DeepEqual(named(*j.GetInsides()), before), "a failed change of a single place changed the document")
	}
}

func HSetLeaf() {
	leafChange(false)
}

func HDeleteLeaf() {
	leafChange(true)
}

// HPushLeaf: values of every kind are pushed, to arrays of them.
func HPushLeaf() {
	v, e := anyLeaf("value"), anyLeaf("element")
	a := list{e, 1.0, e}[:sym.Choose("length", 4)]
	idx := symIdx(sym.Choose("indices", 2+sym.Tier()), 0, 4)
	want := refPush(append(list{}, a...), v, idx)
	j := jom.NewFromMap(obj{"o": obj{"a": append(list{}, a...)}})
	p := sym.Panics(func() { j.MustPush("$.o.a", v, idx...) })
	sym.Assert(p == nil, "pushing to an array panicked")
	now := (*j.GetInsides())["o"].(obj)["a"].(list)
	sym.Assert(sym.DeepEqual(named(now), named(want)), "the array does not hold the old elements with the value at the given indices")
}

// HPopLeaf: values of every kind are popped.
func HPopLeaf() {
	e := anyLeaf("element")
	a := list{e, 1.0, e}[:1+sym.Choose("length", 3)]
	idx := symIdx(sym.Choose("indices", 3), -1, 3)
	popped, left := refPop(append(list{}, a...), idx)
	j := jom.NewFromMap(obj{"o": obj{"a": append(list{}, a...)}})
	var got list
	p := sym.Panics(func() { got = j.MustPop("$.o.a", idx...) })
	sym.Assert(p == nil, "popping from an array panicked")
	now := (*j.GetInsides())["o"].(obj)["a"].(list)
	sym.Assert(sym.DeepEqual(named(got), named(popped)), "the popped values are not those at the given indices, in order")
	sym.Assert(sym.DeepEqual(named(now), named(left)), "the array does not hold the other elements in their order")
}
