package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

type gone struct{}

// refSet returns the tree with v stored at every place the steps designate
// (v == gone{} deletes it); ok is false when some step cannot be applied.
// Trees are rebuilt, never changed.
func refSet(tree interface{}, steps []step, v interface{}) (interface{}, bool) {
	if len(steps) == 0 {
		return v, true
	}
	s, rest := steps[0], steps[1:]
	last := len(rest) == 0
	switch x := tree.(type) {
	case obj:
		var ks []string
		switch s.kind {
		case sKey:
			if _, has := x[s.key]; !has && !last {
				return nil, false
			}
			ks = []string{s.key}
		case sWild:
			ks = sortedKeys(x)
		case sFirst:
			for _, k := range sortedKeys(x) {
				if isContainer(x[k]) {
					ks = []string{k}
					break
				}
			}
			if len(ks) == 0 {
				return nil, false
			}
		case sRec:
			return refSetRec(x, s.key, v), true
		case sFilter:
			for _, k := range sortedKeys(x) {
				in, ok := s.f.holds(x[k])
				if !ok {
					return nil, false
				}
				if in {
					ks = append(ks, k)
				}
			}
		default:
			return nil, false
		}
		r := obj{}
		for k, e := range x {
			r[k] = e
		}
		for _, k := range ks {
			n, ok := refSet(x[k], rest, v)
			if !ok {
				return nil, false
			}
			if _, del := n.(gone); del {
				delete(r, k)
			} else {
				r[k] = n
			}
		}
		return r, true
	case list:
		in := make([]bool, len(x))
		switch s.kind {
		case sKey:
			for i, e := range x {
				if m, isM := e.(obj); isM {
					if _, has := m[s.key]; has {
						n, ok := refSet(e, steps, v)
						if !ok {
							return nil, false
						}
						x = append(append(append(list{}, x[:i]...), n), x[i+1:]...)
					}
				}
			}
			return x, true
		case sIndex:
			if s.i < 0 || s.i >= len(x) {
				return nil, false
			}
			in[s.i] = true
		case sWild:
			for i := range in {
				in[i] = true
			}
		case sSlice:
			lo, hi, ok := s.bounds(len(x))
			if !ok {
				return nil, false
			}
			for i := lo; i < hi; i++ {
				in[i] = true
			}
		case sRec:
			return refSetRec(x, s.key, v), true
		case sFilter:
			for i := range x {
				var ok bool
				in[i], ok = s.f.holds(x[i])
				if !ok {
					return nil, false
				}
			}
		default:
			return nil, false
		}
		r := list{}
		for i, e := range x {
			if !in[i] {
				r = append(r, e)
				continue
			}
			n, ok := refSet(e, rest, v)
			if !ok {
				return nil, false
			}
			if _, del := n.(gone); !del {
				r = append(r, n)
			}
		}
		return r, true
	}
	return nil, false
}

func refSetRec(v interface{}, key string, nv interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		r := obj{}
		for k, e := range x {
			if k != key {
				r[k] = refSetRec(e, key, nv)
			} else if _, del := nv.(gone); !del {
				r[k] = nv
			}
		}
		return r
	case list:
		r := list{}
		for _, e := range x {
			r = append(r, refSetRec(e, key, nv))
		}
		return r
	}
	return v
}

func setValue() interface{} {
	v := sym.JSON("value", sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum | sym.LBool | sym.LStr, StrLen: 1})
	return v
}

func setDoc(depth, width int) obj {
	return sym.JSON("doc", sym.Spec{Depth: depth, Width: width, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum | sym.LNil, Root: sym.RootMap}).(obj)
}

func definite(steps []step) bool {
	for _, s := range steps {
		if s.kind != sKey && s.kind != sIndex && s.kind != sFirst {
			return false
		}
	}
	return true
}

// checkSet runs one set or delete and compares the whole document with the reference.
func checkSet(doc obj, steps []step, v interface{}, del bool) {
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	rv := v
	if del {
		rv = gone{}
	}
	want, ok := refSet(before, steps, rv)
	if !ok {
		sym.Assume(false)
	}
	sym.Reach("applied")
	paths := json_map.AbsolutePaths{keysOf(steps)}
	err := j.SetAbsolutePaths(&paths, v)
	sym.Observe(err == nil)
	sym.Assert(err == nil, "an applicable path was refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
}

// HSet: sets through paths of keys, indices, slices, wildcards and first descents.
func HSet() {
	steps := symSteps(2+sym.Tier(), sKey, sIndex, sWild, sSlice, sFirst)
	v := setValue()
	checkSet(setDoc(2+sym.Tier(), 2), steps, v, false)
}

// HSetRec: recursive sets from the root or below it.
func HSetRec() {
	var steps []step
	if sym.Choose("before", 2) == 1 {
		steps = append(steps, symStep(0, sKey, sWild, sIndex))
	}
	steps = append(steps, symStep(1, sRec))
	doc := sym.JSON("doc", sym.Spec{Depth: 2 + sym.Tier(), Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap}).(obj)
	checkSet(doc, steps, setValue(), false)
}

// HSetWide: slices and wildcards over longer arrays and maps.
func HSetWide() {
	steps := []step{{kind: sKey, key: "a"}, symStep(1, sWild, sSlice, sIndex, sFirst)}
	if sym.Choose("more", 2) == 1 {
		steps = append(steps, symStep(2, sKey, sIndex))
	}
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: 2, Width: 3, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum}), "b": 1.0}
	checkSet(doc, steps, 42.0, false)
}

// HDelete: deletes through the same paths.
func HDelete() {
	steps := symSteps(2+sym.Tier(), sKey, sIndex, sWild, sSlice, sFirst)
	checkSet(setDoc(2+sym.Tier(), 2), steps, nil, true)
}

// HDeleteRec: recursive deletes.
func HDeleteRec() {
	var steps []step
	if sym.Choose("before", 2) == 1 {
		steps = append(steps, symStep(0, sKey, sWild, sIndex))
	}
	steps = append(steps, symStep(1, sRec))
	doc := sym.JSON("doc", sym.Spec{Depth: 2 + sym.Tier(), Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap}).(obj)
	checkSet(doc, steps, nil, true)
}

// HDeleteWide: deletes in longer arrays and maps.
func HDeleteWide() {
	steps := []step{{kind: sKey, key: "a"}, symStep(1, sWild, sSlice, sIndex, sFirst)}
	if sym.Choose("more", 2) == 1 {
		steps = append(steps, symStep(2, sKey, sIndex))
	}
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: 2, Width: 3, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum}), "b": 1.0}
	checkSet(doc, steps, nil, true)
}

var setTexts = []struct {
	text  string
	steps []step
}{
	{"$.a", []step{{kind: sKey, key: "a"}}},
	{"$.a.b", []step{{kind: sKey, key: "a"}, {kind: sKey, key: "b"}}},
	{"$.a[1]", []step{{kind: sKey, key: "a"}, {kind: sIndex, i: 1}}},
	{"$.a[*]", []step{{kind: sKey, key: "a"}, {kind: sWild}}},
	{"$.*", []step{{kind: sWild}}},
	{"$...b", []step{{kind: sFirst}, {kind: sKey, key: "b"}}},
	{"$.a[-1:]", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasI: true, i: -1}}},
	{"$.a[:-1]", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasJ: true, j: -1}}},
	{"$.a[0:1].b", []step{{kind: sKey, key: "a"}, {kind: sSlice, hasI: true, hasJ: true, j: 1}, {kind: sKey, key: "b"}}},
	{"$..b", []step{{kind: sRec, key: "b"}}},
}

// textOp is one set or delete by text, in the plain or the panicking form.
func textOp(del bool) {
	c := setTexts[sym.Choose("path", len(setTexts))]
	must := sym.Choose("must", 2) == 1
	var v interface{}
	if !del {
		v = setValue()
	}
	doc := setDoc(2, 2)
	before := sym.Clone(doc)
	rv := v
	if del {
		rv = gone{}
	}
	want, ok := refSet(before, c.steps, rv)
	j := jom.NewFromMap(doc)
	var err interface{}
	switch {
	case must && del:
		err = sym.Panics(func() { j.MustDelete(c.text) })
	case must:
		err = sym.Panics(func() { j.MustSet(c.text, v) })
	default:
		if e := j.JsonPathSetter(c.text, v); e != nil {
			err = e
		}
	}
	sym.Observe(err == nil)
	sym.Assert((err == nil) == ok, "the text form succeeds on the wrong documents")
	sym.Assert(!sym.IsRuntime(err), "the text form raised a run-time error")
	if ok {
		sym.Reach("applied")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the text form changed the wrong places")
	}
}

func HSetText() {
	textOp(false)
}

func HDeleteText() {
	textOp(true)
}

// HSetUnion: a list of indices.
func HSetUnion() {
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: 1, Width: 3, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootArr}), "b": 1.0}
	before := sym.Clone(doc)
	v := setValue()
	paths := json_map.AbsolutePaths{}
	want, ok := before, true
	for i := 0; i < 2; i++ {
		st := []step{{kind: sKey, key: "a"}, {kind: sIndex, i: sym.Int("index", 0, 3)}}
		paths = append(paths, keysOf(st))
		w, is := refSet(want, st, v)
		if !is {
			ok = false
			break
		}
		want = w
	}
	sym.Assume(ok)
	j := jom.NewFromMap(doc)
	err := j.SetAbsolutePaths(&paths, v)
	sym.Assert(err == nil, "an applicable list of indices was refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "a list of indices changed the wrong places")
}

// HDeleteUnion: lists of indices are deleted one after the other, each in what the one before left.
func HDeleteUnion() {
	form := sym.Choose("form", 3)
	depth, width := 1, 4
	if form > 0 {
		depth, width = 2, 2+sym.Tier()
	}
	doc := obj{"a": sym.JSON("doc", sym.Spec{Depth: depth, Width: width, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootArr}), "b": 1.0}
	paths := json_map.AbsolutePaths{}
	var want interface{} = sym.Clone(doc)
	for i := 2 + sym.Choose("n", 2); i > 0; i-- {
		st := []step{{kind: sKey, key: "a"}, {kind: sIndex, i: sym.Int("index", 0, 3)}}
		switch form {
		case 1:
			st = append(st, step{kind: sKey, key: "a"})
		case 2:
			st = append(st, step{kind: sIndex, i: sym.Int("second", 0, 1)})
		}
		paths = append(paths, keysOf(st))
		w, ok := refSet(want, st, gone{})
		if !ok {
			sym.Assume(false)
		}
		want = w
	}
	j := jom.NewFromMap(doc)
	err := j.SetAbsolutePaths(&paths, nil)
	sym.Assert(err == nil, "an applicable list of indices was refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "deleting a list of indices does not remove one after the other")
}

// HSetThenGet: what was set is what is selected, and everything else selects as before.
func HSetThenGet() {
	steps := symSteps(2, sKey, sIndex, sFirst)
	other := symSteps(2, sKey, sIndex)
	v := setValue()
	doc := setDoc(2, 2)
	before := sym.Clone(doc)
	want, ok := refSet(before, steps, v)
	sym.Assume(ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	err := j.SetAbsolutePaths(&paths, v)
	sym.Assert(err == nil, "an applicable path was refused")
	ex, eok := refGet(want, other)
	op := json_map.AbsolutePaths{keysOf(other)}
	nodes, errs := j.GetAbsolutePaths(&op)
	sym.Assert((len(errs) == 0) == eok, "a selection after a set succeeds on the wrong documents")
	if eok {
		sym.Assert(sameList(values(nodes), results(ex)), "a selection after a set gives the wrong values")
	}
}

// HSetFails: a path that cannot be applied is an error; a definite path then leaves the document alone.
func HSetFails() {
	steps := symSteps(2+sym.Tier(), sKey, sIndex, sWild, sSlice, sFirst)
	del := sym.Choose("delete", 2) == 1
	var v interface{} = 1.0
	var rv interface{} = 1.0
	if del {
		v, rv = nil, gone{}
	}
	doc := setDoc(2+sym.Tier(), 2)
	before := sym.Clone(doc)
	_, ok := refSet(before, steps, rv)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	p := sym.Panics(func() { err = j.SetAbsolutePaths(&paths, v) })
	sym.Assert(p == nil, "a path that cannot be applied made the call panic")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	if onePlace(before, steps) {
		sym.Reach("definite")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change of a single place changed the document")
	}
	sym.Observe("failed")
}

// HSetFailsRec: the same with a recursive last step below an inapplicable one.
func HSetFailsRec() {
	steps := []step{symStep(0, sKey, sIndex, sFirst), symStep(1, sRec)}
	doc := setDoc(1, 2)
	before := sym.Clone(doc)
	_, ok := refSet(before, steps, 1.0)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	p := sym.Panics(func() { err = j.SetAbsolutePaths(&paths, 1.0) })
	sym.Assert(p == nil, "a path that cannot be applied made the call panic")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed recursive change changed the document")
}

// HSetBadKeys: keys that no text can produce are refused, and nothing panics.
func HSetBadKeys() {
	kinds := []json_map.AbsolutePathKey{{KeyType: json_map.StartEnd}, {KeyType: 99}, {KeyType: json_map.IndexKey, Value: -1}, {KeyType: json_map.IndexKey, Value: 7}}
	bad := kinds[sym.Choose("bad", len(kinds))]
	path := []json_map.AbsolutePathKey{bad}
	if sym.Choose("below", 2) == 1 {
		path = []json_map.AbsolutePathKey{{KeyType: json_map.StringKey, Value: "a"}, bad}
	}
	doc := setDoc(2, 2)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{path}
	var err error
	var errs []error
	var p interface{}
	if sym.Choose("get", 2) == 1 {
		p = sym.Panics(func() { _, errs = j.GetAbsolutePaths(&paths) })
		sym.Assert(p == nil && len(errs) > 0, "selecting with a meaningless key was not refused")
		return
	}
	p = sym.Panics(func() { err = j.SetAbsolutePaths(&paths, 1.0) })
	sym.Assert(p == nil && err != nil, "setting with a meaningless key was not refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a refused key changed the document")
}

// HSetFailsText: the text forms report the failure (plain: error, Must: panic with that error), the document stays.
func HSetFailsText() {
	texts := []struct {
		text  string
		steps []step
	}{setTexts[1], setTexts[2], setTexts[5]}
	c := texts[sym.Choose("path", len(texts))]
	del := sym.Choose("delete", 2) == 1
	must := sym.Choose("must", 2) == 1
	var v, rv interface{} = 1.0, 1.0
	if del {
		v, rv = nil, gone{}
	}
	doc := setDoc(2, 2)
	before := sym.Clone(doc)
	_, ok := refSet(before, c.steps, rv)
	sym.Assume(!ok)
	j := jom.NewFromMap(doc)
	var err interface{}
	switch {
	case must && del:
		err = sym.Panics(func() { j.MustDelete(c.text) })
	case must:
		err = sym.Panics(func() { j.MustSet(c.text, v) })
	default:
		if e := j.JsonPathSetter(c.text, v); e != nil {
			err = e
		}
	}
	_, isErr := err.(error)
	sym.Assert(isErr && !sym.IsRuntime(err), "a failed change by text was not reported as an error of the library")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change by text changed the document")
}
