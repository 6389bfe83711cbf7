package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

func symArr(name string, min, max int) list {
	n := min + sym.Choose("length", max-min+1)
	a := make(list, 0, n)
	for i := 0; i < n; i++ {
		a = append(a, sym.JSON(name, sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'a', KeyLen: 1, Leaves: sym.LNum | sym.LNil | sym.LStr, StrLen: 1}))
	}
	return a
}

// unique indices, sorted (insertion into a small list).
func uniqSorted(idx []int) []int {
	r := []int{}
	for _, x := range idx {
		at, dup := 0, false
		for at < len(r) && r[at] <= x {
			if r[at] == x {
				dup = true
				break
			}
			at++
		}
		if dup {
			continue
		}
		r = append(r, 0)
		copy(r[at+1:], r[at:])
		r[at] = x
	}
	return r
}

// refPush: value ends up at each index; old elements keep their order around them; gaps are nil.
func refPush(old list, v interface{}, idx []int) list {
	if len(idx) == 0 {
		return append(append(list{}, old...), v)
	}
	u := uniqSorted(idx)
	r := list{}
	o, n := 0, 0
	for o < len(old) || n < len(u) {
		if n < len(u) && u[n] == len(r) {
			r = append(r, v)
			n++
		} else if o < len(old) {
			r = append(r, old[o])
			o++
		} else {
			r = append(r, nil)
		}
	}
	return r
}

func refPop(old list, idx []int) (popped, left list) {
	if len(idx) == 0 {
		idx = []int{0}
	}
	popped, left = list{}, list{}
	for i, e := range old {
		hit := false
		for _, x := range idx {
			if x == i {
				hit = true
			}
		}
		if hit {
			popped = append(popped, e)
		} else {
			left = append(left, e)
		}
	}
	return
}

// place puts an array at one of a few paths of a document.
func place(a list) (doc obj, text string, at func(d obj) interface{}) {
	switch sym.Choose("place", 4) {
	case 0:
		return obj{"a": a, "b": list{1.0}}, "$.a", func(d obj) interface{} { return d["a"] }
	case 1:
		return obj{"m": obj{"a": a, "c": 2.0}, "b": list{1.0}}, "$.m.a", func(d obj) interface{} { return d["m"].(obj)["a"] }
	case 2:
		return obj{"l": list{3.0, a}, "b": list{1.0}}, "$.l[1]", func(d obj) interface{} { return d["l"].(list)[1] }
	}
	return obj{"f": obj{"a": a}, "k": list{1.0}}, "$...a", func(d obj) interface{} { return d["f"].(obj)["a"] }
}

func symIdx(n, lo, hi int) []int {
	idx := []int{}
	for i := 0; i < n; i++ {
		idx = append(idx, sym.Int("index", lo, hi))
	}
	return idx
}

// HPush: a value pushed at any indices into arrays of any length, wherever the array is.
func HPush() {
	a := symArr("element", 0, 3)
	idx := symIdx(sym.Choose("indices", 4), 0, 5)
	v := sym.JSON("value", sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'a', KeyLen: 1, Leaves: sym.LNum | sym.LNil})
	want := refPush(sym.Clone(a).(list), v, idx)
	doc, text, at := place(a)
	rest := sym.Clone(doc).(obj)
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.MustPush(text, v, idx...) })
	sym.Assert(p == nil, "pushing to an array panicked")
	got := *j.GetInsides()
	sym.Observe(len(at(got).(list)))
	sym.Assert(sameList(at(got).(list), want), "the array does not hold the old elements with the value at the given indices")
	sym.Assert(sym.DeepEqual(blank(got), blank(rest)), "pushing changed something else")
}

// blank removes the array that place put into the document.
func blank(d obj) obj {
	d = sym.Clone(d).(obj)
	delete(d, "a")
	if m, ok := d["m"].(obj); ok {
		delete(m, "a")
	}
	if m, ok := d["f"].(obj); ok {
		delete(m, "a")
	}
	if l, ok := d["l"].(list); ok {
		d["l"] = l[:1]
	}
	return d
}

// HPop: elements popped at any indices.
func HPop() {
	a := symArr("element", 1, 4)
	idx := symIdx(sym.Choose("indices", 4), -2, 5)
	doc, text, at := place(a)
	rest := sym.Clone(doc).(obj)
	popped, left := refPop(sym.Clone(a).(list), idx)
	j := jom.NewFromMap(doc)
	var got list
	p := sym.Panics(func() { got = j.MustPop(text, idx...) })
	sym.Assert(p == nil, "popping from an array panicked")
	now := *j.GetInsides()
	sym.Observe(len(got), len(at(now).(list)))
	sym.Assert(sameList(got, popped), "the popped values are not those at the given indices, in order")
	sym.Assert(sameList(at(now).(list), left), "the array does not hold the other elements in their order")
	sym.Assert(sym.DeepEqual(blank(now), blank(rest)), "popping changed something else")
}

// HPushPop: popping the index just pushed gives the array back.
func HPushPop() {
	a := symArr("element", 1, 3)
	i := sym.Int("index", 0, 3)
	sym.Assume(i <= len(a))
	old := sym.Clone(a).(list)
	j := jom.NewFromMap(obj{"a": a})
	j.MustPush("$.a", 42.0, i)
	got := j.MustPop("$.a", i)
	sym.Assert(len(got) == 1 && got[0] == 42.0, "the value pushed is not the value popped at that index")
	sym.Assert(sameList((*j.GetInsides())["a"].(list), old), "pushing and popping at an index does not give the array back")
}

// HPushBad: pushing to or popping from a path that leads nowhere panics with an error of the library; nothing changes.
func HPushBad() {
	text := []string{"$.a.b", "$.b[9]", "$.zz", "bad", "$..zz"}[sym.Choose("path", 5)]
	doc := obj{"a": 1.0, "b": list{sym.JSON("e", sym.Spec{Depth: 0, Leaves: sym.LNum | sym.LNil})}}
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	var p interface{}
	if sym.Choose("pop", 2) == 1 {
		p = sym.Panics(func() { j.MustPop(text, 0) })
	} else {
		p = sym.Panics(func() { j.MustPush(text, 1.0) })
	}
	_, isErr := p.(error)
	sym.Assert(isErr && !sym.IsRuntime(p), "a path that leads nowhere did not panic with an error")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed push or pop changed the document")
}
