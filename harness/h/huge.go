package h

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Documents, paths and lists with more entries than anything ought to count
// on: nearly all of each is fixed, but for one place and one value.

// hugeSize is a number of entries.
func hugeSize() int {
	return []int{34, 130, 300, 1100}[sym.Choose("size", 4)]
}

// hugeAt is one of the places among n.
func hugeAt(n int) int {
	return []int{0, 1, 31, n / 2, n - 2, n - 1}[sym.Choose("at", 6)]
}

// hugeDoc is an array, an object and a grid of n entries, of which one holds v.
func hugeDoc(n, at int, v interface{}) obj {
	l, m, g := make(list, 0, n), obj{}, list{}
	for i := 0; i < n; i++ {
		f := float64(i)
		var e interface{} = f
		switch {
		case i == at:
			e = obj{"a": v, "b": list{v, f}}
		case i%3 == 0:
			e = obj{"a": f, "z": obj{"a": f + 0.5}}
		case i%3 == 1:
			e = list{f, obj{"a": f + 0.25}}
		}
		l = append(l, e)
		m["k"+strconv.Itoa(i)] = sym.Clone(e)
		g = append(g, list{f, obj{"b": f}})
	}
	return obj{"g": g, "l": l, "m": m, "t": "text"}
}

// hugeSteps is one of the paths through it.
func hugeSteps(n, at int) []step {
	switch sym.Choose("path", 14) {
	case 11:
		return []step{key("l"), {kind: sIndex, i: at}}
	case 12:
		return []step{key("g"), {kind: sSlice, hasI: true, hasJ: true, i: at, j: n - 1}}
	case 13:
		return []step{key("g"), {kind: sIndex, i: at}, {kind: sSlice, hasI: true, i: sym.Int("start", -2, 2)}}
	case 0:
		return []step{key("l"), key("a")}
	case 1:
		return []step{key("l"), {kind: sWild}}
	case 2:
		return []step{key("m"), {kind: sWild}, key("b")}
	case 3:
		return []step{key("m"), key("k" + strconv.Itoa(at)), key("a")}
	case 4:
		return []step{key("l"), {kind: sIndex, i: at + sym.Int("more", 0, 1)}, key("a")}
	case 5:
		return []step{key("l"), {kind: sSlice, hasI: true, i: at - n}, {kind: sSlice, hasI: true, i: sym.Int("start", -1, 1)}}
	case 6:
		return []step{key("g"), {kind: sSlice, hasI: true, hasJ: true, i: 1, j: n - 1}, {kind: sIndex, i: n - 3}, {kind: sIndex, i: 1}, key("b")}
	case 7:
		return []step{{kind: sWild}, {kind: sIndex, i: 2}, {kind: sWild}, {kind: sSlice, hasJ: true, j: at}}
	case 8:
		return []step{key("l"), {kind: sRec, key: "a"}}
	case 9:
		return []step{{kind: sRec, key: "b"}}
	}
	return []step{key("m"), {kind: sRec, key: "k" + strconv.Itoa(at)}}
}

func hugeValue() interface{} {
	return []interface{}{sym.Float("v"), nil, sym.Str("s", 1, ascii), list{}}[sym.Choose("value", 4)]
}

// HGetHuge: selections among many entries give all of them, and leave the document alone.
func HGetHuge() {
	n := hugeSize()
	at := hugeAt(n)
	doc := hugeDoc(n, at, hugeValue())
	steps := hugeSteps(n, at)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, !looksUp(steps))
}

// looksUp is whether there is a recursive lookup, of which the order is not said.
func looksUp(steps []step) bool {
	for _, s := range steps {
		if s.kind == sRec {
			return true
		}
	}
	return false
}

// hugeChain is containers within containers n deep.
func hugeChain(n int, end interface{}) interface{} {
	v := end
	for i := 0; i < n; i++ {
		if i%5 == 4 {
			v = list{float64(i), v}
		} else {
			v = obj{"b": float64(i), "c": v}
		}
	}
	return v
}

// HGetDeep: selections through many levels.
func HGetDeep() {
	n := []int{20, 70, 140, 260}[sym.Choose("levels", 4)]
	doc := obj{"c": hugeChain(n, obj{"b": hugeValue(), "d": list{list{}}})}
	steps := []step{key("c")}
	switch sym.Choose("path", 4) {
	case 0:
		for i := n - 1; i >= 0; i-- {
			if i%5 == 4 {
				steps = append(steps, step{kind: sIndex, i: 1})
			} else {
				steps = append(steps, key("c"))
			}
		}
		steps = append(steps, key([]string{"b", "d", "zz"}[sym.Choose("last", 3)]))
	case 1:
		steps = []step{{kind: sRec, key: "b"}}
	case 2:
		steps = []step{{kind: sRec, key: "c"}, key("b")}
	case 3:
		steps = steps[:0]
		for i := n; i > n-n/2; i-- {
			if (i-1)%5 == 4 && i < n {
				steps = append(steps, step{kind: sFirst}, step{kind: sIndex, i: 1})
			} else if i%5 != 0 || i == n {
				steps = append(steps, step{kind: sFirst})
			}
		}
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	checkGet(doc, steps, nodes, errs, !looksUp(steps))
}

// HUnionHuge: long lists of indices, and lists of lists, as texts.
func HUnionHuge() {
	n := hugeSize()
	l := list{}
	for i := 0; i < n; i++ {
		l = append(l, float64(i))
	}
	doc := obj{"a": l, "b": list{l, list{1.0}}}
	t, want := "$.a[", list{}
	bad := 0
	switch sym.Choose("form", 3) {
	case 0:
		for i := 0; i < n; i++ {
			x := (i * 7) % n
			want = append(want, l[x])
			t += strconv.Itoa(x) + ","
		}
		t += "0]"
		want = append(want, 0.0)
	case 1:
		// every third of them leads nowhere
		for i := 0; i < n; i++ {
			x := i
			if i%3 == 1 {
				x = n + i
				bad++
			}
			t += strconv.Itoa(x) + ","
		}
		t += "0]"
	case 2:
		t = "$.b[0,0,0,0,0,0,0,0,0,0][0"
		for k := 1; k < 15; k++ {
			t += "," + strconv.Itoa(k*n/15)
		}
		t += "]"
		for i := 0; i < 10; i++ {
			for k := 0; k < 15; k++ {
				want = append(want, l[k*n/15])
			}
		}
	}
	j := jom.NewFromMap(doc)
	paths, err := json_map.ParseJsonPath(t)
	sym.Assert(err == nil, "a text of the path grammar is refused")
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assert(len(errs) == bad, "not every path that cannot be followed is reported, or more")
	if bad > 0 {
		sym.Assert(len(nodes) == 0, "a failed selection gave values")
		_, err := j.JsonPathSelector(t)
		sym.Assert(err != nil && strings.Count(err.Error(), "out of bounds") == bad, "an error does not say what each of the paths says")
		return
	}
	sym.Assert(sameList(values(nodes), want), "a list of indices did not give the elements in the order of the list")
}

// HReadOnlyHuge: selections among many entries leave the document alone, and give the same again.
func HReadOnlyHuge() {
	n := hugeSize()
	sym.Assume(n < 1000)
	at := hugeAt(n)
	doc := hugeDoc(n, at, hugeValue())
	steps := hugeSteps(n, at)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	n1, e1 := j.GetAbsolutePaths(&paths)
	v1 := sym.Clone(values(n1)).(list)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "selecting changed the document")
	j.FindScriptFields()
	n2, e2 := j.GetAbsolutePaths(&paths)
	sym.Assert(len(e1) == len(e2) && sameList(values(n2), v1), "a selection gives something else the second time")
	sym.Assert(sameList(values(n1), v1) && sym.DeepEqual(*j.GetInsides(), before), "a second selection changed the values of the first, or the document")
}

// HLocateHuge: locations among many.
func HLocateHuge() {
	n := []int{34, 130}[sym.Choose("size", 2)]
	at := hugeAt(n)
	doc := hugeDoc(n, at, sym.Float("v"))
	steps := hugeSteps(n, at)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	nodes, errs := j.GetAbsolutePaths(&paths)
	sym.Assume(len(errs) == 0)
	for i, nd := range nodes {
		if i%9 == 4 || i == len(nodes)-1 {
			p := json_map.AbsolutePaths{nd.Absolute}
			again, errs := j.GetAbsolutePaths(&p)
			sym.Assert(len(errs) == 0, "the location of a node cannot be selected")
			sym.Assert(sameList(values(again), results(nd.Value)), "the location of a node selects something else")
		}
	}
}

func hugeChange(del, fail bool) {
	n := hugeSize()
	sym.Assume(n < 1000)
	at := hugeAt(n)
	doc := hugeDoc(n, at, sym.Float("v"))
	steps := hugeSteps(n, at)
	var v, rv interface{} = "new", "new"
	if del {
		v, rv = nil, gone{}
	}
	before := sym.Clone(doc)
	want, ok := refSet(before, steps, rv)
	if ok == fail {
		sym.Assume(false)
	}
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	p := sym.Panics(func() { err = j.SetAbsolutePaths(&paths, v) })
	if !fail {
		sym.Assert(p == nil && err == nil, "an applicable path was refused")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
		return
	}
	sym.Assert(p == nil, "a path that cannot be applied made the call panic")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	if onePlace(before, steps) {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change of a single place changed the document")
	}
}

func HSetHuge() {
	hugeChange(false, false)
}

func HDeleteHuge() {
	hugeChange(true, false)
}

func HFailHuge() {
	hugeChange(sym.Choose("delete", 2) == 1, true)
}

// hugeIdx is many indices, with gaps, repeated, and not in order.
func hugeIdx(n, lo int) []int {
	var idx []int
	switch sym.Choose("indices", 5) {
	case 1:
		idx = []int{n - 1, 0, n, n - 1}
	case 2:
		for i := n - 1; i >= 0; i -= 2 {
			idx = append(idx, i)
		}
	case 3:
		for i := 0; i < 70; i++ {
			idx = append(idx, (i*37)%(n+20))
		}
	case 4:
		idx = []int{n + 40, 3, n + 2}
	}
	if len(idx) > 0 {
		idx[len(idx)/2] = sym.Int("index", lo, 3)
	}
	return idx
}

// HPushHuge: pushes into long arrays, at many indices.
func HPushHuge() {
	n := []int{34, 130, 300}[sym.Choose("size", 3)]
	a := hugeDoc(n, n/2, sym.Float("v"))["l"].(list)
	idx := hugeIdx(n, 0)
	want := refPush(sym.Clone(a).(list), "new", idx)
	j := jom.NewFromMap(obj{"a": a, "b": 1.0})
	p := sym.Panics(func() { j.MustPush("$.a", "new", idx...) })
	sym.Assert(p == nil, "pushing to an array panicked")
	now := *j.GetInsides()
	sym.Assert(sameList(now["a"].(list), want), "the array does not hold the old elements with the value at the given indices")
	sym.Assert(len(now) == 2 && now["b"] == 1.0, "pushing changed something else")
}

// HPushMany: many pushes and pops one after the other.
func HPushMany() {
	x := sym.Float("x")
	a, want := list{x}, list{x}
	j := jom.NewFromMap(obj{"a": a, "b": 1.0})
	kind := sym.Choose("kind", 3)
	for i := 0; i < 140; i++ {
		idx := []int{}
		switch kind {
		case 1:
			idx = []int{0}
		case 2:
			idx = []int{i / 2}
		}
		j.MustPush("$.a", float64(i), idx...)
		want = refPush(want, float64(i), idx)
	}
	sym.Assert(sameList((*j.GetInsides())["a"].(list), want), "an array that was pushed to again and again does not hold what was pushed")
	for i := 0; i < 120; i++ {
		idx := []int{[]int{0, 100 - i, i % 20}[kind]}
		popped, left := refPop(want, idx)
		sym.Assert(sameList(j.MustPop("$.a", idx...), popped), "the popped values are not those at the given indices, in order")
		want = left
	}
	sym.Assert(sameList((*j.GetInsides())["a"].(list), want), "the array does not hold the other elements in their order")
}

// HPopHuge: pops from long arrays, at many indices.
func HPopHuge() {
	n := []int{34, 130, 300}[sym.Choose("size", 3)]
	a := hugeDoc(n, n/2, sym.Float("v"))["l"].(list)
	idx := hugeIdx(n, -2)
	popped, left := refPop(sym.Clone(a).(list), idx)
	j := jom.NewFromMap(obj{"a": a, "b": 1.0})
	var got list
	p := sym.Panics(func() { got = j.MustPop("$.a", idx...) })
	sym.Assert(p == nil, "popping from an array panicked")
	now := *j.GetInsides()
	sym.Assert(sameList(got, popped), "the popped values are not those at the given indices, in order")
	sym.Assert(sameList(now["a"].(list), left), "the array does not hold the other elements in their order")
	sym.Assert(len(now) == 2 && now["b"] == 1.0, "popping changed something else")
}

// hugeScripts is a document with a script at one place among many, or at many.
func hugeScripts(script string) obj {
	n := []int{34, 130, 300}[sym.Choose("size", 3)]
	at := hugeAt(n)
	doc := hugeDoc(n, at, 1.0)
	switch sym.Choose("where", 7) {
	case 6:
		deep := obj{"s": script, "t": 1.0}
		for i := []int{70, 150}[sym.Choose("levels", 2)]; i > 0; i-- {
			deep = obj{"a": deep, "b": nil}
		}
		doc["c"] = deep
	case 0:
		doc["l"].(list)[at].(obj)["s"] = script
	case 1:
		doc["m"].(obj)["k"+strconv.Itoa(at)].(obj)["s"] = script
	case 2:
		doc["g"].(list)[at].(list)[1].(obj)["b"] = script
	case 3:
		doc["m"].(obj)["k"+strconv.Itoa(at)] = script
	case 4:
		for _, e := range doc["l"].(list) {
			if m, is := e.(obj); is {
				m["s"] = script
			}
		}
	case 5:
		doc["c"] = hugeChain([]int{70, 150}[sym.Choose("levels", 2)], obj{"s": script, "x": list{obj{"s": script}}})
	}
	return doc
}

// HStripHuge: scripts among many entries, or deep, are found and stripped.
func HStripHuge() {
	code.RegisterLang("js", noRunner)
	doc := hugeScripts("#//!js" + sym.Str("end", 1, "\nx "))
	want, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	sym.Assert(j.FindScriptFields() == found, "scripts are found (or not) against the document")
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping does not leave exactly what is no script entry")
	sym.Assert(!j.FindScriptFields(), "a script is found after stripping")
}

// HRunHuge: scripts among many entries, or deep, are run, once each, in their scopes.
func HRunHuge() {
	doc := hugeScripts("#//!js\n" + sym.Str("action", 1, "sx"))
	var want, got []event
	after, ok := refRun(sym.Clone(doc), "$", &want)
	sym.Assume(ok)
	code.RegisterLang("js", runner(&got))
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Assert(len(got) == len(want), "scripts are run too often or not at all")
	at := map[string]string{}
	for _, e := range got {
		at[e.path] = e.action
	}
	for _, e := range want {
		sym.Assert(at[e.path] == e.action, "scripts are run in the wrong scopes")
	}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), after), "running does not leave what the scripts made of the document")
}

// HRunGrow: scripts that bring along further scripts, level by level, and many side by side.
func HRunGrow() {
	n := []int{12, 70, 140}[sym.Choose("levels", 3)]
	ran := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran++
		left, _ := strconv.Atoi(c.Script.(string))
		(*j.GetInsides())["r"] = float64(left)
		if left > 0 {
			(*j.GetInsides())["o"] = obj{"s": "#//!js\n" + strconv.Itoa(left-1)}
		}
		return j, nil
	})
	x := sym.Float("x")
	doc := obj{"x": x}
	var want obj
	count := n
	if sym.Choose("side", 2) == 0 {
		doc["s"] = "#//!js\n" + strconv.Itoa(n-1)
		for i := 0; i < n; i++ {
			w := obj{"r": float64(i)}
			if want != nil {
				w["o"] = want
			}
			want = w
		}
		want["x"] = x
	} else {
		for i := 0; i < n; i++ {
			doc["s"+strconv.Itoa(i)] = "#//!js\n0"
		}
		want = obj{"x": x, "r": 0.0}
	}
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Assert(ran == count, "scripts are run too often or not at all")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "running does not leave what the scripts made of the document")
}

// HFilterHuge: filters over many values.
func HFilterHuge() {
	n := []int{34, 70}[sym.Choose("size", 2)]
	at := []int{0, 33, n - 1}[sym.Choose("at", 3)]
	l, m := list{}, obj{}
	for i := 0; i < n; i++ {
		var e interface{} = obj{"b": float64(i % 7)}
		if i == at {
			e = obj{"b": sym.Float("b")}
		}
		l = append(l, e)
		m["k"+strconv.Itoa(i)] = e
	}
	doc := obj{"a": l, "lim": 1.0}
	if sym.Choose("map", 2) == 1 {
		doc["a"] = m
	}
	f := bProp("@.b > 4", func(v interface{}, has bool) bool { f, is := isNum(v, has); return is && f > 4 })
	checkFilter(jom.NewFromMap(doc), doc, []step{key("a"), {kind: sFilter, f: f}})
}

// HRoundTripHuge: large documents are read, written and evaluated as what they are.
func HRoundTripHuge() {
	n := hugeSize()
	s, b := sym.Str("s", 1, ascii), sym.Bool("b")
	var v interface{}
	switch sym.Choose("form", 4) {
	case 0:
		l := list{}
		for i := 0; i < n; i++ {
			l = append(l, float64(i)/4, strconv.Itoa(i))
		}
		v = obj{"l": l, "s": s, "b": b}
	case 1:
		m := obj{}
		for i := 0; i < n; i++ {
			m[strconv.Itoa(i)] = float64(i) * 1e15
		}
		m["s"], m["b"] = s, list{b}
		v = m
	case 2:
		l := list{b}
		for i := 0; i < n; i++ {
			l = append(l, nil, obj{"s": s})
		}
		v = l
	case 3:
		sym.Assume(n < 1000)
		v = list{hugeChain(n, obj{"s": s, "b": b})}
	}
	data, err := json.Marshal(v)
	sym.Assume(err == nil)
	if sym.Choose("eval", 2) == 1 {
		out, err := jom.Eval(data, false)
		sym.Assert(err == nil, "a document is not evaluated")
		var w interface{}
		sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, v), "what an evaluation gives is not the document after its scripts have run")
		return
	}
	j := jom.New()
	sym.Assert(j.Unmarshal(data) == nil && holds(j, v), "a JsonMap does not hold exactly the document that it read, whatever it held before")
	out, err := j.Marshal()
	sym.Assert(err == nil, "a document cannot be written")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, v), "what is written is not the document")
}

// HErrorsHuge: errors made of very many and very long pieces.
func HErrorsHuge() {
	n := hugeSize()
	k, head := &globals.JsonPathError, "(-6) A JSON path could not be evaluated for the following reason(s)"
	var infos []string
	var errs []error
	at := hugeAt(n)
	for i := 0; i < n; i++ {
		s := "piece " + strconv.Itoa(i)
		if i == at {
			s = sym.Str("piece", 2, "") + strings.Repeat("x", 5000)
		}
		infos = append(infos, s)
		errs = append(errs, globals.JsonPathError.FillError(s))
	}
	want := head + ": " + strings.Join(infos, ", ")
	sym.Assert(k.FillError(infos...).Error() == want, "an error does not say exactly what it was given")
	sym.Assert(k.FillFromErrors(errs).Error() == want, "an error does not say exactly what the errors it was made of say")
}

// HHistoryLong: after very many operations of one or two kinds, an operation does what it did to begin with.
func HHistoryLong() {
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		out := j.Clone(true)
		*out.GetInsides() = act(c.Script.(string), *j.GetInsides(), j.GetCurrentScopePath())
		return out, nil
	})
	x := sym.Float("x")
	j := jom.NewFromMap(obj{"l": list{x, 2.0, obj{"a": 3.0}}, "m": obj{"b": obj{"a": 1.0}, "a": list{5.0, "x"}}})
	many := sym.Choose("many", historyOps+3)
	for i := 0; i < 140; i++ {
		switch many {
		case historyOps:
			// ever other paths
			j.JsonPathSelector("$.l[" + strconv.Itoa(i) + "]")
			j.JsonPathSelector("$..k" + strconv.Itoa(i))
		case historyOps + 1:
			// ever other scripts
			(*j.GetInsides())["s"] = "#//!js\nx" + strconv.Itoa(i)
			j.Run()
		case historyOps + 2:
			// ever other documents
			j.Unmarshal([]byte("{l: [" + strconv.Itoa(i) + ", 1, {a: 2}], m: {b: {}, a: [" + strconv.Itoa(i) + "]}}"))
		default:
			if (many == 7 || many == 4) && i > 40 {
				break
			}
			historyOp(many, j, x)
		}
	}
	fresh := jom.NewFromMap(sym.Clone(*j.GetInsides()).(obj))
	fresh.Array = j.Array
	op := sym.Choose("op", historyOps)
	got := historyOp(op, j, x)
	want := historyOp(op, fresh, x)
	sym.Assert(sym.DeepEqual(got, want), "what an operation gives depends on what was done to the JsonMap before")
	sym.Assert(j.IsArray() == fresh.IsArray() && sym.DeepEqual(*j.GetInsides(), *fresh.GetInsides()), "what an operation does depends on what was done to the JsonMap before")
	switch op {
	case 1:
		exp, ok := list{}, true
		for i := 0; i < 2; i++ {
			v, is := refGet(*j.GetInsides(), []step{key("l"), {kind: sIndex, i: i}})
			if ok = ok && is; is {
				exp = append(exp, results(v)...)
			}
		}
		nodes, err := j.JsonPathSelector("$.l[0,1]")
		sym.Assert((err == nil) == ok && (!ok || sameList(values(nodes), exp)), "a selection does not give what the document holds now")
	case 0:
		nodes, err := j.JsonPathSelector("$..a")
		sym.Assert(err == nil && sym.SameMultiset(values(nodes), refRec(*j.GetInsides(), "a")), "a selection does not give what the document holds now")
	}
}

// HFilterMany: many paths at once, each with a filter that selects in the document itself.
func HFilterMany() {
	n := []int{12, 40, 130}[sym.Choose("size", 3)]
	l, want := list{}, list{}
	lim := []float64{-1, 1, 2.5}[sym.Choose("lim", 3)]
	t := "$.a["
	for i := 0; i < n; i++ {
		l = append(l, list{1.0, obj{"b": float64(i)}})
		if i > 0 {
			t += ","
		}
		t += strconv.Itoa(i)
		if lim < 1 {
			want = append(want, 1.0)
		}
	}
	j := jom.NewFromMap(obj{"a": l, "o": obj{"lim": list{lim}}})
	nodes, err := j.JsonPathSelector(t + "][?(@ > $.o.lim[0] )]")
	sym.Assert(err == nil && sameList(values(nodes), want), "a filter did not select exactly the values its expression holds for, in their order")
	_, err = j.JsonPathSelector(t + "][?(@ > $.o.nosuch )]")
	sym.Assert(err != nil && strings.Count(err.Error(), "'nosuch' does not exist") == n, "not every filter that fails is reported")
}

// HRacesMany: many selections at once on one document.
func HRacesMany() {
	doc := hugeDoc(12, 5, sym.Float("v"))
	j := jom.NewFromMap(doc)
	texts := []string{"$..a", "$.l[0,1,2,3,4,5,6,7]", "$.m.*", "$.l.a", "$.g[3:][2]", "$.nosuch", "$.l[1,99]", "$.l[?(@.a === 3)]"}
	n := 2 * len(texts)
	got, errs := make([]list, n), make([]error, n)
	before := sym.Clone(doc)
	sym.Races()
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			nodes, err := j.JsonPathSelector(texts[i%len(texts)])
			got[i], errs[i] = values(nodes), err
			done <- true
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Assert(sym.RaceFound() == "", "concurrent selections race")
	for i := 0; i < n; i++ {
		nodes, err := j.JsonPathSelector(texts[i%len(texts)])
		sym.Assert((err == nil) == (errs[i] == nil) && (err == nil || err.Error() == errs[i].Error()), "concurrent selections fail differently")
		sym.Assert(sameList(got[i], values(nodes)), "a selection gives something else while others run")
	}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "concurrent selections changed the document")
}

// HSeparateMany: many goroutines, each with documents of its own.
func HSeparateMany() {
	defer func(d int) { globals.HaltingDelay = d }(globals.HaltingDelay)
	globals.HaltingDelay = 60
	x := sym.Float("x")
	n := 16 + 8*sym.Tier()
	off := 4 * sym.Choose("first", 3)
	sym.Races()
	got, errs := make([]interface{}, n), make([]error, n)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			got[i], errs[i] = sepOps[(off+i)%len(sepOps)](x)
			done <- true
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Assert(sym.RaceFound() == "", "what is done to many documents at once races")
	for i := 0; i < n; i++ {
		want, err := sepOps[(off+i)%len(sepOps)](x)
		sym.Assert((err == nil) == (errs[i] == nil) && (err == nil || err.Error() == errs[i].Error()), "a document fails differently while others are worked on")
		sym.Assert(sym.DeepEqual(got[i], want), "a document comes out differently while others are worked on")
	}
}

// HListHuge: very many paths, selected, set, deleted, and added to.
func HListHuge() {
	n := []int{34, 130, 300}[sym.Choose("size", 3)]
	at := hugeAt(n)
	doc := hugeDoc(n, at, sym.Float("v"))
	other := sym.Clone(doc).(obj)
	j, k := jom.NewFromMap(doc), jom.NewFromMap(other)
	var p json_map.AbsolutePaths
	for i := 0; i < n; i++ {
		st := []step{key("l"), {kind: sIndex, i: i}}
		switch {
		case i == at:
			st = []step{key("l"), {kind: sIndex, i: sym.Int("index", n-2, n)}}
		case i%3 == 1:
			st = []step{key("m"), key("k" + strconv.Itoa(i))}
		case i%3 == 2:
			st = []step{key("g"), {kind: sIndex, i: i}, {kind: sIndex, i: 1}, key("b")}
		}
		p = append(p, keysOf(st))
	}
	one := func(path []json_map.AbsolutePathKey) *json_map.AbsolutePaths {
		return &json_map.AbsolutePaths{append([]json_map.AbsolutePathKey{}, path...)}
	}
	switch sym.Choose("op", 3) {
	case 0:
		nodes, errs := j.GetAbsolutePaths(&p)
		want, wantErrs := list{}, 0
		for _, path := range p {
			ns, es := k.GetAbsolutePaths(one(path))
			want = append(want, values(ns)...)
			wantErrs += len(es)
		}
		sym.Assert(len(errs) == wantErrs, "not every path that fails is reported, or more")
		sym.Assert(wantErrs > 0 && len(nodes) == 0 || wantErrs == 0 && sameList(values(nodes), want), "a list of paths does not give what each of them gives, in order")
	case 1:
		var v interface{}
		if sym.Choose("set", 2) == 1 {
			v = "text"
		}
		err := j.SetAbsolutePaths(&p, v)
		var want error
		for _, path := range p {
			if want = k.SetAbsolutePaths(one(path), v); want != nil {
				break
			}
		}
		sym.Assert((err == nil) == (want == nil), "a list of paths fails when none of its paths does, or the other way round")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), *k.GetInsides()), "setting a list of paths is not setting one after the other")
	case 2:
		q := append(json_map.AbsolutePaths{}, p...)
		errs := q.AddToAll(j, true, keyOf(step{kind: sIndex, i: 0}), keyOf(step{kind: sIndex, i: sym.Int("second", 0, 2)}))
		sym.Assert(len(q) == 2*n, "adding to paths gave another number of paths")
		wantErrs := 0
		for i, path := range q {
			sym.Assert(samePath(path[:len(path)-1], p[i/2]), "a path is not the combination of what was added, in order")
			_, es := k.GetAbsolutePaths(one(path))
			wantErrs += len(es)
		}
		sym.Assert(len(errs) == wantErrs, "the errors of added paths are not one for each path that leads nowhere")
	}
}

// HJsHuge: scripts on scopes with many entries.
func HJsHuge() {
	code.RegisterLang("js", js.RunScript)
	n := []int{34, 70}[sym.Choose("size", 2)]
	at := hugeAt(n)
	doc := hugeDoc(n, at, sym.Str("s", 1, ascii))
	steps := []step{{kind: sRec, key: "a"}}
	if sym.Choose("path", 2) == 1 {
		steps = []step{key("l"), {kind: sIndex, i: at}, key("a")}
	}
	want, _ := refGet(doc, steps)
	after, _ := refSet(sym.Clone(doc).(obj), steps, obj{"new": true})
	out := after.(obj)
	out["out"] = sym.Clone(results(want))
	out["n"] = float64(n)
	doc["s"] = "#//!js\nvar s = json.jsonPathSelector(" + quote(text(steps)) + "); var got = s.getValues(); for (var i = 0; i < 30; i++) json.jsonPathSelector('$.l[' + i + ']').getValues(); s.setValues({'new': true}); json.trail.out = got; json.trail.n = json.trail.l.length"
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "a script that does not fail ended the run with an error")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), out), "the object that a script is in is not what the script made of json.trail, or something else changed")
}

// HRunPlant: scripts that a script puts into objects further down that were there before run in them.
func HRunPlant() {
	x := sym.Float("x")
	places := []string{"a", "b", "b.c", "l.[0]", "l.[1].[0]", "t", "e", "b.d.[1]"}
	first := sym.Choose("place", len(places))
	second := first + sym.Choose("another", len(places)-first)
	down := func(m obj, place string) obj {
		switch place {
		case "l.[0]":
			return m["l"].(list)[0].(obj)
		case "l.[1].[0]":
			return m["l"].(list)[1].(list)[0].(obj)
		case "b.c":
			return m["b"].(obj)["c"].(obj)
		case "b.d.[1]":
			return m["b"].(obj)["d"].(list)[1].(obj)
		}
		return m[place].(obj)
	}
	plants := func(m obj) {
		down(m, places[first])["w"] = "#//!js\nmark"
		down(m, places[second])["w"] = "#//!js\nmark"
	}
	form := sym.Choose("form", 2)
	ran := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran++
		if form == 1 {
			// as a language does that works on a copy
			out := j.Clone(true)
			for k, v := range sym.Clone(*j.GetInsides()).(obj) {
				(*out.GetInsides())[k] = v
			}
			sym.Assert(j.GetCurrentScopePath() != "", "a script has no scope path")
			if c.Script == "plant" {
				plants(*out.GetInsides())
			} else {
				(*out.GetInsides())["z"] = j.GetCurrentScopePath()
			}
			return out, nil
		}
		if c.Script == "plant" {
			plants(*j.GetInsides())
		} else {
			(*j.GetInsides())["z"] = j.GetCurrentScopePath()
		}
		return j, nil
	})
	build := func() obj {
		return obj{"a": obj{"x": x}, "b": obj{"c": obj{"x": 1.0}, "d": list{nil, obj{}}}, "l": list{obj{"x": x}, list{obj{}}, 1.0}, "t": obj{"x": x, "q": obj{"z": x}}, "e": obj{}}
	}
	doc, want := build(), build()
	doc["s"] = "#//!js\nplant"
	doc["t"].(obj)["q"].(obj)["w"] = "#//!js\nmark"
	var in, out interface{} = doc, want
	prefix := "$."
	switch sym.Choose("in", 3) {
	case 1:
		in, out, prefix = obj{"o": doc}, obj{"o": want}, "$.o."
	case 2:
		in, out, prefix = obj{"o": list{doc}}, obj{"o": list{want}}, "$.o.[0]."
	}
	want["t"].(obj)["q"].(obj)["z"] = prefix + "t.q"
	count := 3
	down(want, places[first])["z"] = prefix + places[first]
	if second != first {
		down(want, places[second])["z"] = prefix + places[second]
		count++
	}
	j := jom.NewFromMap(in.(obj))
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Assert(ran == count, "scripts are run too often or not at all")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), out), "running does not leave what the scripts made of the document")
}
