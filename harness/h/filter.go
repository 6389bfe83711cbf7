package h

import (
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Filters: expressions in JavaScript, run by the real interpreter, against Go
// predicates over the node.

// filter is an expression and what it means; ok is false when evaluating it throws.
type filter struct {
	expr  string
	holds func(e interface{}) (in, ok bool)
}

// truthy is the JavaScript truth of a JSON value.
func truthy(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case float64:
		return x != 0
	case string:
		return x != ""
	}
	return true
}

// prop is @.key of an element: absent gives has == false, null throws.
func prop(e interface{}, key string) (v interface{}, has, ok bool) {
	switch x := e.(type) {
	case nil:
		return nil, false, false
	case obj:
		v, has = x[key]
		return v, has, true
	}
	return nil, false, true
}

func isNum(v interface{}, has bool) (float64, bool) {
	f, is := v.(float64)
	return f, has && is
}

// bProp is a filter over the property b of the node.
func bProp(expr string, f func(v interface{}, has bool) bool) filter {
	return filter{expr, func(e interface{}) (bool, bool) {
		v, has, ok := prop(e, "b")
		if !ok {
			return false, false
		}
		return f(v, has), true
	}}
}

// whole is a filter over the node that does not throw.
func whole(expr string, f func(e interface{}) bool) filter {
	return filter{expr, func(e interface{}) (bool, bool) { return f(e), true }}
}

// filters are the expressions that stand for all of them; lim is the value of $.lim.
func filters(lim interface{}) []filter {
	return []filter{
		bProp("@.b", func(v interface{}, has bool) bool { return has && truthy(v) }),
		bProp("!@.b", func(v interface{}, has bool) bool { return !(has && truthy(v)) }),
		bProp("@.b === 1", func(v interface{}, has bool) bool { f, is := isNum(v, has); return is && f == 1 }),
		bProp("@.b === $.lim", func(v interface{}, has bool) bool { return has && sym.DeepEqual(v, lim) && !isContainer(v) }),
		bProp("$.lim !== @.b", func(v interface{}, has bool) bool { return !(has && sym.DeepEqual(v, lim) && !isContainer(v)) }),
		bProp("@.b === undefined || @['b'] === null", func(v interface{}, has bool) bool { return !has || v == nil }),
		bProp("typeof @.b == 'number' && @.b > 2", func(v interface{}, has bool) bool { f, is := isNum(v, has); return is && f > 2 }),
		whole("typeof @ == 'number' && @ <= 1.5", func(e interface{}) bool { f, is := isNum(e, true); return is && f <= 1.5 }),
		whole("@", truthy),
		whole("@ === '@'", func(e interface{}) bool { s, is := e.(string); return is && s == "@" }),
		whole("'$.lim' === @", func(e interface{}) bool { s, is := e.(string); return is && s == "$.lim" }),
		whole("(@) === \"a\" || [@][0] === \"b\"", func(e interface{}) bool { s, is := e.(string); return is && (s == "a" || s == "b") }),
		whole("@ && @.a === @.b", func(e interface{}) bool {
			if !truthy(e) {
				return false
			}
			m, isM := e.(obj)
			if !isM {
				return true // undefined on both sides
			}
			a, hasA := m["a"]
			b, hasB := m["b"]
			return hasA == hasB && !isContainer(a) && sym.DeepEqual(a, b)
		}),
		whole("@ && @.length === 2", func(e interface{}) bool {
			switch x := e.(type) {
			case string:
				return len(x) == 2
			case list:
				return len(x) == 2
			}
			return false
		}),
		whole("true", func(interface{}) bool { return true }),
		whole("''", func(interface{}) bool { return false }),
		whole("0", func(interface{}) bool { return false }),
		whole("[]", func(interface{}) bool { return true }),
		{"@.b.c", func(e interface{}) (bool, bool) {
			v, has, ok := prop(e, "b")
			if !ok || !has || v == nil {
				return false, false
			}
			c, has, _ := prop(v, "c")
			return has && truthy(c), true
		}},
		{"nosuch", func(interface{}) (bool, bool) { return false, false }},
		{"@ +", func(interface{}) (bool, bool) { return false, false }},
		{"$.nosuch", func(interface{}) (bool, bool) { return false, false }},
	}
}

func limit() interface{} {
	return []interface{}{1.0, "a", nil, true}[sym.Choose("lim", 4)]
}

// element is a node to be filtered.
func element(name string) interface{} {
	return sym.JSON(name, sym.Spec{Depth: 1, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum | sym.LNil | sym.LBool | sym.LStr, StrLen: 1 + sym.Tier()})
}

// textual says whether the steps have no symbolic indices.
func textual(steps []step) bool {
	for _, s := range steps {
		if s.kind == sIndex {
			return false
		}
	}
	return true
}

// checkFilter compares one selection by a filter step with the reference.
func checkFilter(j *jom.JsonMap, doc obj, steps []step) {
	want, ok := refGet(doc, steps)
	if strings.Contains(steps[len(steps)-1].f.expr, "$.nosuch") {
		ok = false
	}
	before := sym.Clone(doc)
	var nodes []*json_map.JsonPathNode
	var errs []error
	if textual(steps) && sym.Choose("astext", 2) == 1 {
		var err error
		nodes, err = j.JsonPathSelector(text(steps))
		if err != nil {
			errs = append(errs, err)
		}
	} else {
		paths := json_map.AbsolutePaths{keysOf(steps)}
		nodes, errs = j.GetAbsolutePaths(&paths)
	}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "filtering changed the document")
	if !ok {
		sym.Reach("throws")
		sym.Assert(len(errs) == 1 && errs[0] != nil, "a filter that throws did not fail the selection")
		sym.Assert(len(nodes) == 0, "a failed selection gave values")
		return
	}
	sym.Reach("selects")
	sym.Assert(len(errs) == 0, "a filter that does not throw failed the selection")
	sym.Assert(sameList(values(nodes), results(want)), "a filter did not select exactly the values its expression holds for, in their order")
}

// HFilter: one node, every expression.
func HFilter() {
	lim := limit()
	fs := filters(lim)
	f := fs[sym.Choose("filter", len(fs))]
	e := element("e")
	var c interface{}
	if sym.Choose("map", 2) == 1 {
		c = obj{"x": e}
	} else {
		c = list{e}
	}
	doc := obj{"a": c, "lim": lim}
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
}

// few are the filters used where the place of the filter is what counts.
func few() filter {
	fs := filters(1.0)
	return fs[[]int{0, 1, 3, 6, 8, 18}[sym.Choose("filter", 6)]]
}

// small is a node for the same purpose.
func small(name string) interface{} {
	switch sym.Choose(name, 4) {
	case 0:
		return obj{"b": sym.Float(name + "b")}
	case 1:
		return sym.Float(name)
	case 2:
		return obj{"a": list{3.0}, "b": obj{"c": 4.0}}
	}
	return nil
}

// HFilterList: several nodes, in arrays and in objects.
func HFilterList() {
	f := few()
	n := sym.Choose("n", 3+sym.Tier())
	l, m := list{}, obj{}
	for i := 0; i < n; i++ {
		e := small([]string{"x", "y", "z"}[i])
		l = append(l, e)
		m[string(rune('c'-i))] = e
	}
	doc := obj{"lim": 1.0, "a": l}
	if sym.Choose("map", 2) == 1 {
		doc["a"] = m
	}
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
}

// HFilterRoot: the values of the root.
func HFilterRoot() {
	doc := obj{"lim": 1.0, "a": small("x"), "n": small("y")}
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sFilter, f: few()}})
}

// HFilterSteps: a filter with steps before and after it.
func HFilterSteps() {
	doc := shape()
	doc["lim"] = 1.0
	f := filters(1.0)[[]int{0, 3, 18}[sym.Choose("filter", 3)]]
	var steps []step
	for n := sym.Choose("before", 3); n > 0; n-- {
		steps = append(steps, smallStep(sKey, sWild))
	}
	steps = append(steps, step{kind: sFilter, f: f})
	for n := sym.Choose("after", 2); n > 0; n-- {
		steps = append(steps, smallStep(sKey, sIndex, sRec))
	}
	if sym.Choose("second", 2) == 1 {
		steps = append(steps, step{kind: sFilter, f: filters(1.0)[14]})
	}
	checkFilter(jom.NewFromMap(doc), doc, steps)
}

// HFilterLiteral: an at sign or a path within quotes is text.
func HFilterLiteral() {
	q, other := "'", "\""
	if sym.Choose("quote", 2) == 1 {
		q, other = other, q
	}
	lit := sym.Str("literal", 1+sym.Choose("n", 2+sym.Tier()), "@$. x"+other)
	e := sym.Str("e", len(lit), "@$. x'\"")
	doc := obj{"a": list{e, nil}, "x": 1.0}
	is := func(e interface{}) bool { s, is := e.(string); return is && s == lit }
	f := whole("@ === "+q+lit+q, is)
	switch sym.Choose("form", 4) {
	case 3:
		// quotes of the same kind and backslashes are escaped, before and behind what looks like a node or a path
		lit = []string{q, "\\", q + q, q + other}[sym.Choose("escaped", 4)] + sym.Str("literal", 1+sym.Tier(), "@$ ") + []string{"", ".x", q, "\\"}[sym.Choose("end", 4)]
		src := strings.Replace(strings.Replace(lit, "\\", "\\\\", -1), q, "\\"+q, -1)
		e = lit
		if sym.Choose("other", 2) == 1 {
			e = q + "@.x"
		}
		doc["a"] = list{e, nil}
		f = whole("@ === "+q+src+q, is)
	case 1:
		f = whole(q+lit+q+" === @ || "+other+"no"+other+" === @", is)
	case 2:
		// next to characters of several bytes, and paths of the document
		f = whole("$.x === 1 && @ === "+q+"é"+lit+q, func(e interface{}) bool { return e == "é"+lit })
		doc["a"] = list{"é" + e, e}
	}
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
}

// HFilterEffects: what an expression does to its node or its variables stays in the expression.
func HFilterEffects() {
	x, y := sym.Float("x"), sym.Float("y")
	doc := obj{"a": list{obj{"b": x}, obj{"b": y}, list{x}}, "lim": 1.0}
	fs := []filter{
		whole("@.b = 3", func(interface{}) bool { return true }),
		whole("delete @.b, @.b", func(interface{}) bool { return false }),
		whole("@.push && @.push(1)", func(e interface{}) bool { _, is := e.(list); return is }),
		whole("@[0] = 7, @.length === 1", func(e interface{}) bool { _, is := e.(list); return is }),
		whole("(function () { var r = @.b; @.b = 0; return r })()", func(e interface{}) bool {
			m, is := e.(obj)
			return is && truthy(m["b"])
		}),
	}
	j := jom.NewFromMap(doc)
	f := fs[sym.Choose("filter", len(fs))]
	checkFilter(j, doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
	checkFilter(j, doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
}

// leaving are expressions that leave something behind in their interpreter, and hold when nothing was left behind before.
var leaving = []string{
	"typeof seen == 'undefined' && (seen = true)",
	"(function () { var had = typeof n != 'undefined'; n = 1; return !had })()",
	"[].zz === undefined && (Array.prototype.zz = 1)",
	"({}).zz === undefined && (Object.prototype.zz = true)",
	"this.zz = (this.zz || 0) + 1, this.zz === 1",
	"isNaN(NaN) && (isNaN = function () { return false }, true)",
}

// HDetFilter: a selection with a filter gives the same whatever was selected before, by another filter or itself.
func HDetFilter() {
	doc := obj{"a": list{1.0, sym.JSON("e", sym.Spec{Depth: 0, Leaves: sym.LNil | sym.LNum}), obj{"b": 2.0}}, "lim": 1.0}
	exprs := append([]string{"@ === $.lim", "@.b", "nosuch", "typeof seen != 'undefined'", "isNaN(@)"}, leaving...)
	pick := func() string { return "$.a[?(" + exprs[sym.Choose("filter", len(exprs))] + ")]" }
	text := pick()
	n1, e1 := jom.NewFromMap(sym.Clone(doc).(obj)).JsonPathSelector(text)
	j := jom.NewFromMap(doc)
	for n := 1 + sym.Choose("before", 1+sym.Tier()); n > 0; n-- {
		j.JsonPathSelector(pick())
	}
	n2, e2 := j.JsonPathSelector(text)
	sym.Assert((e1 == nil) == (e2 == nil) && (e1 == nil || e1.Error() == e2.Error()), "a selection with a filter fails or not depending on what was selected before")
	sym.Assert(sameList(values(n1), values(n2)), "a selection with a filter gives something else after another one")
}

// HFilterRefs: paths within an expression are those of the whole document.
func HFilterRefs() {
	vals := func() interface{} {
		return []interface{}{1.0, nil, "a", "", false, list{2.0}, list{}, list{1.0, nil}, obj{"c": "x"}, "@'s \"@\""}[sym.Choose("value", 10)]
	}
	l, e := vals(), vals()
	node := sym.JSON("node", sym.Spec{Depth: 0, Leaves: sym.LNum | sym.LNil | sym.LStr | sym.LBool, StrLen: 1})
	doc := obj{"a": obj{"c": list{node, "@'s \"@\""}}, "lim": l, "x": list{obj{"n": l}, obj{"n": e}}}
	eq := func(v interface{}) func(interface{}) bool {
		return func(e interface{}) bool { return !isContainer(v) && sym.DeepEqual(e, v) }
	}
	one := func(v interface{}) interface{} { // a selection of one value is that value
		if a, is := v.(list); is && len(a) == 1 {
			return a[0]
		}
		return v
	}
	lim1, e1 := one(l), one(e)
	fs := []filter{
		whole("$.lim === @", eq(lim1)),
		whole("@ === $.x[0].n && true", eq(lim1)),
		whole("@ === $.x[-1:].n", eq(e)),
		whole("$.x.n", func(interface{}) bool { return true }),
		whole("$.x.length", nil),
		whole("$.lim === @ || $.x[1].n === @", func(e interface{}) bool { return eq(lim1)(e) || eq(e1)(e) }),
	}
	i := sym.Choose("filter", len(fs))
	if i == 4 {
		i = 3
	}
	steps := []step{{kind: sKey, key: "a"}, {kind: sKey, key: "c"}, {kind: sFilter, f: fs[i]}}
	if sym.Choose("before", 2) == 1 {
		// the same filter, of a document with other values at the paths
		other := obj{"a": obj{"c": list{"q", 7.0}}, "lim": "q", "x": list{obj{"n": 7.0}, obj{"n": "q"}}}
		paths := json_map.AbsolutePaths{keysOf(steps)}
		jom.NewFromMap(other).GetAbsolutePaths(&paths)
	}
	checkFilter(jom.NewFromMap(doc), doc, steps)
}

// filterChange is a set or delete through a filter.
func filterChange(del bool) {
	f := few()
	x, y := small("x"), small("y")
	var c interface{} = list{x, y}
	if sym.Choose("map", 2) == 1 {
		c = obj{"p": x, "q": y}
	}
	doc := obj{"a": c, "lim": 1.0}
	steps := []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}}
	switch sym.Choose("after", 3) {
	case 1:
		steps = append(steps, step{kind: sKey, key: "b"})
	case 2:
		steps = []step{{kind: sWild}, {kind: sFilter, f: f}}
		delete(doc, "lim")
		doc["b"] = list{1.0, obj{"b": 1.0}}
		if strings.Contains(f.expr, "$") {
			sym.Assume(false)
		}
	}
	var v, rv interface{} = 42.0, 42.0
	if del {
		v, rv = nil, gone{}
	}
	before := sym.Clone(doc)
	want, ok := refSet(before, steps, rv)
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	var err error
	if sym.Choose("astext", 2) == 1 {
		err = j.JsonPathSetter(text(steps), v)
	} else {
		err = j.SetAbsolutePaths(&paths, v)
	}
	if ok {
		sym.Reach("changes")
		sym.Assert(err == nil, "an applicable path was refused")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the places changed that the filter holds for")
		return
	}
	sym.Reach("fails")
	sym.Assert(err != nil, "a path that cannot be applied was accepted without an error")
	if _, ok := refSet(before, steps[:len(steps)-1], 1.0); ok && len(steps) == 2 && steps[0].kind == sKey {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a filter that throws changed the document")
	}
}

func HFilterSet() {
	filterChange(false)
}

func HFilterDelete() {
	filterChange(true)
}

// HFilterOrder: the order of what a filter selects in an object does not depend on the order of the map.
func HFilterOrder() {
	doc := obj{"a": obj{"z": 3.0, "x": sym.Float("x"), "y": "y"}}
	sym.MapOrder(1)
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: filters(1.0)[[]int{8, 14}[sym.Choose("filter", 2)]]}})
}

// HFilterTime: the time that the evaluations for other nodes take does not count.
func HFilterTime() {
	ms := []string{"0", "400", "700"}[sym.Choose("takes", 3)]
	f := whole("(function () { var t = Date.now(); while (Date.now() - t < "+ms+"); return @ })()", truthy)
	l := list{}
	for n := 1 + sym.Choose("n", 3); n > 0; n-- {
		l = append(l, float64(n%3))
	}
	doc := obj{"a": l}
	sym.Spin(1000000)
	checkFilter(jom.NewFromMap(doc), doc, []step{{kind: sKey, key: "a"}, {kind: sFilter, f: f}})
}
