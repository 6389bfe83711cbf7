package h

import (
	"encoding/json"
	"math"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Texts, numbers and keys that look like something else, or that are written
// in another way in JSON, in JavaScript or in hjson.

var oddTexts = []string{
	"12", "-0.5", "1e3", "0x1F", "null", "true", "false", "undefined", "NaN", "[1]", "{}", "{\"a\": 1}", "\"q\"", "'q'", " ", "  x ", "\n", "a\nb", "\r\n", "\t",
	"\x00", "\x1f\x7f", "\u2028", "\u2029", "\ufeff", "\ufffd", "\u00e9", "\u65e5\u672c", "\U0001f600", "e\u0301", "<a href=\"&\">", "\\", "\\n", "\\u0041", "\\\\", "end\\",
	"$", "$.a", "@", "@.a", "[?(@)]", "${x}", "%d %s%", "`x`", "//", "/* x */", "# x", "#", "'''", "''' x '''", "a: b", "a,b", "{", "}", "]", "*/", "__proto__", "2020-01-01T00:00:00.000Z", "\a", "\v\b\f", "\x1b[0m", "\U000e0001", "%q", "100%", "\u0300", "#//", "#//!", "#//!j", " #//!js\nx", "x\n#//!js\n",
}

var oddNumbers = []float64{0.1, 1e20, 1e21, 1e-6, 1e-7, 1e300, 123456789012345678, 4503599627370497.5, 5e-324, math.MaxFloat64, -1e15, 2147483648, -2147483649, 9007199254740993, 1.0 / 3}

var oddKeys = []string{
	"", " ", "a b", "a.b", "a[0]", "0", "1", "-1", "00", "$", "@", "*", "..", "\"", "'", "\\", "\n", "\x00", "\u2028", "\u00e9", "\U0001f600", "<&>", "__proto__", "constructor", "toString", "toJSON", "hasOwnProperty", "valueOf", "length", "prototype",
	"trail", "array", "json", "console", "null", "true", "#", "//", "#//!js", "%s", "A", "a", "Z", "_", "z\u0301",
}

func oddValue() interface{} {
	switch sym.Choose("kind", 3) {
	case 0:
		return oddTexts[sym.Choose("text", len(oddTexts))]
	case 1:
		return oddNumbers[sym.Choose("number", len(oddNumbers))]
	}
	return obj{oddKeys[sym.Choose("key", len(oddKeys))]: 1.0, "b": list{nil, obj{}}}
}

// oddChange is what is done with keys of every kind.
func oddChange(op int) {
	k := oddKeys[sym.Choose("key", len(oddKeys))]
	x := sym.Float("x")
	doc := obj{k: obj{k: x, "n": list{obj{k: x}, 2.0, list{obj{k: nil}}}}, "m": obj{"m": list{k}}}
	st := [][]step{
		{key(k)}, {key(k), key(k)}, {key(k), key("n"), key(k)}, {{kind: sRec, key: k}}, {key(k), {kind: sRec, key: k}}, {{kind: sFirst}, {kind: sFirst}, {kind: sIndex, i: 0}},
		{{kind: sWild}, {kind: sIndex, i: 0}}, {key(k), {kind: sWild}}, {key("m"), key(k)}, {key("m"), {kind: sWild}},
	}
	steps := st[sym.Choose("path", len(st))]
	j := jom.NewFromMap(doc)
	paths := json_map.AbsolutePaths{keysOf(steps)}
	if op == 0 {
		nodes, errs := j.GetAbsolutePaths(&paths)
		checkGet(doc, steps, nodes, errs, !looksUp(steps))
		return
	}
	for _, s := range steps[:len(steps)-1] {
		sym.Assume(s.kind != sRec)
	}
	var v, rv interface{} = oddTexts[7*sym.Choose("text", 9)], nil
	rv = v
	if op == 2 {
		v, rv = nil, gone{}
	}
	before := sym.Clone(doc)
	want, ok := refSet(sym.Clone(doc), steps, rv)
	err := j.SetAbsolutePaths(&paths, v)
	sym.Assert((err == nil) == ok, "a path that can be applied was refused, or one that cannot be was not")
	if ok {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the designated places changed")
	} else if onePlace(before, steps) {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a failed change of a single place changed the document")
	}
}

// HGetOdd: selections by and among keys of every kind.
func HGetOdd() {
	oddChange(0)
}

// HSetOdd: changes by and among keys of every kind.
func HSetOdd() {
	oddChange(1)
}

// HDeleteOdd: deletes by and among keys of every kind.
func HDeleteOdd() {
	oddChange(2)
}

// HStripOdd: scripts under keys of every kind.
func HStripOdd() {
	code.RegisterLang("js", noRunner)
	k, l := oddKeys[sym.Choose("key", len(oddKeys))], oddKeys[(sym.Choose("other", 3)*13+1)%len(oddKeys)]
	s := "#//!js" + sym.Str("end", 1, "\nx ")
	doc := obj{l: oddTexts[sym.Choose("text", len(oddTexts))], "in": obj{l: 1.0}, "l": list{obj{k: s}}}
	doc["in"].(obj)[k] = s
	doc[k] = s
	want, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	sym.Assert(j.FindScriptFields() == found, "scripts are found (or not) against the document")
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping does not leave exactly what is no script entry")
}

// HRunOdd: scripts in objects under keys of every kind run in their scopes.
func HRunOdd() {
	k := oddKeys[sym.Choose("key", len(oddKeys))]
	s := oddKeys[sym.Choose("script", 5)*9]
	v := oddTexts[sym.Choose("text", 7)*9]
	var paths list
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		paths = append(paths, j.GetCurrentScopePath())
		out := j.Clone(true)
		m := sym.Clone(*j.GetInsides()).(obj)
		m["new "+k] = v
		*out.GetInsides() = m
		return out, nil
	})
	doc := obj{k: obj{s: "#//!js\n", k + "2": v}, "l" + k: list{v, obj{s: "#//!js\n"}}}
	want := obj{k: obj{k + "2": v, "new " + k: v}, "l" + k: list{v, obj{"new " + k: v}}}
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "running does not leave what the scripts made of the document")
	sym.Assert(sym.SameMultiset(paths, list{"$." + k, "$.l" + k + ".[1]"}), "scripts are run in the wrong scopes")
}

// HJsOdd: values of every kind are the same in a script, in a selector, and after it.
func HJsOdd() {
	code.RegisterLang("js", js.RunScript)
	v := oddValue()
	other := sym.Str("other", 1, ascii)
	doc := obj{"v": v, "l": list{v, other}, "x": "old"}
	want := sym.Clone(doc).(obj)
	src := ""
	text, isText := v.(string)
	switch sym.Choose("script", 7) {
	case 0:
		src = "1"
	case 1:
		src, want["x"] = "json.trail.x = json.trail.v", sym.Clone(v)
	case 2:
		src, want["x"] = "json.trail.x = json.jsonPathSelector('$.v').getValues()", list{sym.Clone(v)}
	case 3:
		src, want["x"] = "json.jsonPathSelector('$.x').setValues(json.trail.v)", sym.Clone(v)
	case 4:
		src = "json.jsonPathSelector('$.l[1]').setValues('new')"
		want["l"] = list{sym.Clone(v), "new"}
	case 5:
		lit, err := json.Marshal(v)
		sym.Assume(err == nil)
		src, want["x"] = "json.jsonPathSelector('$.x').setValues("+string(lit)+"); if (typeof json.trail.v !== 'object' && json.trail.v !== json.trail.x) { json.trail.x = 0 }", sym.Clone(v)
	case 6:
		// the text as a key
		sym.Assume(isText)
		lit, err := json.Marshal(v)
		sym.Assume(err == nil)
		sym.Assume(text != "__proto__") // not a key like others to otto
		src, want["x"] = "json.trail.x = {}; json.trail.x["+string(lit)+"] = 1", obj{text: 1.0}
	}
	doc["s"] = "#//!js\n" + src
	root, at := inner(doc)
	after, p := runJs(jom.NewFromMap(root), at)
	sym.Assert(p == nil, "a script that does not fail ended the run with an error")
	sym.Assert(sym.DeepEqual(after, want), "the object that a script is in is not what the script made of json.trail, or something else changed")
}

// HRoundTripOdd: values of every kind are read, evaluated and written as they are.
func HRoundTripOdd() {
	v := oddValue()
	b := sym.Bool("b")
	var root interface{} = obj{"v": v, "b": b, "l": list{v, list{}, obj{"w": v}}}
	if sym.Choose("array", 2) == 1 {
		root = list{v, b, obj{"v": v}}
	}
	data, err := json.Marshal(root)
	sym.Assume(err == nil)
	var out []byte
	if sym.Choose("eval", 2) == 1 {
		out, err = jom.Eval(data, false)
		sym.Assert(err == nil, "a document is not evaluated")
	} else {
		j := jom.New()
		sym.Assert(j.Unmarshal(data) == nil && holds(j, root), "a JsonMap does not hold exactly the document that it read, whatever it held before")
		out, err = j.Marshal()
		sym.Assert(err == nil, "a document cannot be written")
	}
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, root), "what is written is not the document")
}

// HFilterOdd: nodes of every kind are judged as what they are, next to paths to them.
func HFilterOdd() {
	v := oddValue()
	_, isText := v.(string)
	node := sym.Str("node", 1, ascii)
	doc := obj{"c": list{node, v, 3.0, "x", nil}, "x": v, "k": obj{"1": v, "2": node}}
	not := func(holds func(e interface{}) bool) func(e interface{}) bool {
		return func(e interface{}) bool { return !holds(e) }
	}
	same := func(e interface{}) bool { return !isContainer(v) && sym.DeepEqual(e, v) }
	text := func(e interface{}) bool { _, is := e.(string); return is }
	fs := []filter{
		whole("@ === $.x", same),
		whole("!($.x === @ )", not(same)),
		whole("typeof @ === 'string'", text),
		whole("typeof (@) == 'string' && @ !== $.x", func(e interface{}) bool { return text(e) && !same(e) }),
	}
	f := fs[sym.Choose("filter", len(fs))]
	if !isText && f.expr == fs[3].expr {
		sym.Assume(false)
	}
	steps := []step{key("c"), {kind: sFilter, f: f}}
	if sym.Choose("map", 2) == 1 {
		steps[0] = key("k")
	}
	checkFilter(jom.NewFromMap(doc), doc, steps)
}
