package h

import (
	"bytes"
	"io"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Scripts in JavaScript: the real runner on the real interpreter.

// script is a source and what it does to the object that it is in; nil when it throws.
type script struct {
	src string
	do  func(o obj) obj
}

func put(o obj, k string, v interface{}) obj {
	o[k] = v
	return o
}

// scripts that change a scope with the properties a (anything), b (a number) and maybe l (an array).
var scripts = []script{
	{"", func(o obj) obj { return o }},
	{"json.trail.a = json.trail.b", func(o obj) obj { return put(o, "a", o["b"]) }},
	{"delete json.trail.a", func(o obj) obj { delete(o, "a"); return o }},
	{"json.trail.a = undefined", func(o obj) obj { delete(o, "a"); return o }},
	{"json.trail.c = function () { return 1 }", func(o obj) obj { return o }},
	{"json.trail.c = {x: json.trail.a, y: [json.trail.b, null, undefined]}; json.trail.a = 'gone'", func(o obj) obj {
		o["c"] = obj{"x": o["a"], "y": list{o["b"], nil, nil}}
		return put(o, "a", "gone")
	}},
	{"var t = json.trail; t.a = null; t['new key'] = ''", func(o obj) obj { return put(put(o, "a", nil), "new key", "") }},
	{"if (json.trail.b > 2) json.trail.c = 'big'; else delete json.trail.b", func(o obj) obj {
		if o["b"].(float64) > 2 {
			return put(o, "c", "big")
		}
		delete(o, "b")
		return o
	}},
	{"json.trail = {b: json.trail.b}", func(o obj) obj { return obj{"b": o["b"]} }},
	{"json.trail.l.push(json.trail.b, [json.trail.a])", func(o obj) obj {
		return put(o, "l", append(append(list{}, o["l"].(list)...), o["b"], list{o["a"]}))
	}},
	{"json.trail.l.reverse(); json.trail.n = json.trail.l.length", func(o obj) obj {
		var r list
		for _, e := range o["l"].(list) {
			r = append(list{e}, r...)
		}
		return put(put(o, "l", r), "n", float64(len(r)))
	}},
	{"json.trail.l[0].p = json.trail.l[1]; json.trail.l.length = 1", func(o obj) obj {
		l := o["l"].(list)
		return put(o, "l", list{obj{"k": l[0].(obj)["k"], "p": l[1]}})
	}},
	{"var o = {}; for (var k in json.trail) if (typeof json.trail[k] == 'number') o[k] = true; json.trail.c = o", func(o obj) obj {
		c := obj{}
		for k, v := range o {
			if _, is := v.(float64); is {
				c[k] = true
			}
		}
		return put(o, "c", c)
	}},
	{"json.trail = {}", func(o obj) obj { return obj{} }},
	{"Object.keys(json.trail).forEach(function (k) { delete json.trail[k] })", func(o obj) obj { return obj{} }},
	{"json.trail = {a: undefined, s: 'mine', f: function () {}}", func(o obj) obj { return obj{} }},
	{"json.trail.c = {u: undefined, f: function () {}, o: {}, l: [], n: -0.5, e: 1e21, s: '\\u0041\\n'}", func(o obj) obj {
		return put(o, "c", obj{"o": obj{}, "l": list{}, "n": -0.5, "e": 1e21, "s": "A\n"})
	}},
	{"json.trail = JSON.parse(JSON.stringify(json.trail)); delete json.trail.s", func(o obj) obj { return o }},
	{"var t = json.trail; json.trail = {t: t.a, l: t.l}; t.a = 'lost'; t.l[1] = 'kept'", func(o obj) obj {
		return obj{"t": o["a"], "l": list{o["l"].(list)[0], "kept"}}
	}},
	{"json.trail[''] = json.trail['$'] = json.trail['@.x'] = 1", func(o obj) obj {
		return put(put(put(o, "", 1.0), "$", 1.0), "@.x", 1.0)
	}},
	{"json.trail.here = json.scopePath", func(o obj) obj { return put(o, "here", "$") }},
	{"json.scopePath = 1; console.log = null; var jsonTrail = {}", func(o obj) obj { return o }},
	{"json.trail.c = 1; throw new Error('mine')", nil},
	{"json.trail.c = 1; nosuch()", nil},
	{"json.trail.c = = 1", nil},
	{"json.trail = 1", nil},
	{"json.trail = [1]", nil},
	{"json.trail = null", nil},
	{"json.trail = undefined", nil},
	{"json.trail = function () {}", nil},
	{"json.trail.self = json.trail", nil},
	{"json = undefined", nil},
}

// scope is the object that the scripts above run in.
func scope() obj {
	return obj{
		"a": sym.JSON("a", sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNil | sym.LBool | sym.LStr, StrLen: 1}),
		"b": sym.Float("b"),
		"l": list{obj{"k": sym.Str("k", 1, ascii)}, sym.JSON("e", sym.Spec{Depth: 0, Leaves: sym.LBool | sym.LNil})},
	}
}

// HJsTrail: what a script leaves in json.trail is what becomes of the object that it is in.
func HJsTrail() {
	code.RegisterLang("js", js.RunScript)
	s := scripts[sym.Choose("script", len(scripts))]
	doc := scope()
	before := sym.Clone(doc).(obj)
	doc["s"] = "#//!js\n" + s.src
	other := sym.Str("other", 1, ascii)
	var root, want obj
	where := sym.Choose("where", 3)
	in := func(o obj) obj {
		switch where {
		case 1:
			return obj{"o": o, "x": other}
		case 2:
			return obj{"o": list{other, o}}
		}
		return o
	}
	root = in(doc)
	j := jom.NewFromMap(root)
	p := sym.Panics(func() { j.Run() })
	if s.do == nil {
		sym.Reach("throws")
		e, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p) && e.Error() != "", "a script that fails does not end the run with an error")
		return
	}
	sym.Assert(p == nil, "a script that does not fail ended the run with an error")
	after := s.do(sym.Clone(before).(obj))
	if h, has := after["here"]; has && h == "$" {
		after["here"] = []string{"$", "$.o", "$.o.[1]"}[where]
	}
	want = in(after)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the object that a script is in is not what the script made of json.trail, or something else changed")
}

// jsStep is a step that can be written out.
func jsStep() step {
	switch sym.Choose("step", 10) {
	case 0:
		return step{kind: sKey, key: "a"}
	case 1:
		return step{kind: sKey, key: "b"}
	case 2:
		return step{kind: sIndex, i: 0}
	case 3:
		return step{kind: sIndex, i: 1}
	case 4:
		return step{kind: sIndex, i: -1}
	case 5:
		return step{kind: sWild}
	case 6:
		return step{kind: sSlice, hasJ: true, j: 2}
	case 7:
		return step{kind: sSlice, hasI: true, i: -2}
	case 8:
		return step{kind: sFirst}
	}
	return step{kind: sRec, key: "a"}
}

// jsPath is a path of up to n steps below the property d of the scope.
func jsPath(n int) []step {
	steps := []step{{kind: sKey, key: "d"}}
	for k := sym.Choose("steps", n+1); k > 0; k-- {
		steps = append(steps, jsStep())
	}
	for i, s := range steps {
		if s.kind == sFirst && (i == len(steps)-1 || steps[i+1].kind == sRec) {
			sym.Assume(false) // dots with nothing after them, or with dots of another meaning
		}
	}
	return steps
}

// leafy is one of the shapes with one of its leaves of any value.
func leafy() obj {
	d := shape()
	d["b"] = sym.Str("b", 1, " &-~")
	return d
}

// runJs runs a script in a document and returns the object it is in.
func runJs(j *jom.JsonMap, at func(obj) obj) (after obj, p interface{}) {
	p = sym.Panics(func() { j.Run() })
	if p == nil {
		after = at(*j.GetInsides())
	}
	return after, p
}

// inner is the scope of the harnesses below: the root or an object in it.
func inner(o obj) (root obj, at func(obj) obj) {
	if sym.Choose("inner", 2) == 1 {
		return obj{"o": o, "d": 1.0}, func(r obj) obj { return r["o"].(obj) }
	}
	return o, func(r obj) obj { return r }
}

func quote(s string) string {
	return "'" + strings.Replace(s, "'", "\\'", -1) + "'"
}

// HJsGet: getValues gives what the path selects in the scope as the script has left it so far.
func HJsGet() {
	code.RegisterLang("js", js.RunScript)
	doc := obj{"d": leafy(), "x": 1.0}
	steps := jsPath(2)
	src := "var s = json.jsonPathSelector(" + quote(text(steps)) + "); "
	late := sym.Choose("late", 2) == 1
	now := sym.Clone(doc).(obj)
	if late {
		src += "json.trail.d.a = [{a: 7}, 'new']; delete json.trail.d.c; "
		d := now["d"].(obj)
		d["a"] = list{obj{"a": 7.0}, "new"}
		delete(d, "c")
	}
	src += "json.trail.out = s.getValues()"
	want, ok := refGet(now, steps)
	doc["s"] = "#//!js\n" + src
	root, at := inner(doc)
	after, p := runJs(jom.NewFromMap(root), at)
	if !ok {
		sym.Reach("throws")
		e, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p) && strings.Contains(e.Error(), "JSONPathError"), "a path that fails does not fail the script with a JSONPathError")
		return
	}
	sym.Reach("selects")
	sym.Assert(p == nil, "a path that can be applied fails the script")
	out, is := after["out"].(list)
	sym.Assert(is && sameList(out, results(want)), "getValues does not give the values that the path selects")
	delete(after, "out")
	sym.Assert(sym.DeepEqual(after, now), "getValues changed the scope")
}

// jsValues are expressions for setValues and what they are as values; x is that of json.trail.x.
func jsValues(x interface{}) (expr string, v interface{}) {
	switch sym.Choose("value", 9) {
	case 0:
		return "5", 5.0
	case 1:
		return "'te\\'xt\\n'", "te'xt\n"
	case 2:
		return "false", false
	case 3:
		return "{x: 1, y: [null, {z: 'q', u: undefined}]}", obj{"x": 1.0, "y": list{nil, obj{"z": "q"}}}
	case 4:
		return "[json.trail.x, [2], []]", list{x, list{2.0}, list{}}
	case 5:
		return "{}", obj{}
	case 6:
		return "json.trail.x", x
	case 7:
		return "null", gone{}
	}
	return "undefined", gone{}
}

// HJsSet: setValues changes what the path designates in the scope, or nothing if it cannot.
func HJsSet() {
	code.RegisterLang("js", js.RunScript)
	doc := obj{"d": leafy()}
	steps := jsPath(2)
	doc["x"] = sym.Str("x", 1, ascii)
	if len(steps) == 1 {
		doc["x"] = sym.Float("x")
	}
	for i, s := range steps {
		if s.kind == sRec && i < len(steps)-1 {
			sym.Assume(false)
		}
	}
	var expr string
	var v interface{}
	if sym.Tier() == 0 && len(steps) == 3 {
		// few values where the path is what counts
		if sym.Choose("delete", 2) == 1 {
			expr, v = "null", gone{}
		} else {
			expr, v = "json.trail.x", doc["x"]
		}
	} else {
		expr, v = jsValues(doc["x"])
	}
	want, ok := refSet(doc, steps, v)
	before := sym.Clone(doc).(obj)
	src := "var s = json.jsonPathSelector(" + quote(text(steps)) + "); "
	catch := sym.Choose("catch", 2) == 1
	if catch {
		src += "try { s.setValues(" + expr + ") } catch (e) { json.trail.err = e.name + typeof e.message }"
	} else {
		src += "s.setValues(" + expr + ")"
	}
	doc["s"] = "#//!js\n" + src
	root, at := inner(doc)
	after, p := runJs(jom.NewFromMap(root), at)
	if !ok {
		sym.Reach("throws")
		if !catch {
			e, isErr := p.(error)
			sym.Assert(isErr && !sym.IsRuntime(p) && strings.Contains(e.Error(), "JSONPathError"), "a path that cannot be applied does not fail the script with a JSONPathError")
			return
		}
		sym.Assert(p == nil, "a script cannot catch that a path cannot be applied")
		sym.Assert(after["err"] == "JSONPathErrorstring", "what a script catches is not a JSONPathError with a message")
		delete(after, "err")
		sym.Assert(sym.DeepEqual(after, before), "setValues of a path that cannot be applied changed the scope")
		return
	}
	sym.Reach("sets")
	sym.Assert(p == nil, "a path that can be applied fails the script")
	sym.Assert(sym.DeepEqual(after, want), "setValues did not change exactly what the path designates")
}

// consoleCall is a call of the console, where it writes, and the lines of its message.
type consoleCall struct {
	src   string
	err   bool
	kind  string
	lines func(x string) string
}

var consoleCalls = []consoleCall{
	{"console.log(json.trail.x)", false, "Print", func(x string) string { return x }},
	{"console.error(json.trail.x)", true, "Error", func(x string) string { return x }},
	{"printlnExternal('legacy', json.trail.x, true, -1.5)", false, "Print", func(x string) string { return "legacy " + x + " true -1.5" }},
	{"console.log()", false, "Print", func(string) string { return "" }},
	{"console.error(1, undefined, '')", true, "Error", func(string) string { return "1 undefined " }},
	{"[1, 2].forEach(function (n) { console.log(n + json.trail.x) }); 0", false, "", nil},
}

// HJsConsole: every call of the console writes one message to its stream, in the order of the calls.
func HJsConsole() {
	code.RegisterLang("js", js.RunScript)
	var out, errs bytes.Buffer
	defer func(o, e io.Writer) { js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = o, e }(js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr)
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = &out, &errs
	x := sym.Str("x", 1+sym.Choose("n", 2), "a\n\t%\r")
	where := sym.Choose("where", 3)
	path := []string{"$", "$.o", "$.o.[1]"}[where]
	src := ""
	var wantOut, wantErr []string
	for n := 1 + sym.Choose("calls", 2); n > 0; n-- {
		c := consoleCalls[sym.Choose("call", len(consoleCalls))]
		src += c.src + ";\n"
		if c.lines == nil {
			wantOut = append(wantOut, "Print", "1"+x, "Print", "2"+x)
		} else if c.err {
			wantErr = append(wantErr, c.kind, c.lines(x))
		} else {
			wantOut = append(wantOut, c.kind, c.lines(x))
		}
	}
	doc := obj{"x": x, "s": "#//!js\n" + src}
	root := doc
	switch where {
	case 1:
		root = obj{"o": doc}
	case 2:
		root = obj{"o": list{1.0, doc}}
	}
	p := sym.Panics(func() { jom.NewFromMap(root).Run() })
	sym.Assert(p == nil, "a script that writes to the console fails")
	checkConsole(out.String(), wantOut, path)
	checkConsole(errs.String(), wantErr, path)
}

// checkConsole compares a stream with the kinds and messages that it should hold.
func checkConsole(got string, want []string, path string) {
	for i := 0; i < len(want); i += 2 {
		end := strings.Index(got, "\n")
		sym.Assert(end >= 0, "a message of the console is missing, or on the other stream")
		sym.Assert(strings.HasPrefix(got[:end], want[i]+" call from: ") && strings.Contains(got[:end], "<"+path+">"), "a message of the console is not of its kind, or not from its scope")
		got = got[end+1:]
		text := "\t" + strings.Replace(want[i+1], "\n", "\n\t", -1) + "\n"
		sym.Assert(strings.HasPrefix(got, text), "a message of the console is not what was written, with its lines indented")
		got = got[len(text):]
	}
	sym.Assert(got == "", "the console holds more than was written")
}

// HJsBadCalls: calls that make no sense throw JSONPathErrors that a script can catch, and change nothing.
func HJsBadCalls() {
	code.RegisterLang("js", js.RunScript)
	calls := []string{
		"json.jsonPathSelector()", "json.jsonPathSelector(1)", "json.jsonPathSelector('x')", "json.jsonPathSelector('$.x', '$.x')",
		"json.jsonPathSelector('$.x[')", "json.jsonPathSelector('')", "json.jsonPathSelector(null)", "json.jsonPathSelector(['$.x'])",
		"json.jsonPathSelector('$.x').setValues()", "json.jsonPathSelector('$.x').setValues(1, 2)", "json.jsonPathSelector('$.y').getValues()",
		"json.jsonPathSelector('$.x[0]').setValues(1)", "json.jsonPathSelector('$.x[?(@ +)]').getValues()", "json.jsonPathSelector('$.l[?(nosuch)]').getValues()",
		"json.jsonPathSelector('$.l[5]').setValues(null)",
	}
	x := sym.JSON("x", sym.Spec{Depth: 0, Leaves: sym.LNil | sym.LBool | sym.LStr, StrLen: 1})
	call := calls[sym.Choose("call", len(calls))]
	want := obj{"x": x, "l": list{1.0}, "err": "JSONPathErrorstring"}
	doc := obj{"x": x, "l": list{1.0}}
	if sym.Choose("catch", 2) == 1 {
		doc["s"] = "#//!js\ntry { " + call + " } catch (e) { json.trail.err = e.name + typeof e.message }"
		j := jom.NewFromMap(doc)
		p := sym.Panics(func() { j.Run() })
		sym.Assert(p == nil, "a script cannot catch the error of a call that makes no sense")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "a call that makes no sense does not throw a JSONPathError, or changed the scope")
		return
	}
	doc["s"] = "#//!js\njson.trail.x = 'lost'; " + call + "; json.trail.y = 1"
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	e, isErr := p.(error)
	sym.Assert(isErr && !sym.IsRuntime(p) && strings.Contains(e.Error(), "JSONPathError"), "a call that makes no sense does not fail the script with a JSONPathError")
}

// noKeys drops the keys of steps that have none, which may be null or missing.
func noKeys(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		r := obj{}
		for k, e := range x {
			if k != "key" || e != nil {
				r[k] = noKeys(e)
			}
		}
		return r
	case list:
		r := list{}
		for _, e := range x {
			r = append(r, noKeys(e))
		}
		return r
	}
	return v
}

// HJsPaths: _absolutePaths lists the paths that the selector stands for.
func HJsPaths() {
	code.RegisterLang("js", js.RunScript)
	texts := []string{"$.a", "$.a[1].b[*]", "$.a[0,2].b", "$...a[:-1]", "$..b[1:2]", "$.*[?(@.b > 1)]", "$.a[0,1][1,0]", "$[0][-1:]"}
	t := texts[sym.Choose("path", len(texts))]
	var want list
	paths, err := json_map.ParseJsonPath(t)
	sym.Assert(err == nil, "the path is not read")
	var asValue func(k json_map.AbsolutePathKey) interface{}
	asValue = func(k json_map.AbsolutePathKey) interface{} {
		v := obj{"typeId": float64(k.KeyType), "typeName": json_map.AbsolutePathKeyTypeNames[k.KeyType]}
		switch x := k.Value.(type) {
		case int:
			v["key"] = float64(x)
		case []json_map.AbsolutePathKey:
			var l list
			for _, e := range x {
				l = append(l, asValue(e))
			}
			v["key"] = l
		case string:
			v["key"] = x
		}
		return v
	}
	for _, p := range paths {
		var l list
		for _, k := range p {
			l = append(l, asValue(k))
		}
		want = append(want, l)
	}
	x := sym.Float("x")
	j := jom.NewFromMap(obj{"x": x, "s": "#//!js\njson.trail.out = json.jsonPathSelector(" + quote(t) + ")._absolutePaths"})
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "a script that lists the paths of a selector fails")
	sym.Assert(sym.DeepEqual(noKeys(*j.GetInsides()), obj{"x": x, "out": want}), "_absolutePaths is not the paths that the text stands for")
}

// HJsChain: scripts see what the scripts before them made of their scope, and values selected are copies.
func HJsChain() {
	code.RegisterLang("js", js.RunScript)
	x := sym.Str("x", 1+sym.Tier(), ascii)
	root := obj{
		"s1": "#//!js\nvar leak = 1; json.trail.m.v = [json.trail.x]; json.trail.m.w = json.trail.m",
		"s2": "#//!js\njson.trail.n = json.trail.m.v[0]; json.trail.leak = typeof leak",
		"x":  x,
		"m":  obj{"k": 1.0, "s": "#//!js\njson.trail.v.push(json.trail.v[0] + '!'); json.trail.up = typeof json.trail.x"},
	}
	if sym.Choose("circular", 2) == 1 {
		j := jom.NewFromMap(root)
		p := sym.Panics(func() { j.Run() })
		_, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p), "a scope within itself does not fail the script with an error")
		return
	}
	root["s1"] = "#//!js\nvar leak = 1; json.trail.m.v = [json.trail.x]; var got = json.jsonPathSelector('$.m').getValues()[0]; got.k = 2; got.v.push(3); json.trail.c = got"
	j := jom.NewFromMap(root)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "scripts that do not fail ended the run with an error")
	// the copy c holds a script of its own, which runs in it
	m := func(k float64, v list) obj { return obj{"k": k, "v": append(v, x+"!"), "up": "undefined"} }
	want := obj{"x": x, "n": x, "leak": "undefined", "m": m(1, list{x}), "c": m(2, list{x, 3.0})}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "scripts do not build on what the scripts before them made of the document")
}

// HJsHistory: selectors stand for their path in the scope as it is, whatever was selected, set and changed before.
func HJsHistory() {
	code.RegisterLang("js", js.RunScript)
	x := sym.Str("x", 1, ascii)
	var now interface{} = obj{"a": obj{"b": x}, "l": list{1.0, obj{"b": 2.0}}}
	doc := sym.Clone(now).(obj)
	paths := [][]step{
		{{kind: sKey, key: "a"}, {kind: sKey, key: "b"}},
		{{kind: sRec, key: "b"}},
		{{kind: sKey, key: "l"}, {kind: sIndex, i: 0}},
		{{kind: sKey, key: "a"}},
		{{kind: sKey, key: "l"}, {kind: sWild}},
	}
	steps := paths[sym.Choose("path", len(paths))]
	src := "var o = [], s = json.jsonPathSelector(" + quote(text(steps)) + "), t = json.jsonPathSelector('$..b');"
	out := list{}
	ops := 3 + sym.Tier()
	for n := 0; n < ops; n++ {
		sel, at := "s", steps
		op := sym.Choose("op", 9)
		if op >= 7 {
			sel, at = "t", paths[1]
			op -= 7
		}
		var v interface{}
		switch op {
		case 0:
			src += "try { o.push(" + sel + ".getValues()) } catch (e) { o.push(e.name) };"
			if got, ok := refGet(sym.Clone(now), at); ok {
				out = append(out, sym.Clone(results(got)))
			} else {
				out = append(out, "JSONPathError")
			}
			continue
		case 1:
			src += "try { " + sel + ".setValues(json.trail.n) } catch (e) { o.push(e.name) };"
			v = now.(obj)["n"]
			if v == nil {
				v = gone{}
			}
		case 2:
			src += "try { " + sel + ".setValues({b: 'new'}) } catch (e) { o.push(e.name) };"
			v = obj{"b": "new"}
		case 3:
			src += "json.trail.a = {b: 'a', c: {b: 4}};"
			now.(obj)["a"] = obj{"b": "a", "c": obj{"b": 4.0}}
			continue
		case 4:
			src += "if (json.trail.l) json.trail.l = [{b: 5}].concat(json.trail.l);"
			if l, is := now.(obj)["l"].(list); is {
				now.(obj)["l"] = append(list{obj{"b": 5.0}}, l...)
			} else if now.(obj)["l"] != nil {
				sym.Assume(false)
			}
			continue
		case 5:
			src += "json.trail.n = 3;"
			now.(obj)["n"] = 3.0
			continue
		case 6:
			src += "json.trail = {a: {b: 6}, l: [json.trail.a]};"
			a := now.(obj)["a"]
			now = obj{"a": obj{"b": 6.0}, "l": list{sym.Clone(a)}}
			continue
		}
		if after, ok := refSet(sym.Clone(now), at, v); ok {
			now = after
		} else {
			out = append(out, "JSONPathError")
		}
	}
	doc["s"] = "#//!js\n" + src + "json.trail.out = o"
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "a script that catches its errors ended the run with an error")
	sym.Assert(sym.DeepEqual((*j.GetInsides())["out"], out), "a selector does not give what its path selects at that moment, or throws otherwise")
	delete(*j.GetInsides(), "out")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), now), "what the script and its selectors changed is not what the document is")
}
