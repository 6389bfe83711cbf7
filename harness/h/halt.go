package h

import (
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Time limits: scripts and filters that do not end by themselves are ended.

// endless are scripts that never end, each in its own way.
var endless = []string{
	"while (true);",
	"for (;;) { json.trail.n = 1 }",
	"var n = 0; do { n++ } while (n >= 0)",
	"while (true) { try { throw 1 } catch (e) {} finally { continue } }",
	"try { while (true); } catch (e) { while (true); } finally { while (true); }",
	"(function f() { for (;;) (function () { return 1 })() })()",
	"[3, 1, 2].sort(function () { for (;;); })",
	"[1].forEach(function () { while (1); })",
	"json.trail.o = {toJSON: function () { while (true); }}",
	"Object.defineProperty(json.trail, 'g', {enumerable: true, get: function () { while (true); }})",
	"console.log({toString: function () { while (true); }}, '' + {toString: function () { while (true); }})",
	"eval('while (true);')",
	"new Function('while (true);')()",
	"while (true) { json.jsonPathSelector('$.x').getValues() }",
	"JSON.parse('[1]', function () { while (true); })",
	"while (true) json.jsonPathSelector('$.x')",
}

// recursive scripts never end either, but run out of stack first.
var recursive = []string{
	"function f() { return f() } f()",
	"function f() { return 1 + g() } function g() { return f() + 1 } f()",
	"function f() { try { f() } catch (e) { f() } } f()",
	"var o = {toString: function () { return '' + o }}; '' + o",
	"var f = function () { [1].forEach(f) }; f()",
	"json.trail.o = {toJSON: function () { return JSON.stringify({x: json.trail.o}) }}",
	"function f() { new f() } new f()",
	"Object.defineProperty(json.trail, 'g', {enumerable: true, get: function () { return json.trail.g }})",
	"var o = {valueOf: function () { return +o }}; +o",
	"function f() { f.apply(null, []) } f()",
	"var s = 'f()'; function f() { eval(s) } f()",
}

// HHalt: an endless script is ended with an error when its time is up.
func HHalt() {
	code.RegisterLang("js", js.RunScript)
	defer func(d int) { globals.HaltingDelay = d }(globals.HaltingDelay)
	globals.HaltingDelay = 1 + sym.Choose("delay", 1+sym.Tier())
	src := endless[sym.Choose("script", len(endless))]
	where := sym.Choose("where", 3)
	path := []string{"$", "$.o", "$.o.[1]"}[where]
	doc := obj{"x": 1.0, "s": "#//!js\n" + src}
	root := doc
	switch where {
	case 1:
		root = obj{"o": doc}
	case 2:
		root = obj{"o": list{1.0, doc}}
	}
	j := jom.NewFromMap(root)
	sym.Spin(5000000)
	start := sym.Now()
	p := sym.Panics(func() { j.Run() })
	took := (sym.Now() - start) / 1000000
	e, isErr := p.(error)
	sym.Assert(isErr && !sym.IsRuntime(p), "an endless script does not end the run with an error")
	sym.Assert(strings.HasPrefix(e.Error(), haltMsg), "the error for an endless script is not that of the time limit")
	sym.Assert(strings.Contains(e.Error(), "<"+path+">") && strings.Contains(e.Error(), src), "the error for an endless script does not say which script it was")
	sym.Assert(int(took) >= 1000*globals.HaltingDelay, "a script is ended before its time is up")
	sym.Assert(int(took) < 1000*globals.HaltingDelay+500, "an endless script is ended long after its time is up")
}

// HHaltStack: a script that nests calls without end is ended with an error.
func HHaltStack() {
	code.RegisterLang("js", js.RunScript)
	defer func(d, c int) { globals.HaltingDelay, globals.CallDepth = d, c }(globals.HaltingDelay, globals.CallDepth)
	globals.HaltingDelay = 1
	globals.CallDepth = 20 + 80*sym.Tier()
	src := recursive[sym.Choose("script", len(recursive))]
	j := jom.NewFromMap(obj{"x": 1.0, "s": "#//!js\n" + src})
	sym.Spin(100000)
	start := sym.Now()
	p := sym.Panics(func() { j.Run() })
	took := (sym.Now() - start) / 1000000
	_, isErr := p.(error)
	sym.Assert(isErr && !sym.IsRuntime(p), "a script that nests calls without end does not end the run with an error")
	sym.Assert(int(took) < 1500, "a script that nests calls without end is ended long after its time is up")
}

// HHaltNot: scripts that end in time are not ended, whatever other scripts have used up.
func HHaltNot() {
	code.RegisterLang("js", js.RunScript)
	defer func(d int) { globals.HaltingDelay = d }(globals.HaltingDelay)
	globals.HaltingDelay = 1
	ms := []string{"0", "400", "700"}[sym.Choose("takes", 3)]
	src := "#//!js\nvar t = Date.now(); while (Date.now() - t < " + ms + "); json.trail.done = "
	root := obj{"s": src + "1"}
	switch sym.Choose("others", 3) {
	case 1:
		root["o"] = obj{"s": src + "1"}
	case 2:
		root["o"] = list{obj{"s": src + "1", "s2": src + "2"}}
	}
	want := sym.Clone(root).(obj)
	delete(want, "s")
	want["done"] = 1.0
	switch o := want["o"].(type) {
	case obj:
		want["o"] = obj{"done": 1.0}
	case list:
		o[0] = obj{"done": 2.0}
	}
	sym.Spin(1000000)
	j := jom.NewFromMap(root)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "a script that ends in time is ended by the time limit")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the effects of a slow script are lost")
}

// HHaltFilter: a filter that never ends for one of its nodes fails the selection in time.
func HHaltFilter() {
	defer func(c int) { globals.CallDepth = c }(globals.CallDepth)
	globals.CallDepth = 20 + 80*sym.Tier()
	exprs := []string{
		"(function () { while (@ !== 1); return true })()",
		"(function () { for (;;) { if (@ === 1) return false; try { throw 1 } catch (e) { continue } } })()",
		"@ === 1 || '' + {toString: function () { while (true); }}",
		"(function () { if (@ === 1) return true; function f() { return f() } return f() })()",
		"(function () { if (@ === 1) return true; var f = function () { try { f() } catch (e) { f() } }; f() })()",
	}
	i := sym.Choose("filter", len(exprs))
	l := list{1.0}
	if sym.Choose("other", 2) == 1 {
		l = append(l, sym.Str("e", 1, ascii))
	}
	var c interface{} = l
	if sym.Choose("map", 2) == 1 {
		c = obj{"a": l[0], "b": l[len(l)-1]}
	}
	doc := obj{"a": c}
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	if i < 3 {
		sym.Spin(5000000)
	} else {
		sym.Spin(100000)
	}
	start := sym.Now()
	nodes, err := j.JsonPathSelector("$.a[?(" + exprs[i] + ")]")
	took := (sym.Now() - start) / 1000000
	sym.Assert(sym.DeepEqual(doc, before), "a filter changed the document")
	if len(l) == 1 {
		sym.Assert(err == nil, "a filter that ends for every value fails")
		return
	}
	sym.Reach("endless")
	sym.Assert(err != nil && len(nodes) == 0, "a filter that never ends for one of the values does not fail the selection")
	if i < 3 {
		sym.Assert(strings.Contains(err.Error(), "Infinite loop has occurred after"), "the error for an endless filter is not that of the time limit")
		sym.Assert(took >= 1000, "a filter is ended before its time is up")
	}
	sym.Assert(took < 1500, "an endless filter is ended long after its time is up")
}

// HHaltCircular: an object within itself does not run anything forever.
func HHaltCircular() {
	code.RegisterLang("js", js.RunScript)
	srcs := []struct {
		src string
		ok  bool
	}{
		{"var o = {a: 1}; o.o = o; console.log(o); json.trail.done = 1", true},
		{"var a = [1]; a.push({a: a}); console.error(a, 1); json.trail.done = 1", true},
		{"console.log(json); console.log(json.trail, this); json.trail.done = 1", true},
		{"var o = {}; o.o = [o]; try { json.jsonPathSelector('$.x').setValues(o) } catch (e) { json.trail.done = 1 }", true},
		{"var o = {}; o.o = o; json.jsonPathSelector('$.x').setValues(o)", false},
		{"json.trail.o = {p: json.trail}", false},
	}
	c := srcs[sym.Choose("script", len(srcs))]
	root := obj{"x": sym.JSON("x", sym.Spec{Depth: 0, Leaves: sym.LNil | sym.LBool})}
	want := sym.Clone(root).(obj)
	want["done"] = 1.0
	root["s"] = "#//!js\n" + c.src
	sym.Spin(1000000)
	j := jom.NewFromMap(root)
	p := sym.Panics(func() { j.Run() })
	if !c.ok {
		_, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p), "an object within itself that cannot be JSON does not fail the script with an error")
		return
	}
	sym.Assert(p == nil, "an object within itself fails a script that does not put it into the document")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "a script with an object within itself lost its effects")
}
