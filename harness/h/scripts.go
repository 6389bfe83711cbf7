package h

import (
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// shebang reads the first line of a string value.
func shebang(s string) (tag, body string, is bool) {
	nl := len(s)
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			nl = i
			break
		}
	}
	if nl != 6 || s[:4] != "#//!" {
		return "", "", false
	}
	if nl < len(s) {
		body = s[nl+1:]
	}
	return s[4:6], body, true
}

func supported(tag string) bool { return tag == "js" || tag == "go" }

func noRunner(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) { return j, nil }

// HShebang: which strings are scripts, and what their source is.
func HShebang() {
	code.RegisterLang("js", noRunner)
	code.RegisterLang("go", noRunner)
	var s string
	switch sym.Choose("form", 3) {
	case 0:
		s = sym.Str("text", sym.Choose("n", 9+2*sym.Tier()), "")
	case 2:
		s = sym.Str("before", sym.Choose("n", 5), "") + "#//!js" + sym.Str("after", sym.Choose("m", 3), "")
	default:
		s = "#//!" + sym.Str("text", sym.Choose("n", 6+sym.Tier()), "jsgopyJ \n\r#!/")
	}
	tag, body, is := shebang(s)
	var c code.Code
	var ok bool
	p := sym.Panics(func() { c, ok = code.NewFrom(s) })
	if is && !supported(tag) {
		sym.Reach("unsupported")
		_, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p), "a shebang with an unknown language is not refused with an error")
		sym.Observe("refused")
		return
	}
	sym.Assert(p == nil, "looking at a string panicked")
	sym.Assert(ok == is, "a string is taken for a script (or not) against its first line")
	sym.Observe(ok)
	if is {
		sym.Reach("script")
		src, isStr := c.Script.(string)
		sym.Assert(isStr, "the source of a script is not a string")
		sym.Assert(src == body, "the source of a script is not the text after its first line")
		sym.Assert(c.ScriptLangShebang() == tag, "a script is given another language than its shebang names")
	}
}

// HShebangBody: everything after the first line is the source, whatever it looks like.
func HShebangBody() {
	code.RegisterLang("js", noRunner)
	body := sym.Str("before", sym.Choose("n", 3), "") + []string{"", "#//!js", "#//!js\n", "\n#//!js\n", "\n", "\r\n"}[sym.Choose("mid", 6)] + sym.Str("after", sym.Choose("m", 2+sym.Tier()), "")
	c, ok := code.NewFrom("#//!js\n" + body)
	sym.Assert(ok && c.Script == body, "the source of a script is not the text after its first line")
	sym.Observe(c.Script)
	c, ok = code.NewFrom(body + "\n#//!js")
	_, b, is := shebang(body + "\n#//!js")
	sym.Assert(ok == is && (!ok || c.Script == b), "a string is taken for a script (or not) against its first line")
}

// HShebangDoc: the same in a document: found, stripped and run exactly when it is a script.
func HShebangDoc() {
	ran := ""
	n := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran = c.Script.(string)
		n++
		return j, nil
	})
	s := "#//" + sym.Str("text", sym.Choose("n", 6+sym.Tier()), "!js \n#")
	tag, body, is := shebang(s)
	doc := obj{"k": obj{"s": s, "d": 1.0}}
	j := jom.NewFromMap(doc)
	op := sym.Choose("op", 3)
	found := false
	p := sym.Panics(func() {
		switch op {
		case 0:
			found = j.FindScriptFields()
		case 1:
			j.Strip()
		case 2:
			j.Run()
		}
	})
	if is && !supported(tag) {
		_, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p), "a shebang with an unknown language is not refused with an error")
		return
	}
	sym.Assert(p == nil, "a document with a string panicked")
	now := (*j.GetInsides())["k"].(obj)
	_, has := now["s"]
	switch op {
	case 0:
		sym.Assert(found == is && has, "a script is found (or not) against its first line")
	case 1:
		sym.Assert(has == !is, "an entry is stripped (or not) against its first line")
	case 2:
		sym.Assert(has == !is && (n == 1) == is, "an entry is run (or not) against its first line")
		if is {
			sym.Assert(ran == body, "what is run is not the text after the first line")
		}
	}
	if has {
		sym.Assert(now["s"] == s, "a string that is no script was changed")
	}
	sym.Assert(now["d"] == 1.0, "an entry beside a string was changed")
}

// HNotScripts: values of other kinds are never scripts; callbacks always are.
func HNotScripts() {
	code.RegisterLang("js", noRunner)
	vals := []interface{}{nil, true, 1.0, 7, list{"#//!js\nx"}, obj{"s": "#//!js\nx"}, []byte("#//!js\nx"), func() {}, func(s string) {}, "#//!js", "#//!js\n", "#//!js\n\n#//!go\n"}
	i := sym.Choose("value", len(vals)+1)
	if i == len(vals) {
		hit := 0
		var f func(json_map.JsonMapInt) = func(json_map.JsonMapInt) { hit++ }
		c, ok := code.NewFrom(f)
		sym.Assert(ok && c.ScriptLangShebang() == "go", "a callback is not taken for a Go script")
		c.Script.(func(json_map.JsonMapInt))(nil)
		sym.Assert(hit == 1, "the script of a callback is not the callback")
		return
	}
	var c code.Code
	var ok bool
	p := sym.Panics(func() { c, ok = code.NewFrom(vals[i]) })
	sym.Assert(p == nil, "looking at a value panicked")
	s, isStr := vals[i].(string)
	if isStr {
		_, body, is := shebang(s)
		sym.Assert(ok == is && c.Script == body, "a string is taken for a script (or not) against its first line")
		return
	}
	sym.Assert(!ok, "a value that is neither string nor callback is taken for a script")
}

// ---- stripping ------------------------------------------------------------------

type callback = func(json_map.JsonMapInt)

func isScript(v interface{}) bool {
	switch x := v.(type) {
	case string:
		_, _, is := shebang(x)
		return is
	case callback:
		return true
	}
	return false
}

// refStrip rebuilds a value without the script entries of its objects.
func refStrip(v interface{}) (r interface{}, found bool) {
	switch x := v.(type) {
	case obj:
		m := obj{}
		for k, e := range x {
			if isScript(e) {
				found = true
				continue
			}
			n, f := refStrip(e)
			m[k] = n
			found = found || f
		}
		return m, found
	case list:
		a := list{}
		for _, e := range x {
			n, f := refStrip(e)
			a = append(a, n)
			found = found || f
		}
		return a, found
	}
	return v, false
}

var stripLeaves = []interface{}{"#//!js\nx", "#//!js x", "data"}

func scriptDoc(depth, width int, leaves int, extra ...interface{}) obj {
	return sym.JSON("doc", sym.Spec{Depth: depth, Width: width, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: leaves, Root: sym.RootMap, Extra: extra}).(obj)
}

// HStrip: every document; scripts anywhere.
func HStrip() {
	code.RegisterLang("js", noRunner)
	doc := scriptDoc(2+sym.Tier(), 2, sym.LNum|sym.LNil, stripLeaves...)
	want, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	j.Strip()
	sym.Observe(found)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping does not leave exactly what is no script entry")
	sym.Assert(!j.FindScriptFields(), "a script is found after stripping")
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping again changes the document")
}

// HStripArrays: scripts below arrays.
func HStripArrays() {
	code.RegisterLang("js", noRunner)
	inner := sym.JSON("doc", sym.Spec{Depth: 3, Width: 2, KeyLo: 'a', KeyHi: 'a', KeyLen: 1, Leaves: sym.LNil, Root: sym.RootArr, Extra: stripLeaves[:1]})
	doc := obj{"a": inner, "b": 1.0}
	want, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	sym.Assert(j.FindScriptFields() == found, "scripts are found (or not) against the document")
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping does not leave exactly what is no script entry")
}

// HFind: finding says whether there is a script anywhere and changes nothing.
func HFind() {
	code.RegisterLang("js", noRunner)
	doc := scriptDoc(2, 2, sym.LNum, stripLeaves...)
	before := sym.Clone(doc)
	_, found := refStrip(doc)
	j := jom.NewFromMap(doc)
	sym.Assert(j.FindScriptFields() == found, "scripts are found (or not) against the document")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "finding scripts changed the document")
	sym.Assert(j.FindScriptFields() == found, "finding scripts again gives another answer")
}

// HStripTwice: stripping, changing and stripping again forgets what was there before.
func HStripTwice() {
	code.RegisterLang("js", noRunner)
	doc := scriptDoc(1, 2, sym.LNum, stripLeaves...)
	j := jom.NewFromMap(doc)
	switch sym.Choose("first", 3) {
	case 0:
		j.Strip()
	case 1:
		j.FindScriptFields()
	case 2:
		j.Clone(false).Strip()
	}
	key := sym.Str("key", 1, "abc")
	var err error
	if sym.Choose("op", 2) == 0 {
		err = j.JsonPathSetter("$."+key, list{stripLeaves[0], 5.0}[sym.Choose("value", 2)])
	} else {
		err = j.JsonPathSetter("$."+key, nil)
	}
	sym.Assume(err == nil)
	want, _ := refStrip(*j.GetInsides())
	j.Strip()
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "stripping after a change does not leave exactly what is no script entry")
}

// named replaces callbacks, which cannot be compared, by a name.
func named(v interface{}) interface{} {
	switch x := v.(type) {
	case callback:
		return "callback"
	case obj:
		m := obj{}
		for k, e := range x {
			m[k] = named(e)
		}
		return m
	case list:
		a := list{}
		for _, e := range x {
			a = append(a, named(e))
		}
		return a
	}
	return v
}

// HStripCallback: callbacks are stripped like scripts.
func HStripCallback() {
	ran := false
	f := func(json_map.JsonMapInt) { ran = true }
	doc := scriptDoc(2, 2, sym.LNum, f)
	want, _ := refStrip(doc)
	j := jom.NewFromMap(doc)
	j.Strip()
	sym.Assert(sym.DeepEqual(named(*j.GetInsides()), named(want)), "stripping does not leave exactly what is no callback entry")
	sym.Assert(!ran, "stripping ran a callback")
}

// ---- running ----------------------------------------------------------------------

// One script "#//!js\n<action>" run by runner does what act does.
// n: nothing, s: sets z to the scope path, d: deletes a, c: adds an object
// with a script below y, m: adds an object with a script to the array at a.
func act(action string, scope obj, path string) obj {
	r := obj{}
	for k, v := range scope {
		r[k] = v
	}
	switch action {
	case "s":
		r["z"] = path
	case "d":
		delete(r, "a")
	case "c":
		r["y"] = obj{"w": "#//!js\ns"}
	case "m":
		if a, ok := r["a"].(list); ok {
			r["a"] = append(append(list{}, a...), obj{"w": "#//!js\nn"})
		}
	}
	return r
}

// An event is one run of a script, key the entry that holds it (if known) and scope what it saw.
type event struct {
	path, action, key string
	scope             obj
}

func runner(log *[]event) func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
	return func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		a := c.Script.(string)
		*log = append(*log, event{j.GetCurrentScopePath(), a, "", sym.Clone(*j.GetInsides()).(obj)})
		out := j.Clone(true)
		*out.GetInsides() = act(a, *j.GetInsides(), j.GetCurrentScopePath())
		return out, nil
	}
}

// refRun runs the scripts of v below path; ok is false where a script deletes
// another script of its own level.
func refRun(v interface{}, path string, log *[]event) (r interface{}, ok bool) {
	switch x := v.(type) {
	case obj:
		m := obj{}
		var scripts []string
		for _, k := range sortedKeys(x) {
			m[k] = x[k]
			if isScript(x[k]) {
				scripts = append(scripts, k)
			}
		}
		for _, k := range scripts {
			if _, has := m[k]; !has {
				return nil, false
			}
			_, a, _ := shebang(x[k].(string))
			*log = append(*log, event{path, a, k, sym.Clone(m).(obj)})
			m = act(a, m, path)
			delete(m, k)
		}
		for _, k := range sortedKeys(m) {
			n, ok := refRun(m[k], path+"."+k, log)
			if !ok {
				return nil, false
			}
			m[k] = n
		}
		return m, true
	case list:
		a := list{}
		for i, e := range x {
			n, ok := refRun(e, path+".["+strconv.Itoa(i)+"]", log)
			if !ok {
				return nil, false
			}
			a = append(a, n)
		}
		return a, true
	}
	return v, true
}

// checkLog: the same events at every path in the same order, and outer ones before inner ones.
func checkLog(got, want []event) {
	sym.Assert(len(got) == len(want), "scripts are run too often or not at all")
	at := map[string][]event{}
	wat := map[string][]event{}
	for i, e := range got {
		at[e.path] = append(at[e.path], e)
		wat[want[i].path] = append(wat[want[i].path], want[i])
		for _, l := range got[i+1:] {
			sym.Assert(!(len(l.path) < len(e.path) && strings.HasPrefix(e.path, l.path+".")), "a script is run before one of an enclosing object")
		}
	}
	sym.Assert(len(at) == len(wat), "scripts are run in the wrong scopes")
	for p, ws := range wat {
		g := at[p]
		sym.Assert(len(g) == len(ws), "scripts are run in the wrong scope, too often or not at all")
		for i, w := range ws {
			sym.Assert(g[i].action == w.action, "scripts of one object are not run in the order of their keys")
			delete(g[i].scope, w.key)
			delete(w.scope, w.key)
			sym.Assert(sym.DeepEqual(g[i].scope, w.scope), "a script does not see what the scripts before it made of its object")
		}
	}
}

func checkRun(doc obj) {
	var want, got []event
	after, ok := refRun(sym.Clone(doc), "$", &want)
	sym.Assume(ok)
	code.RegisterLang("js", runner(&got))
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Observe(len(got))
	checkLog(got, want)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), after), "running does not leave what the scripts made of the document")
}

// HRun: scripts of every kind anywhere in small documents.
func HRun() {
	checkRun(scriptDoc(2, 2, sym.LNum, "#//!js\nn", "#//!js\ns", "#//!js\nd", "#//!js\nc"))
}

// HRunOrder: several scripts side by side.
func HRunOrder() {
	doc := sym.JSON("doc", sym.Spec{Depth: 1, Width: 3 + sym.Tier(), KeyLo: 'a', KeyHi: 'e', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap, Extra: list{"#//!js\nn", "#//!js\ns", "#//!js\nc", "data"}}).(obj)
	checkRun(doc)
}

// HRunKeys: keys of several characters, where the order of bytes is not the order of lengths.
func HRunKeys() {
	var got []event
	code.RegisterLang("js", runner(&got))
	a := sym.Str("a", 1+sym.Choose("na", 2), "")
	b := sym.Str("b", 1+sym.Choose("nb", 2), "")
	sym.Assume(a < b && a != "z" && b != "z")
	j := jom.NewFromMap(obj{b: "#//!js\nB", a: "#//!js\nA", "z": 1.0})
	j.Run()
	sym.Assert(len(got) == 2 && got[0].action == "A" && got[1].action == "B", "scripts of one object are not run in the order of their keys")
	sym.Assert(len(*j.GetInsides()) == 1, "running leaves a script or removes data")
}

// HRunArrays: scripts in objects of arrays, and scripts that grow the array.
func HRunArrays() {
	inner := sym.JSON("doc", sym.Spec{Depth: 2, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNil, Root: sym.RootArr, Extra: list{"#//!js\ns"}})
	doc := obj{"a": inner, "b": "#//!js\nm"}
	if sym.Choose("plain", 2) == 1 {
		doc["b"] = 1.0
	}
	checkRun(doc)
}

// HRunDeep: a chain of objects and arrays.
func HRunDeep() {
	doc := sym.JSON("doc", sym.Spec{Depth: 4 + sym.Tier(), Width: 1, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNum, Root: sym.RootMap, Extra: list{"#//!js\ns"}}).(obj)
	doc["k"] = "#//!js\nn"
	checkRun(doc)
}

// HRunMapOrder: whatever the order in which maps are iterated.
func HRunMapOrder() {
	docs := []obj{
		{"b": "#//!js\nn", "c": obj{"a": "#//!js\ns"}, "d": list{obj{"b": "#//!js\nn"}}},
		{"b": "#//!js\nd", "a": obj{"x": "#//!js\ns"}, "y": obj{"x": "#//!js\nn"}},
		{"a": "#//!js\nc", "b": "#//!js\nn"},
		{"d": "#//!js\n1", "a": "#//!js\n2", "c": "#//!js\n3", "b": "#//!js\n4"},
	}
	doc := docs[sym.Choose("doc", len(docs))]
	var want, got []event
	after, _ := refRun(sym.Clone(doc), "$", &want)
	code.RegisterLang("js", runner(&got))
	j := jom.NewFromMap(doc)
	sym.MapOrder(1)
	j.Run()
	sym.MapOrder(0)
	checkLog(got, want)
	sym.Assert(sym.DeepEqual(*j.GetInsides(), after), "running does not leave what the scripts made of the document")
}

// HRunFails: a script that fails stops the run with its error.
func HRunFails() {
	doc := scriptDoc(2, 2, sym.LNum, "#//!js\nn", "#//!js\nE", "#//!py\nx")
	var log []event
	_, found := refStrip(doc)
	bad, fails := false, false
	var look func(v interface{})
	look = func(v interface{}) {
		switch x := v.(type) {
		case obj:
			for _, e := range x {
				if e == "#//!js\nE" {
					fails = true
				}
				if e == "#//!py\nx" {
					bad = true
				}
				look(e)
			}
		case list:
			for _, e := range x {
				look(e)
			}
		}
	}
	look(doc)
	sym.Assume(found)
	mine := runner(&log)
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		if c.Script == "E" {
			return nil, errFail
		}
		return mine(c, j)
	})
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert((p != nil) == (bad || fails), "a run with a failing script ends normally, or one without does not")
	if p != nil {
		sym.Reach("failed")
		e, isErr := p.(error)
		sym.Assert(isErr && !sym.IsRuntime(p), "a failing script ends the run with something else than an error")
		if !bad {
			sym.Assert(e == errFail, "a failing script ends the run with another error")
		}
	}
}

type failure struct{}

func (failure) Error() string { return "script failed" }

var errFail error = failure{}

// HRunTwice: running a document again runs nothing that was already run, and everything new.
func HRunTwice() {
	var got []event
	code.RegisterLang("js", runner(&got))
	doc := scriptDoc(1, 2, sym.LNum, "#//!js\nn", "#//!js\ns")
	j := jom.NewFromMap(doc)
	j.Run()
	first := len(got)
	before := sym.Clone(*j.GetInsides())
	j.Run()
	sym.Assert(len(got) == first, "running a document again runs a script a second time")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "running a document without scripts changed it")
	j.MustSet("$.a", "#//!js\nn")
	j.Run()
	sym.Assert(len(got) == first+1, "a script added after a run is not run")
}

// HRunSelf: a script that puts something else in its own place has run all the same, and nothing is left there.
func HRunSelf() {
	n := 0
	v := []interface{}{5.0, nil, "text", "#//!js\nagain", obj{"s": "#//!js\nagain"}, list{obj{"s": "#//!js\nagain"}}, obj{}}[sym.Choose("value", 7)]
	inPlace := sym.Choose("inplace", 2) == 1
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		n++
		out := j
		if !inPlace {
			out = j.Clone(true)
			for k, e := range *j.GetInsides() {
				(*out.GetInsides())[k] = e
			}
		}
		if c.Script == "own" {
			(*out.GetInsides())["k"] = v
			(*out.GetInsides())["x"] = 2.0
		}
		return out, nil
	})
	x := sym.Float("x")
	in, want := obj{"k": "#//!js\nown", "b": x}, obj{"x": 2.0, "b": x}
	if sym.Choose("cb", 2) == 1 {
		in["k"] = func(json_map.JsonMapInt) {}
		code.RegisterLang("go", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
			n++
			(*j.GetInsides())["k"] = v
			return j, nil
		})
		delete(want, "x")
	}
	doc, after := in, want
	switch sym.Choose("where", 3) {
	case 1:
		doc, after = obj{"o": in}, obj{"o": want}
	case 2:
		doc, after = obj{"l": list{1.0, list{in}}}, obj{"l": list{1.0, list{want}}}
	}
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert(p == nil, "running a document panicked")
	sym.Assert(n == 1, "scripts are run too often or not at all")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), after), "running does not leave what the scripts made of the document")
}
