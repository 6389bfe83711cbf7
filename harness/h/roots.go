package h

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
	"github.com/hjson/hjson-go"
)

// Texts and documents.

// used is a JsonMap that may have held something before, and what it holds.
func used() (j *jom.JsonMap, v interface{}, array bool) {
	switch sym.Choose("used", 4) {
	case 1:
		v := obj{"old": 1.0, "array": list{"old"}}
		return jom.NewFromMap(sym.Clone(v).(obj)), v, false
	case 2:
		j = jom.New()
		sym.Assert(j.Unmarshal([]byte(`["old", {"a": 1}]`)) == nil, "an array is not read")
		return j, obj{"array": list{"old", obj{"a": 1.0}}}, true
	case 3:
		j = jom.NewFromMap(obj{"old": 1.0})
		return j.Clone(true).(*jom.JsonMap), obj{}, false
	}
	return jom.New(), obj{}, false
}

// rootOf is the value that a JsonMap with this content stands for.
func holds(j *jom.JsonMap, v interface{}) bool {
	if l, is := v.(list); is {
		return j.IsArray() && sym.DeepEqual(*j.GetInsides(), obj{"array": l})
	}
	return !j.IsArray() && sym.DeepEqual(*j.GetInsides(), v)
}

// root is any value, a document or not.
func anyRoot(name string) interface{} {
	depth := 1
	if sym.Tier() > 0 {
		depth = 2
	}
	return sym.JSON(name, sym.Spec{Depth: depth, Width: 2, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNil | sym.LBool | sym.LNum | sym.LStr, StrLen: 1})
}

// checkUnmarshal checks what a JsonMap holds after reading a text that stands for v, or for nothing.
func checkUnmarshal(text []byte, v interface{}, valid bool) {
	j, old, array := used()
	var err error
	p := sym.Panics(func() { err = j.Unmarshal(text) })
	sym.Assert(p == nil, "reading a text panics")
	_, isMap := v.(obj)
	_, isList := v.(list)
	if !valid || !isMap && !isList {
		sym.Reach("refused")
		sym.Assert(err != nil, "a text that is no document is read without an error")
		sym.Assert(j.IsArray() == array && sym.DeepEqual(*j.GetInsides(), old), "a text that is refused changed what the JsonMap held")
		return
	}
	sym.Reach("read")
	sym.Assert(err == nil, "a text that is a document is refused")
	sym.Assert(holds(j, v), "a JsonMap does not hold exactly the document that it read, whatever it held before")
}

// HUnmarshal: documents are held as what they are.
func HUnmarshal() {
	v := anyRoot("root")
	data, err := json.Marshal(v)
	sym.Assume(err == nil)
	checkUnmarshal(data, v, true)
}

// HUnmarshalText: any text is read as what the hjson reader makes of it.
func HUnmarshalText() {
	var text []byte
	if sym.Choose("form", 2) == 0 {
		text = []byte(sym.Str("text", sym.Choose("n", 5+sym.Tier()), "{}[]:,\"1 a\n"))
	} else {
		texts := []string{
			"{a: 1", "{a: 1}}", "[1, 2", "[", "]", "{", "null", "true", "12", "\"x\"", "a", "a: 1\nb: [x\ny]", "{} x", "[] x", "# nothing", "// nothing\n[1]",
			"[{a: }]", "{\"a\" 1}", "['a', '''b''']", "{a: /* c */ null}", "[null]", "{\"array\": [1]}", "[[1], []]", "value of type []interface {} is not assignable to type map[string]interface {}",
			"{value of type []interface {} is not assignable to type map[string]interface {}",
		}
		text = []byte(texts[sym.Choose("text", len(texts))])
	}
	var v interface{}
	valid := hjson.Unmarshal(text, &v) == nil
	checkUnmarshal(text, v, valid)
}

// HRoundTrip: what is written reads as the same document, with the same kind of root.
func HRoundTrip() {
	v := anyRoot("root")
	switch sym.Choose("array", 3) {
	case 1: // an object that looks like an array at the root
		v = obj{"array": v}
	case 2:
		v = obj{"array": list{v}, "x": 1.0}
	}
	data, err := json.Marshal(v)
	sym.Assume(err == nil)
	j := jom.New()
	if m, is := v.(obj); is && sym.Choose("made", 2) == 1 {
		j = jom.NewFromMap(m)
	} else {
		sym.Assume(j.Unmarshal(data) == nil)
	}
	src := j
	switch sym.Choose("via", 3) {
	case 1:
		src = j.Clone(false).(*jom.JsonMap)
		sym.Assert(holds(src, v), "a clone does not hold the document")
	case 2:
		src = j.Clone(true).(*jom.JsonMap)
		sym.Assert(src.IsArray() == j.IsArray() && len(*src.GetInsides()) == 0, "a cleared clone is not empty, or of another kind")
		(*src.GetInsides())["array"] = list{1.0}
		sym.Assert(holds(j, v), "changing a cleared clone changed the document")
		src = j
	}
	out, err := src.Marshal()
	sym.Assert(err == nil, "a document cannot be written")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, v), "what is written is not the document")
	back, _, _ := used()
	sym.Assert(back.Unmarshal(out) == nil && holds(back, v), "what is written does not read as the same document with the same kind of root")
	sym.Assert(holds(j, v), "writing a document changed it")
}

// HRootKinds: changes keep the kind of the root.
func HRootKinds() {
	j := jom.New()
	sym.Assume(j.Unmarshal([]byte(`[{"a": 1, "s": "#//!js\nx"}, [2]]`)) == nil)
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		(*j.GetInsides())["a"] = 3.0
		return j, nil
	})
	var want interface{}
	x := sym.JSON("x", sym.Spec{Depth: 0, Leaves: sym.LBool | sym.LStr, StrLen: 1})
	switch sym.Choose("op", 6) {
	case 0:
		j.MustSet("$.array[0].a", x)
		want = list{obj{"a": x, "s": "#//!js\nx"}, list{2.0}}
	case 1:
		j.MustDelete("$.array[0]")
		want = list{list{2.0}}
	case 2:
		j.MustPush("$.array", x)
		want = list{obj{"a": 1.0, "s": "#//!js\nx"}, list{2.0}, x}
	case 3:
		j.Strip()
		want = list{obj{"a": 1.0}, list{2.0}}
	case 4:
		j.Run()
		want = list{obj{"a": 3.0}, list{2.0}}
	case 5:
		j.MustPop("$.array[1]")
		want = list{obj{"a": 1.0, "s": "#//!js\nx"}, list{}}
	}
	sym.Assert(holds(j, want), "a change of a document with an array at its root is not of that array, or changed the kind of the root")
	out, err := j.Marshal()
	var w interface{}
	sym.Assert(err == nil && json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, want), "what is written is not the document")
}

// HEval: evaluating is reading, running and writing, and whatever goes wrong is returned.
func HEval() {
	n := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		n++
		in := *j.GetInsides()
		switch c.Script {
		case "set":
			in["x"] = float64(n)
		case "delete":
			delete(in, "a")
		case "error":
			return j, errors.New("mine")
		case "panic":
			panic(errors.New("mine"))
		case "text":
			panic("mine")
		case "runtime":
			var m obj
			m["x"] = 1
		}
		return j, nil
	})
	srcs := []string{"js\nset", "js\ndelete", "js\n", "js", "js\nerror", "js\npanic", "js\ntext", "js\nruntime", "py\nset"}
	src := srcs[sym.Choose("script", len(srcs))]
	a := sym.JSON("a", sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNil | sym.LBool | sym.LNum | sym.LStr, StrLen: 1})
	in, want := obj{"a": a}, obj{"a": a}
	in["s"] = "#//!" + src
	switch src {
	case "js\nset":
		want["x"] = 1.0
	case "js\ndelete":
		delete(want, "a")
	}
	fails := sym.Or(src[:2] == "py", len(src) > 3 && src != "js\nset" && src != "js\ndelete")
	var doc, after interface{} = in, want
	switch sym.Choose("where", 6) {
	case 4:
		in["array"], want["array"] = list{}, list{}
	case 5:
		doc, after = obj{"array": list{in}}, obj{"array": list{want}}
	case 1:
		doc, after = list{in, 1.0}, list{want, 1.0}
	case 2:
		doc, after = obj{"o": list{list{in}}}, obj{"o": list{list{want}}}
	case 3:
		doc, after = obj{"array": list{}, "o": in}, obj{"array": list{}, "o": want}
	}
	data, err := json.Marshal(doc)
	sym.Assume(err == nil)
	var out []byte
	p := sym.Panics(func() { out, err = jom.Eval(data, false) })
	sym.Assert(p == nil, "evaluating a document panics")
	if fails {
		sym.Reach("fails")
		sym.Assert(err != nil && len(out) == 0, "a script that fails does not fail the evaluation")
		if src[:2] == "js" && src != "js\nruntime" {
			sym.Assert(strings.Contains(err.Error(), "mine"), "the error of an evaluation does not say what failed")
		}
		return
	}
	sym.Reach("evaluates")
	sym.Assert(err == nil, "a document is not evaluated")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, after), "what an evaluation gives is not the document after its scripts have run")
}

// HEvalPlain: a document without scripts is evaluated like any other: what is written is JSON, whatever was read.
func HEvalPlain() {
	c := sym.Str("c", 1, "ab1:, ")
	i := sym.Choose("value", 8)
	v := []interface{}{1.0, nil, true, "x" + c, list{1.0, c}, obj{"c" + c: -0.5}, list{}, obj{}}[i]
	s := []string{"1", "null", "true", "\"x" + c + "\"", "[ 1, \"" + c + "\" ]", "{ \"c" + c + "\": -0.5 }", "[]", "{}"}[i]
	var doc interface{}
	text := ""
	switch sym.Choose("form", 6) {
	case 0:
		text, doc = " {\"a\" : "+s+" }\n", obj{"a": v}
	case 1:
		text, doc = "{\n# one\na: "+s+"\nb: [1 2\n 3]\n/* two */}", obj{"a": v, "b": list{"1 2", 3.0}}
	case 2:
		text, doc = "a: "+s+"\nt: some text", obj{"a": v, "t": "some text"}
	case 3:
		text, doc = "[\n"+s+"\n\t{x: 1}]", list{v, obj{"x": 1.0}}
	case 4:
		text, doc = "{a: {b: "+s+",}, array: []}", obj{"a": obj{"b": v}, "array": list{}}
	case 5:
		text, doc = "{a: \"#//!j\", \"b\": '''\n  #//!js x\n  '''}", obj{"a": "#//!j", "b": "#//!js x"}
	}
	var read interface{}
	sym.Assume(hjson.Unmarshal([]byte(text), &read) == nil && sym.DeepEqual(read, doc))
	sym.Reach("read")
	out, err := jom.Eval([]byte(text), false)
	sym.Assert(err == nil, "a document is not evaluated")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, doc), "what an evaluation gives is not the document after its scripts have run")
}

// HEvalBad: texts that are no documents are refused.
func HEvalBad() {
	texts := []string{"{a: 1", "[1", "null", "12", "\"x\"", "x", "{} x", "[{s: '''#//!js\nset''']"}
	var out []byte
	var err error
	text := texts[sym.Choose("text", len(texts))]
	if sym.Choose("cut", 2) == 1 {
		text = text[:len(text)-1] + sym.Str("end", 1, "{}[]x, :\n")
		var v interface{}
		ok := hjson.Unmarshal([]byte(text), &v) == nil
		_, isMap := v.(obj)
		_, isList := v.(list)
		sym.Assume(!ok || !isMap && !isList)
	}
	p := sym.Panics(func() { out, err = jom.Eval([]byte(text), false) })
	sym.Assert(p == nil, "evaluating a text panics")
	sym.Assert(err != nil && len(out) == 0, "a text that is no document is evaluated without an error")
}

// HString: a document as text is its root value in hjson.
func HString() {
	n := sym.Choose("n", 3)
	s := sym.Str("s", n, "a1 \"',:#/{[\n\\-")
	docs := []interface{}{
		obj{"a": s}, obj{"a": obj{"b": s}, "c": nil}, list{s, 1.0}, list{list{}, obj{}, true, obj{"k": s}}, list{}, obj{},
	}
	v := docs[sym.Choose("doc", len(docs))]
	data, err := json.Marshal(v)
	sym.Assume(err == nil)
	j := jom.New()
	sym.Assume(j.Unmarshal(data) == nil)
	var text string
	p := sym.Panics(func() { text = j.String() })
	sym.Assert(p == nil, "a document cannot be written as text")
	want, err := hjson.Marshal(v)
	sym.Assert(err == nil && text == string(want), "the text of a document is not that of its root")
	sym.Assert(holds(j, v), "writing a document changed it")
}
