package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

type obj = map[string]interface{}
type list = []interface{}

// cliDoc is a document, in a spelling or another, and what becomes of it when it is evaluated.
func cliDoc(name string) (text string, after interface{}) {
	x := sym.JSON(name, sym.Spec{Depth: 1, Width: 1, KeyLo: 'a', KeyHi: 'b', KeyLen: 1, Leaves: sym.LNil | sym.LBool | sym.LNum | sym.LStr, StrLen: 1})
	inc := "#//!js\njson.trail.n = json.trail.n + 1; json.trail.y = json.trail.x"
	in := obj{"n": 1.0, "x": x, "s": inc}
	want := obj{"n": 2.0, "x": x, "y": x}
	var doc interface{}
	switch sym.Choose("doc", 5) {
	case 0:
		doc, after = in, want
	case 1:
		doc, after = list{in, list{}}, list{want, list{}}
	case 2:
		doc, after = obj{"array": list{in}}, obj{"array": list{want}}
	case 3:
		doc, after = list{}, list{}
	case 4:
		return "# a comment\nx: '" + sym.Str(name+"s", 1, "ab:{") + "'\ns:\n  '''\n  #//!js\n  json.trail.x += '!'\n  '''\n", nil
	}
	b, err := json.Marshal(doc)
	sym.Assume(err == nil)
	return string(b), after
}

// printed reads what the command line printed: lines of JSON.
func printed(out string, want ...interface{}) {
	lines := strings.Split(out, "\n")
	sym.Assert(len(lines) == len(want)+1 && lines[len(want)] == "", "the command line does not print one line for each thing that it was given")
	for i, w := range want {
		var v interface{}
		sym.Assert(json.Unmarshal([]byte(lines[i]), &v) == nil && sym.DeepEqual(v, w), "the command line does not print what evaluating gives, in the order of the files")
	}
}

// evaluated is what evaluating a document gives.
func evaluated(text string, after interface{}) interface{} {
	if after != nil {
		return after
	}
	out, err := jom.Eval([]byte(text), false)
	var v interface{}
	sym.Assert(err == nil && json.Unmarshal(out, &v) == nil, "a document is not evaluated")
	return v
}

// HCliEval: eval prints what evaluating the input gives.
func HCliEval() {
	text, after := cliDoc("x")
	args := []string{"eval", "-input", text}
	switch sym.Choose("form", 3) {
	case 1:
		args = []string{"eval", "-verbose=false", "--input", text}
	case 2:
		sym.Assume(after == nil)
		args = []string{"eval", "--input=" + text}
	}
	out, status := sym.RunMain(main, nil, args...)
	sym.Assert(status == 0, "evaluating a document does not end with status 0")
	printed(out, evaluated(text, after))
}

// bad are documents that cannot be evaluated.
var bad = []string{
	"{a: 1", "[1", "null", "12", "{s: '#//!js\\nthrow 1'}", "{s: '#//!py\\nx'}", "[{s: '#//!js\\n= ='}]", "{s: '#//!js\\njson.trail = 1'}",
}

// HCliFiles: eval prints what evaluating each file gives, in the order of the files, or fails.
func HCliFiles() {
	sym.MapOrder(1)
	files := map[string]string{"b.json": "{\"f\": 1}", "a b.hjson": "f: 2\n", "c": "[\"f3\"]"}
	names := []string{"c", "b.json", "a b.hjson"}
	wants := obj{"b.json": obj{"f": 1.0}, "a b.hjson": obj{"f": 2.0}, "c": list{"f3"}}
	var given []string
	var want []interface{}
	for n := 1 + sym.Choose("n", 3); n > 0; n-- {
		i := sym.Choose("file", len(names))
		given = append(given, names[i])
		want = append(want, wants[names[i]])
		names = append(append([]string{}, names[:i]...), names[i+1:]...)
	}
	switch sym.Choose("fails", 3) {
	case 1:
		given = append(given, "missing")
		_, status := sym.RunMain(main, files, "eval", "-files", strings.Join(given, ","))
		sym.Assert(status != 0, "evaluating a file that does not exist ends with status 0")
		return
	case 2:
		files["bad"] = bad[sym.Choose("bad", len(bad))]
		given = append([]string{"bad"}, given...)
		_, status := sym.RunMain(main, files, "eval", "-files="+strings.Join(given, ","))
		sym.Assert(status != 0, "evaluating a file that cannot be evaluated ends with status 0")
		return
	}
	out, status := sym.RunMain(main, files, "eval", "-files", strings.Join(given, ","))
	sym.Assert(status == 0, "evaluating files does not end with status 0")
	printed(out, want...)
}

// HCliMarkup: markup prints the document with each script at its path, stripped before and evaluated after if asked to.
func HCliMarkup() {
	old := "#//!js\njson.trail.old = true"
	doc := obj{"a": obj{"n": 1.0, "s": old}, "l": list{obj{"n": 2.0}, "x"}, "x": sym.Str("x", 1, "a1 ")}
	j := jom.NewFromMap(sym.Clone(doc).(obj))
	data, err := json.Marshal(doc)
	sym.Assume(err == nil)
	args := []string{"markup"}
	lang := "js"
	switch sym.Choose("lang", 3) {
	case 1:
		args = append(args, "-language", "js")
	case 2:
		args = append(args, "-language", "go")
		lang = "go"
	}
	strip := sym.Choose("strip", 2) == 1
	if strip {
		args = append(args, "-strip")
		j.Strip()
	}
	sets := []struct {
		arg    string
		paths  []string
		script []string
		ok     bool
	}{
		{"$.new:json.trail.x = 1", []string{"$.new"}, []string{"json.trail.x = 1"}, true},
		{"$.a.s:json.trail.n++,$.l[0].s:delete json.trail.n", []string{"$.a.s", "$.l[0].s"}, []string{"json.trail.n++", "delete json.trail.n"}, true},
		{"$.a.*:json.trail.x = 1,$..n:json.trail.y = 1", []string{"$..n", "$.a.*"}, []string{"json.trail.y = 1", "json.trail.x = 1"}, true},
		{"$.new", []string{"$.new"}, []string{"// No script specified"}, true},
		{"$.new:", []string{"$.new"}, []string{""}, true},
		{"$.x:1,$.x:2", []string{"$.x"}, []string{"2"}, true},
		{"$.no.way:1,$.new:2", nil, nil, false},
		{"$.new.s:1,$.new:2,$.a:3", nil, nil, false},
	}
	s := sets[sym.Choose("pairs", len(sets))]
	args = append(args, "-path-scripts", s.arg)
	eval := sym.Choose("eval", 2) == 1
	if eval {
		args = append(args, "-eval")
	}
	out, status := sym.RunMain(main, nil, append(args, "-input", string(data))...)
	if !s.ok {
		sym.Reach("refused")
		sym.Assert(status != 0, "a script whose path leads nowhere is marked up with status 0")
		return
	}
	for i, p := range s.paths {
		sym.Assert(j.JsonPathSetter(p, "#//!"+lang+"\n"+s.script[i]) == nil, "a script is not set")
	}
	if eval {
		sym.Reach("evaluated")
		marked, _ := j.Marshal()
		want, err := jom.Eval(marked, false)
		if err != nil {
			sym.Assert(status != 0, "a script that fails is evaluated with status 0")
			return
		}
		sym.Assert(status == 0 && out == string(want)+"\n", "markup does not print what evaluating the marked up document gives")
		return
	}
	sym.Reach("marked")
	sym.Assert(status == 0 && out == j.String()+"\n", "markup does not print the document with its scripts at their paths")
}

// HCliOrder: what markup prints does not depend on the order of maps.
func HCliOrder() {
	sym.MapOrder(1)
	pairs := []string{"$.a:1,$.*:2", "$.a.s:1,$.a:2", "$.b:1,$.a:2", "$.a.s:x,$..s:y,$.a.*:z"}[sym.Choose("pairs", 4)]
	in := "{a: {s: '1'}}"
	out, status := sym.RunMain(main, nil, "markup", "-path-scripts", pairs, "-input", in)
	sym.Observe(out, status)
	sym.MapOrder(0)
	again, status2 := sym.RunMain(main, nil, "markup", "-path-scripts", pairs, "-input", in)
	sym.Assert(out == again && status == status2, "what markup prints, or whether it fails, depends on the order of maps")
}

// HCliBad: command lines that make no sense fail.
func HCliBad() {
	sym.MapOrder(1)
	lines := [][]string{
		{}, {"nosuch"}, {"eval"}, {"markup"}, {"-input", "{}"}, {"eval", "-input", ""}, {"eval", "-files", ""}, {"eval", "-files", "no,ok"}, {"eval", "-files", "ok,no"},
		{"eval", "-files", "d"}, {"eval", "-strip", "-input", "{}"}, {"markup", "-input", "{}"}, {"markup", "-path-scripts", "$.a:x"}, {"markup", "-path-scripts", "", "-input", "{}"},
		{"markup", "-path-scripts", "a:x", "-input", "{}"}, {"markup", "-path-scripts", "$.a:x:y", "-input", "{}"}, {"markup", "-path-scripts", "$.a:x,", "-input", "{}"},
		{"markup", "-language", "py", "-path-scripts", "$.a:x", "-input", "{}"}, {"markup", "-language", "", "-path-scripts", "$.a:x", "-input", "{}"},
		{"markup", "-path-scripts", "$.a:x", "-input", "{"}, {"markup", "-path-scripts", "$.a:x", "-input", "12"}, {"markup", "-path-scripts", "$.a:x", "-files", "no"},
		{"markup", "-eval", "-path-scripts", "$.a:throw 1", "-input", "{}"}, {"markup", "-eval=maybe", "-path-scripts", "$.a:x", "-input", "{}"}, {"eval", "-input"},
		{"markup", "-strip", "-path-scripts", "$.a:x", "-input", "{s: '#//!py\\nx'}"},
	}
	line := lines[sym.Choose("line", len(lines)+1)%len(lines)]
	if len(line) > 0 && line[0] == "eval" && len(line) == 3 && sym.Choose("extra", 2) == 1 {
		line = append(line, "-verbose")
	}
	_, status := sym.RunMain(main, map[string]string{"ok": "{}"}, line...)
	sym.Assert(status != 0, "a command line that makes no sense ends with status 0")
}

// HCliEvalBad: input that cannot be evaluated fails.
func HCliEvalBad() {
	text := bad[sym.Choose("bad", len(bad))]
	if sym.Choose("cut", 2) == 1 {
		text = text[:sym.Choose("at", len(text))] + sym.Str("end", 1, "")
		sym.Assume(text[len(text)-1] != 0)
		_, err := jom.Eval([]byte(text), false)
		out, status := sym.RunMain(main, nil, "eval", "-input", text)
		sym.Assert((status != 0) == (err != nil), "eval ends with status 0 exactly when evaluating the input does not fail")
		sym.Observe(status)
		_ = out
		return
	}
	_, status := sym.RunMain(main, nil, "eval", "-input", text)
	sym.Assert(status != 0, "evaluating a text that cannot be evaluated ends with status 0")
}

// HCliPairs: a list of paths and scripts means exactly the pairs written in it.
func HCliPairs() {
	s := sym.Str("text", sym.Choose("n", 7+sym.Tier()), "$.a:,[0] ")
	if sym.Choose("form", 2) == 1 {
		s = "$.a" + s
	}
	want := JsonPathScriptPair{}
	ok := true
	for _, pair := range strings.Split(s, ",") {
		i := strings.Index(pair, ":")
		path, script := pair, "// No script specified"
		if i >= 0 {
			path, script = pair[:i], pair[i+1:]
		}
		if _, err := json_map.ParseJsonPath(path); err != nil || strings.Contains(script, ":") {
			ok = false
			break
		}
		want[path] = script
	}
	var p JsonPathScriptPair
	var err error
	sym.Assert(sym.Panics(func() { err = p.Set(s) }) == nil, "reading a list of paths and scripts panics")
	sym.Assert((err == nil) == ok, "a list of paths and scripts is refused (or not) against its syntax")
	if !ok {
		return
	}
	sym.Reach("pairs")
	sym.Assert(len(p) == len(want), "a list of paths and scripts does not mean the pairs written in it")
	for k, v := range want {
		got, has := p[k]
		sym.Assert(has && got == v, "a list of paths and scripts does not mean the pairs written in it")
	}
	var f Files
	sym.Assert(f.Set(s) == nil && strings.Join(f, ",") == s, "a list of files does not mean the files written in it")
}

// HCliVerbose: saying more does not change what is printed in the end.
func HCliVerbose() {
	files := map[string]string{"a": "{\"f\": 1}", "b": "[{s: '#//!js\\njson.trail.x = 2'}]"}
	args := [][]string{{"eval", "-input", files["a"]}, {"eval", "-files", "b"}, {"markup", "-eval", "-path-scripts", "$.s:json.trail.f++", "-input", files["a"]}, {"markup", "-path-scripts", "$.f:x", "-files", "a"}}[sym.Choose("line", 4)]
	want := []string{"{\"f\":1}\n", "[{\"x\":2}]\n", "{\"f\":2}\n"}
	out, status := sym.RunMain(main, files, args...)
	sym.Assert(status == 0, "a command line that makes sense fails")
	is := strings.Contains(out, "#//!js") // hjson
	for _, w := range want {
		is = is || out == w
	}
	sym.Assert(is, "the command line does not print what evaluating or marking up gives")
	more, status := sym.RunMain(main, files, append([]string{args[0], "-verbose"}, args[1:]...)...)
	sym.Assert(status == 0 && strings.HasSuffix(more, "\n"+out), "with -verbose, the command line does not print the same in the end")
}

// HCliNames: files are told apart by their whole names.
func HCliNames() {
	pairs := [][2]string{{"a.json", "d/a.json"}, {"d/a", "e/a"}, {"a", "A"}, {"a", "a "}, {" a", "a"}, {"a.json", "a.hjson"}, {"a", "a.json"}, {"x=1", "x"}, {"--", "-"}, {"*", "a"}, {"a?", "ab"}, {"%s", "%d"}, {"stdin", "in"}, {"1", "01"}, {"a\tb", "a b"}, {"\u00e9", "e\u0301"}, {"$HOME", "~"}, {"d/.a", "d/a"}, {"a:b", "a"}, {"a;b", "b"}, {"'a'", "a"}, {"\"a\"", "a"}, {"a\\b", "b"}}
	pair := pairs[sym.Choose("names", len(pairs))]
	x := sym.Str("x", 1, "a1")
	files := map[string]string{pair[0]: "{\"f\": \"" + x + "\"}", pair[1]: "{\"f\": \"" + x + "y\"}"}
	wants := obj{pair[0]: obj{"f": x}, pair[1]: obj{"f": x + "y"}}
	one := sym.Choose("one", 2)
	given := []string{pair[one], pair[1-one]}
	if sym.Choose("only", 2) == 1 {
		given = given[:1]
	}
	form := sym.Choose("form", 2)
	if form == 0 {
		out, status := sym.RunMain(main, files, "eval", "-files="+strings.Join(given, ","))
		sym.Assert(status == 0, "evaluating files does not end with status 0")
		var want []interface{}
		for _, n := range given {
			want = append(want, wants[n])
		}
		printed(out, want...)
		return
	}
	// a name that is nearly the one of a file is not the name of one
	delete(files, pair[one])
	_, status := sym.RunMain(main, files, "eval", "-files="+pair[one])
	sym.Assert(status != 0, "evaluating a file that does not exist ends with status 0")
}

// HCliBig: many files, and many pairs.
func HCliBig() {
	n := []int{12, 33, 71, 139}[sym.Choose("size", 4)]
	v := sym.Str("v", 1, "a1")
	if sym.Choose("what", 2) == 0 {
		files := map[string]string{}
		var given []string
		var want []interface{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("f%d", (i*7)%n)
			files[name] = fmt.Sprintf("{\"n\": %d, \"v\": \"%s\"}", (i*7)%n, v)
			given = append(given, name)
			want = append(want, obj{"n": float64((i * 7) % n), "v": v})
		}
		out, status := sym.RunMain(main, files, "eval", "-files", strings.Join(given, ","))
		sym.Assert(status == 0, "evaluating files does not end with status 0")
		printed(out, want...)
		return
	}
	if n > 40 {
		n = 40
	}
	var pairs []string
	want := obj{"l": list{}}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "0")
		key := string([]byte{byte('a' + i%26), byte('a' + i/26)})
		switch i % 3 {
		case 0:
			pairs = append(pairs, "$."+key+":json.trail.x"+key+" = '"+v+"'")
			want["x"+key] = v
		case 1:
			pairs = append(pairs, "$.o."+key+":"+key+" = 1")
		case 2:
			pairs = append(pairs, fmt.Sprintf("$.l[%d]:never", i))
		}
	}
	text := "{\"o\": {}, \"l\": [" + strings.Join(l, ",") + "]}"
	want["o"] = obj{}
	arr := list{}
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			arr = append(arr, "#//!js\nnever")
		} else {
			arr = append(arr, 0.0)
		}
	}
	want["l"] = arr
	out, status := sym.RunMain(main, nil, "markup", "-eval", "-path-scripts", strings.Join(pairs, ","), "-input", text)
	sym.Assert(status == 0, "marking up many places does not end with status 0")
	printed(out, want)
}

// oddTexts are texts that look like something else, or that are written in another way elsewhere.
var oddTexts = []string{
	"%", "%%", "100%", "%s", "%d %v%!", "%n", "\\", "\\n", "\\\\", "\\u0041", "end\\", "\n", "a\nb", "\r\n", "\t", " ", "  x ", "", "\x00", "\x1f\x7f", "\u2028", "\ufeff", "\ufffd", "\u00e9", "\U0001f600", "e\u0301",
	"<a href=\"&\">", "\"", "'", "'q'", "`x`", "12", "1e3", "null", "true", "{}", "[1]", "$", "${x}", "$HOME", "-input", "--", "a,b", "a:b", "//", "/* x */", "# x", "#", "'''", "{", "}", "\x1b[0m",
}

// HCliOdd: what is printed holds texts as they are.
func HCliOdd() {
	text := oddTexts[sym.Choose("text", len(oddTexts))]
	x := sym.Str("x", 1, "a%")
	doc := obj{"v": text, "x": x, "l": list{text, obj{text: x}}}
	want := sym.Clone(doc).(obj)
	doc["s"] = "#//!js\njson.trail.w = json.trail.v"
	want["w"] = text
	data, err := json.Marshal(doc)
	sym.Assume(err == nil)
	files := map[string]string{"f": string(data)}
	from := [][]string{{"-input", string(data)}, {"-files", "f"}}[sym.Choose("from", 2)]
	switch sym.Choose("what", 3) {
	case 0:
		out, status := sym.RunMain(main, files, append([]string{"eval"}, from...)...)
		sym.Assert(status == 0, "evaluating a document does not end with status 0")
		printed(out, want)
	case 1:
		out, status := sym.RunMain(main, files, append([]string{"markup", "-eval", "-path-scripts", "$.l[1].t:json.trail.u = 1"}, from...)...)
		sym.Assert(status == 0, "marking up a document and evaluating it does not end with status 0")
		want["l"].(list)[1].(obj)["u"] = 1.0
		printed(out, want)
	case 2:
		// the text as a script
		if strings.ContainsAny(text, ",:") {
			return
		}
		out, status := sym.RunMain(main, files, append([]string{"markup", "-path-scripts", "$.x:" + text}, from...)...)
		sym.Assert(status == 0, "marking up a document does not end with status 0")
		j := jom.NewFromMap(doc)
		sym.Assert(j.JsonPathSetter("$.x", "#//!js\n"+text) == nil, "a script is not set")
		sym.Assert(out == j.String()+"\n", "markup does not print the document with its scripts at their paths")
	}
}

// HCliMarkupFiles: each file is marked up as it is alone, in the order of the files.
func HCliMarkupFiles() {
	x := sym.Str("x", 1, "a1")
	old := "#//!js\\njson.trail.old = true"
	files := map[string]string{
		"a": "{\"n\": 1, \"s\": \"" + old + "\", \"x\": \"" + x + "\"}",
		"b": "n: 2\no: {n: 3, t: '" + old + "'}\n",
		"c": "[{\"n\": 4, \"s\": \"" + old + "\"}, 5]",
	}
	names := []string{"b", "c", "a"}
	pairs := []string{"$..n:json.trail.m = 1", "$.n:json.trail.m = 1,$.new:json.trail.k = 1", "$.*:json.trail.m = 1"}[sym.Choose("pairs", 3)]
	var args []string
	if sym.Choose("strip", 2) == 1 {
		args = append(args, "-strip")
	}
	if sym.Choose("eval", 2) == 1 {
		args = append(args, "-eval")
	}
	if sym.Choose("lang", 2) == 1 {
		args = append(args, "-language", "go")
	}
	args = append(append([]string{"markup"}, args...), "-path-scripts", pairs)
	var given []string
	for n := 2 + sym.Choose("n", 2); n > 0; n-- {
		i := sym.Choose("file", len(names))
		given = append(given, names[i])
		names = append(append([]string{}, names[:i]...), names[i+1:]...)
	}
	want, fails := "", false
	for _, n := range given {
		out, status := sym.RunMain(main, files, append(append([]string{}, args...), "-files", n)...)
		want += out
		fails = fails || status != 0
	}
	out, status := sym.RunMain(main, files, append(append([]string{}, args...), "-files", strings.Join(given, ","))...)
	sym.Assert((status != 0) == fails, "marking up files fails, or not, against what becomes of each of them")
	if !fails {
		sym.Reach("marked")
		sym.Assert(out == want, "markup does not print what marking up each file gives")
	}
}
