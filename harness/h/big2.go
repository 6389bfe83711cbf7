package h

import (
	"bytes"
	"encoding/json"
	"io"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Long texts, long lists and large documents for the rest.

var longTexts = []string{
	"$.name_of_a_rather_long_property-0123456789.b[123456].c[1:1000][-250:][:77][:-12]....d..e-f[*].*[?(@.price < $.limits[10].max && @.kind === 'a')].g",
	"$" + strings.Repeat(".ab[10]", 24),
	"$..." + strings.Repeat(".", 28) + "x" + strings.Repeat("y", 70),
	"$.a[0,1,2,3,4,5,6,7,8,9,10,11,12][100,200,300].b[?(@)]",
	"$[10,9,8][7,6][5,4].a[3,2,1]",
}

// HParseLong: long paths with one character anywhere replaced by any other, or cut anywhere.
func HParseLong() {
	n := sym.Choose("text", len(longTexts))
	t := longTexts[n]
	at := 0
	if n == 1 || n == 2 {
		at = []int{1, 4, 7, 50, 90, len(t) - 1}[sym.Choose("at", 6)]
	} else {
		at = sym.Choose("at", len(t))
	}
	alphabet := "$.*[]:,-09aZ_ ?(@)'\""
	switch sym.Choose("change", 3) {
	case 0:
		t = t[:at] + sym.Str("char", 1, alphabet) + t[at+1:]
	case 1:
		t = t[:at] + sym.Str("char", 1, alphabet) + t[at:]
	case 2:
		t = t[:at]
	}
	checkParse(t)
}

// HShebangBig: long sources, with one byte anywhere of any value.
func HShebangBig() {
	code.RegisterLang("js", noRunner)
	body := strings.Repeat("var x = '#//!js';\n#//!js\n\t// é\r\n", 20)
	at := []int{0, 1, 5, 6, 7, 31, 255, 256, 257, 511, len(body) - 1}[sym.Choose("at", 11)]
	body = body[:at] + sym.Str("byte", 1, "") + body[at+1:]
	head := []string{"#//!js\n", "#//!js", "\n#//!js\n", "#//!js\r\n", "x"}[sym.Choose("head", 5)]
	_, want, is := shebang(head + body)
	if is {
		tag, _, _ := shebang(head + body)
		sym.Assume(supported(tag))
	}
	c, ok := code.NewFrom(head + body)
	sym.Assert(ok == is, "a string is taken for a script (or not) against its first line")
	if ok {
		sym.Reach("script")
		sym.Assert(c.Script == want, "the source of a script is not the text after its first line")
	}
}

// filterNodes is 12 nodes of which one has any number.
func filterNodes() list {
	l := list{}
	for i := 0; i < bigN; i++ {
		switch {
		case i%5 == 4:
			l = append(l, list{float64(i)})
		case i%2 == 0:
			l = append(l, obj{"b": float64(i), "c": list{float64(i)}})
		default:
			l = append(l, obj{"b": "t" + strconv.Itoa(i), "@": float64(i)})
		}
	}
	l[[]int{0, 5, 10, 11}[sym.Choose("at", 4)]] = obj{"b": sym.Float("b")}
	return l
}

func bigFilter() filter {
	over := func(lim float64) func(v interface{}, has bool) bool {
		return func(v interface{}, has bool) bool { f, is := isNum(v, has); return is && f > lim }
	}
	switch sym.Choose("filter", 4) {
	case 0:
		return bProp("typeof @.b == 'number' && @.b > $.lim[10].n", over(5))
	case 1:
		return bProp("(typeof @.b == 'number' && @.b > 7) /* @.b */ || @.b === '@.b' || @['b'] === \"$.lim\"", over(7))
	case 2:
		return bProp("!(typeof @.b == 'string') && !(!@.b && @.b !== 0) && @.b !== $.lim[11] && "+strings.Repeat("(@.b === @.b) && ", 12)+"@.b > 3", over(3))
	}
	return whole("@.length === 1 && @[0] > 4", func(e interface{}) bool {
		l, is := e.(list)
		return is && len(l) == 1 && l[0].(float64) > 4
	})
}

// HFilterBig: filters over 12 nodes, in an array or an object, selecting, setting and deleting.
func HFilterBig() {
	f := bigFilter()
	l := filterNodes()
	lim := list{}
	for i := 0; i < bigN; i++ {
		lim = append(lim, obj{"n": float64(i - 5)})
	}
	var c interface{} = l
	if sym.Choose("map", 2) == 1 {
		m := obj{}
		for i, e := range l {
			m["k"+strconv.Itoa(i)] = e
		}
		c = m
	}
	doc := obj{"a": c, "lim": lim}
	steps := []step{key("a"), {kind: sFilter, f: f}}
	after := sym.Choose("after", 2) == 1
	if after && f.expr[0] != '@' {
		steps = append(steps, key("c"))
	}
	j := jom.NewFromMap(doc)
	op := sym.Choose("op", 3)
	if op == 0 || len(steps) == 3 {
		want, ok := refGet(doc, steps)
		sym.Assume(ok)
		paths := json_map.AbsolutePaths{keysOf(steps)}
		nodes, errs := j.GetAbsolutePaths(&paths)
		sym.Assert(len(errs) == 0 && sameList(values(nodes), results(want)), "a filter did not select exactly the values its expression holds for, in their order")
		return
	}
	var v, rv interface{} = "new", "new"
	if op == 2 {
		v, rv = nil, gone{}
	}
	want, ok := refSet(sym.Clone(doc), steps, rv)
	sym.Assume(ok)
	err := j.JsonPathSetter(text(steps), v)
	sym.Assert(err == nil, "an applicable path was refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "the document is not the old one with exactly the places changed that the filter holds for")
}

// bigValue is a large document, or a deep one, with a text and a flag of any value somewhere.
func bigValue() interface{} {
	s := sym.Str("s", 1, "")
	b := sym.Bool("b")
	switch sym.Choose("form", 4) {
	case 0:
		d := bigDoc()
		d["m"].(obj)["k11"] = obj{"s": s, "b": b}
		return d
	case 1:
		var v interface{} = list{s, b, nil}
		for i := 0; i < 24; i++ {
			if i%3 == 1 {
				v = obj{"array": v, "x": float64(i) / 8}
			} else {
				v = list{v, float64(-i) * 1e10}
			}
		}
		return v
	case 2:
		l := list{}
		for i := 0; i < 40; i++ {
			l = append(l, obj{"id": float64(i) * 1234567, "name": strings.Repeat("näme \\ \"", i%7), "ok": i%2 == 0, "": nil})
		}
		l[33].(obj)["name"] = s
		return l
	}
	return obj{strings.Repeat("key ", 60): strings.Repeat("text\n\t\\\"é€", 60) + s, "": list{list{}, obj{}, "", b}}
}

// HRoundTripBig: large and deep documents are read, cloned, written and read again as what they are.
func HRoundTripBig() {
	v := bigValue()
	data, err := json.Marshal(v)
	sym.Assume(err == nil)
	j := jom.New()
	sym.Assert(j.Unmarshal(data) == nil && holds(j, v), "a JsonMap does not hold exactly the document that it read, whatever it held before")
	src := j
	if sym.Choose("clone", 2) == 1 {
		src = j.Clone(false).(*jom.JsonMap)
		sym.Assert(holds(src, v), "a clone does not hold the document")
	}
	out, err := src.Marshal()
	sym.Assert(err == nil, "a document cannot be written")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, v), "what is written is not the document")
	back := jom.New()
	sym.Assert(back.Unmarshal(out) == nil && holds(back, v), "what is written does not read as the same document with the same kind of root")
}

// HEvalBig: evaluating a large document.
func HEvalBig() {
	n := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		n++
		(*j.GetInsides())["ran"] = c.Script
		return j, nil
	})
	root := bigDoc()
	want := bigDoc()
	src := sym.Str("src", 1, ascii)
	l, wl := root["l"].(list), want["l"].(list)
	for _, i := range []int{1, 5, 9} {
		l[i].(obj)["s"] = "#//!js\n" + src
		wl[i].(obj)["ran"] = src
	}
	root["zz"] = "#//!js\n" + strings.Repeat("x\n", 200) + src
	want["ran"] = strings.Repeat("x\n", 200) + src
	count := 4
	var doc, after interface{} = root, want
	if sym.Choose("array", 2) == 1 {
		doc, after = list{1.0, root, list{root["l"]}}, list{1.0, want, list{want["l"]}}
		count = 7
	}
	data, err := json.Marshal(doc)
	sym.Assume(err == nil)
	out, err := jom.Eval(data, false)
	sym.Assert(err == nil, "a document is not evaluated")
	var w interface{}
	sym.Assert(json.Unmarshal(out, &w) == nil && sym.DeepEqual(w, after), "what an evaluation gives is not the document after its scripts have run")
	sym.Assert(n == count, "scripts are run too often or not at all")
}

// HErrorsBig: errors made of many and long pieces.
func HErrorsBig() {
	k, head := &globals.JsonPathError, "(-6) A JSON path could not be evaluated for the following reason(s)"
	if sym.Choose("kind", 2) == 1 {
		k, head = &globals.HaltingProblem, "(-1) Infinite loop has occurred after"
	}
	n := 10 + sym.Choose("n", 4)
	var infos []string
	var errs []error
	at := sym.Choose("at", n)
	form := sym.Choose("form", 3)
	for i := 0; i < n; i++ {
		s := "piece " + strconv.Itoa(i) + strings.Repeat(": (-6) x, ", i%4)
		if i == at {
			s = sym.Str("piece", 2, "")
			if i > 5 {
				s = strings.Repeat("long, ", 100) + s
			}
		}
		infos = append(infos, s)
		switch form {
		case 0:
			errs = append(errs, globals.JsonPathError.FillError(s))
			if k != &globals.JsonPathError {
				infos[i] = "(-6) A JSON path could not be evaluated for the following reason(s): " + s
			}
		case 1:
			errs = append(errs, k.FillFromErrors([]error{k.FillError(s)}))
		case 2:
			e := k.FillFromErrors(errs)
			if i == 0 {
				e = k.FillError(s)
			} else {
				e = k.FillFromErrors([]error{e, k.FillError(s)})
			}
			errs = []error{e}
		}
	}
	want := head + ": " + strings.Join(infos, ", ")
	sym.Assert(k.FillError(infos...).Error() == want, "an error does not say exactly what it was given")
	sym.Assert(k.FillFromErrors(errs).Error() == want, "an error does not say exactly what the errors it was made of say")
}

// bigTextSteps is bigSteps with indices that can be written out.
func bigTextSteps() []step {
	var r []step
	switch sym.Choose("path", 5) {
	case 0:
		r = []step{key("l"), {kind: sIndex, i: []int{9, 10, 11, 12}[sym.Choose("index", 4)]}}
	case 1:
		r = []step{key("l"), {kind: sSlice, hasI: true, i: []int{-11, 9, 10, 12, 13}[sym.Choose("start", 5)]}}
	case 2:
		r = []step{key("l"), {kind: sSlice, hasI: true, hasJ: true, i: []int{2, 10}[sym.Choose("start", 2)], j: []int{10, 12, 13}[sym.Choose("end", 3)]}}
	case 3:
		r = []step{key("m"), key("k" + strconv.Itoa([]int{1, 10, 11, 12}[sym.Choose("key", 4)]))}
	case 4:
		for k := 1 + sym.Choose("descents", 9); k > 0; k-- {
			r = append(r, step{kind: sFirst})
		}
		return append(r, key([]string{"b", "c", "zz"}[sym.Choose("key", 3)]))
	}
	if sym.Choose("then", 2) == 1 {
		r = append(r, key([]string{"a", "n"}[sym.Choose("key", 2)]))
	}
	return r
}

// HMarkupBig: long scripts at places of a large document.
func HMarkupBig() {
	doc := bigDoc()
	steps := bigTextSteps()
	src := strings.Repeat("line\r\n#//!go\n", 80) + sym.Str("src", 1, "")
	want, ok := refSet(doc, steps, "#//!js\n"+src)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	err := j.MarkupCode(text(steps), "js", src)
	sym.Assert((err == nil) == ok, "a script is refused, or one whose path leads nowhere is not")
	if ok {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "marking up did not put the script exactly at the places of its path")
	} else if onePlace(before, steps) {
		sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a refused script changed the document")
	}
}

// HJsBig: selecting and setting from scripts in a large scope.
func HJsBig() {
	code.RegisterLang("js", js.RunScript)
	doc := bigDoc()
	s := sym.Str("s", 1, ascii)
	doc["l"].(list)[10].(list)[1].(obj)["a"] = s
	steps := bigTextSteps()
	sel := "var s = json.jsonPathSelector(" + quote(text(steps)) + "); "
	if sym.Choose("set", 2) == 0 {
		want, ok := refGet(doc, steps)
		doc["s"] = "#//!js\n" + sel + "json.trail.out = s.getValues()"
		now := sym.Clone(doc).(obj)
		j := jom.NewFromMap(doc)
		p := sym.Panics(func() { j.Run() })
		sym.Assert((p == nil) == ok, "a selection from a script succeeds on the wrong documents")
		if ok {
			after := *j.GetInsides()
			out, is := after["out"].(list)
			sym.Assert(is && sameList(out, results(want)), "getValues does not give the values that the path selects")
			delete(now, "s")
			delete(after, "out")
			sym.Assert(sym.DeepEqual(after, now), "getValues changed the scope")
		}
		return
	}
	v := obj{"deep": list{list{obj{"x": s}}}}
	want, ok := refSet(sym.Clone(doc), steps, v)
	doc["s"] = "#//!js\n" + sel + "s.setValues({deep: [[{x: json.trail.l[10][1].a}]]})"
	j := jom.NewFromMap(doc)
	p := sym.Panics(func() { j.Run() })
	sym.Assert((p == nil) == ok, "setting from a script succeeds on the wrong documents")
	if ok {
		after := *j.GetInsides()
		sym.Assert(sym.DeepEqual(after, want), "setValues did not change exactly what the path designates")
	}
}

// HJsConsoleBig: many calls of the console with many and long arguments.
func HJsConsoleBig() {
	code.RegisterLang("js", js.RunScript)
	var out, errs bytes.Buffer
	defer func(o, e io.Writer) { js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = o, e }(js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr)
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = &out, &errs
	x := sym.Str("x", 1, "")
	sym.Assume(x[0] < 128)
	n := 10 + sym.Choose("n", 3)
	var wantOut, wantErr []string
	src := ""
	for i := 0; i < n; i++ {
		args, msg := "json.trail.x", x
		for k := 0; k < i; k++ {
			args += ", 'arg" + strconv.Itoa(k) + "\\n'"
			msg += " arg" + strconv.Itoa(k) + "\n"
		}
		if i%3 == 2 {
			src += "console.error(" + args + ");\n"
			wantErr = append(wantErr, "Error", msg)
		} else {
			src += "console.log(" + args + ");\n"
			wantOut = append(wantOut, "Print", msg)
		}
	}
	p := sym.Panics(func() {
		jom.NewFromMap(obj{"some": list{1.0, obj{"property": obj{"x": x, "s": "#//!js\n" + src}}}}).Run()
	})
	sym.Assert(p == nil, "a script that writes to the console fails")
	checkConsole(out.String(), wantOut, "$.some.[1].property")
	checkConsole(errs.String(), wantErr, "$.some.[1].property")
}

// HSetListBig: lists of 12 paths, one of them any, are set or deleted one after the other.
func HSetListBig() {
	doc := bigDoc()
	other := sym.Clone(doc).(obj)
	j, k := jom.NewFromMap(doc), jom.NewFromMap(other)
	at := []int{5, 11}[sym.Choose("at", 2)]
	var p json_map.AbsolutePaths
	for i := 0; i < bigN; i++ {
		st := []step{key("l"), {kind: sIndex, i: i / 2}}
		if i%3 == 1 {
			st = []step{key("m"), key("k" + strconv.Itoa(i))}
		}
		if i == at {
			st = bigSteps(false)
		}
		p = append(p, keysOf(st))
	}
	var v interface{}
	if sym.Choose("set", 2) == 1 {
		v = "text"
	}
	err := j.SetAbsolutePaths(&p, v)
	var want error
	for _, path := range p {
		one := json_map.AbsolutePaths{append([]json_map.AbsolutePathKey{}, path...)}
		if want = k.SetAbsolutePaths(&one, v); want != nil {
			break
		}
	}
	sym.Assert((err == nil) == (want == nil), "a list of paths fails when none of its paths does, or the other way round")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), *k.GetInsides()), "setting a list of paths is not setting one after the other")
}

// HAddBig: many keys added to many paths.
func HAddBig() {
	var p, want json_map.AbsolutePaths
	counts := [][]int{{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {3, 11}, {11, 2, 1}, {2, 1, 2, 1, 3}}[sym.Choose("counts", 4)]
	at := sym.Choose("at", len(counts))
	for c, n := range counts {
		var add []json_map.AbsolutePathKey
		for i := 0; i < n; i++ {
			k := keyOf(step{kind: sIndex, i: 100*c + i})
			if c == at && i == n/2 {
				k = keyOf(smallStep(sKey, sSlice, sIndex))
			}
			add = append(add, k)
		}
		p.AddToAll(nil, false, add...)
		if len(want) == 0 {
			for _, k := range add {
				want = append(want, []json_map.AbsolutePathKey{k})
			}
			continue
		}
		var next json_map.AbsolutePaths
		for _, w := range want {
			for _, k := range add {
				next = append(next, append(append([]json_map.AbsolutePathKey{}, w...), k))
			}
		}
		want = next
	}
	sym.Assert(len(p) == len(want), "adding to paths gave another number of paths")
	for i := range want {
		sym.Assert(samePath(p[i], want[i]), "a path is not the combination of what was added, in order")
	}
}
