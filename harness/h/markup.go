package h

import (
	"errors"
	"strings"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// Marking up documents with scripts, and the errors that everything reports.

// HMarkup: a script is put exactly at the places of its path.
func HMarkup() {
	code.RegisterLang("js", noRunner)
	code.RegisterLang("go", noRunner)
	doc := obj{"d": leafy(), "x": 1.0}
	steps := jsPath(2)
	for i, s := range steps {
		if s.kind == sRec && i < len(steps)-1 {
			sym.Assume(false)
		}
	}
	lang := []string{"js", "go", "py"}[sym.Choose("lang", 3)]
	src := source(1)
	want, ok := refSet(doc, steps, "#//!"+lang+"\n"+src)
	before := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	var err error
	p := sym.Panics(func() { err = j.MarkupCode(text(steps), lang, src) })
	sym.Assert(p == nil, "marking up panics")
	if lang == "py" || !ok {
		sym.Reach("refused")
		sym.Assert(err != nil, "a script of an unknown language, or whose path leads nowhere, is not refused")
		if (lang != "js" && lang != "go") || onePlace(before, steps) {
			sym.Assert(sym.DeepEqual(*j.GetInsides(), before), "a refused script changed the document")
		}
		return
	}
	sym.Reach("marked")
	sym.Assert(err == nil, "a script is refused")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), want), "marking up did not put the script exactly at the places of its path")
	sym.Assert(!j.IsArray(), "marking up changed the kind of the root")
}

// source is a script of up to n characters, maybe after something that looks like the shebang of another script.
func source(n int) string {
	return []string{"", "#//!", "#//!js\n", "#//!go\n", "\n#//!js\n"}[sym.Choose("front", 5)] + sym.Str("src", sym.Choose("m", n+1), "")
}

// HMarkupLang: exactly the languages that can be run can be marked up.
func HMarkupLang() {
	ran := ""
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran = "js " + c.Script.(string)
		return j, nil
	})
	lang := ""
	if n := sym.Choose("n", 6); n < 3 {
		lang = sym.Str("lang", n, "")
	} else {
		lang = sym.Str("lang", n-1, "jsgoJSp \n#!\xc3")
	}
	src := source(2 + sym.Tier())
	j := jom.NewFromMap(obj{"x": 1.0})
	var err error
	p := sym.Panics(func() { err = j.MarkupCode("$.s", lang, src) })
	sym.Assert(p == nil, "marking up panics")
	if lang != "js" && lang != "go" {
		sym.Reach("refused")
		sym.Assert(err != nil && strings.Contains(err.Error(), globals.UnsupportedScriptLang.FillError().Error()) && strings.Contains(err.Error(), lang), "a language that cannot be run is not refused with an error that names it")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), obj{"x": 1.0}), "a refused script changed the document")
		return
	}
	sym.Assert(err == nil, "a language that can be run is refused")
	if lang == "js" {
		sym.Reach("runs")
		j.Run()
		sym.Assert(ran == "js "+src, "what is marked up does not run as exactly that script")
		sym.Assert(sym.DeepEqual(*j.GetInsides(), obj{"x": 1.0}), "a script that was marked up is still there after it ran")
	}
}

// HErrors: an error says everything it was given, in order, under its own heading once.
func HErrors() {
	kinds := []*globals.RuntimeError{&globals.HaltingProblem, &globals.UnsupportedScriptLang, &globals.BuiltinGetterError, &globals.OverriddenBuiltin, &globals.ScriptError, &globals.JsonPathError}
	heads := []string{
		"(-1) Infinite loop has occurred after", "(-2) Unsupported script language in shebang", "(-3) An error has occurred when getting the value of a builtin variable",
		"(-4) The following builtin was overridden", "(-5) The following script has caused an error", "(-6) A JSON path could not be evaluated for the following reason(s)",
	}
	i := sym.Choose("kind", len(kinds))
	k, head := kinds[i], heads[i]
	other := kinds[sym.Choose("other", len(kinds))]
	var infos []string
	var errs []error
	for n := sym.Choose("n", 4); n > 0; n-- {
		s := sym.Str("info", sym.Choose("len", 3), "")
		switch sym.Choose("form", 4) {
		case 0:
			errs = append(errs, errors.New(s))
			infos = append(infos, s)
		case 1: // of the same kind, or of another
			sym.Assume(s != "")
			e := other.FillError(s)
			errs = append(errs, e)
			if other == k {
				infos = append(infos, s)
			} else {
				infos = append(infos, e.Error())
			}
		case 2:
			errs = append(errs, k.FillFromErrors([]error{errors.New(s), k.FillError("y")}))
			infos = append(infos, s+", y")
		case 3: // several errors of the same kind, one after the other
			errs = append(errs, errors.New(k.FillError("x", s).Error()+"; "+k.FillError("z").Error()))
			infos = append(infos, "x, "+s+"; z")
		}
	}
	want := head
	if said := strings.Join(infos, ", "); said != "" {
		want += ": " + said
	}
	sym.Assert(k.FillError(infos...).Error() == want, "an error does not say exactly what it was given")
	sym.Assert(k.FillFromErrors(errs).Error() == want, "an error does not say exactly what the errors it was made of say")
}
