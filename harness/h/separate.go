package h

import (
	"fmt"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// sepOps are things done to a document of one's own; each gives all that can be seen of its outcome.
var sepOps = []func(float64) (interface{}, error){
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"k": list{1.0, x, 3.0}, "m": 2.0})
		n, err := j.JsonPathSelector("$.k[?(@ > $.m)]")
		return values(n), err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"k": obj{"b": list{1.0, obj{"a": x}}, "a": 2.0}, "b": "#//!py\nx"})
		n, err := j.JsonPathSelector("$..b")
		err2 := runErr(j)
		return list{values(n), fmt.Sprint(err2)}, err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"k": list{list{1.0, x}, 2.0}})
		err := j.JsonPathSetter("$.k[0][?(@ == 1)]", nil)
		_, err2 := j.JsonPathSelector("$.k[?(@.x.y)]")
		return list{*j.GetInsides(), fmt.Sprint(err2)}, err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"k": list{1.0, obj{"a": 2.0}, list{3.0}}})
		err := j.JsonPathSetter("$.k[1].a", obj{"n": x})
		return *j.GetInsides(), err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"o": obj{"l": list{1.0, x}, "s": "#//!js\nvar s = json.jsonPathSelector(\"$.l[1]\"); if (s.getValues()[0] > 2) { s.setValues(7); } json.trail.got = s.getValues();"}})
		err := runErr(j)
		return *j.GetInsides(), err
	},
	func(x float64) (interface{}, error) {
		out, err := jom.Eval([]byte(`{"n": 1, "s": "#//!js\njson.trail.n = json.jsonPathSelector('$.n').getValues()[0] + 1;"}`), false)
		return string(out), err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"o": obj{"n": 1.0, "cb": func(m json_map.JsonMapInt) { (*m.GetInsides())["n"] = x }}})
		err := runErr(j)
		return *j.GetInsides(), err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"o": obj{"n": 1.0}})
		err := j.MarkupCode("$.o.s", "js", "json.trail.n = 2;")
		found := j.FindScriptFields()
		j.Strip()
		return list{found, *j.GetInsides()}, err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"k": list{1.0, 2.0}})
		j.MustPush("$.k", x, 0)
		n, err := j.JsonPathSelector("$.k[0,7]")
		return list{j.MustPop("$.k", 1), *j.GetInsides(), len(n)}, err
	},
	func(x float64) (interface{}, error) {
		j := jom.NewFromMap(obj{"n": x, "s": "#//!js\nif (json.trail.n > 1) { throw 'x'; }"})
		err := runErr(j)
		return *j.GetInsides(), err
	},
	func(x float64) (interface{}, error) {
		j := jom.New()
		err := j.Unmarshal([]byte(`[{"a": [1, 2]}, 3]`))
		errs := j.JsonPathSetter("$.array[0].a[0]", x)
		c := j.Clone(false)
		n, err2 := c.JsonPathSelector("$..a")
		b, _ := j.Marshal()
		return list{values(n), string(b), fmt.Sprint(errs), fmt.Sprint(err2)}, err
	},
}

// runErr runs a document and gives what it panics with.
func runErr(j *jom.JsonMap) (err error) {
	if p := sym.Panics(func() { j.Run() }); p != nil {
		err, _ = p.(error)
	}
	return
}

// HSeparate: what is done to two documents at once touches nothing that the two share, and each comes out as alone.
func HSeparate() {
	globals.HaltingDelay = 60
	one := sym.Choose("one", len(sepOps))
	two := one + sym.Choose("two", len(sepOps)-one)
	x := sym.Float("x")
	sym.Races()
	if sym.Tier() > 0 && two == one {
		sym.Schedules(1, false)
	}
	done := make(chan bool, 2)
	var r1, r2 interface{}
	var e1, e2 error
	go func() {
		r1, e1 = sepOps[one](x)
		done <- true
	}()
	go func() {
		r2, e2 = sepOps[two](x)
		done <- true
	}()
	<-done
	<-done
	// (alone they are done afterwards, so that whatever is set up by the first use is set up by both at once)
	w1, we1 := sepOps[one](x)
	w2, we2 := sepOps[two](x)
	sym.Assert(sym.RaceFound() == "", "what is done to two documents at once races")
	sym.Assert((e1 == nil) == (we1 == nil) && (e2 == nil) == (we2 == nil), "a document fails differently while another one is worked on")
	sym.Assert(sym.DeepEqual(r1, w1), "a document comes out differently while another one is worked on")
	sym.Assert(sym.DeepEqual(r2, w2), "a document comes out differently while another one is worked on")
}
