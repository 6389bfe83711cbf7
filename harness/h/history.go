package h

import (
	"fmt"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// What is done to a JsonMap depends on what it holds, not on what was done before.

// said is an error or a panic as a text.
func said(err interface{}) string {
	if err == nil {
		return ""
	}
	if e, is := err.(error); is {
		return "error: " + e.Error()
	}
	return fmt.Sprint("panic: ", err)
}

// located is what a selection by text gives, with the locations. Nodes belong to whoever selected them.
func located(j *jom.JsonMap, path string) interface{} {
	nodes, err := j.JsonPathSelector(path)
	out := list{}
	for _, n := range nodes {
		out = append(out, n.Value, len(n.Absolute))
		for _, k := range n.Absolute {
			out = append(out, k.Value)
		}
	}
	for _, n := range nodes {
		n.Value = "used"
		for i := range n.Absolute {
			n.Absolute[i] = json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "used"}
		}
		_ = append(n.Absolute, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "used"})
	}
	return list{out, said(err)}
}

const historyOps = 26

// historyOp does one thing to a JsonMap and gives all that can be seen of it beside what the JsonMap holds then.
func historyOp(n int, j *jom.JsonMap, x float64) (r interface{}) {
	p := sym.Panics(func() {
		switch n {
		case 0:
			r = located(j, "$..a")
		case 1:
			r = located(j, "$.l[0,1]")
		case 2:
			r = located(j, "$...b")
		case 3:
			r = located(j, "$.m.zz.y")
		case 4:
			r = said(j.JsonPathSetter("$.m.b", obj{"a": 7.0, "s": "#//!js\ns"}))
		case 5:
			r = said(j.JsonPathSetter("$.l[0]", nil))
		case 6:
			r = said(j.JsonPathSetter("$..a", nil))
		case 7:
			j.MustPush("$.l", x, 1, 0)
		case 8:
			r = j.MustPop("$.l")
		case 9:
			j.Strip()
		case 10:
			r = j.FindScriptFields()
		case 11:
			j.Run()
		case 12:
			r = said(j.MarkupCode("$.m.t", "js", "c"))
		case 13:
			r = said(j.Unmarshal([]byte(`{"l": [1, {"a": 2}], "m": {"b": {"a": 3}}, "t": "#//!js\nn"}`)))
		case 14:
			r = said(j.Unmarshal([]byte(`{"l": [1`)))
		case 15:
			r = said(j.Unmarshal([]byte(`[1, {"a": 2, "s": "#//!js\ns"}]`)))
		case 16:
			// that of the root is empty until something has run
			if s := j.GetCurrentScopePath(); s != "" {
				r = s
			} else {
				r = "$"
			}
		case 17:
			c := j.Clone(false)
			r = said(c.(*jom.JsonMap).JsonPathSetter("$.m.n", x))
		case 18:
			(*j.GetInsides())["n"] = "#//!js\nn"
		case 19:
			c := j.Clone(true).(*jom.JsonMap)
			c.Run()
			r = list{c.GetCurrentScopePath(), c.FindScriptFields(), c.IsArray()}
		case 20:
			b, err := j.Marshal()
			r = list{string(b), said(err)}
		case 21:
			r = said(j.JsonPathSetter("$.m.a[1]", "#//!py\nx"))
		case 22:
			// paths belong to whoever had them read
			p, err := json_map.ParseJsonPath("$.l[0,1]")
			if err == nil {
				p[0][0].Value = "m"
				p[1] = p[1][:1]
				_ = append(p[0], json_map.AbsolutePathKey{KeyType: json_map.Wildcard})
			}
			r = said(err)
		case 23:
			r = said(j.JsonPathSetter("$.m.a", list{x, obj{"s": "#//!js\nd", "a": 1.0}}))
		case 24:
			r = list{located(j, "$.m.*"), located(j, "$.*")}
		case 25:
			// as many properties, of other names
			if m, is := (*j.GetInsides())["m"].(obj); is {
				for _, k := range []string{"a", "b", "t"} {
					if v, has := m[k]; has {
						delete(m, k)
						m[k+"2"] = v
					}
				}
			}
		}
	})
	return list{r, said(p)}
}

// HHistory: after any operations, any operation does what it does to a fresh JsonMap that holds the same.
func HHistory() {
	ran := 0
	code.RegisterLang("js", func(c code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
		ran++
		out := j.Clone(true)
		*out.GetInsides() = act(c.Script.(string), *j.GetInsides(), j.GetCurrentScopePath())
		return out, nil
	})
	x := sym.Float("x")
	doc := obj{"l": list{x, 2.0, obj{"a": 3.0}}, "m": obj{"b": obj{"a": 1.0}, "a": list{5.0, "x"}}}
	if sym.Choose("script", 2) == 1 {
		doc["m"].(obj)["b"].(obj)["s"] = "#//!js\ns"
	}
	j := jom.NewFromMap(doc)
	for n := 1 + sym.Choose("history", 2+sym.Tier()); n > 0; n-- {
		historyOp(sym.Choose("before", historyOps), j, x)
	}
	fresh := jom.NewFromMap(sym.Clone(*j.GetInsides()).(obj))
	fresh.Array = j.Array
	op := sym.Choose("op", historyOps)
	ran = 0
	got := historyOp(op, j, x)
	gotRan := ran
	ran = 0
	want := historyOp(op, fresh, x)
	sym.Observe(ran)
	sym.Assert(sym.DeepEqual(got, want), "what an operation gives depends on what was done to the JsonMap before")
	sym.Assert(ran == gotRan, "how many scripts run depends on what was done to the JsonMap before")
	sym.Assert(j.IsArray() == fresh.IsArray() && sym.DeepEqual(*j.GetInsides(), *fresh.GetInsides()), "what an operation does depends on what was done to the JsonMap before")
	if op == 1 {
		// and what it gives is that of this document: nothing is remembered of others either
		exp, ok := list{}, true
		for i := 0; i < 2; i++ {
			v, is := refGet(*j.GetInsides(), []step{key("l"), {kind: sIndex, i: i}})
			if ok = ok && is; is {
				exp = append(exp, results(v)...)
			}
		}
		nodes, err := j.JsonPathSelector("$.l[0,1]")
		sym.Assert((err == nil) == ok && (!ok || sameList(values(nodes), exp)), "a selection does not give what the document holds now")
	}
}
