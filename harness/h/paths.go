package h

import (
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

func samePath(a, b []json_map.AbsolutePathKey) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].KeyType != b[i].KeyType || !sym.DeepEqual(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// HAddToAll: paths put together step by step are every combination of what was added, in order, and are separate.
func HAddToAll() {
	var p json_map.AbsolutePaths
	var want json_map.AbsolutePaths
	if sym.Choose("start", 2) == 1 {
		// paths that the user made, with room for more keys
		for i := 0; i < 1+sym.Tier(); i++ {
			path := append(make([]json_map.AbsolutePathKey, 0, 4), json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "s"})
			p = append(p, path)
			want = append(want, append([]json_map.AbsolutePathKey{}, path...))
		}
	}
	calls := 1 + sym.Choose("calls", 3)
	for c := 0; c < calls; c++ {
		var add []json_map.AbsolutePathKey
		for n := sym.Choose("keys", 3+sym.Tier()); n > 0; n-- {
			add = append(add, keyOf(smallStep(sKey, sIndex, sSlice)))
		}
		if errs := p.AddToAll(nil, false, add...); errs != nil {
			sym.Assert(false, "adding to paths gave errors without checking them")
		}
		switch {
		case len(add) == 0:
		case len(want) == 0:
			for _, k := range add {
				want = append(want, []json_map.AbsolutePathKey{k})
			}
		default:
			var next json_map.AbsolutePaths
			for _, w := range want {
				for _, k := range add {
					next = append(next, append(append([]json_map.AbsolutePathKey{}, w...), k))
				}
			}
			want = next
		}
	}
	sym.Assert(len(p) == len(want), "adding to paths gave another number of paths")
	for i := range want {
		sym.Assert(samePath(p[i], want[i]), "a path is not the combination of what was added, in order")
	}
	if len(p) > 1 {
		// the paths are the user's own: changing or extending one of them leaves the others
		p[0][0].Value = "changed"
		_ = append(p[0], json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "more"})
		for i := 1; i < len(p); i++ {
			sym.Assert(samePath(p[i], want[i]), "paths share their keys")
		}
	}
}

// HAddKinds: keys of any kind are added to any paths, whatever they are.
func HAddKinds() {
	kinds := []json_map.AbsolutePathKeyType{json_map.StringKey, json_map.IndexKey, json_map.Wildcard, json_map.Filter, json_map.First, json_map.Slice, json_map.StartEnd, json_map.RecursiveLookup}
	key := func() json_map.AbsolutePathKey {
		k := json_map.AbsolutePathKey{KeyType: kinds[sym.Choose("kind", len(kinds))]}
		switch k.KeyType {
		case json_map.StringKey, json_map.RecursiveLookup, json_map.Filter:
			k.Value = sym.Str("text", sym.Choose("n", 2), "a@")
		case json_map.IndexKey:
			k.Value = sym.Int("index", -2, 2)
		case json_map.Slice:
			k.Value = []json_map.AbsolutePathKey{{KeyType: json_map.IndexKey, Value: 0}, {KeyType: json_map.StartEnd}}
		}
		return k
	}
	var p json_map.AbsolutePaths
	var want []json_map.AbsolutePathKey
	for n := 2 + sym.Choose("keys", 1+sym.Tier()); n > 0; n-- {
		k := key()
		sym.Assert(p.AddToAll(nil, false, k) == nil, "adding to paths gave errors without checking them")
		want = append(want, k)
	}
	sym.Assert(len(p) == 1 && samePath(p[0], want), "a path is not what was added to it, in order")
	a, b := key(), key()
	sym.Assert(p.AddToAll(nil, false, a, b) == nil, "adding to paths gave errors without checking them")
	sym.Assert(len(p) == 2 && samePath(p[0], append(append([]json_map.AbsolutePathKey{}, want...), a)) && samePath(p[1], append(append([]json_map.AbsolutePathKey{}, want...), b)), "a path is not the combination of what was added, in order")
}

// HAddChecked: added paths are checked against a document when asked, which changes nothing but the paths.
func HAddChecked() {
	doc := shape()
	was := sym.Clone(doc)
	j := jom.NewFromMap(doc)
	var p, q json_map.AbsolutePaths
	p.AddToAll(nil, false, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "a"})
	q.AddToAll(nil, false, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "a"})
	var add []json_map.AbsolutePathKey
	for n := 1 + sym.Choose("keys", 2); n > 0; n-- {
		add = append(add, keyOf(smallStep(sKey, sIndex, sSlice, sWild, sFirst)))
	}
	errs := p.AddToAll(j, true, add...)
	q.AddToAll(nil, false, add...)
	sym.Assert(len(p) == len(q), "checked paths are others than unchecked ones")
	failing := 0
	for i := range q {
		sym.Assert(samePath(p[i], q[i]), "checked paths are others than unchecked ones")
		one := json_map.AbsolutePaths{q[i]}
		if _, e := j.GetAbsolutePaths(&one); len(e) > 0 {
			failing++
		}
	}
	sym.Assert(len(errs) == failing, "the errors of added paths are not one for each path that leads nowhere")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), was), "checking added paths changed the document")
}

// pathList is a list of two (thorough up to three) paths of any kind below a.
func pathList(max int, kinds ...int) json_map.AbsolutePaths {
	var p json_map.AbsolutePaths
	for n := 2 + sym.Choose("paths", 1+sym.Tier()); n > 0; n-- {
		path := []json_map.AbsolutePathKey{{KeyType: json_map.StringKey, Value: "a"}}
		for k := sym.Choose("len", max+1); k > 0; k-- {
			path = append(path, keyOf(smallStep(kinds...)))
		}
		p = append(p, path)
	}
	return p
}

// HGetList: a list of paths selects what each of them selects, one after the other, or gives the error of each that fails.
func HGetList() {
	doc := shape()
	j := jom.NewFromMap(doc)
	p := pathList(1, sKey, sIndex, sSlice, sWild, sFirst, sRec)
	nodes, errs := j.GetAbsolutePaths(&p)
	var want []*json_map.JsonPathNode
	var texts list
	for _, path := range p {
		one := json_map.AbsolutePaths{path}
		n, e := j.GetAbsolutePaths(&one)
		want = append(want, n...)
		for _, x := range e {
			texts = append(texts, x.Error())
		}
	}
	sym.Assert(len(errs) == len(texts), "a list of paths does not give one error for each path that fails")
	if len(texts) > 0 {
		for i, e := range errs {
			sym.Assert(e.Error() == texts[i].(string), "the errors of a list of paths are not those of its paths, in order")
		}
		sym.Assert(len(nodes) == 0, "a list of paths of which one fails gives values")
		return
	}
	sym.Assert(sameList(values(nodes), values(want)), "a list of paths does not select what its paths select, in order")
	for i := range want {
		sym.Assert(samePath(nodes[i].Absolute, want[i].Absolute), "a list of paths locates values elsewhere than its paths")
	}
}

// HSetList: setting or deleting a list of paths does so for one after the other, up to the first that fails.
func HSetList() {
	doc := shape()
	other := sym.Clone(doc).(obj)
	j, k := jom.NewFromMap(doc), jom.NewFromMap(other)
	p := pathList(1, sKey, sIndex, sSlice, sWild, sFirst)
	var v interface{}
	switch sym.Choose("value", 3) {
	case 1:
		v = sym.Float("v")
	case 2:
		v = "text"
	}
	err := j.SetAbsolutePaths(&p, v)
	var want error
	for _, path := range p {
		one := json_map.AbsolutePaths{append([]json_map.AbsolutePathKey{}, path...)}
		if want = k.SetAbsolutePaths(&one, v); want != nil {
			break
		}
	}
	sym.Assert((err == nil) == (want == nil), "a list of paths fails when none of its paths does, or the other way round")
	if err != nil {
		sym.Assert(err.Error() == want.Error(), "the error of a list of paths is not that of its first path that fails")
	}
	sym.Assert(sym.DeepEqual(*j.GetInsides(), *k.GetInsides()), "setting a list of paths is not setting one after the other")
	sym.Assert(j.IsArray() == k.IsArray(), "setting a list of paths is not setting one after the other")
}
