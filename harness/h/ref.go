// Package h holds the harnesses: each builds symbolic inputs, runs the real
// code and asserts the property against an independent reference.
package h

import (
	"sort"
	"strconv"

	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

// step kinds of the documented path grammar
const (
	sKey = iota
	sIndex
	sUnion
	sWild
	sSlice
	sFirst
	sRec
	sFilter
)

type step struct {
	kind       int
	key        string
	i, j       int
	hasI, hasJ bool
	idx        []int
	f          filter
}

type obj = map[string]interface{}
type list = []interface{}

// keysOf renders steps as absolute path keys (unions excluded).
func keysOf(steps []step) []json_map.AbsolutePathKey {
	r := make([]json_map.AbsolutePathKey, 0, len(steps))
	for _, s := range steps {
		r = append(r, keyOf(s))
	}
	return r
}

func keyOf(s step) json_map.AbsolutePathKey {
	switch s.kind {
	case sKey:
		return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: s.key}
	case sIndex:
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.i}
	case sWild:
		return json_map.AbsolutePathKey{KeyType: json_map.Wildcard}
	case sFirst:
		return json_map.AbsolutePathKey{KeyType: json_map.First}
	case sFilter:
		return json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: s.f.expr}
	case sRec:
		return json_map.AbsolutePathKey{KeyType: json_map.RecursiveLookup, Value: s.key}
	case sSlice:
		se := []json_map.AbsolutePathKey{{KeyType: json_map.StartEnd}, {KeyType: json_map.StartEnd}}
		if s.hasI {
			se[0] = json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.i}
		}
		if s.hasJ {
			se[1] = json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.j}
		}
		return json_map.AbsolutePathKey{KeyType: json_map.Slice, Value: se}
	}
	panic("keyOf")
}

// text renders steps in the documented syntax; indices must be concrete.
func text(steps []step) string {
	t := "$"
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		switch s.kind {
		case sKey:
			if i == 0 || steps[i-1].kind != sFirst {
				t += "."
			}
			t += s.key
		case sIndex:
			t += "[" + strconv.Itoa(s.i) + "]"
		case sUnion:
			t += "["
			for n, x := range s.idx {
				if n > 0 {
					t += ","
				}
				t += strconv.Itoa(x)
			}
			t += "]"
		case sWild:
			if s.hasI {
				if i == 0 || steps[i-1].kind != sFirst {
					t += "."
				}
				t += "*"
			} else {
				t += "[*]"
			}
		case sSlice:
			t += "["
			if s.hasI {
				t += strconv.Itoa(s.i)
			}
			t += ":"
			if s.hasJ {
				t += strconv.Itoa(s.j)
			}
			t += "]"
		case sFirst:
			if i == 0 || steps[i-1].kind != sFirst {
				t += "..."
			} else {
				t += "."
			}
		case sFilter:
			t += "[?(" + s.f.expr + ")]"
		case sRec:
			t += ".." + s.key
		}
	}
	return t
}

// bounds normalises a slice step against a length.
func (s step) bounds(n int) (lo, hi int, ok bool) {
	lo, hi = 0, n
	if s.hasI {
		lo = s.i
		if lo < 0 {
			lo += n
		}
	}
	if s.hasJ {
		hi = s.j
		if hi < 0 {
			hi += n
		}
	}
	ok = 0 <= lo && lo <= hi && hi <= n
	return
}

// refGet evaluates one path; ok is false when some step cannot be applied.
// The result is the current value after the last step; unordered reports that
// the order of an array result is not determined.
func refGet(doc interface{}, steps []step) (cur interface{}, ok bool) {
	cur = doc
	for _, s := range steps {
		switch x := cur.(type) {
		case obj:
			switch s.kind {
			case sKey:
				v, has := x[s.key]
				if !has {
					return nil, false
				}
				cur = v
			case sWild:
				r := list{}
				for _, k := range sortedKeys(x) {
					r = append(r, x[k])
				}
				cur = r
			case sFirst:
				found := false
				for _, k := range sortedKeys(x) {
					if isContainer(x[k]) {
						cur, found = x[k], true
						break
					}
				}
				if !found {
					return nil, false
				}
			case sRec:
				cur = refRec(x, s.key)
			case sFilter:
				r := list{}
				for _, k := range sortedKeys(x) {
					in, ok := s.f.holds(x[k])
					if !ok {
						return nil, false
					}
					if in {
						r = append(r, x[k])
					}
				}
				cur = r
			default:
				return nil, false
			}
		case list:
			switch s.kind {
			case sKey:
				r := list{}
				for _, e := range x {
					if m, isM := e.(obj); isM {
						if v, has := m[s.key]; has {
							r = append(r, v)
						}
					}
				}
				cur = r
			case sIndex:
				if s.i < 0 || s.i >= len(x) {
					return nil, false
				}
				cur = x[s.i]
			case sWild:
			case sSlice:
				lo, hi, in := s.bounds(len(x))
				if !in {
					return nil, false
				}
				cur = x[lo:hi]
			case sRec:
				cur = refRec(x, s.key)
			case sFilter:
				r := list{}
				for _, e := range x {
					in, ok := s.f.holds(e)
					if !ok {
						return nil, false
					}
					if in {
						r = append(r, e)
					}
				}
				cur = r
			default:
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return cur, true
}

func isContainer(v interface{}) bool {
	switch v.(type) {
	case obj, list:
		return true
	}
	return false
}

func sortedKeys(m obj) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// refRec lists every value stored under key anywhere below v; found arrays
// contribute their elements.
func refRec(v interface{}, key string) list {
	r := list{}
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			if k == key {
				if a, isA := x[k].(list); isA {
					r = append(r, a...)
				} else {
					r = append(r, x[k])
				}
			}
			r = append(r, refRec(x[k], key)...)
		}
	case list:
		for _, e := range x {
			r = append(r, refRec(e, key)...)
		}
	}
	return r
}

// results turns the final value of a path into the selected values.
func results(cur interface{}) list {
	if a, isA := cur.(list); isA {
		return a
	}
	return list{cur}
}

func values(nodes []*json_map.JsonPathNode) list {
	r := list{}
	for _, n := range nodes {
		r = append(r, n.Value)
	}
	return r
}

func doc2(name string, depth, width int) obj {
	return sym.JSON(name, sym.Spec{Depth: depth, Width: width, KeyLo: 'a', KeyHi: 'c', KeyLen: 1, Leaves: sym.LNum | sym.LNil, Root: sym.RootMap}).(obj)
}
