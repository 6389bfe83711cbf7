package main

// Symbolic JSON documents, decided lazily: a node's kind, width, keys and
// leaves become decisions/variables only when the program looks at them.

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

const (
	kNil = iota
	kNum
	kBool
	kStr
	kMap
	kArr
	kExtra // one of the spec's extra values
)

var kindNames = []string{"nil", "num", "bool", "str", "map", "arr", "extra"}

type jsonSpec struct {
	depth    int
	width    int
	minWidth int
	keyLo    byte
	keyHi    byte
	keyLen   int
	leaves   int // bit mask of leaf kinds
	strLen   int
	capExtra bool
	mapOnly  bool // containers below are maps only
	extra    []value
	extraLen int
	keys     []string // fixed key pool: keys are concrete, taken in order
}

type lazyNode struct {
	id      int
	spec    *jsonSpec
	depth   int
	allowed []int
	decided bool
	kind    int
	wDone   bool
	keys    []value
	kids    []*lazyNode
	leaf    value
	capX    int
	extra   int
}

type lazyView struct {
	node   *lazyNode
	forced *iface
}

var lazyT types.Type = types.NewNamed(types.NewTypeName(0, nil, "undecided", nil), types.NewStruct(nil, nil), nil)
var emptyIface = types.NewInterfaceType(nil, nil).Complete()
var jsonMapT types.Type = types.NewMap(types.Typ[types.String], emptyIface)
var jsonArrT types.Type = types.NewSlice(emptyIface)

func (p *path) newNode(spec *jsonSpec, depth int, root int) *lazyNode {
	n := &lazyNode{id: p.id(), spec: spec, depth: depth}
	if root == 0 {
		for k := kNil; k <= kStr; k++ {
			if spec.leaves&(1<<uint(k)) != 0 {
				n.allowed = append(n.allowed, k)
			}
		}
		if spec.extraLen > 0 {
			n.allowed = append(n.allowed, kExtra)
		}
	}
	if depth > 0 {
		if root == 0 || root&1 != 0 {
			n.allowed = append(n.allowed, kMap)
		}
		if !spec.mapOnly && (root == 0 || root&2 != 0) {
			n.allowed = append(n.allowed, kArr)
		}
	}
	p.nodes = append(p.nodes, n)
	return n
}

func (n *lazyNode) view() iface { return iface{lazyT, &lazyView{node: n}} }

func (p *path) forceIface(x iface) iface {
	if x.t != lazyT {
		return x
	}
	v := x.v.(*lazyView)
	if v.forced == nil {
		f := p.forceView(v)
		v.forced = &f
	}
	return *v.forced
}

func (p *path) forceView(v *lazyView) iface {
	n := v.node
	if !n.decided {
		if len(n.allowed) == 0 {
			unsupported("json node without allowed kinds")
		}
		n.kind = n.allowed[p.choose("kind", len(n.allowed))]
		n.decided = true
		switch n.kind {
		case kNum:
			t := p.freshVar(64, math.Float64bits(float64(n.id)))
			// finite numbers only: JSON has no NaN or infinity
			p.assume(p.tb.Not(p.tb.Eq(p.tb.bin(OBand, t, p.tb.bv(0x7ff0000000000000, 64)), p.tb.bv(0x7ff0000000000000, 64))))
			n.leaf = t
		case kBool:
			n.leaf = p.freshVar(0, 0)
		case kStr:
			l := p.choose("strlen", n.spec.strLen+1)
			b := make([]value, l)
			for i := range b {
				t := p.freshVar(8, 'q')
				p.assume(p.tb.cmp(OUlt, t, p.tb.bv(0x80, 8)))
				p.assume(p.tb.cmp(OUle, p.tb.bv(0x20, 8), t))
				b[i] = t
			}
			n.leaf = mkStr(b)
		case kExtra:
			n.extra = p.choose("extra", n.spec.extraLen)
		}
	}
	switch n.kind {
	case kNil:
		return iface{}
	case kNum:
		return iface{types.Typ[types.Float64], n.leaf}
	case kBool:
		return iface{types.Typ[types.Bool], n.leaf}
	case kStr:
		return iface{types.Typ[types.String], n.leaf}
	case kExtra:
		return n.spec.extra[n.extra].(iface)
	case kMap:
		return iface{jsonMapT, &smap{idx: map[interface{}]*smapEnt{}, view: v}}
	case kArr:
		if !n.wDone {
			w := n.spec.minWidth + p.choose("arrlen", n.spec.width+1-n.spec.minWidth)
			for i := 0; i < w; i++ {
				n.kids = append(n.kids, p.newNode(n.spec, n.depth-1, 0))
			}
			if n.spec.capExtra {
				n.capX = p.choose("cap", 2)
			}
			n.wDone = true
		}
		s := make([]value, len(n.kids)+n.capX)
		for i, k := range n.kids {
			s[i] = k.view()
		}
		for i := len(n.kids); i < len(s); i++ {
			s[i] = iface{}
		}
		return iface{jsonArrT, s[:len(n.kids)]}
	}
	panic("forceView")
}

// forceMap decides the entries of a lazily created map.
func (p *path) forceMap(m *smap) {
	if m.view == nil {
		return
	}
	n := m.view.node
	m.view = nil
	p.forceNodeWidth(n)
	for i, k := range n.keys {
		m.add(k, n.kids[i].view())
	}
}

func (p *path) forceNodeWidth(n *lazyNode) {
	if n.wDone {
		return
	}
	s := n.spec
	if len(s.keys) > 0 {
		// every subset of the fixed key pool
		for _, k := range s.keys {
			if p.choose("key", 2) == 0 {
				n.keys = append(n.keys, k)
				n.kids = append(n.kids, p.newNode(s, n.depth-1, 0))
			}
		}
		n.wDone = true
		return
	}
	w := s.minWidth + p.choose("mapwidth", s.width+1-s.minWidth)
	var prev value
	for i := 0; i < w; i++ {
		b := make([]value, s.keyLen)
		for j := range b {
			t := p.freshVar(8, uint64(s.keyLo)+uint64(i))
			p.assume(p.tb.And(p.tb.cmp(OUle, p.tb.bv(uint64(s.keyLo), 8), t), p.tb.cmp(OUle, t, p.tb.bv(uint64(s.keyHi), 8))))
			b[j] = t
		}
		k := mkStr(b)
		if prev != nil {
			p.assume(p.strLt(prev, k)) // keys are distinct; their order is immaterial
		}
		prev = k
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, p.newNode(s, n.depth-1, 0))
	}
	n.wDone = true
}

// ---- deep copy, deep equality -------------------------------------------------

func (p *path) cloneIface(x iface) iface {
	if x.t == lazyT {
		v := x.v.(*lazyView)
		if v.forced == nil {
			return iface{lazyT, &lazyView{node: v.node}}
		}
		return p.cloneIface(*v.forced)
	}
	switch y := x.v.(type) {
	case *smap:
		return iface{x.t, p.cloneMap(y)}
	case []value:
		if isIfaceSlice(x.t) {
			return iface{x.t, p.cloneSlice(y)}
		}
	}
	return x
}

func isIfaceSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Interface)
	return ok
}

func (p *path) cloneSlice(y []value) []value {
	if y == nil {
		return nil
	}
	n := make([]value, cap(y))
	full := y[:cap(y)]
	for i := range full {
		n[i] = p.cloneIface(full[i].(iface))
	}
	return n[:len(y)]
}

func (p *path) cloneMap(m *smap) *smap {
	if m == nil {
		return nil
	}
	r := newMap()
	if m.view != nil {
		r.view = m.view
		// a pending map is decided through its node, so sharing the view's node is enough
		r.view = &lazyView{node: m.view.node}
		return r
	}
	for _, e := range m.ents {
		v := e.v
		if i, ok := v.(iface); ok {
			v = p.cloneIface(i)
		}
		r.add(e.k, v)
	}
	return r
}

func (p *path) deepEq(a, b iface) *Term {
	if a.t == lazyT && b.t == lazyT {
		va, vb := a.v.(*lazyView), b.v.(*lazyView)
		if va == vb || (va.node == vb.node && va.forced == nil && vb.forced == nil) {
			return p.tb.T_
		}
	}
	a, b = p.forceIface(a), p.forceIface(b)
	if a.t == nil || b.t == nil {
		return p.tb.boolc(a.t == nil && b.t == nil)
	}
	if !identical(a.t, b.t) {
		return p.tb.F_
	}
	switch x := a.v.(type) {
	case *smap:
		y := b.v.(*smap)
		if x == y {
			return p.tb.T_
		}
		if x != nil && y != nil && x.view != nil && y.view != nil && x.view.node == y.view.node {
			return p.tb.T_
		}
		if p.mapLen(x) != p.mapLen(y) {
			return p.tb.F_
		}
		if x == nil || y == nil {
			return p.tb.T_
		}
		r := p.tb.T_
		for _, e := range x.ents {
			f := syntacticFind(y, e.k)
			if f == nil {
				f = p.mapFind(a.t, y, e.k)
			}
			if f == nil {
				return p.tb.F_
			}
			r = p.tb.And(r, p.deepEqElem(a.t.Underlying().(*types.Map).Elem(), e.v, f.v))
			if r.isFalse() {
				return r
			}
		}
		return r
	case []value:
		y := b.v.([]value)
		if len(x) != len(y) {
			return p.tb.F_
		}
		r := p.tb.T_
		et := a.t.Underlying().(*types.Slice).Elem()
		for i := range x {
			if &x[i] == &y[i] {
				continue
			}
			r = p.tb.And(r, p.deepEqElem(et, x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *ssa.Function, *closure, *hostFn:
		return p.tb.boolc(a.v == b.v)
	case *value:
		y := b.v.(*value)
		if x == y {
			return p.tb.T_
		}
		if x == nil || y == nil {
			return p.tb.F_
		}
		return p.deepEqElem(a.t.Underlying().(*types.Pointer).Elem(), *x, *y)
	}
	return p.deepEqElem(a.t, a.v, b.v)
}

func (p *path) deepEqElem(t types.Type, x, y value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return p.deepEq(x.(iface), y.(iface))
	case *types.Map, *types.Slice, *types.Pointer, *types.Signature:
		return p.deepEq(iface{t, x}, iface{t, y})
	case *types.Struct:
		r := p.tb.T_
		for i := 0; i < u.NumFields(); i++ {
			r = p.tb.And(r, p.deepEqElem(u.Field(i).Type(), x.(structure)[i], y.(structure)[i]))
		}
		return r
	case *types.Array:
		r := p.tb.T_
		for i := range x.(array) {
			r = p.tb.And(r, p.deepEqElem(u.Elem(), x.(array)[i], y.(array)[i]))
		}
		return r
	}
	return p.equals(t, x, y)
}

func syntacticFind(m *smap, k value) *smapEnt {
	for _, e := range m.ents {
		if sameSyntax(e.k, k) {
			return e
		}
	}
	return nil
}

func sameSyntax(a, b value) bool {
	switch x := a.(type) {
	case *sstr:
		y, ok := b.(*sstr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.lz != nil || y.lz != nil || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case string, int64, bool:
		return a == b
	}
	return false
}

// ---- tape output -----------------------------------------------------------------

func (p *path) evalStr(v value, e *evaluator) []int {
	r := []int{}
	for _, b := range strBytes(v) {
		switch b := b.(type) {
		case int64:
			r = append(r, int(b))
		case *Term:
			r = append(r, int(e.eval(b)))
		default:
			r = append(r, '?')
		}
	}
	return r
}

func (p *path) nodeJSON(n *lazyNode, e *evaluator) map[string]interface{} {
	kind := n.kind
	if !n.decided {
		kind = n.allowed[0]
		if kind == kNum {
			return map[string]interface{}{"k": "num", "n": fmt.Sprint(math.Float64bits(float64(n.id)))}
		}
		if kind == kBool {
			return map[string]interface{}{"k": "bool", "b": false}
		}
		if kind == kStr {
			return map[string]interface{}{"k": "str", "s": []int{}}
		}
	}
	r := map[string]interface{}{"k": kindNames[kind]}
	switch kind {
	case kNum:
		r["n"] = fmt.Sprint(e.eval(n.leaf.(*Term)))
	case kBool:
		r["b"] = e.eval(n.leaf.(*Term)) == 1
	case kStr:
		r["s"] = p.evalStr(n.leaf, e)
	case kExtra:
		r["x"] = n.extra
	case kMap:
		ents := []interface{}{}
		keys := n.keys
		for i, k := range keys {
			ents = append(ents, map[string]interface{}{"key": p.evalStr(k, e), "val": p.nodeJSON(n.kids[i], e)})
		}
		if !n.wDone {
			for i := 0; i < n.spec.minWidth; i++ {
				kk := make([]int, n.spec.keyLen)
				for j := range kk {
					kk[j] = int(n.spec.keyLo) + i
				}
				ents = append(ents, map[string]interface{}{"key": kk, "val": map[string]interface{}{"k": "nil"}})
			}
		}
		r["e"] = ents
	case kArr:
		a := []interface{}{}
		for _, k := range n.kids {
			a = append(a, p.nodeJSON(k, e))
		}
		r["a"] = a
		r["cap"] = n.capX
	}
	return r
}

func (p *path) inputJSON(in *input, e *evaluator) interface{} {
	r := map[string]interface{}{"name": in.Name, "kind": in.Kind}
	switch in.Kind {
	case "int", "byte":
		r["i"] = fmt.Sprint(sext(e.eval(in.Term), in.Term.w))
		if in.Kind == "byte" {
			r["i"] = fmt.Sprint(e.eval(in.Term))
		}
	case "float":
		r["i"] = fmt.Sprint(e.eval(in.Term))
	case "bool":
		r["b"] = e.eval(in.Term) == 1
	case "str":
		r["s"] = p.evalStr(in.Str, e)
	case "choose":
		r["i"] = fmt.Sprint(in.N)
	case "json":
		r["doc"] = p.nodeJSON(in.Lazy, e)
	}
	return r
}
