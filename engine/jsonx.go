package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"strings"
)

// encoding/json, hjson and otto: values travel as opaque JSON text ("blobs")
// that decode back to the value they were made from.

func addJSONIntrinsics() {
	intrinsics["encoding/json.Marshal"] = jsonMarshal
	intrinsics["encoding/json.Unmarshal"] = jsonUnmarshal
	softIntrinsics["github.com/hjson/hjson-go.Unmarshal"] = hjsonUnmarshal
}

// toHost converts a fully concrete JSON-like value; ok is false when some part
// is symbolic or of another type.
func (p *path) toHost(x iface) (interface{}, bool) {
	if x.t == lazyT {
		v := x.v.(*lazyView)
		if v.forced == nil {
			return nil, false
		}
		x = *v.forced
	}
	if x.t == nil {
		return nil, true
	}
	if isNumberText(x.t) {
		t, ok := x.v.(string)
		return json.Number(t), ok
	}
	if n, ok := native(x); ok {
		return n, true
	}
	switch y := x.v.(type) {
	case *smap:
		if y == nil {
			return map[string]interface{}(nil), true
		}
		if y.view != nil {
			return nil, false
		}
		m := map[string]interface{}{}
		for _, e := range y.ents {
			k, ok := e.k.(string)
			if !ok {
				return nil, false
			}
			i, ok := e.v.(iface)
			if !ok {
				i = iface{x.t.Underlying().(*types.Map).Elem(), e.v}
			}
			h, ok := p.toHost(i)
			if !ok {
				return nil, false
			}
			m[k] = h
		}
		return m, true
	case []value:
		if isByteSlice(x.t) {
			return nil, false
		}
		r := make([]interface{}, len(y))
		for i, e := range y {
			ei, ok := e.(iface)
			if !ok {
				ei = iface{x.t.Underlying().(*types.Slice).Elem(), e}
			}
			h, ok := p.toHost(ei)
			if !ok {
				return nil, false
			}
			r[i] = h
		}
		if y == nil {
			return []interface{}(nil), true
		}
		return r, true
	case *value:
		if y == nil {
			return nil, true
		}
		if pt, ok := x.t.Underlying().(*types.Pointer); ok {
			if i, ok := (*y).(iface); ok {
				return p.toHost(i)
			}
			return p.toHost(iface{pt.Elem(), *y})
		}
	}
	return nil, false
}

func fromHost(h interface{}) iface {
	switch h := h.(type) {
	case nil:
		return iface{}
	case bool:
		return iface{types.Typ[types.Bool], h}
	case float64:
		return iface{types.Typ[types.Float64], h}
	case string:
		return iface{types.Typ[types.String], h}
	case json.Number:
		return iface{numberTextT, string(h)}
	case []interface{}:
		r := make([]value, len(h))
		for i := range h {
			r[i] = fromHost(h[i])
		}
		return iface{jsonArrT, r}
	case map[string]interface{}:
		m := newMap()
		keys := []string{}
		for k := range h {
			keys = append(keys, k)
		}
		sortStr(keys)
		for _, k := range keys {
			m.add(k, fromHost(h[k]))
		}
		return iface{jsonMapT, m}
	}
	panic(fmt.Sprintf("fromHost %T", h))
}

// hasUnmarshalable looks for values encoding/json rejects (functions, channels).
func (p *path) hasUnmarshalable(x iface, depth int) string {
	if x.t == lazyT {
		v := x.v.(*lazyView)
		if v.forced == nil {
			for _, e := range v.node.spec.extra {
				if s := p.hasUnmarshalable(e.(iface), 0); s != "" {
					// cannot tell without deciding the value
					return p.hasUnmarshalable(p.forceIface(x), depth)
				}
			}
			return ""
		}
		x = *v.forced
	}
	if x.t == nil {
		return ""
	}
	switch u := x.t.Underlying().(type) {
	case *types.Signature, *types.Chan:
		return typeStr(x.t)
	case *types.Map:
		m := x.v.(*smap)
		if m == nil {
			return ""
		}
		if m.view != nil {
			if m.view.node.spec.extraLen == 0 {
				return ""
			}
			p.forceMap(m)
		}
		for _, e := range m.ents {
			if i, ok := e.v.(iface); ok {
				if s := p.hasUnmarshalable(i, depth+1); s != "" {
					return s
				}
			}
		}
	case *types.Slice:
		for _, e := range x.v.([]value) {
			if i, ok := e.(iface); ok {
				if s := p.hasUnmarshalable(i, depth+1); s != "" {
					return s
				}
			}
		}
	case *types.Pointer:
		if ptr := x.v.(*value); ptr != nil {
			if i, ok := (*ptr).(iface); ok {
				return p.hasUnmarshalable(i, depth+1)
			}
			return p.hasUnmarshalable(iface{u.Elem(), *ptr}, depth+1)
		}
	}
	return ""
}

func jsonMarshal(fr *frame, a []value) value {
	p := fr.p
	x := a[0].(iface)
	if h, ok := p.toHost(x); ok {
		b, err := json.Marshal(h)
		if err != nil {
			return tuple{[]value(nil), p.newError(fr, err.Error())}
		}
		return tuple{strBytes(string(b)), iface{}}
	}
	if t := p.hasUnmarshalable(x, 0); t != "" {
		return tuple{[]value(nil), p.newError(fr, "json: unsupported type: "+t)}
	}
	// pointers marshal as what they point to
	if pt, ok := x.t.Underlying().(*types.Pointer); ok && x.t != lazyT {
		ptr := x.v.(*value)
		if i, ok := (*ptr).(iface); ok {
			x = i
		} else {
			x = iface{pt.Elem(), *ptr}
		}
	}
	return tuple{[]value{&opaque{what: "json text", v: p.cloneIface(x), id: p.id()}}, iface{}}
}

// blobOf recognises JSON text made by jsonMarshal.
func blobOf(b []value) (iface, bool) {
	blank := func(v value) bool { return v == int64(' ') || v == int64('\n') || v == int64('\t') || v == int64('\r') }
	for len(b) > 1 && blank(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	for len(b) > 1 && blank(b[0]) {
		b = b[1:]
	}
	if len(b) == 1 {
		if o, ok := b[0].(*opaque); ok && o.what == "json text" {
			return o.v.(iface), true
		}
	}
	return iface{}, false
}

// jsonUnmarshal supports targets of type *map[string]interface{} and *interface{}.
func jsonUnmarshal(fr *frame, a []value) value { return jsonDecode(fr, a, false) }

// numberTextT is json.Number, which a Decoder may read numbers as.
var numberTextT types.Type

func isNumberText(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Number" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

// numberTexts replaces the numbers of a decoded value by their texts.
func (p *path) numberTexts(fr *frame, x iface) iface {
	x = p.forceIface(x)
	if x.t == nil {
		return x
	}
	switch y := x.v.(type) {
	case *smap:
		p.forceMap(y)
		m := newMap()
		for _, e := range y.ents {
			m.add(e.k, p.numberTexts(fr, e.v.(iface)))
		}
		return iface{x.t, m}
	case []value:
		r := make([]value, len(y))
		for i := range y {
			r[i] = p.numberTexts(fr, y[i].(iface))
		}
		return iface{x.t, r}
	case float64:
		b, _ := json.Marshal(y)
		return iface{numberTextT, string(b)}
	}
	if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return iface{numberTextT, p.opaqueStr("number text", x.v)}
	}
	return x
}

func jsonDecode(fr *frame, a []value, numbers bool) value {
	p := fr.p
	var v iface
	b := a[0].([]value)
	if x, ok := blobOf(b); ok {
		v = p.jsonNormal(x)
		if numbers {
			v = p.numberTexts(fr, v)
		}
	} else {
		s, ok := mkStr(b).(string)
		if !ok {
			unsupported("json.Unmarshal of symbolic text")
		}
		var h interface{}
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			return p.newError(fr, err.Error())
		}
		if numbers {
			d := json.NewDecoder(strings.NewReader(s))
			d.UseNumber()
			_ = d.Decode(&h)
		}
		v = fromHost(h)
	}
	dst := p.forceIface(a[1].(iface))
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("json.Unmarshal into %s", dst.t)
	}
	ptr := dst.v.(*value)
	switch pt.Elem().Underlying().(type) {
	case *types.Map:
		v = p.forceIface(v)
		if v.t == nil {
			*ptr = (*smap)(nil)
			return iface{}
		}
		src, ok := v.v.(*smap)
		if !ok {
			return p.newError(fr, "json: cannot unmarshal array into Go value of type map[string]interface {}")
		}
		// decoding into an existing map keeps its other entries
		dm := (*ptr).(*smap)
		if dm == nil {
			*ptr = src
			return iface{}
		}
		p.forceMap(src)
		for _, e := range src.ents {
			p.mapSet(jsonMapT, dm, e.k, e.v)
		}
		return iface{}
	case *types.Slice:
		v = p.forceIface(v)
		if s, ok := v.v.([]value); ok {
			*ptr = s
			return iface{}
		}
		return p.newError(fr, "json: cannot unmarshal object into Go value of type []interface {}")
	case *types.Interface:
		*ptr = v
		return iface{}
	}
	unsupported("json.Unmarshal into %s", dst.t)
	return nil
}

// jsonNormal is the value obtained by encoding and decoding x.
func (p *path) jsonNormal(x iface) iface {
	if x.t == lazyT {
		v := x.v.(*lazyView)
		if v.forced == nil && v.node.spec.extraLen == 0 {
			return iface{lazyT, &lazyView{node: v.node}}
		}
		x = p.forceIface(x)
	}
	if x.t == nil {
		return x
	}
	switch y := x.v.(type) {
	case *smap:
		if y == nil {
			return iface{}
		}
		if y.view != nil && y.view.node.spec.extraLen == 0 {
			return iface{jsonMapT, p.cloneMap(y)}
		}
		p.forceMap(y)
		m := newMap()
		for _, e := range y.ents {
			ei, ok := e.v.(iface)
			if !ok {
				unsupported("encoding of %s", x.t)
			}
			m.add(e.k, p.jsonNormal(ei))
		}
		return iface{jsonMapT, m}
	case []value:
		if y == nil {
			return iface{}
		}
		r := make([]value, len(y))
		for i := range y {
			ei, ok := y[i].(iface)
			if !ok {
				unsupported("encoding of %s", x.t)
			}
			r[i] = p.jsonNormal(ei)
		}
		return iface{jsonArrT, r}
	}
	b, ok := x.t.Underlying().(*types.Basic)
	if !ok {
		unsupported("encoding of %s", x.t)
	}
	if b.Info()&types.IsInteger != 0 {
		if i, ok := x.v.(int64); ok {
			return iface{types.Typ[types.Float64], float64(i)}
		}
		_, signed, _ := intInfo(b)
		op := OI2F
		if !signed {
			op = OU2F
		}
		return iface{types.Typ[types.Float64], boolOrFloat(p.tb.farith(op, 0, p.tb.Resize(x.v.(*Term), 64, signed)))}
	}
	if isNumberText(x.t) {
		if t, ok := x.v.(string); ok {
			var f float64
			if err := json.Unmarshal([]byte(t), &f); err != nil {
				unsupported("encoding of the number %q", t)
			}
			return iface{types.Typ[types.Float64], f}
		}
		if t, ok := x.v.(*sstr); ok && len(t.b) == 1 {
			if o, ok := t.b[0].(*opaque); ok && o.what == "number text" {
				return iface{types.Typ[types.Float64], o.v}
			}
		}
		unsupported("encoding of a number text")
	}
	if b.Info()&types.IsString != 0 {
		return iface{types.Typ[types.String], x.v}
	}
	if b.Info()&types.IsBoolean != 0 {
		return iface{types.Typ[types.Bool], x.v}
	}
	if b.Info()&types.IsFloat != 0 {
		return iface{types.Typ[types.Float64], x.v}
	}
	unsupported("encoding of %s", x.t)
	return iface{}
}

func sortStr(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var _ = math.Pi

// hjsonUnmarshal reads JSON text that encodes symbolic values: hjson reads JSON
// as JSON does, but replaces its target. Other text is read by hjson's own source.
func hjsonUnmarshal(fr *frame, a []value) (value, bool) {
	p := fr.p
	x, ok := blobOf(a[0].([]value))
	if !ok {
		return nil, false
	}
	v := p.forceIface(p.jsonNormal(x))
	dst := p.forceIface(a[1].(iface))
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	ptr := dst.v.(*value)
	elem := pt.Elem()
	if v.t == nil {
		return p.newError(fr, "reflect: call of reflect.Value.Set on zero Value"), true
	}
	if _, any := elem.Underlying().(*types.Interface); any {
		*ptr = v
		return iface{}, true
	}
	if !types.AssignableTo(v.t, elem) {
		return p.newError(fr, "reflect.Set: value of type "+reflTypeName(v.t)+" is not assignable to type "+reflTypeName(elem)), true
	}
	*ptr = v.v
	return iface{}, true
}
