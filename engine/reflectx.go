package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Package reflect over the interpreter's values. A reflect.Value is the
// library's struct with a *rval in its first field; a reflect.Type is an
// interface holding a *rtype.

type rval struct {
	t    types.Type
	v    value  // when not addressable
	addr *value // when addressable
}

func (r *rval) get() value {
	if r.addr != nil {
		return load(r.addr)
	}
	return r.v
}

type rtype struct{ t types.Type }

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 1
		case types.Int, types.UntypedInt:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32, types.UntypedRune:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64, types.UntypedFloat:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String, types.UntypedString:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	unsupported("kind of %s", t)
	return 0
}

// the name reflect gives to a type
func reflTypeName(t types.Type) string {
	s := typeStr(t)
	out := ""
	for {
		i := indexOf(s, "interface{}")
		if i < 0 {
			return out + s
		}
		out += s[:i] + "interface {}"
		s = s[i+len("interface{}"):]
	}
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func (p *path) reflPkg() *ssa.Package {
	pk := p.w.ex.pkgs["reflect"]
	if pk == nil {
		unsupported("reflect is not part of the program")
	}
	return pk
}

func (p *path) mkRtype(t types.Type) iface {
	if t == nil {
		return iface{}
	}
	// one *rtype per type, so that types compare
	var key interface{} = "rtypes"
	list, _ := p.w.side[key].([]*rtype)
	var r *rtype
	for _, x := range list {
		if identical(x.t, t) {
			r = x
			break
		}
	}
	if r == nil {
		r = &rtype{t}
		p.w.side[key] = append(list, r)
	}
	pt := p.w.side["rtypePtr"]
	if pt == nil {
		pt = types.NewPointer(p.reflPkg().Pkg.Scope().Lookup("rtype").Type())
		p.w.side["rtypePtr"] = pt
	}
	return iface{pt.(types.Type), r}
}

func (p *path) mkRval(r *rval) value {
	z := zero(p.reflPkg().Pkg.Scope().Lookup("Value").Type()).(structure)
	if r != nil {
		if r.t == lazyT {
			x := p.forceIface(iface{r.t, r.v})
			r = &rval{t: x.t, v: x.v}
		}
		z[0] = r
	}
	return z
}

func rvOf(x value) *rval {
	r, _ := x.(structure)[0].(*rval)
	return r
}

func (p *path) rv(x value, what string) *rval {
	r := rvOf(x)
	if r == nil {
		p.reflPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

// reflPanic panics like reflect does, with text only.
func (p *path) reflPanic(s string) {
	panic(targetPanic{iface{types.Typ[types.String], s}})
}

func (p *path) valueOfIface(x iface) value {
	x = p.forceIface(x)
	if x.t == nil {
		return p.mkRval(nil)
	}
	return p.mkRval(&rval{t: x.t, v: copyVal(x.v)})
}

func (p *path) rvIface(r *rval) iface {
	v := r.get()
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v.(iface)
	}
	return iface{r.t, v}
}

// reflAssign converts v of type src for a place of type dst.
func (p *path) reflAssign(what string, dst types.Type, r *rval) value {
	if types.AssignableTo(r.t, dst) {
		if _, ok := dst.Underlying().(*types.Interface); ok {
			return p.rvIface(r)
		}
		return r.get()
	}
	p.reflPanic(what + ": value of type " + reflTypeName(r.t) + " is not assignable to type " + reflTypeName(dst))
	return nil
}

func isNilVal(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *smap:
		return v == nil
	case *schan:
		return v == nil
	case iface:
		return v.t == nil
	}
	return isNilFn(v)
}

func addReflectIntrinsics() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }
	V := func(name string, f func(fr *frame, r *rval, a []value) value) {
		in("(reflect.Value)."+name, func(fr *frame, a []value) value { return f(fr, fr.p.rv(a[0], name), a[1:]) })
	}
	T := func(name string, f func(fr *frame, t types.Type, a []value) value) {
		in("(*reflect.rtype)."+name, func(fr *frame, a []value) value { return f(fr, a[0].(*rtype).t, a[1:]) })
	}
	typeArg := func(x value) types.Type {
		i := x.(iface)
		if i.t == nil {
			return nil
		}
		return i.v.(*rtype).t
	}

	in("reflect.TypeOf", func(fr *frame, a []value) value { return fr.p.mkRtype(fr.p.forceIface(a[0].(iface)).t) })
	in("reflect.ValueOf", func(fr *frame, a []value) value { return fr.p.valueOfIface(a[0].(iface)) })
	in("reflect.Indirect", func(fr *frame, a []value) value {
		r := rvOf(a[0])
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		return fr.p.reflElem(r)
	})
	in("reflect.Zero", func(fr *frame, a []value) value {
		t := typeArg(a[0])
		return fr.p.mkRval(&rval{t: t, v: zero(t)})
	})
	in("reflect.New", func(fr *frame, a []value) value {
		t := typeArg(a[0])
		c := new(value)
		*c = zero(t)
		return fr.p.mkRval(&rval{t: types.NewPointer(t), v: c})
	})
	in("reflect.MakeMap", func(fr *frame, a []value) value {
		return fr.p.mkRval(&rval{t: typeArg(a[0]), v: newMap()})
	})
	in("reflect.MakeSlice", func(fr *frame, a []value) value {
		t := typeArg(a[0])
		s := make([]value, fr.p.concInt(a[2]))
		for i := range s {
			s[i] = zero(t.Underlying().(*types.Slice).Elem())
		}
		return fr.p.mkRval(&rval{t: t, v: s[:fr.p.concInt(a[1])]})
	})
	in("reflect.Append", func(fr *frame, a []value) value {
		p := fr.p
		r := p.rv(a[0], "Append")
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []value
		for _, x := range a[1].([]value) {
			add = append(add, p.reflAssign("reflect.Append", et, p.rv(x, "Append")))
		}
		return p.mkRval(&rval{t: r.t, v: p.appendVals(r.get().([]value), add, et)})
	})
	in("reflect.SliceOf", func(fr *frame, a []value) value { return fr.p.mkRtype(types.NewSlice(typeArg(a[0]))) })
	ptrTo := func(fr *frame, a []value) value { return fr.p.mkRtype(types.NewPointer(typeArg(a[0]))) }
	in("reflect.PtrTo", ptrTo)
	in("reflect.PointerTo", ptrTo)

	in("(reflect.Value).IsValid", func(fr *frame, a []value) value { return rvOf(a[0]) != nil })
	in("(reflect.Value).Kind", func(fr *frame, a []value) value {
		r := rvOf(a[0])
		if r == nil {
			return int64(0)
		}
		return kindOf(r.t)
	})
	in("(reflect.Value).String", func(fr *frame, a []value) value {
		r := rvOf(a[0])
		if r == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) != 24 {
			return "<" + reflTypeName(r.t) + " Value>"
		}
		return r.get()
	})
	V("Type", func(fr *frame, r *rval, a []value) value { return fr.p.mkRtype(r.t) })
	V("Interface", func(fr *frame, r *rval, a []value) value { return fr.p.rvIface(r) })
	V("CanInterface", func(fr *frame, r *rval, a []value) value { return true })
	V("CanSet", func(fr *frame, r *rval, a []value) value { return r.addr != nil })
	V("CanAddr", func(fr *frame, r *rval, a []value) value { return r.addr != nil })
	V("Addr", func(fr *frame, r *rval, a []value) value {
		if r.addr == nil {
			fr.p.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return fr.p.mkRval(&rval{t: types.NewPointer(r.t), v: r.addr})
	})
	V("IsNil", func(fr *frame, r *rval, a []value) value {
		switch kindOf(r.t) {
		case 18, 19, 20, 21, 22, 23, 26:
			return isNilVal(r.get())
		}
		fr.p.reflPanic("reflect: call of reflect.Value.IsNil on " + reflTypeName(r.t) + " Value")
		return nil
	})
	V("Elem", func(fr *frame, r *rval, a []value) value { return fr.p.reflElem(r) })
	V("Set", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		if r.addr == nil {
			p.reflPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := rvOf(a[0])
		if x == nil {
			p.reflPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		store(r.addr, p.reflAssign("reflect.Set", r.t, x))
		return nil
	})
	V("Len", func(fr *frame, r *rval, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *smap:
			return int64(fr.p.mapLen(x))
		case string, *sstr:
			return int64(strLen(x))
		}
		fr.p.reflPanic("reflect: call of reflect.Value.Len on " + reflTypeName(r.t) + " Value")
		return nil
	})
	V("Index", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		i := p.concInt(a[0])
		bad := func(n int) {
			if i < 0 || int(i) >= n {
				p.reflPanic("reflect: slice index out of range")
			}
		}
		switch x := r.get().(type) {
		case []value:
			bad(len(x))
			return p.mkRval(&rval{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i]})
		case array:
			bad(len(x))
			et := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				return p.mkRval(&rval{t: et, addr: &(*r.addr).(array)[i]})
			}
			return p.mkRval(&rval{t: et, v: x[i]})
		}
		unsupported("reflect.Value.Index on %s", r.t)
		return nil
	})
	V("MapIndex", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		mt := r.t.Underlying().(*types.Map)
		e := p.mapFind(r.t, r.get().(*smap), p.reflAssign("reflect.Value.MapIndex", mt.Key(), p.rv(a[0], "MapIndex")))
		if e == nil {
			return p.mkRval(nil)
		}
		return p.mkRval(&rval{t: mt.Elem(), v: copyVal(e.v)})
	})
	V("MapKeys", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		mt := r.t.Underlying().(*types.Map)
		out := []value{}
		it := p.rangeIter(r.get(), r.t)
		for {
			t := it.next(p).(tuple)
			if !t[0].(bool) {
				return out
			}
			out = append(out, p.mkRval(&rval{t: mt.Key(), v: t[1]}))
		}
	})
	V("MapRange", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		c := new(value)
		*c = structure{}
		mt := r.t.Underlying().(*types.Map)
		p.side[c] = &reflIter{mt: mt, next: func() (tuple, bool) { return nil, false }}
		it := p.rangeIter(r.get(), r.t)
		p.side[c].(*reflIter).next = func() (tuple, bool) {
			t := it.next(p).(tuple)
			return t, t[0].(bool)
		}
		return c
	})
	iterOf := func(fr *frame, v value) *reflIter {
		it, ok := fr.p.side[v.(*value)].(*reflIter)
		if !ok {
			unsupported("reflect.MapIter built outside the engine")
		}
		return it
	}
	intrinsics["(*reflect.MapIter).Next"] = func(fr *frame, a []value) value {
		it := iterOf(fr, a[0])
		t, ok := it.next()
		it.cur = t
		return ok
	}
	intrinsics["(*reflect.MapIter).Key"] = func(fr *frame, a []value) value {
		it := iterOf(fr, a[0])
		return fr.p.mkRval(&rval{t: it.mt.Key(), v: it.cur[1]})
	}
	intrinsics["(*reflect.MapIter).Value"] = func(fr *frame, a []value) value {
		it := iterOf(fr, a[0])
		return fr.p.mkRval(&rval{t: it.mt.Elem(), v: copyVal(it.cur[2])})
	}
	for _, n := range []string{"SetInt", "SetString", "SetBool", "SetFloat", "SetUint"} {
		n := n
		V(n, func(fr *frame, r *rval, a []value) value {
			if r.addr == nil {
				fr.p.reflPanic("reflect: reflect.Value." + n + " using unaddressable value")
			}
			want := map[string][]int{"SetInt": {2, 3, 4, 5, 6}, "SetString": {24}, "SetBool": {1}, "SetFloat": {14}, "SetUint": {11}}[n]
			for _, k := range want {
				if int(kindOf(r.t)) == k {
					if k == 3 || k == 4 || k == 5 {
						unsupported("reflect.Value.SetInt of a small integer")
					}
					store(r.addr, a[0])
					return nil
				}
			}
			unsupported("reflect.Value.%s on %s", n, r.t)
			return nil
		})
	}
	V("SetMapIndex", func(fr *frame, r *rval, a []value) value {
		p := fr.p
		mt := r.t.Underlying().(*types.Map)
		k := p.reflAssign("reflect.Value.SetMapIndex", mt.Key(), p.rv(a[0], "SetMapIndex"))
		x := rvOf(a[1])
		if x == nil {
			p.mapDelete(r.t, r.get().(*smap), k)
			return nil
		}
		p.mapSet(r.t, r.get().(*smap), k, p.reflAssign("reflect.Value.SetMapIndex", mt.Elem(), x))
		return nil
	})
	get := func(lo, hi int64) func(fr *frame, r *rval, a []value) value {
		return func(fr *frame, r *rval, a []value) value {
			if k := kindOf(r.t); k < lo || k > hi {
				fr.p.reflPanic("reflect: call of Value accessor on " + reflTypeName(r.t) + " Value")
			}
			return r.get()
		}
	}
	V("Bool", get(1, 1))
	V("Float", get(13, 14))
	widen := func(signed bool) func(fr *frame, r *rval, a []value) value {
		f := get(2, 6)
		to := types.Typ[types.Int64]
		if !signed {
			f, to = get(7, 12), types.Typ[types.Uint64]
		}
		return func(fr *frame, r *rval, a []value) value {
			return fr.p.conv(to, r.t.Underlying(), f(fr, r, a))
		}
	}
	V("Int", widen(true))
	V("Uint", widen(false))
	V("Pointer", func(fr *frame, r *rval, a []value) value {
		n, ok := fr.p.address(r.get())
		if !ok {
			unsupported("reflect: pointer of %s", r.t)
		}
		return n
	})
	V("NumMethod", func(fr *frame, r *rval, a []value) value { return int64(exported(fr.p, r.t)) })
	V("MethodByName", func(fr *frame, r *rval, a []value) value {
		name, ok := a[0].(string)
		if ok && fr.p.w.method(r.t, nil, name) != nil {
			unsupported("reflect: method %s of %s", name, r.t)
		}
		if !ok && exported(fr.p, r.t) > 0 {
			unsupported("reflect: method with symbolic name of %s", r.t)
		}
		return fr.p.mkRval(nil)
	})
	V("NumField", func(fr *frame, r *rval, a []value) value { return int64(r.t.Underlying().(*types.Struct).NumFields()) })
	V("Field", func(fr *frame, r *rval, a []value) value {
		i := fr.p.concInt(a[0])
		ft := r.t.Underlying().(*types.Struct).Field(int(i)).Type()
		if r.addr != nil {
			return fr.p.mkRval(&rval{t: ft, addr: &(*r.addr).(structure)[i]})
		}
		return fr.p.mkRval(&rval{t: ft, v: r.v.(structure)[i]})
	})
	V("Call", func(fr *frame, r *rval, a []value) value {
		sig := r.t.Underlying().(*types.Signature)
		if sig.Variadic() {
			unsupported("reflect: variadic call")
		}
		var args []value
		for i, x := range a[0].([]value) {
			args = append(args, fr.p.reflAssign("reflect.Value.Call", sig.Params().At(i).Type(), fr.p.rv(x, "Call")))
		}
		res := fr.p.call(fr, fr.g, r.get(), args)
		out := []value{}
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, fr.p.mkRval(&rval{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i, x := range res.(tuple) {
				out = append(out, fr.p.mkRval(&rval{t: sig.Results().At(i).Type(), v: x}))
			}
		}
		return out
	})
	V("Convert", func(fr *frame, r *rval, a []value) value {
		t := typeArg(a[0])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return fr.p.mkRval(&rval{t: t, v: fr.p.rvIface(r)})
		}
		return fr.p.mkRval(&rval{t: t, v: fr.p.conv(t, r.t, r.get())})
	})

	T("Kind", func(fr *frame, t types.Type, a []value) value { return kindOf(t) })
	T("String", func(fr *frame, t types.Type, a []value) value { return reflTypeName(t) })
	T("Name", func(fr *frame, t types.Type, a []value) value {
		switch t := t.(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	})
	T("Elem", func(fr *frame, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return fr.p.mkRtype(u.Elem())
		case *types.Slice:
			return fr.p.mkRtype(u.Elem())
		case *types.Array:
			return fr.p.mkRtype(u.Elem())
		case *types.Map:
			return fr.p.mkRtype(u.Elem())
		case *types.Chan:
			return fr.p.mkRtype(u.Elem())
		}
		fr.p.reflPanic("reflect: Elem of invalid type " + reflTypeName(t))
		return nil
	})
	T("Key", func(fr *frame, t types.Type, a []value) value { return fr.p.mkRtype(t.Underlying().(*types.Map).Key()) })
	sig := func(t types.Type) *types.Signature { return t.Underlying().(*types.Signature) }
	T("NumIn", func(fr *frame, t types.Type, a []value) value { return int64(sig(t).Params().Len()) })
	T("NumOut", func(fr *frame, t types.Type, a []value) value { return int64(sig(t).Results().Len()) })
	T("IsVariadic", func(fr *frame, t types.Type, a []value) value { return sig(t).Variadic() })
	T("In", func(fr *frame, t types.Type, a []value) value {
		return fr.p.mkRtype(sig(t).Params().At(int(fr.p.concInt(a[0]))).Type())
	})
	T("Out", func(fr *frame, t types.Type, a []value) value {
		return fr.p.mkRtype(sig(t).Results().At(int(fr.p.concInt(a[0]))).Type())
	})
	T("NumField", func(fr *frame, t types.Type, a []value) value {
		return int64(t.Underlying().(*types.Struct).NumFields())
	})
	T("NumMethod", func(fr *frame, t types.Type, a []value) value { return int64(exported(fr.p, t)) })
	T("Implements", func(fr *frame, t types.Type, a []value) value {
		return types.Implements(t, typeArg(a[0]).Underlying().(*types.Interface))
	})
	T("ConvertibleTo", func(fr *frame, t types.Type, a []value) value { return types.ConvertibleTo(t, typeArg(a[0])) })
	T("AssignableTo", func(fr *frame, t types.Type, a []value) value { return types.AssignableTo(t, typeArg(a[0])) })
	T("Comparable", func(fr *frame, t types.Type, a []value) value { return types.Comparable(t) })

	in("time.Unix", func(fr *frame, a []value) value {
		return fr.p.timeAt(fr.p.concInt(a[0])*1_000_000_000 + fr.p.concInt(a[1]))
	})
	in("(time.Time).UTC", func(fr *frame, a []value) value { return a[0] })
	in("(time.Time).Local", func(fr *frame, a []value) value { return a[0] })
	in("(time.Time).UnixNano", func(fr *frame, a []value) value { return timeOf(a[0]) })

	// numbers as text
	in("strconv.FormatFloat", func(fr *frame, a []value) value {
		f, ok := a[0].(float64)
		if !ok {
			return fr.p.opaqueStr("number", a[0])
		}
		return strconv.FormatFloat(f, byte(fr.p.concInt(a[1])), int(fr.p.concInt(a[2])), int(fr.p.concInt(a[3])))
	})
	in("strconv.AppendFloat", func(fr *frame, a []value) value {
		f, ok := a[1].(float64)
		if !ok {
			unsupported("text of a symbolic number")
		}
		t := strconv.FormatFloat(f, byte(fr.p.concInt(a[2])), int(fr.p.concInt(a[3])), int(fr.p.concInt(a[4])))
		return fr.p.appendVals(a[0].([]value), strBytes(t), types.Typ[types.Uint8])
	})
	in("strconv.ParseFloat", func(fr *frame, a []value) value {
		p := fr.p
		t := p.concStr(a[0])
		f, err := strconv.ParseFloat(t, int(p.concInt(a[1])))
		if err == nil {
			return tuple{f, iface{}}
		}
		return tuple{f, p.numError(t, err.(*strconv.NumError))}
	})

	// program counters mean nothing here
	in("runtime.FuncForPC", func(fr *frame, a []value) value { return (*value)(nil) })
}

func exported(p *path, t types.Type) int {
	ms := p.w.ex.prog.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func (p *path) reflElem(r *rval) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		ptr := r.get().(*value)
		if ptr == nil {
			return p.mkRval(nil)
		}
		return p.mkRval(&rval{t: u.Elem(), addr: ptr})
	case *types.Interface:
		return p.valueOfIface(r.get().(iface))
	}
	p.reflPanic("reflect: call of reflect.Value.Elem on " + reflTypeName(r.t) + " Value")
	return nil
}

// concStr decides every byte of a string.
func (p *path) concStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	if hasOpaque(b) {
		unsupported("opaque text: %s", opaqueDesc(b))
	}
	out := make([]byte, len(b))
	for i, x := range b {
		switch x := x.(type) {
		case int64:
			out[i] = byte(x)
		case *Term:
			out[i] = byte(p.concretize(x))
		}
	}
	return string(out)
}

// numError is the library's *strconv.NumError.
func (p *path) numError(text string, e *strconv.NumError) value {
	pk := p.w.ex.pkgs["strconv"]
	name := "ErrSyntax"
	if e.Err == strconv.ErrRange {
		name = "ErrRange"
	}
	c := new(value)
	*c = structure{e.Func, text, *p.global(pk.Var(name))}
	return iface{types.NewPointer(pk.Pkg.Scope().Lookup("NumError").Type()), c}
}

type reflIter struct {
	mt   *types.Map
	cur  tuple
	next func() (tuple, bool)
}
