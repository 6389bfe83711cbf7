package main

// More of the standard library: atomics, sync.Map, sync.Pool, sync.Cond, wrapped
// errors, regular-expression captures. The repository does not use most of
// these today; a change to it may.

import (
	"go/token"
	"go/types"
	"math"
	"reflect"
	"regexp/syntax"
	"strings"
)

func init() {
	addCaptureIntrinsics()
	addJSONStream()
	in := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- sync/atomic
	for _, k := range []types.BasicKind{types.Int32, types.Int64, types.Uint32, types.Uint64, types.Uintptr} {
		ty := types.Typ[k]
		n := strings.Title(ty.Name())
		in("sync/atomic.Load"+n, func(fr *frame, a []value) value { return *atomicCell(fr, a[0]) })
		in("sync/atomic.Store"+n, func(fr *frame, a []value) value { *atomicCell(fr, a[0]) = a[1]; return nil })
		in("sync/atomic.Swap"+n, func(fr *frame, a []value) value {
			c := atomicCell(fr, a[0])
			old := *c
			*c = a[1]
			return old
		})
		in("sync/atomic.Add"+n, func(fr *frame, a []value) value {
			c := atomicCell(fr, a[0])
			*c = fr.p.binop(token.ADD, ty, ty, *c, a[1])
			return *c
		})
		in("sync/atomic.And"+n, func(fr *frame, a []value) value {
			c := atomicCell(fr, a[0])
			old := *c
			*c = fr.p.binop(token.AND, ty, ty, *c, a[1])
			return old
		})
		in("sync/atomic.Or"+n, func(fr *frame, a []value) value {
			c := atomicCell(fr, a[0])
			old := *c
			*c = fr.p.binop(token.OR, ty, ty, *c, a[1])
			return old
		})
		in("sync/atomic.CompareAndSwap"+n, func(fr *frame, a []value) value {
			c := atomicCell(fr, a[0])
			if !fr.p.branch(fr.p.equals(ty, *c, a[1])) {
				return false
			}
			*c = a[2]
			return true
		})
	}
	in("(*sync/atomic.Value).Load", func(fr *frame, a []value) value {
		s := atomicBox(fr, a[0])
		return s.v
	})
	in("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		s := atomicBox(fr, a[0])
		s.set(fr, a[1].(iface))
		return nil
	})
	in("(*sync/atomic.Value).Swap", func(fr *frame, a []value) value {
		s := atomicBox(fr, a[0])
		old := s.v
		s.set(fr, a[1].(iface))
		return old
	})
	in("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, a []value) value {
		s := atomicBox(fr, a[0])
		if !fr.p.branch(fr.p.ifaceEq(s.v, a[1].(iface))) {
			return false
		}
		s.set(fr, a[2].(iface))
		return true
	})

	// ---- sync.Map
	in("(*sync.Map).Load", func(fr *frame, a []value) value {
		s := theSyncMap(fr, a[0])
		if e := fr.p.mapFind(syncMapT, s.m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	in("(*sync.Map).Store", func(fr *frame, a []value) value {
		fr.p.mapSet(syncMapT, theSyncMap(fr, a[0]).m, a[1], a[2])
		return nil
	})
	in("(*sync.Map).Swap", func(fr *frame, a []value) value {
		s := theSyncMap(fr, a[0])
		r := tuple{iface{}, false}
		if e := fr.p.mapFind(syncMapT, s.m, a[1]); e != nil {
			r = tuple{e.v, true}
		}
		fr.p.mapSet(syncMapT, s.m, a[1], a[2])
		return r
	})
	in("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		s := theSyncMap(fr, a[0])
		if e := fr.p.mapFind(syncMapT, s.m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		fr.p.mapSet(syncMapT, s.m, a[1], a[2])
		return tuple{a[2], false}
	})
	in("(*sync.Map).LoadAndDelete", func(fr *frame, a []value) value {
		s := theSyncMap(fr, a[0])
		r := tuple{iface{}, false}
		if e := fr.p.mapFind(syncMapT, s.m, a[1]); e != nil {
			r = tuple{e.v, true}
			fr.p.mapDelete(syncMapT, s.m, a[1])
		}
		return r
	})
	in("(*sync.Map).Delete", func(fr *frame, a []value) value {
		fr.p.mapDelete(syncMapT, theSyncMap(fr, a[0]).m, a[1])
		return nil
	})
	in("(*sync.Map).Clear", func(fr *frame, a []value) value {
		theSyncMap(fr, a[0]).m = newMap()
		return nil
	})
	in("(*sync.Map).Range", func(fr *frame, a []value) value {
		s := theSyncMap(fr, a[0])
		for _, e := range append([]*smapEnt(nil), s.m.ents...) {
			if e.dead {
				continue
			}
			if !fr.p.truth(fr.p.call(fr, fr.g, a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- sync.Pool: what was put last comes back first; New otherwise
	in("(*sync.Pool).Put", func(fr *frame, a []value) value {
		s := thePool(fr, a[0])
		if a[1].(iface).t == nil {
			return nil
		}
		s.free = append(s.free, a[1])
		if fr.p.race != nil {
			mergeVC(s.vc, fr.p.race.release(fr.g))
		}
		return nil
	})
	in("(*sync.Pool).Get", func(fr *frame, a []value) value {
		s := thePool(fr, a[0])
		if n := len(s.free); n > 0 {
			x := s.free[n-1]
			s.free = s.free[:n-1]
			if fr.p.race != nil {
				fr.p.race.acquire(fr.g, s.vc)
			}
			return x
		}
		st := fr.p.w.ex.pkgs["sync"].Pkg.Scope().Lookup("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := (*a[0].(*value)).(structure)[i]
				if isNilFn(f) {
					return iface{}
				}
				return fr.p.call(fr, fr.g, f, nil)
			}
		}
		return iface{}
	})

	// ---- sync.Cond
	in("sync.NewCond", func(fr *frame, a []value) value {
		ct := fr.p.w.ex.pkgs["sync"].Pkg.Scope().Lookup("Cond").Type()
		st := zero(ct).(structure)
		st[condL(fr)] = a[0]
		c := new(value)
		*c = st
		return c
	})
	in("(*sync.Cond).Wait", func(fr *frame, a []value) value {
		p := fr.p
		s := theCond(fr, a[0])
		l := (*a[0].(*value)).(structure)[condL(fr)].(iface)
		lock := func(m string) {
			f := p.w.method(l.t, nil, m)
			if f == nil {
				unsupported("sync.Cond over %s", l.t)
			}
			p.call(fr, fr.g, f, []value{l.v})
		}
		w := new(bool)
		s.waiters = append(s.waiters, w)
		lock("Unlock")
		if !*w {
			p.block(fr.g, func() bool { return *w }, "cond")
		}
		if p.race != nil {
			p.race.acquire(fr.g, s.vc)
		}
		lock("Lock")
		return nil
	})
	wake := func(all bool) intrinsic {
		return func(fr *frame, a []value) value {
			s := theCond(fr, a[0])
			if fr.p.race != nil {
				mergeVC(s.vc, fr.p.race.release(fr.g))
			}
			for len(s.waiters) > 0 {
				*s.waiters[0] = true
				s.waiters = s.waiters[1:]
				if !all {
					break
				}
			}
			fr.p.yield(fr.g, "cond")
			return nil
		}
	}
	in("(*sync.Cond).Signal", wake(false))
	in("(*sync.Cond).Broadcast", wake(true))

	// ---- log, runtime/debug: what they print is not looked at
	logN := func(fr *frame, a []value) value { return nil }
	for _, r := range []string{"log.", "(*log.Logger)."} {
		for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix", "SetOutput"} {
			in(r+n, logN)
		}
	}
	for _, r := range []string{"log.", "(*log.Logger)."} {
		for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
			in(r+n, func(fr *frame, a []value) value { return intrinsics["os.Exit"](fr, []value{int64(1)}) })
		}
	}
	in("log.New", func(fr *frame, a []value) value {
		c := new(value)
		*c = structure{}
		return c
	})
	in("log.Default", intrinsics["log.New"])
	in("runtime/debug.Stack", func(fr *frame, a []value) value { return strBytes(fr.p.opaqueStr("stack", nil)) })
	in("runtime/debug.PrintStack", logN)
	in("(reflect.Kind).String", func(fr *frame, a []value) value { return reflect.Kind(fr.p.concInt(a[0])).String() })
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min} {
		f := f
		in("math."+n, func(fr *frame, a []value) value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok1 || !ok2 {
				unsupported("math.Max/Min of symbolic numbers")
			}
			return f(x, y)
		})
	}
	for n, f := range map[string]func(x float64) float64{"archLog": math.Log, "archExp": math.Exp, "Sqrt": math.Sqrt, "sqrt": math.Sqrt} {
		f, n := f, n
		in("math."+n, func(fr *frame, a []value) value {
			x, ok := a[0].(float64)
			if !ok {
				unsupported("math." + n + " of a symbolic number")
			}
			return f(x)
		})
	}
	in("(*errors.joinError).Error", func(fr *frame, a []value) value {
		var r value = ""
		for i, e := range (*a[0].(*value)).(structure)[0].([]value) {
			if i > 0 {
				r = concat(r, "\n")
			}
			x := e.(iface)
			r = concat(r, fr.p.call(fr, fr.g, fr.p.w.method(x.t, nil, "Error"), []value{x.v}))
		}
		return r
	})

	// ---- errors
	in("errors.Unwrap", func(fr *frame, a []value) value {
		e, _ := fr.p.unwrapErr(fr, a[0].(iface))
		return e
	})
	in("errors.Is", func(fr *frame, a []value) value {
		target := a[1].(iface)
		return fr.p.errorChain(fr, a[0].(iface), func(e iface) bool {
			if e.t == nil || target.t == nil {
				return e.t == nil && target.t == nil
			}
			if identical(e.t, target.t) && types.Comparable(e.t) && fr.p.branch(fr.p.ifaceEq(e, target)) {
				return true
			}
			if f := fr.p.w.method(e.t, nil, "Is"); f != nil {
				return fr.p.truth(fr.p.call(fr, fr.g, f, []value{e.v, target}))
			}
			return false
		})
	})
	in("errors.As", func(fr *frame, a []value) value {
		target := a[1].(iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			fr.p.rtPanicPlain("errors: target must be a non-nil pointer")
		}
		it, isI := pt.Elem().Underlying().(*types.Interface)
		return fr.p.errorChain(fr, a[0].(iface), func(e iface) bool {
			if e.t == nil {
				return false
			}
			c := target.v.(*value)
			if isI {
				if fr.p.w.missing(e.t, it) == "" {
					*c = e
					return true
				}
			} else if identical(e.t, pt.Elem()) {
				*c = copyVal(e.v)
				return true
			}
			if f := fr.p.w.method(e.t, nil, "As"); f != nil {
				return fr.p.truth(fr.p.call(fr, fr.g, f, []value{e.v, target}))
			}
			return false
		})
	})
}

func mergeVC(dst, src vclock) {
	for k, v := range src {
		if dst[k] < v {
			dst[k] = v
		}
	}
}

type atomicState struct{ vc vclock }

// atomicCell is the memory an atomic operation works on: a point where the
// schedule may switch, and a synchronisation both ways.
func atomicCell(fr *frame, k value) *value {
	p := fr.p
	ptr, _ := k.(*value)
	if ptr == nil {
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	p.yield(fr.g, "atomic")
	if p.race != nil {
		key := [2]interface{}{"atomic", ptr}
		s, ok := p.side[key].(*atomicState)
		if !ok {
			s = &atomicState{vc: vclock{}}
			p.side[key] = s
		}
		p.race.acquire(fr.g, s.vc)
		mergeVC(s.vc, p.race.release(fr.g))
	}
	return ptr
}

type atomicValue struct{ v iface }

func (s *atomicValue) set(fr *frame, v iface) {
	if v.t == nil {
		fr.p.rtPanicPlain("sync/atomic: store of nil value into Value")
	}
	s.v = v
}

func atomicBox(fr *frame, k value) *atomicValue {
	ptr := atomicCell(fr, k)
	s, ok := fr.p.side[ptr].(*atomicValue)
	if !ok {
		s = &atomicValue{}
		fr.p.side[ptr] = s
	}
	return s
}

type syncMapState struct{ m *smap }

var anyT = types.NewInterfaceType(nil, nil)
var syncMapT = types.NewMap(anyT, anyT)

func theSyncMap(fr *frame, k value) *syncMapState {
	ptr := atomicCell(fr, k)
	s, ok := fr.p.side[ptr].(*syncMapState)
	if !ok {
		s = &syncMapState{m: newMap()}
		fr.p.side[ptr] = s
	}
	return s
}

type poolState struct {
	free []value
	vc   vclock
}

func thePool(fr *frame, k value) *poolState {
	ptr, _ := k.(*value)
	if ptr == nil {
		fr.p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	fr.p.yield(fr.g, "pool")
	s, ok := fr.p.side[ptr].(*poolState)
	if !ok {
		s = &poolState{vc: vclock{}}
		fr.p.side[ptr] = s
	}
	return s
}

type condState struct {
	waiters []*bool
	vc      vclock
}

func theCond(fr *frame, k value) *condState {
	ptr, _ := k.(*value)
	if ptr == nil {
		fr.p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	s, ok := fr.p.side[ptr].(*condState)
	if !ok {
		s = &condState{vc: vclock{}}
		fr.p.side[ptr] = s
	}
	return s
}

func condL(fr *frame) int {
	st := fr.p.w.ex.pkgs["sync"].Pkg.Scope().Lookup("Cond").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return i
		}
	}
	unsupported("sync.Cond")
	return 0
}

// wrapErr is fmt.Errorf with a %w verb.
func (p *path) wrapErr(msg value, err iface) value {
	pt := p.w.ex.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
	c := new(value)
	*c = structure{msg, err}
	return iface{types.NewPointer(pt), c}
}

func (p *path) unwrapErr(fr *frame, e iface) (iface, bool) {
	e = p.forceIface(e)
	if e.t == nil {
		return iface{}, false
	}
	f := p.w.method(e.t, nil, "Unwrap")
	if f == nil {
		return iface{}, false
	}
	r, ok := p.call(fr, fr.g, f, []value{e.v}).(iface)
	if !ok {
		unsupported("Unwrap() []error")
	}
	return r, true
}

func (p *path) errorChain(fr *frame, e iface, f func(iface) bool) bool {
	for {
		e = p.forceIface(e)
		if f(e) {
			return true
		}
		if e.t == nil {
			return false
		}
		n, ok := p.unwrapErr(fr, e)
		if !ok || n.t == nil {
			return false
		}
		e = n
	}
}

// ---- regular-expression captures --------------------------------------------------

// rePerlCap is rePerl with the positions of the groups.
func (p *path) rePerlCap(r *hostRegex, b []value, s int) ([]int, bool) {
	caps := make([]int, r.prog.NumCap)
	for i := range caps {
		caps[i] = -1
	}
	visited := map[[2]int]bool{}
	var run func(pc uint32, i int) bool
	run = func(pc uint32, i int) bool {
		k := [2]int{int(pc), i}
		if visited[k] {
			return false
		}
		visited[k] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			caps[1] = i
			return true
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			return run(in.Out, i) || run(in.Arg, i)
		case syntax.InstCapture:
			if int(in.Arg) >= len(caps) {
				return run(in.Out, i)
			}
			old := caps[in.Arg]
			caps[in.Arg] = i
			if run(in.Out, i) {
				return true
			}
			caps[in.Arg] = old
			return false
		case syntax.InstNop:
			return run(in.Out, i)
		case syntax.InstEmptyWidth:
			return p.branch(p.emptyCond(syntax.EmptyOp(in.Arg), b, i)) && run(in.Out, i)
		}
		if i >= len(b) || !p.branch(p.runeCond(in, b[i])) {
			return false
		}
		return run(in.Out, i+1)
	}
	if !run(uint32(r.prog.Start), s) {
		return nil, false
	}
	caps[0] = s
	return caps, true
}

// reSub lists the groups of the matches from the left, at most n of them (n<0: all).
func (p *path) reSub(r *hostRegex, b []value, n int) [][]int {
	if s, ok := mkStr(b).(string); ok {
		return r.native().FindAllStringSubmatchIndex(s, n)
	}
	if r.longest {
		unsupported("groups of a leftmost-longest match over symbolic text")
	}
	var out [][]int
	pos, prev := 0, -1
	for pos <= len(b) && (n < 0 || len(out) < n) {
		var m []int
		for s := pos; s <= len(b) && m == nil; s++ {
			if c, ok := p.rePerlCap(r, b, s); ok {
				m = c
			}
		}
		if m == nil {
			break
		}
		accept := true
		if m[0] == m[1] {
			if m[0] == prev {
				accept = false
			}
			pos = m[0] + 1
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

func addCaptureIntrinsics() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }
	for _, suf := range []string{"", "String"} {
		str := suf == "String"
		bytesOf := func(v value) []value {
			if s, ok := v.([]value); ok {
				return s
			}
			return strBytes(v)
		}
		part := func(b []value, x, y int) value {
			if x < 0 {
				if str {
					return ""
				}
				return []value(nil)
			}
			if str {
				return mkStr(append([]value(nil), b[x:y]...))
			}
			return b[x:y:y]
		}
		groups := func(b []value, m []int) value {
			var out []value
			for i := 0; i+1 < len(m); i += 2 {
				out = append(out, part(b, m[i], m[i+1]))
			}
			return out
		}
		ints := func(m []int) value {
			var out []value
			for _, x := range m {
				out = append(out, int64(x))
			}
			return out
		}
		one := func(conv func(b []value, m []int) value) intrinsic {
			return func(fr *frame, a []value) value {
				b := bytesOf(a[1])
				ms := fr.p.reSub(theRe(fr, a[0]), b, 1)
				if len(ms) == 0 {
					return []value(nil)
				}
				return conv(b, ms[0])
			}
		}
		all := func(conv func(b []value, m []int) value) intrinsic {
			return func(fr *frame, a []value) value {
				b := bytesOf(a[1])
				ms := fr.p.reSub(theRe(fr, a[0]), b, int(fr.p.concInt(a[2])))
				if len(ms) == 0 {
					return []value(nil)
				}
				var out []value
				for _, m := range ms {
					out = append(out, conv(b, m))
				}
				return out
			}
		}
		pos := func(_ []value, m []int) value { return ints(m) }
		in("(*regexp.Regexp).Find"+suf+"Submatch", one(groups))
		in("(*regexp.Regexp).Find"+suf+"SubmatchIndex", one(pos))
		in("(*regexp.Regexp).FindAll"+suf+"Submatch", all(groups))
		in("(*regexp.Regexp).FindAll"+suf+"SubmatchIndex", all(pos))
	}
	in("(*regexp.Regexp).NumSubexp", func(fr *frame, a []value) value { return int64(theRe(fr, a[0]).re.NumSubexp()) })
	in("(*regexp.Regexp).SubexpIndex", func(fr *frame, a []value) value {
		return int64(theRe(fr, a[0]).re.SubexpIndex(a[1].(string)))
	})
	in("(*regexp.Regexp).SubexpNames", func(fr *frame, a []value) value {
		var out []value
		for _, s := range theRe(fr, a[0]).re.SubexpNames() {
			out = append(out, s)
		}
		return out
	})
}
