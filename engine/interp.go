package main

// The interpreter over go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oReg opKind = iota
	oVal
	oGlobal
	oNone
)

type operand struct {
	kind opKind
	reg  int
	val  value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type finfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]cinstr
	params []int
	frees  []int
	intr   intrinsic
	soft   func(fr *frame, a []value) (value, bool)
	std    bool
	name   string
}

type frame struct {
	p         *path
	g         *gor
	caller    *frame
	fi        *finfo
	regs      []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	pan       interface{}
	pos       token.Pos
}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

func (w *worker) info(fn *ssa.Function) *finfo {
	if fi, ok := w.finfos[fn]; ok {
		return fi
	}
	fi := &finfo{fn: fn, name: fn.String()}
	key := fi.name
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	fi.intr = intrinsics[key]
	if fi.intr == nil && w.ex.overrides[key] != nil {
		fi.intr = w.ex.overrides[key]
	}
	w.finfos[fn] = fi
	if fn.Pkg != nil {
		fi.std = isStd(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.std = isStd(o.Pkg.Pkg.Path())
	}
	if fi.intr != nil {
		return fi
	}
	fi.soft = softIntrinsics[key]
	w.ex.build(fn)
	idx := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		if i, ok := idx[v]; ok {
			return i
		}
		i := len(idx)
		idx[v] = i
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, reg(p))
	}
	for _, f := range fn.FreeVars {
		fi.frees = append(fi.frees, reg(f))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{kind: oNone}
		case *ssa.Const:
			if _, isTP := v.Type().(*types.TypeParam); isTP {
				return operand{kind: oNone}
			}
			return operand{kind: oVal, val: constVal(v)}
		case *ssa.Function:
			return operand{kind: oVal, val: v}
		case *ssa.Builtin:
			return operand{kind: oVal, val: v}
		case *ssa.Global:
			return operand{kind: oGlobal, g: v}
		default:
			i, ok := idx[v]
			if !ok {
				panic(fmt.Sprintf("no register for %T %s in %s", v, v, fn))
			}
			return operand{kind: oReg, reg: i}
		}
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = idx[v]
			}
			for _, o := range in.Operands(nil) {
				if o == nil || *o == nil {
					c.ops = append(c.ops, operand{kind: oNone})
				} else {
					c.ops = append(c.ops, mkop(*o))
				}
			}
			cs = append(cs, c)
		}
		fi.blocks[bi] = cs
	}
	fi.nregs = len(idx)
	return fi
}

func (fr *frame) get(o *operand) value {
	switch o.kind {
	case oReg:
		return fr.regs[o.reg]
	case oVal:
		return o.val
	case oGlobal:
		return fr.p.global(o.g)
	}
	return nil
}

// ---- calls -------------------------------------------------------------------

func (p *path) call(caller *frame, g *gor, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			p.rtPanicPlain("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(caller, g, fn, args, nil)
	case *closure:
		return p.callSSA(caller, g, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return p.callBuiltin(caller, fn, args)
	case *hostFn:
		fr := &frame{p: p, g: g, caller: caller}
		return fn.f(fr, args)
	case nil:
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call of %T", fn))
}

func (p *path) callSSA(caller *frame, g *gor, fn *ssa.Function, args []value, env []value) value {
	fi := p.w.info(fn)
	if fi.intr != nil {
		fr := &frame{p: p, g: g, caller: caller, fi: fi}
		return fi.intr(fr, args)
	}
	if fi.soft != nil {
		if r, ok := fi.soft(&frame{p: p, g: g, caller: caller, fi: fi}, args); ok {
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fi.name)
	}
	if fi.std && caller != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		return nil // library packages are initialised on first use
	}
	if fi.std {
		if why := deniedStd(fn); why != "" {
			unsupported("%s", why)
		}
	} else if p.fnSeen != nil {
		p.fnSeen[fn] = true
	}
	fr := &frame{p: p, g: g, caller: caller, fi: fi}
	g.depth++
	if g.depth > maxDepth {
		panic(ctlStack{})
	}
	defer func() { g.depth-- }()
	fr.regs = make([]value, fi.nregs)
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		fr.regs[r] = env[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		p.runFrame(fr)
	}
	return fr.result
}

func (p *path) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		x := recover()
		switch y := x.(type) {
		case targetPanic:
		case ctlAbort, ctlUnsupported, ctlExit:
			panic(x)
		case runtime.Error:
			panic(ctlUnsupported{"engine: " + y.Error() + " in " + fr.fi.name + stackHint()})
		case string:
			panic(ctlUnsupported{"engine: " + y + " in " + fr.fi.name})
		default:
			panic(x)
		}
		fr.panicking = true
		fr.pan = x
		fr.runDefers()
		fr.block = fr.fi.fn.Recover
		if fr.block == nil {
			fr.result = zeroResults(fr.fi.fn)
		}
	}()
	for {
		instrs := fr.fi.blocks[fr.block.Index]
		p.steps += len(instrs)
		if p.steps > p.maxSteps {
			if p.spin > 0 {
				panic(ctlForever{})
			}
			panic(ctlUnsupported{"step limit"})
		}
		for i := range instrs {
			switch p.exec(fr, &instrs[i]) {
			case kNext:
			case kJump:
				goto next
			case kReturn:
				return
			}
		}
	next:
	}
}

func stackHint() string {
	if !debugStacks {
		return ""
	}
	b := make([]byte, 4000)
	n := runtime.Stack(b, false)
	return "\n" + string(b[:n])
}

func zeroResults(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			x := recover()
			if _, isT := x.(targetPanic); !isT {
				panic(x)
			}
			// a deferred call panicked: it replaces the current panic
			fr.panicking = true
			fr.pan = x
		}
	}()
	fr.p.call(fr, fr.g, d.fn, d.args)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (p *path) exec(fr *frame, c *cinstr) cont {
	switch in := c.in.(type) {
	case *ssa.UnOp:
		fr.regs[c.dst] = p.unop(fr, in, fr.get(&c.ops[0]))
	case *ssa.BinOp:
		fr.regs[c.dst] = p.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&c.ops[0]), fr.get(&c.ops[1]))
	case *ssa.Call:
		fr.pos = in.Pos()
		fn, args := p.prepareCall(fr, &in.Call, c)
		fr.regs[c.dst] = p.call(fr, fr.g, fn, args)
	case *ssa.ChangeInterface:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.ChangeType:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.Convert:
		fr.regs[c.dst] = p.conv(in.Type(), in.X.Type(), fr.get(&c.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = p.conv(in.Type(), in.X.Type(), fr.get(&c.ops[0]))
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		fr.regs[c.dst] = iface{t: in.X.Type(), v: fr.get(&c.ops[0])}
	case *ssa.Extract:
		fr.regs[c.dst] = fr.get(&c.ops[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.pos = in.Pos()
		fr.regs[c.dst] = p.slice(in.X.Type(), fr.get(&c.ops[0]), fr.get(&c.ops[1]), fr.get(&c.ops[2]), fr.get(&c.ops[3]))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(&c.ops[0])
		default:
			res := make(tuple, len(c.ops))
			for i := range c.ops {
				res[i] = fr.get(&c.ops[i])
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		fr.pos = in.Pos()
		v := fr.get(&c.ops[0]).(iface)
		if v.t == nil {
			p.rtPanicPlain("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(targetPanic{v})
	case *ssa.Send:
		fr.pos = in.Pos()
		p.chanSend(fr, fr.get(&c.ops[0]).(*schan), fr.get(&c.ops[1]))
	case *ssa.Store:
		addr := fr.get(&c.ops[0]).(*value)
		if addr == nil {
			fr.pos = in.Pos()
			p.rtPanicPlain("invalid memory address or nil pointer dereference")
		}
		if p.race != nil {
			fr.pos = in.Pos()
			p.race.access(fr, addr, true)
		}
		store(addr, fr.get(&c.ops[1]))
	case *ssa.If:
		succ := 1
		v := fr.get(&c.ops[0])
		switch v := v.(type) {
		case bool:
			if v {
				succ = 0
			}
		case *Term:
			if p.branch(v) {
				succ = 0
			}
		default:
			panic(fmt.Sprintf("if on %T", v))
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		p.phis(fr)
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		p.phis(fr)
		return kJump
	case *ssa.Defer:
		fn, args := p.prepareCall(fr, &in.Call, c)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.Go:
		fr.pos = in.Pos()
		fn, args := p.prepareCall(fr, &in.Call, c)
		p.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := p.concInt(fr.get(&c.ops[0]))
		if n < 0 {
			p.rtPanicPlain("makechan: size out of range")
		}
		fr.regs[c.dst] = p.newChan(int(n))
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		cell := new(value)
		*cell = zero(t)
		fr.regs[c.dst] = cell
	case *ssa.MakeSlice:
		n := p.concInt(fr.get(&c.ops[0]))
		et := in.Type().Underlying().(*types.Slice).Elem()
		cpv := fr.get(&c.ops[1])
		var cp int64
		if t, ok := cpv.(*Term); ok && n >= 0 && isByteType(et) {
			// A buffer's symbolic capacity (the length of a text, say) is a
			// size hint: any capacity that is large enough will do, so the
			// smallest one stands for them all.
			cp = n
			if p.branch(p.tb.cmp(OSlt, p.tb.Resize(t, 64, true), p.tb.bv(uint64(n), 64))) {
				p.rtPanic("makeslice: cap out of range")
			}
		} else {
			cp = p.concInt(cpv)
		}
		if n < 0 {
			p.rtPanic("makeslice: len out of range")
		}
		if cp < n {
			p.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<20 {
			unsupported("make of %d elements in %s", cp, fr.fi.fn)
		}
		s := make([]value, cp)
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[c.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[c.dst] = newMap()
	case *ssa.Range:
		fr.regs[c.dst] = p.rangeIter(fr.get(&c.ops[0]), in.X.Type())
	case *ssa.Next:
		fr.regs[c.dst] = fr.get(&c.ops[0]).(iter).next(p)
	case *ssa.FieldAddr:
		ptr := fr.get(&c.ops[0]).(*value)
		if ptr == nil {
			fr.pos = in.Pos()
			p.rtPanicPlain("invalid memory address or nil pointer dereference")
		}
		s, ok := (*ptr).(structure)
		if !ok {
			unsupported("field of host object %T in %s", *ptr, fr.fi.name)
		}
		fr.regs[c.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[c.dst] = fr.get(&c.ops[0]).(structure)[in.Field]
	case *ssa.IndexAddr:
		fr.pos = in.Pos()
		x := fr.get(&c.ops[0])
		var elems []value
		switch x := x.(type) {
		case []value:
			elems = x
		case *value:
			if x == nil {
				p.rtPanicPlain("invalid memory address or nil pointer dereference")
			}
			elems = (*x).(array)
		default:
			panic(fmt.Sprintf("indexaddr %T", x))
		}
		i := p.index(fr.get(&c.ops[1]), in.Index.Type(), len(elems))
		fr.regs[c.dst] = &elems[i]
	case *ssa.Index:
		fr.pos = in.Pos()
		x := fr.get(&c.ops[0])
		idx := fr.get(&c.ops[1])
		switch x := x.(type) {
		case array:
			fr.regs[c.dst] = x[p.index(idx, in.Index.Type(), len(x))]
		case string, *sstr:
			fr.regs[c.dst] = p.strIndex(x, idx, in.Index.Type())
		default:
			panic(fmt.Sprintf("index %T", x))
		}
	case *ssa.Lookup:
		fr.pos = in.Pos()
		x := fr.get(&c.ops[0])
		k := fr.get(&c.ops[1])
		if m, ok := x.(*smap); ok {
			if p.race != nil && m != nil {
				p.race.accessMap(fr, m, false)
			}
			e := p.mapFind(in.X.Type(), m, k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[c.dst] = tuple{v, e != nil}
			} else {
				fr.regs[c.dst] = v
			}
		} else {
			fr.regs[c.dst] = p.strIndex(x, k, in.Index.Type())
		}
	case *ssa.MapUpdate:
		fr.pos = in.Pos()
		m := fr.get(&c.ops[0]).(*smap)
		if p.race != nil && m != nil {
			p.race.accessMap(fr, m, true)
		}
		p.mapSet(in.Map.Type(), m, fr.get(&c.ops[1]), copyVal(fr.get(&c.ops[2])))
	case *ssa.TypeAssert:
		fr.pos = in.Pos()
		fr.regs[c.dst] = p.typeAssert(in, fr.get(&c.ops[0]).(iface))
	case *ssa.MakeClosure:
		env := make([]value, len(in.Bindings))
		for i := range env {
			env[i] = fr.get(&c.ops[i+1])
		}
		fr.regs[c.dst] = &closure{in.Fn.(*ssa.Function), env}
	case *ssa.Phi:
		// done on block entry
	case *ssa.Select:
		fr.pos = in.Pos()
		fr.regs[c.dst] = p.execSelect(fr, in, c)
	default:
		unsupported("instruction %T", in)
	}
	return kNext
}

// phis evaluates the phi nodes of the block just entered, all at once.
func (p *path) phis(fr *frame) {
	instrs := fr.fi.blocks[fr.block.Index]
	if len(instrs) == 0 {
		return
	}
	if _, ok := instrs[0].in.(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, b := range fr.block.Preds {
		if b == fr.prev {
			pi = i
			break
		}
	}
	var tmp [8]value
	vals := tmp[:0]
	for i := range instrs {
		if _, ok := instrs[i].in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, fr.get(&instrs[i].ops[pi]))
	}
	for i, v := range vals {
		fr.regs[instrs[i].dst] = v
	}
}

func (p *path) prepareCall(fr *frame, call *ssa.CallCommon, c *cinstr) (value, []value) {
	v := fr.get(&c.ops[0])
	if call.Method == nil {
		args := make([]value, len(call.Args))
		for i := range args {
			args[i] = fr.get(&c.ops[i+1])
		}
		return v, args
	}
	recv := p.forceIface(v.(iface))
	if recv.t == nil {
		fr.pos = call.Pos()
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	fn := p.findMethod(recv.t, call.Method)
	if fn == nil {
		unsupported("no method %s on %s", call.Method.Name(), recv.t)
	}
	args := make([]value, 1+len(call.Args))
	args[0] = recv.v
	for i := range call.Args {
		args[i+1] = fr.get(&c.ops[i+1])
	}
	return fn, args
}

func (p *path) findMethod(t types.Type, m *types.Func) *ssa.Function {
	return p.w.method(t, m.Pkg(), m.Name())
}

type methKey struct {
	t    types.Type
	name string
}

func (w *worker) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.ex.lookupMethod(t, pkg, name)
	w.methods[k] = f
	return f
}

// ---- panics ---------------------------------------------------------------------

func (p *path) rtPanic(msg string) {
	p.rtPanicPlain("runtime error: " + msg)
}

func (p *path) rtPanicPlain(msg string) {
	if strings.HasPrefix(msg, "invalid memory") {
		msg = "runtime error: " + msg
	}
	panic(targetPanic{iface{t: p.w.ex.rtErrType, v: structure{msg}}})
}

// ---- indexing --------------------------------------------------------------------

// concInt concretises an integer (forking over its feasible values).
func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (p *path) concInt(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		x := p.concretize(v)
		return sext(x, v.w)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (p *path) index(idx value, t types.Type, n int) int {
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		w, signed, _ := intInfo(t)
		var in *Term
		t64 := p.tb.Resize(i, 64, signed)
		_ = w
		in = p.tb.cmp(OUlt, t64, p.tb.bv(uint64(n), 64))
		if !p.branch(in) {
			p.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		return int(p.concretize(t64))
	}
	panic(fmt.Sprintf("index %T", idx))
}

func (p *path) strIndex(s value, idx value, t types.Type) value {
	if ss, ok := s.(*sstr); ok {
		ss.bytes()
		if i, ok := idx.(int64); ok && hasOpaque(ss.b) {
			// allow indexing in front of the first opaque chunk
			if i >= 0 && int(i) < len(ss.b) {
				for _, x := range ss.b[:i+1] {
					if _, o := x.(*opaque); o {
						unsupported("indexing opaque text")
					}
				}
				return ss.b[i]
			}
		}
	}
	n := strLen(s)
	i := p.index(idx, t, n)
	switch s := s.(type) {
	case string:
		return int64(s[i])
	case *sstr:
		return s.b[i]
	}
	panic("strIndex")
}

// opaqueLen is the length of a text, of which parts may be unknown. Those have
// some positive length.
func (p *path) opaqueLen(x *sstr) value {
	b := x.bytes()
	if !hasOpaque(b) {
		return int64(len(b))
	}
	var known uint64
	var n *Term
	for _, c := range b {
		o, ok := c.(*opaque)
		if !ok {
			known++
			continue
		}
		l, ok := p.side[o].(*Term)
		if !ok {
			l = p.freshVar(64, 8)
			p.assume(p.tb.And(p.tb.cmp(OSle, p.tb.bv(1, 64), l), p.tb.cmp(OSle, l, p.tb.bv(1<<20, 64))))
			p.side[o] = l
		}
		if n == nil {
			n = l
		} else {
			n = p.tb.bin(OAdd, n, l)
		}
	}
	return p.tb.bin(OAdd, n, p.tb.bv(known, 64))
}

func (p *path) slice(t types.Type, x, lo, hi, max value) value {
	var n, cp int
	var elems []value
	isStr := false
	switch x := x.(type) {
	case string:
		n, cp, isStr = len(x), len(x), true
	case *sstr:
		n, isStr = strLen(x), true
		cp = n
	case []value:
		n, cp, elems = len(x), cap(x), x
	case *value:
		if x == nil {
			p.rtPanicPlain("invalid memory address or nil pointer dereference")
		}
		elems = (*x).(array)
		n, cp = len(elems), len(elems)
	default:
		panic(fmt.Sprintf("slice %T", x))
	}
	l, h, m := int64(0), int64(n), int64(cp)
	// bounds check first: fork only on in/out of range, then concretise
	tm := func(v value) *Term {
		switch v := v.(type) {
		case *Term:
			return p.tb.Resize(v, 64, true)
		case int64:
			return p.tb.bv(uint64(v), 64)
		}
		return nil
	}
	if max != nil {
		m = p.concInt(max)
		if m < 0 || m > int64(cp) {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
		}
		h = m
	}
	if hi != nil {
		if ht, ok := hi.(*Term); ok {
			if !p.branch(p.tb.cmp(OUle, tm(ht), p.tb.bv(uint64(m), 64))) {
				p.rtPanic(fmt.Sprintf("slice bounds out of range [:?] with capacity %d", m))
			}
			h = int64(p.concretize(tm(ht)))
		} else {
			h = hi.(int64)
		}
		if h < 0 || h > m {
			what := "capacity"
			if isStr {
				what = "length"
			}
			p.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with %s %d", h, what, m))
		}
	}
	if lo != nil {
		if lt, ok := lo.(*Term); ok {
			if !p.branch(p.tb.cmp(OUle, tm(lt), p.tb.bv(uint64(h), 64))) {
				p.rtPanic(fmt.Sprintf("slice bounds out of range [?:%d]", h))
			}
			l = int64(p.concretize(tm(lt)))
		} else {
			l = lo.(int64)
		}
		if l < 0 || l > h {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
	}
	switch x := x.(type) {
	case string:
		return x[l:h]
	case *sstr:
		return mkStr(x.bytes()[l:h])
	}
	if xs, ok := x.([]value); ok && xs == nil {
		return xs
	}
	return elems[l:h:m]
}

// ---- type assertions -----------------------------------------------------------

func (p *path) typeAssert(in *ssa.TypeAssert, x iface) value {
	x = p.forceIface(x)
	var v value
	ok := false
	msg := ""
	if x.t == nil {
		msg = fmt.Sprintf("interface conversion: interface is nil, not %s", typeStr(in.AssertedType))
	} else if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		v = x
		if meth := p.w.missing(x.t, it); meth != "" {
			msg = fmt.Sprintf("interface conversion: %s is not %s: missing method %s", typeStr(x.t), typeStr(in.AssertedType), meth)
		} else {
			ok = true
		}
	} else if identical(x.t, in.AssertedType) {
		v = x.v
		ok = true
	} else {
		msg = fmt.Sprintf("interface conversion: interface {} is %s, not %s", typeStr(x.t), typeStr(in.AssertedType))
	}
	if ok {
		v = copyVal(v)
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return tuple{v, ok}
	}
	if !ok {
		p.rtPanicPlain(msg)
	}
	return v
}

type missKey struct {
	t  types.Type
	it *types.Interface
}

func (w *worker) missing(t types.Type, it *types.Interface) string {
	k := missKey{t, it}
	if s, ok := w.miss[k]; ok {
		return s
	}
	s := ""
	if m, _ := types.MissingMethod(t, it, true); m != nil {
		s = m.Name()
	}
	w.miss[k] = s
	return s
}

// ---- operators --------------------------------------------------------------------

func (p *path) unop(fr *frame, in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.MUL:
		a, ok := x.(*value)
		if !ok {
			unsupported("load through %T", x)
		}
		if a == nil {
			fr.pos = in.Pos()
			p.rtPanicPlain("invalid memory address or nil pointer dereference")
		}
		if p.race != nil {
			fr.pos = in.Pos()
			p.race.access(fr, a, false)
		}
		return load(a)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return boolVal(p.tb.Not(x))
		}
	case token.SUB:
		w, s, isInt := intInfo(in.X.Type())
		if isInt {
			switch x := x.(type) {
			case int64:
				return normInt(-x, w, s)
			case *Term:
				return intVal(p.tb.Neg(x), w, s)
			}
		}
		if f, ok := x.(float64); ok {
			return -f
		}
		if t, ok := x.(*Term); ok && isFloat(in.X.Type()) {
			return boolOrFloat(p.tb.bin(OBxor, t, p.tb.bv(1<<63, 64)))
		}
	case token.XOR:
		w, s, _ := intInfo(in.X.Type())
		switch x := x.(type) {
		case int64:
			return normInt(^x, w, s)
		case *Term:
			return intVal(p.tb.Bnot(x), w, s)
		}
	case token.ARROW:
		fr.pos = in.Pos()
		v, ok := p.chanRecv(fr, x.(*schan))
		if !ok {
			v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	unsupported("unary %s on %T", in.Op, x)
	return nil
}

func boolOrFloat(t *Term) value {
	if t.isConst() {
		return math.Float64frombits(t.val)
	}
	return t
}

func (p *path) binop(op token.Token, t, ty types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return boolVal(p.eqMixed(t, ty, x, y))
	case token.NEQ:
		return boolVal(p.tb.Not(p.eqMixed(t, ty, x, y)))
	}
	if w, s, isInt := intInfo(t); isInt {
		if op == token.SHL || op == token.SHR {
			return p.shift(op, w, s, t, ty, x, y)
		}
		a, ok1 := x.(int64)
		b, ok2 := y.(int64)
		if ok1 && ok2 {
			return p.intOp(op, w, s, a, b)
		}
		xt, yt := p.intTerm(x, w), p.intTerm(y, w)
		switch op {
		case token.ADD:
			return intVal(p.tb.bin(OAdd, xt, yt), w, s)
		case token.SUB:
			return intVal(p.tb.bin(OSub, xt, yt), w, s)
		case token.MUL:
			return intVal(p.tb.bin(OMul, xt, yt), w, s)
		case token.QUO, token.REM:
			if p.branch(p.tb.Eq(yt, p.tb.bv(0, w))) {
				p.rtPanic("integer divide by zero")
			}
			o := map[bool]map[token.Token]Op{true: {token.QUO: OSdiv, token.REM: OSrem}, false: {token.QUO: OUdiv, token.REM: OUrem}}[s][op]
			return intVal(p.tb.bin(o, xt, yt), w, s)
		case token.AND:
			return intVal(p.tb.bin(OBand, xt, yt), w, s)
		case token.OR:
			return intVal(p.tb.bin(OBor, xt, yt), w, s)
		case token.XOR:
			return intVal(p.tb.bin(OBxor, xt, yt), w, s)
		case token.AND_NOT:
			return intVal(p.tb.bin(OBand, xt, p.tb.Bnot(yt)), w, s)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OUlt, OUle
			if s {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return boolVal(p.tb.cmp(lt, xt, yt))
			case token.LEQ:
				return boolVal(p.tb.cmp(le, xt, yt))
			case token.GTR:
				return boolVal(p.tb.cmp(lt, yt, xt))
			case token.GEQ:
				return boolVal(p.tb.cmp(le, yt, xt))
			}
		}
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return boolVal(p.strLt(x, y))
		case token.GTR:
			return boolVal(p.strLt(y, x))
		case token.LEQ:
			return boolVal(p.tb.Not(p.strLt(y, x)))
		case token.GEQ:
			return boolVal(p.tb.Not(p.strLt(x, y)))
		}
	}
	if isFloat(t) {
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		xt, yt := p.floatTerm(x), p.floatTerm(y)
		if fop, is := map[token.Token]Op{token.ADD: OFadd, token.SUB: OFsub, token.MUL: OFmul, token.QUO: OFdiv}[op]; is {
			if t.Underlying().(*types.Basic).Kind() == types.Float32 {
				unsupported("arithmetic on symbolic float32")
			}
			return boolOrFloat(p.tb.farith(fop, 0, xt, yt))
		}
		switch op {
		case token.LSS:
			return boolVal(p.tb.fcmp(OFlt, xt, yt))
		case token.LEQ:
			return boolVal(p.tb.fcmp(OFle, xt, yt))
		case token.GTR:
			return boolVal(p.tb.fcmp(OFlt, yt, xt))
		case token.GEQ:
			return boolVal(p.tb.fcmp(OFle, yt, xt))
		}
	}
	if isBool(t) {
		// && and || are control flow; only == and != reach here
	}
	unsupported("binary %s on %s", op, t)
	return nil
}

func (p *path) eqMixed(t, ty types.Type, x, y value) *Term {
	_, xi := x.(iface)
	_, yi := y.(iface)
	if xi && !yi {
		return p.ifaceEq(x.(iface), iface{ty, y})
	}
	if yi && !xi {
		return p.ifaceEq(iface{t, x}, y.(iface))
	}
	return p.equals(t, x, y)
}

func (p *path) intOp(op token.Token, w uint8, s bool, a, b int64) value {
	switch op {
	case token.ADD:
		return normInt(a+b, w, s)
	case token.SUB:
		return normInt(a-b, w, s)
	case token.MUL:
		return normInt(a*b, w, s)
	case token.QUO:
		if b == 0 {
			p.rtPanic("integer divide by zero")
		}
		if s {
			if b == -1 {
				return normInt(-a, w, s)
			}
			return normInt(a/b, w, s)
		}
		return normInt(int64(uint64(a)/uint64(b)), w, s)
	case token.REM:
		if b == 0 {
			p.rtPanic("integer divide by zero")
		}
		if s {
			if b == -1 {
				return int64(0)
			}
			return normInt(a%b, w, s)
		}
		return normInt(int64(uint64(a)%uint64(b)), w, s)
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return normInt(a^b, w, s)
	case token.AND_NOT:
		return a &^ b
	}
	if s {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.LSS:
		return ua < ub
	case token.LEQ:
		return ua <= ub
	case token.GTR:
		return ua > ub
	case token.GEQ:
		return ua >= ub
	}
	unsupported("int op %s", op)
	return nil
}

func (p *path) shift(op token.Token, w uint8, s bool, t, ty types.Type, x, y value) value {
	yw, ys, _ := intInfo(ty)
	_ = yw
	n := p.concInt(y)
	if ys && n < 0 {
		p.rtPanicPlain("runtime error: negative shift amount")
	}
	if a, ok := x.(int64); ok {
		if uint64(n) >= uint64(w) {
			if op == token.SHR && s && a < 0 {
				return int64(-1)
			}
			return int64(0)
		}
		if op == token.SHL {
			return normInt(a<<uint(n), w, s)
		}
		if s {
			return a >> uint(n)
		}
		return normInt(int64(uint64(a)>>uint(n)), w, s)
	}
	xt := p.intTerm(x, w)
	if uint64(n) >= uint64(w) {
		n = int64(w)
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if s {
			o = OAshr
			if n >= int64(w) {
				n = int64(w) - 1
			}
		}
	}
	if n >= int64(w) {
		return int64(0)
	}
	return intVal(p.tb.bin(o, xt, p.tb.bv(uint64(n), w)), w, s)
}

// ---- conversions ----------------------------------------------------------------

func (p *path) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.TypeParam); ok {
		unsupported("conversion to %s", tp)
	}
	dw, ds, dInt := intInfo(dst)
	sw, ss, sInt := intInfo(src)
	_ = sw
	switch {
	case dInt && sInt:
		switch x := x.(type) {
		case int64:
			return normInt(x, dw, ds)
		case *Term:
			return intVal(p.tb.Resize(x, dw, ss), dw, ds)
		}
	case dInt && isFloat(src):
		if f, ok := x.(float64); ok {
			if ds {
				return normInt(int64(f), dw, ds)
			}
			return normInt(int64(uint64(f)), dw, ds)
		}
		if dw == 64 && ds {
			return intVal(p.tb.farith(OF2I, 0, x.(*Term)), 64, true)
		}
		if dw < 32 || dw == 32 && ds {
			return intVal(p.tb.Resize(p.tb.farith(OF2I, 0, x.(*Term)), dw, true), dw, ds)
		}
		unsupported("conversion of a symbolic float to an unsigned integer")
	case isFloat(dst) && sInt:
		if i, ok := x.(int64); ok {
			if ss {
				return float64(i)
			}
			return float64(uint64(i))
		}
		if ud.(*types.Basic).Kind() == types.Float64 {
			op := OI2F
			if !ss {
				op = OU2F
			}
			return boolOrFloat(p.tb.farith(op, 0, p.tb.Resize(x.(*Term), 64, ss)))
		}
		unsupported("conversion of a symbolic integer to float32")
	case isFloat(dst) && isFloat(src):
		if f, ok := x.(float64); ok {
			if ud.(*types.Basic).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		return x
	case isString(dst) && isString(src):
		return x
	case isString(dst) && sInt:
		return p.runeStr(x, src)
	case isString(dst) && isByteSlice(src):
		b := x.([]value)
		return mkStr(append([]value(nil), b...))
	case isString(dst) && isRuneSlice(src):
		var r value = ""
		for _, c := range x.([]value) {
			r = concat(r, p.runeStr(c, types.Typ[types.Int32]))
		}
		return r
	case isByteSlice(dst) && isString(src):
		b := strBytes(x)
		if len(b) == 0 {
			return []value{}
		}
		return append(make([]value, 0, roundCap(len(b), 1)), b...)
	case isRuneSlice(dst) && isString(src):
		it := &strIter{s: x}
		r := []value{}
		for {
			t := it.next(p).(tuple)
			if !t[0].(bool) {
				return r
			}
			r = append(r, t[2])
		}
	}
	if identical(ud, us) {
		return x
	}
	switch ud.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct:
		if b, ok := us.(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
			return x
		}
	case *types.Basic:
		if ud.(*types.Basic).Kind() == types.UnsafePointer {
			return x // only good for pointer identity
		}
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	unsupported("conversion %s -> %s", src, dst)
	return nil
}

func (p *path) runeStr(x value, t types.Type) value {
	switch x := x.(type) {
	case int64:
		return string(rune(x))
	case *Term:
		t32 := p.tb.Resize(x, 32, false)
		if p.branch(p.tb.cmp(OUlt, t32, p.tb.bv(0x80, 32))) {
			return mkStr([]value{intVal(p.tb.Resize(t32, 8, false), 8, false)})
		}
		return string(rune(p.concretize(t32)))
	}
	panic("runeStr")
}

// ---- iteration ---------------------------------------------------------------------

type iter interface{ next(p *path) value }

type strIter struct {
	s value
	i int
}

func (it *strIter) next(p *path) value {
	switch s := it.s.(type) {
	case string:
		if it.i >= len(s) {
			return tuple{false, int64(0), int64(0)}
		}
		r, n := utf8.DecodeRuneInString(s[it.i:])
		i := it.i
		it.i += n
		return tuple{true, int64(i), int64(r)}
	case *sstr:
		s.bytes()
		if hasOpaque(s.b) {
			unsupported("ranging over opaque text")
		}
		if it.i >= len(s.b) {
			return tuple{false, int64(0), int64(0)}
		}
		i := it.i
		r, n := p.decodeRune(s.b[i:])
		it.i += n
		return tuple{true, int64(i), r}
	}
	panic("strIter")
}

// decodeRune decodes one UTF-8 sequence, forking on the encoding's structure.
func (p *path) decodeRune(b []value) (value, int) {
	if c, ok := b[0].(int64); ok && c < 0x80 {
		return c, 1
	}
	b0 := p.byteTerm(b[0])
	k := func(v uint64) *Term { return p.tb.bv(v, 8) }
	if p.branch(p.tb.cmp(OUlt, b0, k(0x80))) {
		return intVal(p.tb.Resize(b0, 32, false), 32, true), 1
	}
	// non-ASCII lead byte: concretise what is needed and use the real decoder
	bs := []byte{}
	for i := 0; i < len(b) && i < 4; i++ {
		bs = append(bs, byte(p.concretize(p.byteTerm(b[i]))))
		if utf8.FullRune(bs) {
			break
		}
	}
	r, n := utf8.DecodeRune(bs)
	return int64(r), n
}

type mapIter struct {
	m    *smap
	todo []*smapEnt
	seen map[*smapEnt]bool
	mode int
}

func (it *mapIter) next(p *path) value {
	if it.m == nil {
		return tuple{false, nil, nil}
	}
	for {
		// live entries not produced yet
		var live []*smapEnt
		for _, e := range it.todo {
			if !e.dead && !it.seen[e] {
				live = append(live, e)
			}
		}
		if it.mode >= 1 {
			// entries added during the iteration may or may not be produced
			orig := map[*smapEnt]bool{}
			for _, e := range it.todo {
				orig[e] = true
			}
			for _, e := range it.m.ents {
				if !orig[e] && !e.dead && !it.seen[e] {
					if p.choose("map-added", 2) == 1 {
						live = append(live, e)
					} else {
						it.seen[e] = true
					}
				}
			}
		}
		if len(live) == 0 {
			return tuple{false, nil, nil}
		}
		i := 0
		switch it.mode {
		case 1: // every order
			i = p.choose("map-order", len(live))
		case 2: // reverse
			i = len(live) - 1
		}
		e := live[i]
		it.seen[e] = true
		return tuple{true, e.k, copyVal(e.v)}
	}
}

func (p *path) rangeIter(x value, t types.Type) iter {
	switch x := x.(type) {
	case string, *sstr:
		return &strIter{s: x}
	case *smap:
		it := &mapIter{m: x, seen: map[*smapEnt]bool{}, mode: p.mapMode}
		if x != nil {
			p.forceMap(x)
			it.todo = append([]*smapEnt(nil), x.ents...)
			if n := len(it.todo); it.mode == 3 {
				// every rotation, in both directions, the same one for all maps of one size
				it.mode = 0
				if n > 1 {
					if p.rotations == nil {
						p.rotations = map[int]int{}
					}
					k, ok := p.rotations[n]
					if !ok {
						k = p.choose("map-order", 2*n)
						p.rotations[n] = k
					}
					r := append(append([]*smapEnt(nil), it.todo[k%n:]...), it.todo[:k%n]...)
					for i := 0; k >= n && i < n/2; i++ {
						r[i], r[n-1-i] = r[n-1-i], r[i]
					}
					it.todo = r
				}
			}
		}
		return it
	}
	unsupported("range over %T", x)
	return nil
}

// ---- builtins -------------------------------------------------------------------------

func (p *path) callBuiltin(caller *frame, fn *ssa.Builtin, args []value) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []value
		switch y := args[1].(type) {
		case string, *sstr:
			add = strBytes(y)
		case []value:
			add = y
		}
		dst := args[0].([]value)
		sig := fn.Type().(*types.Signature)
		et := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return p.appendVals(dst, add, et)
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case string, *sstr:
			src = strBytes(y)
		case []value:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			store(&dst[i], tmp[i])
		}
		return int64(n)
	case "close":
		p.chanClose(caller, args[0].(*schan))
		return nil
	case "delete":
		m := args[0].(*smap)
		if p.race != nil && m != nil {
			p.race.accessMap(caller, m, true)
		}
		p.mapDelete(fn.Type().(*types.Signature).Params().At(0).Type(), m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *smap:
			if x != nil {
				p.forceMap(x)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.idx, x.symKeys = nil, 0, map[interface{}]*smapEnt{}, false
			}
		case []value:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *sstr:
			if x.lz != nil {
				if p.branch(x.lz.allSpace()) {
					x.b, x.lz = nil, nil
					return int64(0)
				}
				// some positive length: decided only when it is really used
				n := p.freshVar(64, uint64(1))
				p.assume(p.tb.And(p.tb.cmp(OSle, p.tb.bv(1, 64), n), p.tb.cmp(OSle, n, p.tb.bv(uint64(len(x.lz.src)), 64))))
				return n
			}
			return p.opaqueLen(x)
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(len(x))
		case *smap:
			if p.race != nil && x != nil {
				p.race.accessMap(caller, x, false)
			}
			return int64(p.mapLen(x))
		case *schan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(cap(x))
		case *schan:
			return int64(x.cap)
		}
	case "min", "max":
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			op := token.LSS
			if fn.Name() == "max" {
				op = token.GTR
			}
			c := p.binop(op, t, t, y, r)
			if b, ok := c.(bool); ok {
				if b {
					r = y
				}
			} else if p.branch(c.(*Term)) {
				r = y
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0].(iface)})
	case "recover":
		return p.doRecover(caller)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(*value); ok && ptr == nil {
			p.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		unsupported("unsafe.String")
	}
	unsupported("builtin %s on %v", fn.Name(), fmt.Sprintf("%T", args[0]))
	return nil
}

func (p *path) doRecover(caller *frame) value {
	if caller != nil && caller.caller != nil && caller.caller.panicking {
		pf := caller.caller
		pf.panicking = false
		v := pf.pan
		pf.pan = nil
		if tp, ok := v.(targetPanic); ok {
			return tp.v
		}
		panic(v)
	}
	return iface{}
}

// roundCap mirrors the runtime's size-class rounding for a capacity request.
func roundCap(n int, elem int64) int {
	if elem == 0 {
		return n
	}
	sz := int64(n) * elem
	for _, c := range sizeClasses {
		if c >= sz {
			return int(c / elem)
		}
	}
	pg := int64(8192)
	return int((sz + pg - 1) / pg * pg / elem)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

func (p *path) appendVals(dst, add []value, et types.Type) value {
	n := len(dst) + len(add)
	if n <= cap(dst) {
		r := dst[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			// plain overwrite: a fresh cell content, but keep element addresses
			if p.race != nil {
				_ = i
			}
			store(&r[len(dst)+i], tmp[i])
		}
		return r
	}
	if len(add) == 0 {
		return dst
	}
	newcap := n
	old := cap(dst)
	if n <= 2*old {
		if old < 256 {
			newcap = 2 * old
		} else {
			c := old
			for c < n {
				c += (c + 3*256) >> 2
			}
			newcap = c
		}
	}
	newcap = roundCap(newcap, gcSizes.Sizeof(et))
	if newcap < n {
		newcap = n
	}
	r := make([]value, newcap)
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	for i := range add {
		r[len(dst)+i] = copyVal(add[i])
	}
	for i := n; i < newcap; i++ {
		r[i] = zero(et)
	}
	return r[:n]
}
