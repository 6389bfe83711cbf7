package main

// Run-time values of the symbolic interpreter.
//
//	bool, *Term(w=0)              booleans
//	int64, *Term(w=8..64)         every integer type (bit pattern normalised to the static type)
//	float64, *Term(w=64)          floats
//	string, *sstr                 strings (sstr has at least one symbolic byte or opaque chunk)
//	*value                        pointers            []value     slices
//	structure, array              aggregates          *smap       maps
//	iface                         interfaces          *schan      channels
//	*ssa.Function, *closure, *ssa.Builtin, *hostFn    functions
//	tuple                         multiple results

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}
type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// hostFn is a function value implemented by the engine.
type hostFn struct {
	name string
	f    func(fr *frame, args []value) value
}

// sstr is a string with symbolic content: each element is an int64 byte, an
// 8-bit *Term, or *opaque (a chunk of unknown text).
type sstr struct {
	b  []value
	lz *lazyTrim // result of strings.TrimSpace not computed yet
}

// lazyTrim delays strings.TrimSpace: most callers only ask whether it is empty.
type lazyTrim struct {
	p   *path
	src []value
}

func (s *sstr) bytes() []value {
	if s.lz != nil {
		i, j := s.lz.ends()
		s.b, s.lz = s.lz.src[i:j], nil
	}
	return s.b
}

// ends decides where the trimmed text begins and ends.
func (l *lazyTrim) ends() (i, j int) {
	j = len(l.src)
	for i < j {
		n := l.p.spaceAt(l.src[i:j], func(n int) int { return 0 })
		if n == 0 {
			break
		}
		i += n
	}
	for i < j {
		n := l.p.spaceAt(l.src[i:j], func(n int) int { return j - i - n })
		if n == 0 {
			break
		}
		j -= n
	}
	return i, j
}

// allSpace is the condition that the trimmed string is empty.
func (l *lazyTrim) allSpace() *Term {
	p := l.p
	r := make([]*Term, len(l.src)+1)
	r[len(l.src)] = p.tb.T_
	for i := len(l.src) - 1; i >= 0; i-- {
		r[i] = p.tb.F_
		for n := 1; n <= 3 && i+n <= len(l.src); n++ {
			r[i] = p.tb.Or(r[i], p.tb.And(p.isSpaceRune(l.src[i:i+n]), r[i+n]))
		}
	}
	return r[0]
}

// spaceAt decides whether one white space character starts at at(its length), and how long it is.
func (p *path) spaceAt(src []value, at func(n int) int) int {
	var c [4]*Term
	any := p.tb.F_
	for n := 1; n <= 3 && n <= len(src); n++ {
		i := at(n)
		c[n] = p.isSpaceRune(src[i : i+n])
		any = p.tb.Or(any, c[n])
	}
	if !p.branch(any) {
		return 0
	}
	for n := 1; n < 3 && n < len(src); n++ {
		if p.branch(c[n]) {
			return n
		}
	}
	if len(src) < 3 {
		return len(src)
	}
	return 3
}

// isSpaceRune is the condition that the bytes are the encoding of one character of
// Unicode's white space.
func (p *path) isSpaceRune(b []value) *Term {
	if len(b) == 1 {
		return p.isSpaceByte(b[0])
	}
	is := func(i int, v uint64) *Term { return p.tb.Eq(p.byteTerm(b[i]), p.tb.bv(v, 8)) }
	in := func(i int, lo, hi uint64) *Term {
		t := p.byteTerm(b[i])
		return p.tb.And(p.tb.cmp(OUle, p.tb.bv(lo, 8), t), p.tb.cmp(OUle, t, p.tb.bv(hi, 8)))
	}
	if len(b) == 2 {
		// U+0085, U+00A0
		return p.tb.And(is(0, 0xc2), p.tb.Or(is(1, 0x85), is(1, 0xa0)))
	}
	three := func(x, y uint64, z *Term) *Term { return p.tb.And(is(0, x), p.tb.And(is(1, y), z)) }
	r := three(0xe1, 0x9a, is(2, 0x80))                                                                    // U+1680
	r = p.tb.Or(r, three(0xe2, 0x80, p.tb.Or(in(2, 0x80, 0x8a), p.tb.Or(in(2, 0xa8, 0xa9), is(2, 0xaf))))) // U+2000-200A, 2028, 2029, 202F
	r = p.tb.Or(r, three(0xe2, 0x81, is(2, 0x9f)))                                                         // U+205F
	return p.tb.Or(r, three(0xe3, 0x80, is(2, 0x80)))                                                      // U+3000
}

func (p *path) isSpaceByte(x value) *Term {
	t := p.byteTerm(x)
	k := func(v uint64) *Term { return p.tb.bv(v, 8) }
	// tab, newline, vertical tab, form feed, carriage return, space
	return p.tb.Or(p.tb.Eq(t, k(32)), p.tb.And(p.tb.cmp(OUle, k(9), t), p.tb.cmp(OUle, t, k(13))))
}

// opaque is a chunk of text the engine does not model byte by byte.
type opaque struct {
	what string
	v    value // payload for blobs (JSON text of a value)
	id   int
}

type smapEnt struct {
	k, v value
	dead bool
}

type smap struct {
	ents    []*smapEnt
	idx     map[interface{}]*smapEnt // only while every key is concrete
	symKeys bool
	n       int
	view    *lazyView // entries not decided yet
	id      int
}

type targetPanic struct{ v iface }

func (t targetPanic) String() string { return fmt.Sprint(t.v.v) }

// control panics
type ctlAbort struct{ why string } // this path is over (assumption, infeasible)
type ctlUnsupported struct{ why string }
type ctlExit struct{ code int }

func unsupported(f string, a ...interface{}) {
	panic(ctlUnsupported{fmt.Sprintf(f, a...)})
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func normInt(v int64, w uint8, signed bool) int64 {
	if w == 64 {
		return v
	}
	if signed {
		return sext(uint64(v), w)
	}
	return int64(uint64(v) & mask(w))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, sg, ok := intInfo(s.Elem())
	return ok && w == 8 && !sg
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, sg, ok := intInfo(s.Elem())
	return ok && w == 32 && sg
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Kind() == types.UntypedNil:
			return iface{}
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*schan)(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		unsupported("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: unexpected %T %s", t, t))
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case tp.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(tp)
			if s {
				return normInt(c.Int64(), w, s)
			}
			return normInt(int64(c.Uint64()), w, s)
		case tp.Info()&types.IsFloat != 0:
			return c.Float64()
		case tp.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case tp.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	unsupported("constant %s", c)
	return nil
}

// copyVal copies aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case array:
		n := make(array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

func load(addr *value) value { return copyVal(*addr) }

// store keeps the addresses of fields and elements stable.
func store(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*addr).(structure); ok && len(dst) == len(v) {
			for i := range v {
				store(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if dst, ok := (*addr).(array); ok && len(dst) == len(v) {
			for i := range v {
				store(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---- strings -------------------------------------------------------------

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &sstr{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		r := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = int64(v[i])
		}
		return r
	case *sstr:
		return v.bytes()
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func hasOpaque(b []value) bool {
	for _, x := range b {
		if _, ok := x.(*opaque); ok {
			return true
		}
	}
	return false
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *sstr:
		v.bytes()
		if hasOpaque(v.b) {
			unsupported("length of a string with an opaque chunk (%s)", opaqueDesc(v.b))
		}
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func opaqueDesc(b []value) string {
	for _, x := range b {
		if o, ok := x.(*opaque); ok {
			return o.what
		}
	}
	return ""
}

func concat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	xb, yb := strBytes(x), strBytes(y)
	r := make([]value, 0, len(xb)+len(yb))
	r = append(append(r, xb...), yb...)
	return mkStr(r)
}

func showStr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *sstr:
		var sb strings.Builder
		for _, x := range v.b {
			switch x := x.(type) {
			case int64:
				sb.WriteByte(byte(x))
			case *Term:
				sb.WriteString("?")
			case *opaque:
				sb.WriteString("<" + x.what + ">")
			}
		}
		return sb.String()
	}
	return fmt.Sprint(v)
}

func (p *path) byteTerm(x value) *Term {
	switch x := x.(type) {
	case int64:
		return p.tb.bv(uint64(x), 8)
	case *Term:
		return x
	}
	unsupported("byte of opaque text")
	return nil
}

// numberEq is the condition under which the texts of two numbers at i are equal, or nil if it cannot be told: what
// follows must not be able to continue the number.
func (p *path) numberEq(a, b []value, i int) *Term {
	var t [2]*Term
	for k, s := range [][]value{a, b} {
		o, ok := s[i].(*opaque)
		if !ok || o.what != "number" && o.what != "int" {
			return nil
		}
		if t[k], ok = o.v.(*Term); !ok {
			return nil
		}
		if i+1 < len(s) {
			c, ok := s[i+1].(int64)
			if !ok || c >= '0' && c <= '9' || c == '.' || c == 'e' {
				return nil
			}
		}
	}
	if t[0].w != t[1].w {
		return nil
	}
	return p.tb.Eq(t[0], t[1])
}

// strEq returns the condition under which two strings are equal.
func (p *path) strEq(x, y value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return p.tb.boolc(a == b)
		}
	}
	if sx, ok := x.(*sstr); ok && sx.lz != nil && y == "" {
		return sx.lz.allSpace()
	}
	if sy, ok := y.(*sstr); ok && sy.lz != nil && x == "" {
		return sy.lz.allSpace()
	}
	a, b := strBytes(x), strBytes(y)
	if hasOpaque(a) || hasOpaque(b) {
		if len(a) == len(b) {
			same := true
			for i := range a {
				if a[i] != b[i] {
					same = false
				}
			}
			if same {
				return p.tb.T_
			}
		}
		// an opaque chunk never equals the empty string
		if len(a) == 0 || len(b) == 0 {
			return p.tb.F_
		}
		if len(a) == len(b) {
			// the JSON texts of equal values, and only those, are equal
			r := p.tb.T_
			ok := true
			for i := range a {
				_, oa := a[i].(*opaque)
				_, ob := b[i].(*opaque)
				if !oa && !ob {
					r = p.tb.And(r, p.tb.Eq(p.byteTerm(a[i]), p.byteTerm(b[i])))
					continue
				}
				if n := p.numberEq(a, b, i); n != nil {
					r = p.tb.And(r, n)
					continue
				}
				u, isU := blobOf(a[i : i+1])
				v, isV := blobOf(b[i : i+1])
				if !isU || !isV {
					ok = false
					break
				}
				r = p.tb.And(r, p.deepEq(p.jsonNormal(u), p.jsonNormal(v)))
			}
			if ok {
				return r
			}
		}
		unsupported("comparison of opaque text (%s %s)", opaqueDesc(a), opaqueDesc(b))
	}
	if len(a) != len(b) {
		return p.tb.F_
	}
	r := p.tb.T_
	for i := range a {
		r = p.tb.And(r, p.tb.Eq(p.byteTerm(a[i]), p.byteTerm(b[i])))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLt returns the condition x < y (bytewise lexicographic).
func (p *path) strLt(x, y value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return p.tb.boolc(a < b)
		}
	}
	a, b := strBytes(x), strBytes(y)
	if hasOpaque(a) || hasOpaque(b) {
		unsupported("ordering of opaque text")
	}
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := p.tb.boolc(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		s, t := p.byteTerm(a[i]), p.byteTerm(b[i])
		r = p.tb.Or(p.tb.cmp(OUlt, s, t), p.tb.And(p.tb.Eq(s, t), r))
	}
	return r
}

// ---- boolean / integer helpers ---------------------------------------------

func (p *path) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return p.tb.boolc(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

func boolVal(t *Term) value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

func (p *path) intTerm(v value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return p.tb.bv(uint64(v), w)
	case *Term:
		if v.w != w {
			panic(fmt.Sprintf("intTerm width %d vs %d", v.w, w))
		}
		return v
	}
	panic(fmt.Sprintf("intTerm %T", v))
}

func intVal(t *Term, w uint8, signed bool) value {
	if t.isConst() {
		return normInt(int64(t.val), w, signed)
	}
	return t
}

func (p *path) floatTerm(v value) *Term {
	switch v := v.(type) {
	case float64:
		return p.tb.bv(math.Float64bits(v), 64)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("floatTerm %T", v))
}

// ---- equality ----------------------------------------------------------------

// equals returns the condition x == y for values of static type t.
func (p *path) equals(t types.Type, x, y value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.strEq(x, y)
		case u.Info()&types.IsBoolean != 0:
			return p.tb.Eq(p.boolTerm(x), p.boolTerm(y))
		case u.Info()&types.IsInteger != 0:
			if a, ok := x.(int64); ok {
				if b, ok := y.(int64); ok {
					return p.tb.boolc(a == b)
				}
			}
			w, _, _ := intInfo(t)
			return p.tb.Eq(p.intTerm(x, w), p.intTerm(y, w))
		case u.Info()&types.IsFloat != 0:
			return p.tb.fcmp(OFeq, p.floatTerm(x), p.floatTerm(y))
		case u.Kind() == types.UnsafePointer:
			return p.tb.boolc(x == y)
		}
		return p.tb.boolc(x == y)
	case *types.Interface:
		return p.ifaceEq(x.(iface), y.(iface))
	case *types.Struct:
		r := p.tb.T_
		xs, ys := x.(structure), y.(structure)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = p.tb.And(r, p.equals(u.Field(i).Type(), xs[i], ys[i]))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Array:
		r := p.tb.T_
		xs, ys := x.(array), y.(array)
		for i := range xs {
			r = p.tb.And(r, p.equals(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Slice:
		// only comparison with nil is legal
		a, b := x.([]value), y.([]value)
		return p.tb.boolc((a == nil) == (b == nil) && (a == nil || b == nil))
	case *types.Map:
		return p.tb.boolc(x.(*smap) == y.(*smap))
	case *types.Signature:
		return p.tb.boolc(isNilFn(x) && isNilFn(y))
	case *types.Pointer, *types.Chan:
		return p.tb.boolc(x == y)
	}
	unsupported("comparison of %s", t)
	return nil
}

func isNilFn(v value) bool {
	switch v := v.(type) {
	case *ssa.Function:
		return v == nil
	case *closure:
		return v == nil
	case *hostFn:
		return v == nil
	case *ssa.Builtin:
		return v == nil
	case nil:
		return true
	}
	return false
}

func (p *path) ifaceEq(x, y iface) *Term {
	// comparing an undecided value with nil needs only its kind
	x, y = p.forceIface(x), p.forceIface(y)
	if x.t == nil || y.t == nil {
		return p.tb.boolc(x.t == nil && y.t == nil)
	}
	if !identical(x.t, y.t) {
		return p.tb.F_
	}
	if !types.Comparable(x.t) {
		p.rtPanic("comparing uncomparable type " + typeStr(x.t))
	}
	return p.equals(x.t, x.v, y.v)
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- maps ----------------------------------------------------------------------

func hashKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case int64, string, bool, float64, *value, *schan:
		return v, true
	case iface:
		if v.t == nil {
			return nil, true
		}
		k, ok := hashKey(v.v)
		return [2]interface{}{typeStr(v.t), k}, ok
	case structure:
		s := ""
		for _, f := range v {
			k, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	case array:
		return hashKey(structure(v))
	}
	return nil, false
}

func newMap() *smap { return &smap{idx: map[interface{}]*smapEnt{}} }

func (p *path) mapFind(t types.Type, m *smap, k value) *smapEnt {
	if m == nil {
		return nil
	}
	p.forceMap(m)
	if kk, ok := k.(iface); ok {
		k = p.forceIface(kk)
	}
	h, conc := hashKey(k)
	if conc && !m.symKeys {
		return m.idx[h]
	}
	kt := t.Underlying().(*types.Map).Key()
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if p.branch(p.equals(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *path) mapSet(t types.Type, m *smap, k, v value) {
	if m == nil {
		p.rtPanicPlain("assignment to entry in nil map")
	}
	if e := p.mapFind(t, m, k); e != nil {
		e.v = v
		return
	}
	m.add(k, v)
}

func (m *smap) add(k, v value) {
	e := &smapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	h, ok := hashKey(k)
	if ok && !m.symKeys {
		m.idx[h] = e
	} else {
		m.symKeys = true
	}
}

func (p *path) mapDelete(t types.Type, m *smap, k value) {
	if m == nil {
		return
	}
	e := p.mapFind(t, m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if h, ok := hashKey(e.k); ok && !m.symKeys {
		delete(m.idx, h)
	}
	// compact, keeping iterators valid (they hold entry pointers)
	n := m.ents[:0:0]
	for _, x := range m.ents {
		if !x.dead {
			n = append(n, x)
		}
	}
	m.ents = n
}

func (p *path) mapLen(m *smap) int {
	if m == nil {
		return 0
	}
	p.forceMap(m)
	return m.n
}

// sortedEnts is used when printing concrete maps.
func (m *smap) sortedEnts() []*smapEnt {
	r := append([]*smapEnt(nil), m.ents...)
	sort.SliceStable(r, func(i, j int) bool {
		a, ok1 := r[i].k.(string)
		b, ok2 := r[j].k.(string)
		if ok1 && ok2 {
			return a < b
		}
		x, ok1 := r[i].k.(int64)
		y, ok2 := r[j].k.(int64)
		return ok1 && ok2 && x < y
	})
	return r
}
