package main

// Terms: hash-consed SMT terms over Bool and bit-vectors (floats are handled as
// 64-bit vectors that are reinterpreted where they are compared).

import (
	"fmt"
	"math"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo
	OFeq
	OFlt
	OFle
	OFadd
	OFsub
	OFmul
	OFdiv
	OFround // val: 0 floor, 1 ceil, 2 trunc
	OF2I
	OI2F
	OU2F
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OFeq: "fp.eq", OFlt: "fp.lt", OFle: "fp.leq",
	OFadd: "fp.add", OFsub: "fp.sub", OFmul: "fp.mul", OFdiv: "fp.div", OFround: "fp.roundToIntegral", OF2I: "fp.to_sbv", OI2F: "to_fp", OU2F: "to_fp_unsigned"}

// Term is a node; w==0 means Bool, otherwise the bit width.
type Term struct {
	op   Op
	w    uint8
	val  uint64
	name string
	a    []*Term
	id   int
	smt  int // definition stamp in the solver session (0 = not yet sent)
}

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	name       string
	a0, a1, a2 *Term
}

// TB is a per-path term builder.
type TB struct {
	tab map[termKey]*Term
	n   int
	T_  *Term
	F_  *Term
}

func newTB() *TB {
	b := &TB{tab: make(map[termKey]*Term)}
	b.T_ = b.mk(OConst, 0, 1, "")
	b.F_ = b.mk(OConst, 0, 0, "")
	return b
}

func (b *TB) mk(op Op, w uint8, val uint64, name string, a ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name}
	switch len(a) {
	case 3:
		k.a2 = a[2]
		fallthrough
	case 2:
		k.a1 = a[1]
		fallthrough
	case 1:
		k.a0 = a[0]
	}
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.n++
	t := &Term{op: op, w: w, val: val, name: name, id: b.n}
	if len(a) > 0 {
		t.a = append([]*Term(nil), a...)
	}
	b.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (b *TB) bv(v uint64, w uint8) *Term { return b.mk(OConst, w, v&mask(w), "") }
func (b *TB) boolc(v bool) *Term {
	if v {
		return b.T_
	}
	return b.F_
}
func (b *TB) Var(name string, w uint8) *Term { return b.mk(OVar, w, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (b *TB) Not(x *Term) *Term {
	if x.isConst() {
		return b.boolc(x.val == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return b.mk(ONot, 0, 0, "", x)
}

func (b *TB) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return b.F_
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.F_
	}
	return b.mk(OAnd, 0, 0, "", x, y)
}

func (b *TB) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return b.T_
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.T_
	}
	return b.mk(OOr, 0, 0, "", x, y)
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	return b.mk(OIte, x.w, 0, "", c, x, y)
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.T_
	}
	if x.isConst() && y.isConst() {
		return b.boolc(x.val == y.val)
	}
	if x.w == 0 {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		// push equality with a constant through extensions, ite and +const
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.val&^mask(in.w) != 0 {
				return b.F_
			}
			return b.Eq(in, b.bv(y.val, in.w))
		case OSext:
			in := x.a[0]
			if uint64(sext(y.val&mask(in.w), in.w))&mask(x.w) != y.val {
				return b.F_
			}
			return b.Eq(in, b.bv(y.val, in.w))
		case OAdd:
			if x.a[1].isConst() {
				return b.Eq(x.a[0], b.bv(y.val-x.a[1].val, x.w))
			}
		case OIte:
			if x.a[1].isConst() && x.a[2].isConst() {
				return b.Ite(x.a[0], b.Eq(x.a[1], y), b.Eq(x.a[2], y))
			}
		}
	}
	if x.id > y.id && !y.isConst() {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, "", x, y)
}

func (b *TB) cmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		var r bool
		switch op {
		case OUlt:
			r = x.val < y.val
		case OUle:
			r = x.val <= y.val
		case OSlt:
			r = sext(x.val, x.w) < sext(y.val, y.w)
		case OSle:
			r = sext(x.val, x.w) <= sext(y.val, y.w)
		}
		return b.boolc(r)
	}
	if x == y {
		return b.boolc(op == OUle || op == OSle)
	}
	// (zext x) op const
	if x.op == OZext && y.isConst() {
		in := x.a[0]
		yv := y.val
		signedNeg := (op == OSlt || op == OSle) && sext(y.val, y.w) < 0
		if signedNeg {
			return b.F_
		}
		if yv > mask(in.w) {
			return b.T_
		}
		if op == OSlt {
			op = OUlt
		}
		if op == OSle {
			op = OUle
		}
		return b.cmp(op, in, b.bv(yv, in.w))
	}
	if y.op == OZext && x.isConst() {
		in := y.a[0]
		if (op == OSlt || op == OSle) && sext(x.val, x.w) < 0 {
			return b.T_
		}
		if x.val > mask(in.w) {
			return b.F_
		}
		if op == OSlt {
			op = OUlt
		}
		if op == OSle {
			op = OUle
		}
		return b.cmp(op, b.bv(x.val, in.w), in)
	}
	if op == OUlt && y.isConst() && y.val == 0 {
		return b.F_
	}
	if op == OUle && x.isConst() && x.val == 0 {
		return b.T_
	}
	if op == OUle && y.isConst() && y.val == mask(y.w) {
		return b.T_
	}
	return b.mk(op, 0, 0, "", x, y)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (b *TB) bin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.bv(evalBin(op, x.w, x.val, y.val), x.w)
	}
	switch op {
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].isConst() {
				return b.bin(OAdd, x.a[0], b.bv(x.a[1].val+y.val, x.w))
			}
		}
	case OSub:
		if x == y {
			return b.bv(0, x.w)
		}
		if y.isConst() {
			return b.bin(OAdd, x, b.bv(-y.val, x.w))
		}
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
		}
	case OBand:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == mask(y.w) {
				return x
			}
		}
	case OBor, OBxor:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.val == 0 {
			return x
		}
	case OShl, OLshr, OAshr:
		if y.isConst() && y.val == 0 {
			return x
		}
	}
	return b.mk(op, x.w, 0, "", x, y)
}

func (b *TB) Bnot(x *Term) *Term {
	if x.isConst() {
		return b.bv(^x.val, x.w)
	}
	return b.mk(OBnot, x.w, 0, "", x)
}
func (b *TB) Neg(x *Term) *Term {
	if x.isConst() {
		return b.bv(-x.val, x.w)
	}
	return b.mk(ONeg, x.w, 0, "", x)
}

// Resize converts x to width w; signed tells how it is extended.
func (b *TB) Resize(x *Term, w uint8, signed bool) *Term {
	if x.w == w {
		return x
	}
	if w < x.w {
		if x.isConst() {
			return b.bv(x.val, w)
		}
		if (x.op == OZext || x.op == OSext) && x.a[0].w == w {
			return x.a[0]
		}
		if (x.op == OZext || x.op == OSext) && x.a[0].w > w {
			return b.Resize(x.a[0], w, signed)
		}
		return b.mk(OExtract, w, 0, "", x)
	}
	if x.isConst() {
		if signed {
			return b.bv(uint64(sext(x.val, x.w)), w)
		}
		return b.bv(x.val, w)
	}
	if signed {
		if x.op == OZext {
			return b.mk(OZext, w, 0, "", x.a[0])
		}
		return b.mk(OSext, w, 0, "", x)
	}
	if x.op == OZext {
		return b.mk(OZext, w, 0, "", x.a[0])
	}
	return b.mk(OZext, w, 0, "", x)
}

func (b *TB) fcmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.boolc(fcmpEval(op, x.val, y.val))
	}
	if op == OFeq && x.op == OFround && x.a[0] == y {
		x, y = y, x
	}
	if op == OFeq && y.op == OFround && y.a[0] == x {
		// a number is integral exactly when any way of rounding keeps it
		y = b.farith(OFround, 2, x)
	}
	return b.mk(op, 0, 0, "", x, y)
}

func fcmpEval(op Op, x, y uint64) bool {
	a, c := math.Float64frombits(x), math.Float64frombits(y)
	switch op {
	case OFeq:
		return a == c
	case OFlt:
		return a < c
	}
	return a <= c
}

// farith builds floating point arithmetic over the bit patterns.
func (b *TB) farith(op Op, mode uint64, x ...*Term) *Term {
	c := true
	for _, t := range x {
		c = c && t.isConst()
	}
	if c {
		y := uint64(0)
		if len(x) > 1 {
			y = x[1].val
		}
		return b.bv(farithEval(op, mode, x[0].val, y), 64)
	}
	if op == OI2F && x[0].op == OF2I {
		y := x[0].a[0]
		lo, hi := b.bv(0xc3e0000000000000, 64), b.bv(0x43e0000000000000, 64)
		return b.Ite(b.And(b.fcmp(OFle, lo, y), b.fcmp(OFlt, y, hi)), b.farith(OFround, 2, y), lo)
	}
	return b.mk(op, 64, mode, "", x...)
}

func farithEval(op Op, mode, xb, yb uint64) uint64 {
	x, y := math.Float64frombits(xb), math.Float64frombits(yb)
	var r float64
	switch op {
	case OFadd:
		r = x + y
	case OFsub:
		r = x - y
	case OFmul:
		r = x * y
	case OFdiv:
		r = x / y
	case OFround:
		switch mode {
		case 0:
			r = math.Floor(x)
		case 1:
			r = math.Ceil(x)
		default:
			r = math.Trunc(x)
		}
	case OF2I:
		if x >= -9223372036854775808 && x < 9223372036854775808 {
			return uint64(int64(x))
		}
		return 1 << 63
	case OI2F:
		r = float64(int64(xb))
	case OU2F:
		r = float64(xb)
	}
	if r != r {
		return 0x7ff8000000000001
	}
	return math.Float64bits(r)
}

func (t *Term) farithStr(a []string) string {
	f := func(x string) string { return "((_ to_fp 11 53) " + x + ")" }
	var e string
	switch t.op {
	case OFadd, OFsub, OFmul, OFdiv:
		e = "(" + opNames[t.op] + " RNE " + f(a[0]) + " " + f(a[1]) + ")"
	case OFround:
		// in bits: e is the exponent, m the fractional part of the significand, one the unit
		ex := "(bvand (bvlshr x #x0000000000000034) #x00000000000007ff)"
		k := "(bvsub e #x00000000000003ff)"
		frac := "(bvlshr #x000fffffffffffff k)"
		tr := "(bvand x (bvnot m))"
		up := "(bvadd " + tr + " (bvadd m #x0000000000000001))"
		sign := "(= ((_ extract 63 63) x) #b1)"
		small, whole := "(bvand x #x8000000000000000)", tr
		zero := "(= (bvand x #x7fffffffffffffff) #x0000000000000000)"
		switch t.val {
		case 0:
			small = "(ite " + zero + " x (ite " + sign + " #xbff0000000000000 #x0000000000000000))"
			whole = "(ite (and " + sign + " (distinct (bvand x m) #x0000000000000000)) " + up + " " + tr + ")"
		case 1:
			small = "(ite " + zero + " x (ite " + sign + " #x8000000000000000 #x3ff0000000000000))"
			whole = "(ite (and (not " + sign + ") (distinct (bvand x m) #x0000000000000000)) " + up + " " + tr + ")"
		}
		return "(let ((x " + a[0] + ")) (let ((e " + ex + ")) (let ((k " + k + ")) (let ((m " + frac + ")) (ite (bvult e #x00000000000003ff) " + small +
			" (ite (bvult e #x0000000000000433) " + whole + " (ite (and (= e #x00000000000007ff) (distinct (bvand x #x000fffffffffffff) #x0000000000000000)) #x7ff8000000000001 x)))))))"
	case OI2F:
		e = "((_ to_fp 11 53) RNE " + a[0] + ")"
	case OU2F:
		e = "((_ to_fp_unsigned 11 53) RNE " + a[0] + ")"
	case OF2I:
		// amd64 gives the smallest integer for everything out of range
		g := "(bvor (bvand x #x000fffffffffffff) #x0010000000000000)"
		mag := "(ite (bvult e #x0000000000000433) (bvlshr " + g + " (bvsub #x0000000000000433 e)) (bvshl " + g + " (bvsub e #x0000000000000433)))"
		return "(let ((x " + a[0] + ")) (let ((e (bvand (bvlshr x #x0000000000000034) #x00000000000007ff))) (ite (bvult e #x00000000000003ff) #x0000000000000000 (ite (bvult e #x000000000000043e) (ite (= ((_ extract 63 63) x) #b1) (bvneg " + mag + ") " + mag + ") #x8000000000000000))))"
	}
	return "(ite (fp.isNaN " + e + ") #x7ff8000000000001 (fp.to_ieee_bv " + e + "))"
}

// Model maps variable names to values.
type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, make(map[*Term]uint64)} }

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t.name] & maskB(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a[0])
	case OAnd:
		r = e.eval(t.a[0])
		if r == 1 {
			r = e.eval(t.a[1])
		}
	case OOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case OIte:
		if e.eval(t.a[0]) == 1 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OEq:
		r = bo(e.eval(t.a[0]) == e.eval(t.a[1]))
	case OUlt:
		r = bo(e.eval(t.a[0]) < e.eval(t.a[1]))
	case OUle:
		r = bo(e.eval(t.a[0]) <= e.eval(t.a[1]))
	case OSlt:
		r = bo(sext(e.eval(t.a[0]), t.a[0].w) < sext(e.eval(t.a[1]), t.a[0].w))
	case OSle:
		r = bo(sext(e.eval(t.a[0]), t.a[0].w) <= sext(e.eval(t.a[1]), t.a[0].w))
	case OBnot:
		r = ^e.eval(t.a[0]) & mask(t.w)
	case ONeg:
		r = -e.eval(t.a[0]) & mask(t.w)
	case OZext, OExtract:
		r = e.eval(t.a[0]) & mask(t.w)
	case OSext:
		r = uint64(sext(e.eval(t.a[0]), t.a[0].w)) & mask(t.w)
	case OFeq, OFlt, OFle:
		r = bo(fcmpEval(t.op, e.eval(t.a[0]), e.eval(t.a[1])))
	case OFadd, OFsub, OFmul, OFdiv:
		r = farithEval(t.op, 0, e.eval(t.a[0]), e.eval(t.a[1]))
	case OFround, OF2I, OI2F, OU2F:
		r = farithEval(t.op, t.val, e.eval(t.a[0]), 0)
	default:
		r = evalBin(t.op, t.w, e.eval(t.a[0]), e.eval(t.a[1]))
	}
	e.memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + t.opStr())
	for _, x := range t.a {
		sb.WriteString(" " + x.String())
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) opStr() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.a[0].w)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.a[0].w)
	case OExtract:
		return fmt.Sprintf("(_ extract %d 0)", t.w-1)
	}
	return opNames[t.op]
}
