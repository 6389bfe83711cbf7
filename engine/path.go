package main

// One execution path: decisions, path condition, nondeterministic inputs.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type decKind uint8

const (
	dBranch decKind = iota
	dChoose
	dConc
)

type decision struct {
	kind    decKind
	val     int64 // branch: 0/1, choose: index, conc: the value
	taken   bool  // conc: whether term==val was chosen
	implied bool  // the other side was unsatisfiable
}

type item struct {
	prefix []decision
	model  Model
}

type input struct {
	Name string
	Kind string // int, byte, bool, str, choose, json
	Term *Term
	Str  value
	N    int64
	Lazy *lazyNode
	Ext  interface{}
}

type path struct {
	w       *worker
	h       *harnessRun
	tb      *TB
	sol     *Solver
	prefix  []decision
	pos     int
	trace   []decision
	model   Model
	ev      *evaluator
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool

	nvar   int
	inputs []*input

	gors      []*gor
	cur       *gor
	now       int64
	abort     bool
	why       interface{}
	schedAll  bool
	preempts  int
	earlyTmr  bool
	stderr    *value // the standard error of the command line
	spin      int64  // time that passes at each poll of a channel (0: none)
	steps     int
	maxSteps  int
	mapMode   int
	rotations map[int]int // of the maps of each size
	race      *raceState
	fnSeen    map[*ssa.Function]bool

	side     map[interface{}]interface{} // engine state attached to target objects
	nextID   int
	nodes    []*lazyNode
	reached  map[string]bool
	obs      []string
	schedLog []string
	knownHit bool
	asserts  int
}

func (p *path) id() int { p.nextID++; return p.nextID }

func (p *path) addCond(c *Term) {
	p.sol.assert(c)
}

// branch decides a boolean: both sides are explored when feasible.
func (p *path) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != dBranch {
			panic(ctlUnsupported{fmt.Sprintf("replay diverged: wanted branch, have %v", d.kind)})
		}
		p.pos++
		p.trace = append(p.trace, d)
		if !d.implied {
			if d.val == 1 {
				p.addCond(c)
			} else {
				p.addCond(p.tb.Not(c))
			}
		}
		return d.val == 1
	}
	v := p.ev.eval(c) == 1
	mine, other := c, p.tb.Not(c)
	if !v {
		mine, other = other, mine
	}
	d := decision{kind: dBranch}
	if v {
		d.val = 1
	}
	res, m := p.sol.check(other, true)
	switch res {
	case SatYes:
		od := d
		od.val = 1 - d.val
		p.fork(od, m)
	case SatNo:
		d.implied = true
	default:
		p.h.incomplete("solver gave no answer for a branch", p)
	}
	if !d.implied {
		p.addCond(mine)
	}
	p.trace = append(p.trace, d)
	p.h.branches.Add(1)
	return v
}

func (p *path) fork(d decision, m Model) {
	pre := make([]decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	p.h.push(&item{pre, m})
}

// choose forks n ways.
func (p *path) choose(what string, n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != dChoose || d.val >= int64(n) {
			panic(ctlUnsupported{"replay diverged: wanted choose " + what})
		}
		p.pos++
		p.trace = append(p.trace, d)
		return int(d.val)
	}
	// the items are picked up by other workers while this path goes on adding to its model
	m := make(Model, len(p.model))
	for k, v := range p.model {
		m[k] = v
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(decision{kind: dChoose, val: int64(i)}, m)
	}
	p.trace = append(p.trace, decision{kind: dChoose, val: 0})
	return 0
}

// concretize returns a value of t, forking over all feasible ones.
func (p *path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			if d.kind != dConc {
				panic(ctlUnsupported{"replay diverged: wanted concretize"})
			}
			p.pos++
			p.trace = append(p.trace, d)
			c := p.tb.Eq(t, p.tb.bv(uint64(d.val), t.w))
			if d.taken {
				if !d.implied {
					p.addCond(c)
				}
				return uint64(d.val) & maskB(t.w)
			}
			p.addCond(p.tb.Not(c))
			continue
		}
		if n > 600 {
			panic(ctlUnsupported{"concretisation of a wide term"})
		}
		v := p.ev.eval(t)
		c := p.tb.Eq(t, p.tb.bv(v, t.w))
		d := decision{kind: dConc, val: int64(v), taken: true}
		res, m := p.sol.check(p.tb.Not(c), true)
		switch res {
		case SatYes:
			od := d
			od.taken = false
			p.fork(od, m)
		case SatNo:
			d.implied = true
		default:
			p.h.incomplete("solver gave no answer for a concretisation", p)
		}
		if !d.implied {
			p.addCond(c)
		}
		p.trace = append(p.trace, d)
		p.h.branches.Add(1)
		return v
	}
}

func (p *path) setModel(m Model) {
	p.model = m
	p.ev = newEval(m)
}

// assume restricts the path; it ends when nothing satisfies it.
func (p *path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(ctlAbort{"assume"})
	}
	if p.ev.eval(c) == 1 {
		p.addCond(c)
		return
	}
	if p.pos < len(p.prefix) {
		// the carried model satisfies the whole prefix, assumptions included,
		// except variables it does not mention
		res, m := p.sol.check(c, true)
		if res != SatYes {
			panic(ctlAbort{"assume"})
		}
		// keep values for variables not created yet
		for k, v := range p.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		p.addCond(c)
		p.setModel(m)
		return
	}
	res, m := p.sol.check(c, true)
	switch res {
	case SatYes:
		p.addCond(c)
		p.setModel(m)
	case SatNo:
		panic(ctlAbort{"assume"})
	default:
		p.h.incomplete("solver gave no answer for an assumption", p)
		panic(ctlAbort{"assume?"})
	}
}

// freshVar makes a symbolic variable with a default model value.
func (p *path) freshVar(w uint8, def uint64) *Term {
	p.nvar++
	t := p.tb.Var(fmt.Sprintf("v%d", p.nvar), w)
	if _, ok := p.model[t.name]; !ok {
		p.model[t.name] = def
	}
	return t
}

func (p *path) addInput(in *input) { p.inputs = append(p.inputs, in) }

// assertCond is the property check: the solver looks for a violation.
func (p *path) assertCond(c *Term, msg string, known string) {
	p.asserts++
	p.h.asserts.Add(1)
	if c.isTrue() {
		return
	}
	neg := p.tb.Not(c)
	if p.pos < len(p.prefix) {
		// already decided by the parent path at this very point
		if c.isFalse() {
			panic(ctlAbort{"violation"})
		}
		if p.ev.eval(c) == 1 {
			p.addCond(c)
			return
		}
		panic(ctlAbort{"violation"})
	}
	var m Model
	if c.isFalse() {
		m = p.model
	} else {
		res, mm := p.sol.check(neg, true)
		switch res {
		case SatNo:
			p.addCond(c)
			return
		case SatUnknown:
			p.h.incomplete("solver gave no answer for an assertion", p)
			panic(ctlAbort{"assert?"})
		}
		m = mm
		for k, v := range p.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	p.h.violation(p, m, msg, known)
	if !c.isFalse() && p.ev.eval(c) == 1 {
		p.addCond(c)
		return
	}
	panic(ctlAbort{"violation"})
}

func (p *path) global(g *ssa.Global) *value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && isStd(g.Pkg.Pkg.Path()) {
		return p.w.stdGlobal(p, g)
	}
	c := new(value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.globals[g] = c
	return c
}

func (p *path) describe(m Model) string {
	var sb strings.Builder
	for _, in := range p.inputs {
		r := p.inputJSON(in, newEval(m)).(map[string]interface{})
		fmt.Fprintf(&sb, "%s=", in.Name)
		switch in.Kind {
		case "str":
			fmt.Fprintf(&sb, "%q", intsStr(r["s"]))
		case "bool":
			fmt.Fprint(&sb, r["b"])
		case "float":
			u, _ := strconv.ParseUint(fmt.Sprint(r["i"]), 10, 64)
			fmt.Fprint(&sb, math.Float64frombits(u))
		case "json":
			showDoc(&sb, r["doc"])
		default:
			fmt.Fprint(&sb, r["i"])
		}
		sb.WriteByte(' ')
	}
	return strings.TrimSpace(sb.String())
}

func intsStr(v interface{}) string {
	b := []byte{}
	switch x := v.(type) {
	case []int:
		for _, c := range x {
			b = append(b, byte(c))
		}
	case []interface{}:
		for _, c := range x {
			n, _ := strconv.Atoi(fmt.Sprint(c))
			b = append(b, byte(n))
		}
	}
	return string(b)
}

// showDoc writes a document of a tape as JSON (one entry per key, spare capacity as +n).
func showDoc(sb *strings.Builder, d interface{}) {
	n, ok := d.(map[string]interface{})
	if !ok {
		fmt.Fprint(sb, d)
		return
	}
	switch n["k"] {
	case "num":
		u, _ := strconv.ParseUint(fmt.Sprint(n["n"]), 10, 64)
		fmt.Fprint(sb, math.Float64frombits(u))
	case "bool":
		fmt.Fprint(sb, n["b"])
	case "str":
		fmt.Fprintf(sb, "%q", intsStr(n["s"]))
	case "extra":
		fmt.Fprintf(sb, "<extra %v>", n["x"])
	case "map":
		sb.WriteByte('{')
		for i, e := range n["e"].([]interface{}) {
			if i > 0 {
				sb.WriteString(", ")
			}
			fmt.Fprintf(sb, "%q: ", intsStr(e.(map[string]interface{})["key"]))
			showDoc(sb, e.(map[string]interface{})["val"])
		}
		sb.WriteByte('}')
	case "arr":
		sb.WriteByte('[')
		for i, e := range n["a"].([]interface{}) {
			if i > 0 {
				sb.WriteString(", ")
			}
			showDoc(sb, e)
		}
		sb.WriteByte(']')
		if c := fmt.Sprint(n["cap"]); c != "0" {
			sb.WriteString("+" + c)
		}
	default:
		sb.WriteString("null")
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
