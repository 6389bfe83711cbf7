package main

// regexp over symbolic text, built on the library's own compiled programs
// (regexp/syntax), so the patterns of the code under test are taken as they are.

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

type hostRegex struct {
	src     string
	re      *regexp.Regexp // native, leftmost-first
	reL     *regexp.Regexp // native, leftmost-longest
	prog    *syntax.Prog
	longest bool
}

func addRegexIntrinsics() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }
	in("regexp.MustCompile", func(fr *frame, a []value) value {
		r, err := fr.p.compileRe(a[0])
		if err != nil {
			s := a[0].(string)
			panic(targetPanic{fromHost("regexp: Compile(`" + s + "`): " + err.Error())})
		}
		return r
	})
	in("regexp.Compile", func(fr *frame, a []value) value {
		r, err := fr.p.compileRe(a[0])
		if err != nil {
			return tuple{(*value)(nil), fr.p.newError(fr, err.Error())}
		}
		return tuple{r, iface{}}
	})
	in("regexp.QuoteMeta", func(fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			unsupported("QuoteMeta of symbolic text")
		}
		return regexp.QuoteMeta(s)
	})
	in("regexp.MatchString", func(fr *frame, a []value) value {
		r, err := fr.p.compileRe(a[0])
		if err != nil {
			return tuple{false, fr.p.newError(fr, err.Error())}
		}
		return tuple{fr.p.reMatch(theRe(fr, r), strBytes(a[1])), iface{}}
	})
	in("(*regexp.Regexp).Longest", func(fr *frame, a []value) value {
		r := theRe(fr, a[0])
		if fr.p.race != nil {
			fr.p.race.access(fr, r, true)
		}
		r.longest = true
		return nil
	})
	in("(*regexp.Regexp).String", func(fr *frame, a []value) value { return theRe(fr, a[0]).src })
	bytesOf := func(v value) []value {
		if s, ok := v.([]value); ok {
			return s
		}
		return strBytes(v)
	}
	both := func(name string, f func(fr *frame, r *hostRegex, b []value, str bool, a []value) value) {
		in("(*regexp.Regexp)."+name, func(fr *frame, a []value) value {
			return f(fr, theRe(fr, a[0]), bytesOf(a[1]), false, a)
		})
	}
	strv := func(b []value, str bool) value {
		if str {
			return mkStr(append([]value(nil), b...))
		}
		return b
	}
	for _, s := range []string{"", "String"} {
		str := s == "String"
		both("Match"+s, func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value { return fr.p.reMatch(r, b) })
		both("Find"+s+"Index", func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			return fr.p.reFindIndex(r, b)
		})
		both("Find"+s, func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			x, y, ok := fr.p.reFind(r, b, 0)
			if !ok {
				if str {
					return ""
				}
				return []value(nil)
			}
			return strv(b[x:y:y], str)
		})
		both("FindAll"+s+"Index", func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			ms := fr.p.reAll(r, b, int(fr.p.concInt(a[2])))
			if ms == nil {
				return []value(nil)
			}
			var out []value
			for _, m := range ms {
				out = append(out, []value{int64(m[0]), int64(m[1])})
			}
			return out
		})
		both("FindAll"+s, func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			ms := fr.p.reAll(r, b, int(fr.p.concInt(a[2])))
			if ms == nil {
				return []value(nil)
			}
			var out []value
			for _, m := range ms {
				out = append(out, strv(b[m[0]:m[1]:m[1]], str))
			}
			return out
		})
		both("ReplaceAll"+s, func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			rep := bytesOf(a[2])
			for _, x := range rep {
				if c, ok := x.(int64); !ok || c == '$' {
					unsupported("regexp replacement template")
				}
			}
			return strv(fr.p.reReplace(fr, r, b, func(int, int) []value { return rep }), str)
		})
		both("ReplaceAllLiteral"+s, func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			return strv(fr.p.reReplace(fr, r, b, func(int, int) []value { return bytesOf(a[2]) }), str)
		})
		both("ReplaceAll"+s+"Func", func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
			return strv(fr.p.reReplace(fr, r, b, func(x, y int) []value {
				return bytesOf(fr.p.call(fr, fr.g, a[2], []value{strv(b[x:y:y], str)}))
			}), str)
		})
	}
	both("Split", func(fr *frame, r *hostRegex, b []value, _ bool, a []value) value {
		if s, ok := mkStr(b).(string); ok {
			var out []value
			for _, x := range r.native().Split(s, int(fr.p.concInt(a[2]))) {
				out = append(out, x)
			}
			return out
		}
		n := int(fr.p.concInt(a[2]))
		if n == 0 {
			return []value(nil)
		}
		if len(r.native().String()) > 0 && len(b) == 0 {
			return []value{""}
		}
		var out []value
		beg, end := 0, 0
		for _, m := range fr.p.reAll(r, b, n) {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, strv(b[beg:end:end], true))
			}
			beg = m[1]
		}
		if end != len(b) {
			out = append(out, strv(b[beg:len(b):len(b)], true))
		}
		return out
	})
}

func (r *hostRegex) native() *regexp.Regexp {
	if r.longest {
		return r.reL
	}
	return r.re
}

func theRe(fr *frame, v value) *hostRegex {
	ptr, ok := v.(*value)
	if !ok || ptr == nil {
		fr.p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	r, ok := (*ptr).(*hostRegex)
	if !ok {
		unsupported("regexp built outside the engine")
	}
	return r
}

func (p *path) compileRe(v value) (value, error) {
	s, ok := v.(string)
	if !ok {
		unsupported("symbolic regular expression")
	}
	key := "re:" + s
	var proto *hostRegex
	if c, ok := p.w.side[key].(*hostRegex); ok {
		proto = c
	} else {
		re, err := regexp.Compile(s)
		if err != nil {
			return nil, err
		}
		reL := regexp.MustCompile(s)
		reL.Longest()
		tree, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return nil, err
		}
		prog, err := syntax.Compile(tree.Simplify())
		if err != nil {
			return nil, err
		}
		proto = &hostRegex{src: s, re: re, reL: reL, prog: prog}
		p.w.side[key] = proto
	}
	c := *proto
	cell := new(value)
	*cell = &c
	return cell, nil
}

// runeCond is the condition under which byte t is matched by a rune instruction.
func (p *path) runeCond(in *syntax.Inst, x value) *Term {
	if c, ok := x.(int64); ok {
		if c < 0x80 {
			return p.tb.boolc(instMatches(in, rune(c)))
		}
		return p.tb.boolc(highMatches(in))
	}
	t, ok := x.(*Term)
	if !ok {
		unsupported("regular expression over opaque text")
	}
	r := p.tb.F_
	for c := 0; c < 0x80; {
		if !instMatches(in, rune(c)) {
			c++
			continue
		}
		d := c
		for d < 0x7f && instMatches(in, rune(d+1)) {
			d++
		}
		if c == d {
			r = p.tb.Or(r, p.tb.Eq(t, p.tb.bv(uint64(c), 8)))
		} else if c == 0 {
			r = p.tb.Or(r, p.tb.cmp(OUle, t, p.tb.bv(uint64(d), 8)))
		} else {
			r = p.tb.Or(r, p.tb.And(p.tb.cmp(OUle, p.tb.bv(uint64(c), 8), t), p.tb.cmp(OUle, t, p.tb.bv(uint64(d), 8))))
		}
		c = d + 1
	}
	high := p.tb.cmp(OUle, p.tb.bv(0x80, 8), t)
	if partialHigh(in) && !p.branch(high) {
		return r // no byte of a rune beyond ASCII
	}
	if highMatches(in) {
		r = p.tb.Or(r, high)
	}
	return r
}

func instMatches(in *syntax.Inst, c rune) bool {
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return c != '\n'
	}
	return in.MatchRune(c)
}

// highMatches: bytes >= 0x80 are parts of multi-byte runes (or invalid, which
// the library reads as U+FFFD); they match when every such rune does.
func highMatches(in *syntax.Inst) bool {
	switch in.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return true
	case syntax.InstRune1:
		if in.Rune[0] < 0x80 {
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				unsupported("case-insensitive regular expression")
			}
			return false
		}
		unsupported("non-ASCII regular expression")
	}
	if len(in.Rune) == 1 && in.Rune[0] < 0x80 && syntax.Flags(in.Arg)&syntax.FoldCase == 0 {
		return false
	}
	lo, all := false, false
	for i := 0; i+1 < len(in.Rune); i += 2 {
		if in.Rune[i+1] >= 0x80 {
			if in.Rune[i] <= 0x80 && in.Rune[i+1] == unicode.MaxRune {
				all = true
			} else {
				lo = true
			}
		}
	}
	if lo && !all {
		unsupported("regular expression with a partial non-ASCII class")
	}
	return all
}

// partialHigh: some runes beyond ASCII match and others do not.
func partialHigh(in *syntax.Inst) bool {
	switch in.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return false
	case syntax.InstRune1:
		return in.Rune[0] >= 0x80
	}
	if len(in.Rune) == 1 {
		return in.Rune[0] >= 0x80
	}
	lo, all := false, false
	for i := 0; i+1 < len(in.Rune); i += 2 {
		if in.Rune[i+1] >= 0x80 {
			if in.Rune[i] <= 0x80 && in.Rune[i+1] == unicode.MaxRune {
				all = true
			} else {
				lo = true
			}
		}
	}
	return lo && !all
}

func (p *path) emptyCond(op syntax.EmptyOp, b []value, i int) *Term {
	c := p.tb.T_
	word := func(j int) *Term {
		if j < 0 || j >= len(b) {
			return p.tb.F_
		}
		t := p.byteTerm(b[j])
		rg := func(lo, hi byte) *Term {
			return p.tb.And(p.tb.cmp(OUle, p.tb.bv(uint64(lo), 8), t), p.tb.cmp(OUle, t, p.tb.bv(uint64(hi), 8)))
		}
		return p.tb.Or(p.tb.Or(rg('a', 'z'), rg('A', 'Z')), p.tb.Or(rg('0', '9'), p.tb.Eq(t, p.tb.bv('_', 8))))
	}
	nl := func(j int) *Term { return p.tb.Eq(p.byteTerm(b[j]), p.tb.bv('\n', 8)) }
	if op&syntax.EmptyBeginText != 0 {
		c = p.tb.And(c, p.tb.boolc(i == 0))
	}
	if op&syntax.EmptyEndText != 0 {
		c = p.tb.And(c, p.tb.boolc(i == len(b)))
	}
	if op&syntax.EmptyBeginLine != 0 && i > 0 {
		c = p.tb.And(c, nl(i-1))
	}
	if op&syntax.EmptyEndLine != 0 && i < len(b) {
		c = p.tb.And(c, nl(i))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		e := p.tb.Eq(word(i-1), word(i))
		if op&syntax.EmptyWordBoundary != 0 {
			c = p.tb.And(c, p.tb.Not(e))
		} else {
			c = p.tb.And(c, e)
		}
	}
	return c
}

// reExact returns, for every end e >= s, the condition that b[s:e] matches.
func (p *path) reExact(r *hostRegex, b []value, s int) []*Term {
	n := len(b)
	np := len(r.prog.Inst)
	res := make([]*Term, n+1)
	for i := range res {
		res[i] = p.tb.F_
	}
	cur := make([]*Term, np)
	var add func(set []*Term, pc uint32, c *Term, at int)
	add = func(set []*Term, pc uint32, c *Term, at int) {
		if c.isFalse() {
			return
		}
		old := set[pc]
		if old == nil {
			old = p.tb.F_
		}
		nw := p.tb.Or(old, c)
		if nw == old && !old.isFalse() {
			return
		}
		set[pc] = nw
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, c, at)
			add(set, in.Arg, c, at)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, c, at)
		case syntax.InstEmptyWidth:
			add(set, in.Out, p.tb.And(c, p.emptyCond(syntax.EmptyOp(in.Arg), b, at)), at)
		}
	}
	add(cur, uint32(r.prog.Start), p.tb.T_, s)
	for i := s; ; i++ {
		alive := false
		for pc := range cur {
			if cur[pc] != nil && r.prog.Inst[pc].Op == syntax.InstMatch {
				res[i] = p.tb.Or(res[i], cur[pc])
			}
			if cur[pc] != nil {
				alive = true
			}
		}
		if i == n || !alive {
			break
		}
		nxt := make([]*Term, np)
		for pc := range cur {
			if cur[pc] == nil {
				continue
			}
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				add(nxt, in.Out, p.tb.And(cur[pc], p.runeCond(in, b[i])), i+1)
			}
		}
		cur = nxt
	}
	return res
}

func (p *path) reMatch(r *hostRegex, b []value) value {
	if s, ok := mkStr(b).(string); ok {
		return r.re.MatchString(s)
	}
	c := p.tb.F_
	for s := 0; s <= len(b); s++ {
		for _, t := range p.reExact(r, b, s) {
			c = p.tb.Or(c, t)
		}
		if c.isTrue() {
			break
		}
	}
	return boolVal(c)
}

// reFindIndex implements FindIndex; callers of longest-match expressions mostly
// ask whether the match starts at 0, so later matches keep symbolic positions.
func (p *path) reFindIndex(r *hostRegex, b []value) value {
	if s, ok := mkStr(b).(string); ok {
		m := r.native().FindStringIndex(s)
		if m == nil {
			return []value(nil)
		}
		return []value{int64(m[0]), int64(m[1])}
	}
	if !r.longest {
		x, y, ok := p.reFind(r, b, 0)
		if !ok {
			return []value(nil)
		}
		return []value{int64(x), int64(y)}
	}
	m0 := p.reExact(r, b, 0)
	for e := len(b); e >= 0; e-- {
		if p.branch(m0[e]) {
			return []value{int64(0), int64(e)}
		}
	}
	// not at 0: one decision for "somewhere later", positions as terms
	any := p.tb.F_
	st, en := p.tb.bv(0, 64), p.tb.bv(0, 64)
	for s := len(b); s >= 1; s-- {
		ms := p.reExact(r, b, s)
		here := p.tb.F_
		e2 := p.tb.bv(0, 64)
		for e := s; e <= len(b); e++ {
			here = p.tb.Or(here, ms[e])
			e2 = p.tb.Ite(ms[e], p.tb.bv(uint64(e), 64), e2)
		}
		st = p.tb.Ite(here, p.tb.bv(uint64(s), 64), st)
		en = p.tb.Ite(here, e2, en)
		any = p.tb.Or(any, here)
	}
	if !p.branch(any) {
		return []value(nil)
	}
	return []value{intVal(st, 64, true), intVal(en, 64, true)}
}

// reFind finds the leftmost match at or after from, forking on the content.
func (p *path) reFind(r *hostRegex, b []value, from int) (int, int, bool) {
	if s, ok := mkStr(b).(string); ok && from == 0 {
		m := r.native().FindStringIndex(s)
		if m == nil {
			return 0, 0, false
		}
		return m[0], m[1], true
	}
	for s := from; s <= len(b); s++ {
		if r.longest {
			ms := p.reExact(r, b, s)
			for e := len(b); e >= s; e-- {
				if p.branch(ms[e]) {
					return s, e, true
				}
			}
			continue
		}
		if e, ok := p.rePerl(r, b, s); ok {
			return s, e, true
		}
	}
	return 0, 0, false
}

// rePerl is a backtracking matcher: leftmost-first order, one decision per byte test.
func (p *path) rePerl(r *hostRegex, b []value, s int) (int, bool) {
	visited := map[[2]int]bool{}
	var run func(pc uint32, i int) (int, bool)
	run = func(pc uint32, i int) (int, bool) {
		k := [2]int{int(pc), i}
		if visited[k] {
			return 0, false
		}
		visited[k] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return i, true
		case syntax.InstFail:
			return 0, false
		case syntax.InstAlt, syntax.InstAltMatch:
			if e, ok := run(in.Out, i); ok {
				return e, true
			}
			return run(in.Arg, i)
		case syntax.InstCapture, syntax.InstNop:
			return run(in.Out, i)
		case syntax.InstEmptyWidth:
			if p.branch(p.emptyCond(syntax.EmptyOp(in.Arg), b, i)) {
				return run(in.Out, i)
			}
			return 0, false
		}
		if i >= len(b) || !p.branch(p.runeCond(in, b[i])) {
			return 0, false
		}
		return run(in.Out, i+1)
	}
	return run(uint32(r.prog.Start), s)
}

func (p *path) reAll(r *hostRegex, b []value, n int) [][2]int {
	if s, ok := mkStr(b).(string); ok {
		var out [][2]int
		for _, m := range r.native().FindAllStringIndex(s, n) {
			out = append(out, [2]int{m[0], m[1]})
		}
		return out
	}
	var out [][2]int
	pos, prev := 0, -1
	for pos <= len(b) && (n < 0 || len(out) < n) {
		x, y, ok := p.reFind2(r, b, pos)
		if !ok {
			break
		}
		accept := true
		if y == x {
			if x == prev {
				accept = false
			}
			if x < len(b) {
				pos = x + 1
			} else {
				pos = len(b) + 1
			}
		} else {
			pos = y
		}
		prev = y
		if accept {
			out = append(out, [2]int{x, y})
		}
	}
	return out
}

func (p *path) reFind2(r *hostRegex, b []value, from int) (int, int, bool) {
	for s := from; s <= len(b); s++ {
		if r.longest {
			ms := p.reExact(r, b, s)
			for e := len(b); e >= s; e-- {
				if p.branch(ms[e]) {
					return s, e, true
				}
			}
			continue
		}
		if e, ok := p.rePerl(r, b, s); ok {
			return s, e, true
		}
	}
	return 0, 0, false
}

func (p *path) reReplace(fr *frame, r *hostRegex, b []value, rep func(x, y int) []value) []value {
	last := 0
	out := []value{}
	for _, m := range p.reAll(r, b, -1) {
		out = append(out, b[last:m[0]]...)
		out = append(out, rep(m[0], m[1])...)
		last = m[1]
	}
	return append(out, b[last:]...)
}

var _ = strings.Index
