package h

import (
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

func isAlpha(c byte) bool {
	return sym.Or(sym.And('a' <= c, c <= 'z'), sym.Or(sym.And('A' <= c, c <= 'Z'), c == '_'))
}
func isDigit(c byte) bool { return sym.And('0' <= c, c <= '9') }
func isWord(c byte) bool  { return sym.Or(isAlpha(c), sym.Or(isDigit(c), c == '-')) }
func isSpace(c byte) bool { return sym.Or(c == ' ', sym.And('\t' <= c, c <= '\r')) }

// spaces is, for every position, whether the rest of a text is white space only, and
// whether all of that is ASCII.
func spaces(t string) (all, ascii []bool) {
	r, ascii := make([]bool, len(t)+1), make([]bool, len(t)+1)
	r[len(t)], ascii[len(t)] = true, true
	for i := len(t) - 1; i >= 0; i-- {
		ascii[i] = sym.And(t[i] < 0x80, ascii[i+1])
		r[i] = sym.And(isSpace(t[i]), r[i+1])
		if i+1 < len(t) {
			r[i] = sym.Or(r[i], sym.And(t[i] == 0xc2, sym.And(sym.Or(t[i+1] == 0x85, t[i+1] == 0xa0), r[i+2])))
		}
		if i+2 < len(t) {
			z := t[i+2]
			k := sym.And(t[i] == 0xe1, sym.And(t[i+1] == 0x9a, z == 0x80))
			general := sym.Or(sym.And(0x80 <= z, z <= 0x8a), sym.Or(sym.Or(z == 0xa8, z == 0xa9), z == 0xaf))
			k = sym.Or(k, sym.And(t[i] == 0xe2, sym.Or(sym.And(t[i+1] == 0x80, general), sym.And(t[i+1] == 0x81, z == 0x9f))))
			k = sym.Or(k, sym.And(t[i] == 0xe3, sym.And(t[i+1] == 0x80, z == 0x80)))
			r[i] = sym.Or(r[i], sym.And(k, r[i+3]))
		}
	}
	return r, ascii
}

const (
	accept = iota
	reject
	unclaimed
)

// pkey is an expected key: keys[i] are the alternatives of one step.
type pkey struct {
	kind json_map.AbsolutePathKeyType
	s    string
	n    int
	lo   int
	hi   int
	hasL bool
	hasH bool
}

// number reads digits (with an optional sign) at i.
func number(t string, i int, sign bool) (n, end int, ok bool) {
	neg := false
	if sign && i < len(t) && t[i] == '-' {
		neg = true
		i++
	}
	st := i
	for i < len(t) && isDigit(t[i]) {
		n = n*10 + int(t[i]-'0')
		i++
	}
	if neg {
		n = -n
	}
	return n, i, i > st
}

// bracket reads an index, an index list, a slice or [*] after the opening bracket.
func bracket(t string, i int) (alts []pkey, end int, ok bool) {
	closed := func(j int) bool { return j < len(t) && t[j] == ']' }
	if i < len(t) && t[i] == '*' {
		return []pkey{{kind: json_map.Wildcard}}, i + 2, closed(i + 1)
	}
	if i < len(t) && t[i] == ':' {
		n, e, is := number(t, i+1, true)
		return []pkey{{kind: json_map.Slice, hi: n, hasH: true}}, e + 1, is && closed(e)
	}
	neg := i < len(t) && t[i] == '-'
	n, e, is := number(t, i, true)
	if !is {
		return nil, 0, false
	}
	if closed(e) {
		return []pkey{{kind: json_map.IndexKey, n: n}}, e + 1, true
	}
	if e < len(t) && t[e] == ':' {
		if closed(e + 1) {
			return []pkey{{kind: json_map.Slice, lo: n, hasL: true}}, e + 2, true
		}
		m, f, is := number(t, e+1, false)
		return []pkey{{kind: json_map.Slice, lo: n, hasL: true, hi: m, hasH: true}}, f + 1, is && !neg && closed(f)
	}
	alts = []pkey{{kind: json_map.IndexKey, n: n}}
	for e < len(t) && t[e] == ',' {
		e++
		for e < len(t) && isListSpace(t[e]) {
			e++
		}
		n, f, is := number(t, e, false)
		if !is {
			return nil, 0, false
		}
		alts = append(alts, pkey{kind: json_map.IndexKey, n: n})
		e = f
	}
	return alts, e + 1, !neg && closed(e)
}

// vertical tab is no separator within an index list
func isListSpace(c byte) bool { return sym.And(isSpace(c), c != '\v') }

// filterAt reads [?(...)] at i (after the bracket): up to the ")]" that closes it, string literals skipped.
func filterAt(t string, i int) (expr string, end int, ok bool) {
	if !(i+1 < len(t) && t[i] == '?' && t[i+1] == '(') {
		return "", 0, false
	}
	depth, quote := 0, byte(0)
	for j := i + 1; j < len(t); j++ {
		switch {
		case quote != 0:
			if t[j] == '\\' {
				j++
			} else if t[j] == quote {
				quote = 0
			}
		case t[j] == '"' || t[j] == '\'':
			quote = t[j]
		case t[j] == '(':
			depth++
		case t[j] == ')':
			depth--
			if depth == 0 && j+1 < len(t) && t[j+1] == ']' {
				return t[i+2 : j], j + 2, true
			}
		}
	}
	return "", 0, false
}

// refParse reads a path: the alternatives of each step, and whether the grammar decides the text.
func refParse(t string) (steps [][]pkey, verdict int) {
	if len(t) == 0 || t[0] != '$' {
		return nil, reject
	}
	all, ascii := spaces(t)
	i := 1
	for i < len(t) {
		if all[i] {
			if !ascii[i] {
				return nil, unclaimed
			}
			return steps, accept
		}
		if t[i] == '.' {
			d := i
			for i < len(t) && t[i] == '.' {
				i++
			}
			dots := i - d
			if i < len(t) && isAlpha(t[i]) {
				s := i
				for i < len(t) && isWord(t[i]) {
					i++
				}
				if dots == 2 {
					steps = append(steps, []pkey{{kind: json_map.RecursiveLookup, s: t[s:i]}})
					continue
				}
				for k := 2; k < dots; k++ {
					steps = append(steps, []pkey{{kind: json_map.First}})
				}
				steps = append(steps, []pkey{{kind: json_map.StringKey, s: t[s:i]}})
				continue
			}
			for k := 2; k < dots; k++ {
				steps = append(steps, []pkey{{kind: json_map.First}})
			}
			if i < len(t) && t[i] == '*' && dots != 2 {
				i++
				steps = append(steps, []pkey{{kind: json_map.Wildcard}})
				continue
			}
			if i < len(t) && t[i] == '[' && dots != 2 {
				continue
			}
			// a run of dots with nothing to select after it
			return nil, unclaimed
		}
		if t[i] == '[' {
			if i+1 < len(t) && t[i+1] == '?' {
				e, end, ok := filterAt(t, i+1)
				if !ok {
					// unbalanced expressions are left to the expression language
					return nil, unclaimed
				}
				for k := 0; k < len(e); k++ {
					if e[k] == '\n' {
						// whether an expression may span lines is not documented
						return nil, unclaimed
					}
				}
				steps = append(steps, []pkey{{kind: json_map.Filter, s: e}})
				i = end
				continue
			}
			alts, end, ok := bracket(t, i+1)
			if !ok {
				return nil, reject
			}
			steps = append(steps, alts)
			i = end
			continue
		}
		return nil, reject
	}
	return steps, accept
}

// expand lists the paths: every combination of alternatives, the last one varying fastest.
func expand(steps [][]pkey) [][]pkey {
	r := [][]pkey{}
	for n, alts := range steps {
		if n == 0 {
			for _, a := range alts {
				r = append(r, []pkey{a})
			}
			continue
		}
		var nr [][]pkey
		for _, p := range r {
			for _, a := range alts {
				nr = append(nr, append(append([]pkey{}, p...), a))
			}
		}
		r = nr
	}
	return r
}

func keyIs(k json_map.AbsolutePathKey, w pkey) bool {
	if k.KeyType != w.kind {
		return false
	}
	switch w.kind {
	case json_map.StringKey, json_map.RecursiveLookup, json_map.Filter:
		s, ok := k.Value.(string)
		return ok && s == w.s
	case json_map.IndexKey:
		n, ok := k.Value.(int)
		return ok && n == w.n
	case json_map.Slice:
		se, ok := k.Value.([]json_map.AbsolutePathKey)
		return ok && len(se) == 2 && endIs(se[0], w.hasL, w.lo) && endIs(se[1], w.hasH, w.hi)
	}
	return true
}

func endIs(k json_map.AbsolutePathKey, has bool, n int) bool {
	if !has {
		return k.KeyType == json_map.StartEnd
	}
	v, ok := k.Value.(int)
	return ok && k.KeyType == json_map.IndexKey && v == n
}

func checkParse(t string) {
	steps, verdict := refParse(t)
	sym.Assume(verdict != unclaimed)
	paths, err := json_map.ParseJsonPath(t)
	if verdict == reject {
		sym.Reach("reject")
		sym.Observe("error")
		sym.Assert(err != nil, "a text outside the path grammar is accepted")
		return
	}
	sym.Reach("accept")
	sym.Assert(err == nil, "a text of the path grammar is refused")
	want := expand(steps)
	sym.Observe(len(paths))
	sym.Assert(len(paths) == len(want), "the text is read as the wrong number of paths")
	for i, w := range want {
		sym.Assert(len(paths[i]) == len(w), "the text is read as a path of the wrong length")
		for n := range w {
			sym.Assert(keyIs(paths[i][n], w[n]), "a step of the path is read wrongly")
		}
	}
}

// HParse: every short text.
func HParse() {
	n := sym.Choose("n", 8+2*sym.Tier())
	checkParse("$" + sym.Str("text", n, "$.*[]:,-019abZ_ ?\t"))
}

// HParseAny: every text of a few arbitrary bytes, the root included.
func HParseAny() {
	n := sym.Choose("n", 7+2*sym.Tier())
	checkParse(sym.Str("text", n, ""))
}

// HParseIndex: what can stand between brackets.
func HParseIndex() {
	n := sym.Choose("n", 7+sym.Tier())
	pre := []string{"$.a[", "$["}[sym.Choose("prefix", 2)]
	post := []string{"]", "].b"}[sym.Choose("suffix", 2)]
	checkParse(pre + sym.Str("text", n, ":,-0129* ]") + post)
}

// HParseName: property names, and names after runs of dots.
func HParseName() {
	dots := []string{".", "..", "...", "....", "....."}[sym.Choose("dots", 5)]
	n := 1 + sym.Choose("n", 3)
	post := []string{"", ".c", "[1]", "..d", "[0,2]"}[sym.Choose("suffix", 5)]
	checkParse("$" + dots + sym.Str("name", n, "$.*[]:-019abzAZ_ @") + post)
}

// HParseFilter: filter expressions, alone and followed by more path.
func HParseFilter() {
	n := 1 + sym.Choose("n", 5+sym.Tier())
	post := []string{"", ".b", "[?(@)]", "[0]"}[sym.Choose("suffix", 4)]
	checkParse("$[?(" + sym.Str("expr", n, "@.a()[]'\"0= ") + ")]" + post)
}

// HParseUnion: combinations of index lists.
func HParseUnion() {
	a := sym.Str("a", 1, "0123456789")
	b := sym.Str("b", 1+sym.Choose("nb", 2), "0123456789")
	c := sym.Str("c", 1, "0123456789")
	sep := []string{",", ", ", ",  "}[sym.Choose("sep", 3)]
	switch sym.Choose("shape", 3) {
	case 0:
		checkParse("$[" + a + sep + b + "][" + c + sep + a + "].k")
	case 1:
		checkParse("$.k[" + a + sep + b + sep + c + "]...z")
	case 2:
		checkParse("$..k[" + b + "][" + a + sep + c + "][*]")
	}
}

// HParseNumber: numbers of any size, everywhere where a number can stand.
func HParseNumber() {
	stems := []string{"", "0", "1", "12", "25", "102", "3276", "6553", "16777", "0214748364", "214748364", "429496729", "1000000000", "900719925474099", "92233720368547758", "9223372036854775"}
	n := stems[sym.Choose("stem", len(stems))] + sym.Str("digits", 1+sym.Choose("more", 2), "0123456789")
	sym.Assume(len(n) < 19)
	switch sym.Choose("place", 8) {
	case 0:
		checkParse("$.a[" + n + "].b")
	case 1:
		checkParse("$[-" + n + "]")
	case 2:
		checkParse("$.a[" + n + ",1]")
	case 3:
		checkParse("$.a[0, " + n + ", " + n + "]")
	case 4:
		checkParse("$.a[" + n + ":]")
	case 5:
		checkParse("$.a[-" + n + ":].b")
	case 6:
		checkParse("$.a[:-" + n + "]")
	case 7:
		checkParse("$.a[2:" + n + "]..b")
	}
}

// HParseHuge: names, numbers, lists, filters and runs of dots that are longer than any buffer.
func HParseHuge() {
	n := []int{64, 255, 512, 1024, 2047, 4096, 5000, 8192, 20000}[sym.Choose("length", 9)]
	c := string("a0.-$"[sym.Choose("char", 5)])
	t := ""
	switch sym.Choose("kind", 5) {
	case 0:
		t = "$." + strings.Repeat("a", n) + c + "[1].b"
	case 1:
		t = "$.." + strings.Repeat("b", n/2) + c + strings.Repeat("b", n/2) + ".b"
	case 2:
		t = "$.a[?(@.x === '" + strings.Repeat("b)]", n/3) + c + "')].b[1]"
	case 3:
		sym.Assume(n <= 2047)
		t = "$.a" + strings.Repeat(".a[0]", n/5) + c + ".b"
	case 4:
		t = "$.a[0,1][" + strings.Repeat("0", n) + "7," + strings.Repeat(" ", n) + "8]" + c + "b"
	}
	checkParse(t)
}
