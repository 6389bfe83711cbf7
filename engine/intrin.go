package main

// Engine implementations of library functions and of the sym package.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	path_ "path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugStacks = os.Getenv("GOSYM_STACKS") != ""
var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var intrinsics map[string]intrinsic

const symP = modPath + "/zz_verif/sym."

func init() {
	intrinsics = map[string]intrinsic{
		// ---- harness API
		symP + "Int":          symInt,
		symP + "Byte":         symByte,
		symP + "Bool":         symBool,
		symP + "Float":        symFloat,
		symP + "Choose":       symChoose,
		symP + "Str":          symStr,
		symP + "JSON":         symJSON,
		symP + "Assume":       func(fr *frame, a []value) value { fr.p.assume(fr.p.boolTerm(a[0])); return nil },
		symP + "Assert":       func(fr *frame, a []value) value { fr.p.assertCond(fr.p.boolTerm(a[0]), showStr(a[1]), ""); return nil },
		symP + "AssertKnown":  symAssertKnown,
		symP + "Reach":        func(fr *frame, a []value) value { fr.p.reached[showStr(a[0])] = true; return nil },
		symP + "Observe":      symObserve,
		symP + "DeepEqual":    func(fr *frame, a []value) value { return boolVal(fr.p.deepEq(a[0].(iface), a[1].(iface))) },
		symP + "SameMultiset": symSameMultiset,
		symP + "Clone":        func(fr *frame, a []value) value { return fr.p.cloneIface(a[0].(iface)) },
		symP + "Spin":         symSpin,
		symP + "RunMain":      symRunMain,
		symP + "MapOrder":     func(fr *frame, a []value) value { fr.p.mapMode = int(a[0].(int64)); return nil },
		symP + "Schedules":    symSchedules,
		symP + "Races":        func(fr *frame, a []value) value { fr.p.race = newRace(fr.p); return nil },
		symP + "RaceFound":    symRaceFound,
		symP + "Drain":        func(fr *frame, a []value) value { return int64(fr.p.drain(fr.g)) },
		symP + "Tier":         func(fr *frame, a []value) value { return int64(fr.p.w.ex.tier) },
		symP + "And": func(fr *frame, a []value) value {
			return boolVal(fr.p.tb.And(fr.p.boolTerm(a[0]), fr.p.boolTerm(a[1])))
		},
		symP + "Or":        func(fr *frame, a []value) value { return boolVal(fr.p.tb.Or(fr.p.boolTerm(a[0]), fr.p.boolTerm(a[1]))) },
		symP + "Symbolic":  func(fr *frame, a []value) value { return true },
		symP + "Force":     func(fr *frame, a []value) value { return fr.p.forceIface(a[0].(iface)) },
		symP + "SameMap":   symSameMap,
		symP + "Now":       func(fr *frame, a []value) value { return fr.p.now },
		symP + "NewFilter": nil,

		// ---- fmt
		"fmt.Sprintf":  func(fr *frame, a []value) value { return fr.p.sprintf(fr, a[0], a[1].([]value)) },
		"fmt.Sprint":   func(fr *frame, a []value) value { return fr.p.sprint(fr, a[0].([]value), false) },
		"fmt.Sprintln": func(fr *frame, a []value) value { return fr.p.sprint(fr, a[0].([]value), true) },
		"fmt.Errorf": func(fr *frame, a []value) value {
			if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
				if args := a[1].([]value); strings.Count(f, "%w") == 1 && !strings.Contains(f, "%%") && !strings.Contains(f, "%[") {
					i := strings.Count(f[:strings.Index(f, "%w")], "%")
					if e, ok := args[i].(iface); ok && e.t != nil {
						return fr.p.wrapErr(fr.p.sprintf(fr, strings.Replace(f, "%w", "%v", 1), args), e)
					}
				}
				unsupported("fmt.Errorf(%q)", f)
			}
			return fr.p.newError(fr, fr.p.sprintf(fr, a[0], a[1].([]value)))
		},
		"fmt.Fprintf": func(fr *frame, a []value) value {
			return fr.p.writeTo(fr, a[0].(iface), fr.p.sprintf(fr, a[1], a[2].([]value)))
		},
		"fmt.Fprint": func(fr *frame, a []value) value {
			return fr.p.writeTo(fr, a[0].(iface), fr.p.sprint(fr, a[1].([]value), false))
		},
		"fmt.Fprintln": func(fr *frame, a []value) value {
			return fr.p.writeTo(fr, a[0].(iface), fr.p.sprint(fr, a[1].([]value), true))
		},
		"fmt.Println": func(fr *frame, a []value) value { return fr.p.stdoutWrite(fr, fr.p.sprint(fr, a[0].([]value), true)) },
		"fmt.Print":   func(fr *frame, a []value) value { return fr.p.stdoutWrite(fr, fr.p.sprint(fr, a[0].([]value), false)) },
		"fmt.Printf":  func(fr *frame, a []value) value { return fr.p.stdoutWrite(fr, fr.p.sprintf(fr, a[0], a[1].([]value))) },

		// ---- strings.Builder / bytes.Buffer are used through these
		"(*strings.Builder).WriteString": func(fr *frame, a []value) value { return sbWrite(fr, a[0], strBytes(a[1])) },
		"(*strings.Builder).Write":       func(fr *frame, a []value) value { return sbWrite(fr, a[0], a[1].([]value)) },
		"(*strings.Builder).WriteByte": func(fr *frame, a []value) value {
			sbWrite(fr, a[0], []value{a[1]})
			return iface{}
		},
		"(*strings.Builder).WriteRune": func(fr *frame, a []value) value {
			return sbWrite(fr, a[0], strBytes(fr.p.runeStr(a[1], nil)))
		},
		"(*strings.Builder).String": func(fr *frame, a []value) value {
			return mkStr(append([]value(nil), sbBuf(fr, a[0])...))
		},
		"(*strings.Builder).Len":   func(fr *frame, a []value) value { return int64(len(sbBuf(fr, a[0]))) },
		"(*strings.Builder).Cap":   func(fr *frame, a []value) value { return int64(cap(sbBuf(fr, a[0]))) },
		"(*strings.Builder).Grow":  func(fr *frame, a []value) value { return nil },
		"(*strings.Builder).Reset": func(fr *frame, a []value) value { sbSet(fr, a[0], nil); return nil },

		// ---- strings
		"strings.Split":      func(fr *frame, a []value) value { return fr.p.strSplit(a[0], a[1], -1) },
		"strings.SplitN":     func(fr *frame, a []value) value { return fr.p.strSplit(a[0], a[1], int(a[2].(int64))) },
		"strings.Index":      func(fr *frame, a []value) value { return int64(fr.p.strFind(a[0], a[1], 0)) },
		"strings.Contains":   strContains,
		"strings.Count":      func(fr *frame, a []value) value { return int64(len(fr.p.strSplit(a[0], a[1], -1).([]value)) - 1) },
		"strings.HasPrefix":  strHasPrefix,
		"strings.HasSuffix":  strHasSuffix,
		"strings.Replace":    strReplace,
		"strings.ReplaceAll": func(fr *frame, a []value) value { return strReplace(fr, append(a, int64(-1))) },
		"strings.TrimSpace":  strTrimSpace,
		"bytes.TrimSpace":    bytesTrimSpace,
		"strings.Fields": func(fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				out := []value{}
				for _, x := range strings.Fields(s) {
					out = append(out, x)
				}
				return out
			}
			return fieldsOf(fr, strBytes(a[0]), func(b []value) value { return mkStr(append([]value(nil), b...)) })
		},
		"bytes.Fields": func(fr *frame, a []value) value {
			b, _ := a[0].([]value)
			return fieldsOf(fr, b, func(b []value) value { return b })
		},
		"strings.TrimPrefix": func(fr *frame, a []value) value {
			if fr.p.truth(strHasPrefix(fr, a)) {
				return fr.p.slice(types.Typ[types.String], a[0], int64(strLen(a[1])), nil, nil)
			}
			return a[0]
		},
		"strings.TrimSuffix": func(fr *frame, a []value) value {
			if fr.p.truth(strHasSuffix(fr, a)) {
				return fr.p.slice(types.Typ[types.String], a[0], int64(0), int64(strLen(a[0])-strLen(a[1])), nil)
			}
			return a[0]
		},
		"strings.Join": strJoin,
		"strings.Repeat": func(fr *frame, a []value) value {
			var r value = ""
			for i := int64(0); i < a[1].(int64); i++ {
				r = concat(r, a[0])
			}
			return r
		},
		"strings.Clone": func(fr *frame, a []value) value { return a[0] },
		"bytes.Equal": func(fr *frame, a []value) value {
			return boolVal(fr.p.strEq(mkStr(a[0].([]value)), mkStr(a[1].([]value))))
		},

		"internal/bytealg.IndexByteString": func(fr *frame, a []value) value { return int64(fr.p.strFind(a[0], mkStr([]value{a[1]}), 0)) },
		"internal/bytealg.IndexByte": func(fr *frame, a []value) value {
			return int64(fr.p.strFind(mkStr(a[0].([]value)), mkStr([]value{a[1]}), 0))
		},
		"internal/bytealg.CountString": func(fr *frame, a []value) value {
			return int64(len(fr.p.strSplit(a[0], mkStr([]value{a[1]}), -1).([]value)) - 1)
		},
		"internal/bytealg.Count": func(fr *frame, a []value) value {
			return int64(len(fr.p.strSplit(mkStr(a[0].([]value)), mkStr([]value{a[1]}), -1).([]value)) - 1)
		},
		"internal/bytealg.IndexString": func(fr *frame, a []value) value { return int64(fr.p.strFind(a[0], a[1], 0)) },
		"internal/bytealg.MakeNoZero": func(fr *frame, a []value) value {
			s := make([]value, a[0].(int64))
			for i := range s {
				s[i] = int64(0)
			}
			return s
		},
		"internal/bytealg.Equal": func(fr *frame, a []value) value {
			return boolVal(fr.p.strEq(mkStr(a[0].([]value)), mkStr(a[1].([]value))))
		},
		"internal/bytealg.CompareString": strCompare,
		"strings.Compare":                strCompare,
		"internal/stringslite.Index":     func(fr *frame, a []value) value { return int64(fr.p.strFind(a[0], a[1], 0)) },
		"internal/stringslite.Clone":     func(fr *frame, a []value) value { return a[0] },
		"internal/abi.NoEscape":          func(fr *frame, a []value) value { return a[0] },
		"internal/stringslite.IndexByte": func(fr *frame, a []value) value { return int64(fr.p.strFind(a[0], mkStr([]value{a[1]}), 0)) },

		// ---- strconv that ends in asm or tables
		"strconv.Itoa": func(fr *frame, a []value) value { return fr.p.fmtInt(a[0]) },
		"strconv.Quote": func(fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				return strconv.Quote(s)
			}
			return concat(concat("\"", a[0]), "\"")
		},

		// ---- sync
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done":  func(fr *frame, a []value) value { return wgAdd(fr, []value{a[0], int64(-1)}) },
		"(*sync.WaitGroup).Wait":  wgWait,
		"(*sync.WaitGroup).Go":    wgGo,
		"(*sync.Mutex).Lock":      muLock,
		"(*sync.Mutex).Unlock":    muUnlock,
		"(*sync.Mutex).TryLock":   muTryLock,
		"(*sync.RWMutex).Lock":    muLock,
		"(*sync.RWMutex).Unlock":  muUnlock,
		"(*sync.RWMutex).RLock":   rwRLock,
		"(*sync.RWMutex).RUnlock": rwRUnlock,
		"(*sync.Once).Do":         onceDo,
		"runtime.Gosched":         func(fr *frame, a []value) value { fr.p.yield(fr.g, "gosched"); return nil },
		"runtime.NumGoroutine":    func(fr *frame, a []value) value { return fr.p.numGor() },
		"runtime.GOMAXPROCS":      func(fr *frame, a []value) value { return int64(8) },
		"runtime.KeepAlive":       func(fr *frame, a []value) value { return nil },

		// ---- time (virtual)
		"time.Now":             func(fr *frame, a []value) value { return fr.p.timeAt(fr.p.now) },
		"time.Since":           func(fr *frame, a []value) value { return fr.p.now - timeOf(a[0]) },
		"(time.Time).Sub":      func(fr *frame, a []value) value { return timeOf(a[0]) - timeOf(a[1]) },
		"(time.Time).Add":      func(fr *frame, a []value) value { return fr.p.timeAt(timeOf(a[0]) + a[1].(int64)) },
		"(time.Time).Before":   func(fr *frame, a []value) value { return timeOf(a[0]) < timeOf(a[1]) },
		"(time.Time).After":    func(fr *frame, a []value) value { return timeOf(a[0]) > timeOf(a[1]) },
		"time.Until":           func(fr *frame, a []value) value { return timeOf(a[0]) - fr.p.now },
		"time.Sleep":           func(fr *frame, a []value) value { fr.p.sleep(fr.g, fr.p.concInt(a[0])); return nil },
		"time.After":           timeAfter,
		"time.AfterFunc":       timeAfterFunc,
		"time.NewTimer":        timeNewTimer,
		"(*time.Timer).Stop":   timerStop,
		"(*time.Timer).Reset":  timerReset,
		"time.NewTicker":       timeNewTicker,
		"(*time.Ticker).Stop":  timerStop,
		"(*time.Ticker).Reset": timerReset,
		"time.Tick":            func(fr *frame, a []value) value { return (*timeNewTicker(fr, a).(*value)).(structure)[0] },

		// ---- reflect
		"reflect.DeepEqual": func(fr *frame, a []value) value { return boolVal(fr.p.deepEq(a[0].(iface), a[1].(iface))) },

		"github.com/andygello555/gotils/strings.TypeName": func(fr *frame, a []value) value {
			x := a[0].(iface)
			if x.t == lazyT {
				v := x.v.(*lazyView)
				if v.forced == nil {
					return fr.p.opaqueStr("type name", x)
				}
				x = *v.forced
			}
			if x.t == nil {
				return "<nil>"
			}
			return strings.ReplaceAll(typeStr(x.t), "interface{}", "interface {}")
		},

		// ---- os
		"github.com/andygello555/gotils/files.IsFile": func(fr *frame, a []value) value {
			_, ok := fr.p.file(a[0])
			return ok
		},
		"io/ioutil.ReadFile":            readFile,
		"os.ReadFile":                   readFile,
		"(*flag.FlagSet).PrintDefaults": func(fr *frame, a []value) value { return nil }, // to the standard error
		"flag.PrintDefaults":            func(fr *frame, a []value) value { return nil },
		"os.Exit":                       func(fr *frame, a []value) value { panic(ctlExit{int(a[0].(int64))}) },

		"sort.Strings":     sortStrings,
		"sort.Ints":        nil,
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// ---- math
		"math.Float64bits": func(fr *frame, a []value) value {
			if f, ok := a[0].(float64); ok {
				return int64(math.Float64bits(f))
			}
			return a[0]
		},
		"math.Float64frombits": func(fr *frame, a []value) value {
			if i, ok := a[0].(int64); ok {
				return math.Float64frombits(uint64(i))
			}
			return a[0]
		},
		"math.IsNaN": nil,
		"math.Floor": roundFn(0, math.Floor),
		"math.Ceil":  roundFn(1, math.Ceil),
		"math.Trunc": roundFn(2, math.Trunc),
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	addRegexIntrinsics()
	addJSONIntrinsics()
	addReflectIntrinsics()
}

func roundFn(mode uint64, f func(float64) float64) func(fr *frame, a []value) value {
	return func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		return boolOrFloat(fr.p.tb.farith(OFround, mode, a[0].(*Term)))
	}
}

func (p *path) truth(v value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return p.branch(v.(*Term))
}

// ---- sym ---------------------------------------------------------------------------

func symInt(fr *frame, a []value) value {
	p := fr.p
	lo, hi := a[1].(int64), a[2].(int64)
	t := p.freshVar(64, uint64(lo))
	p.addInput(&input{Name: showStr(a[0]), Kind: "int", Term: t})
	p.assume(p.tb.And(p.tb.cmp(OSle, p.tb.bv(uint64(lo), 64), t), p.tb.cmp(OSle, t, p.tb.bv(uint64(hi), 64))))
	return t
}
func symByte(fr *frame, a []value) value {
	p := fr.p
	t := p.freshVar(8, 'a')
	p.addInput(&input{Name: showStr(a[0]), Kind: "byte", Term: t})
	return t
}
func symFloat(fr *frame, a []value) value {
	p := fr.p
	t := p.freshVar(64, 0)
	p.addInput(&input{Name: showStr(a[0]), Kind: "float", Term: t})
	p.assume(p.tb.Not(p.tb.Eq(p.tb.bin(OBand, t, p.tb.bv(0x7ff0000000000000, 64)), p.tb.bv(0x7ff0000000000000, 64))))
	return t
}
func symBool(fr *frame, a []value) value {
	p := fr.p
	t := p.freshVar(0, 0)
	p.addInput(&input{Name: showStr(a[0]), Kind: "bool", Term: t})
	return t
}
func symChoose(fr *frame, a []value) value {
	p := fr.p
	n := p.choose(showStr(a[0]), int(a[1].(int64)))
	p.addInput(&input{Name: showStr(a[0]), Kind: "choose", N: int64(n)})
	return int64(n)
}

// Str(name, n, alphabet): n bytes, each drawn from alphabet ("" = any byte).
func symStr(fr *frame, a []value) value {
	p := fr.p
	n := int(a[1].(int64))
	alpha := a[2].(string)
	b := make([]value, n)
	for i := range b {
		def := uint64('a')
		if alpha != "" {
			def = uint64(alpha[0])
		}
		t := p.freshVar(8, def)
		if alpha != "" {
			c := p.tb.F_
			seen := [256]bool{}
			for j := 0; j < len(alpha); j++ {
				seen[alpha[j]] = true
			}
			for j := 0; j < 256; {
				if !seen[j] {
					j++
					continue
				}
				k := j
				for k < 255 && seen[k+1] {
					k++
				}
				if j == k {
					c = p.tb.Or(c, p.tb.Eq(t, p.tb.bv(uint64(j), 8)))
				} else {
					c = p.tb.Or(c, p.tb.And(p.tb.cmp(OUle, p.tb.bv(uint64(j), 8), t), p.tb.cmp(OUle, t, p.tb.bv(uint64(k), 8))))
				}
				j = k + 1
			}
			p.assume(c)
		}
		b[i] = t
	}
	s := mkStr(b)
	p.addInput(&input{Name: showStr(a[0]), Kind: "str", Str: s})
	return s
}

// JSON(name, spec): field order of sym.Spec.
func symJSON(fr *frame, a []value) value {
	p := fr.p
	s := a[1].(structure)
	i := func(k int) int { return int(s[k].(int64)) }
	sp := &jsonSpec{depth: i(0), width: i(1), minWidth: i(2), leaves: i(6), strLen: i(7), keyLen: i(5), capExtra: s[8].(bool), mapOnly: s[9].(bool)}
	sp.keyLo, sp.keyHi = byte(i(3)), byte(i(4))
	sp.extra = s[10].([]value)
	sp.extraLen = len(sp.extra)
	for _, k := range s[12].([]value) {
		sp.keys = append(sp.keys, k.(string))
	}
	n := p.newNode(sp, sp.depth, i(11))
	p.addInput(&input{Name: showStr(a[0]), Kind: "json", Lazy: n})
	return n.view()
}

func symAssertKnown(fr *frame, a []value) value {
	// AssertKnown(kf, class, cond, msg): failing inside class is the listed finding kf
	p := fr.p
	class, cond := p.boolTerm(a[1]), p.boolTerm(a[2])
	kf := showStr(a[0])
	if !p.w.ex.knownListed(kf) {
		p.assertCond(cond, showStr(a[3]), "")
		return nil
	}
	p.assertCond(p.tb.Or(class, cond), showStr(a[3]), "")
	// report the finding when it is reachable, then leave it behind
	bad := p.tb.And(class, p.tb.Not(cond))
	if bad.isFalse() {
		return nil
	}
	if p.branch(bad) {
		p.knownHit = true
		p.h.violation(p, p.model, showStr(a[3]), kf)
		panic(ctlAbort{"known"})
	}
	return nil
}

func symObserve(fr *frame, a []value) value {
	p := fr.p
	s := ""
	for _, x := range a[0].([]value) {
		s += showStr(p.fmtValue(fr, 'v', x.(iface), false)) + " "
	}
	p.obs = append(p.obs, s)
	return nil
}

func symSpin(fr *frame, a []value) value {
	p := fr.p
	p.spin = a[0].(int64)
	if p.spin > 0 && p.maxSteps > p.steps+spinSteps {
		p.maxSteps = p.steps + spinSteps
	}
	return nil
}

func symSchedules(fr *frame, a []value) value {
	fr.p.schedAll = true
	fr.p.preempts = int(a[0].(int64))
	fr.p.earlyTmr = a[1].(bool)
	return nil
}

func symRaceFound(fr *frame, a []value) value {
	if fr.p.race == nil {
		return ""
	}
	return strings.Join(sortedKeys(fr.p.race.found), "; ")
}

func symSameMap(fr *frame, a []value) value {
	return a[0].(*smap) == a[1].(*smap)
}

// symSameMultiset compares two lists up to order.
func symSameMultiset(fr *frame, a []value) value {
	p := fr.p
	x, y := append([]value(nil), a[0].([]value)...), append([]value(nil), a[1].([]value)...)
	if len(x) != len(y) {
		return false
	}
	// drop the pairs that are equal whatever the inputs are
	var xs []iface
	for _, e := range x {
		hit := false
		for i, f := range y {
			if p.sameShape(e.(iface), f.(iface)) && p.deepEq(e.(iface), f.(iface)).isTrue() {
				y = append(y[:i], y[i+1:]...)
				hit = true
				break
			}
		}
		if !hit {
			xs = append(xs, e.(iface))
		}
	}
	if len(xs) == 0 {
		return true
	}
	if len(xs) > 5 {
		unsupported("multiset comparison of %d elements", len(xs))
	}
	var rec func(i int, used int) *Term
	rec = func(i int, used int) *Term {
		if i == len(xs) {
			return p.tb.T_
		}
		r := p.tb.F_
		for j := range y {
			if used&(1<<uint(j)) == 0 {
				e := p.deepEq(xs[i], y[j].(iface))
				if !e.isFalse() {
					r = p.tb.Or(r, p.tb.And(e, rec(i+1, used|1<<uint(j))))
				}
			}
		}
		return r
	}
	return boolVal(rec(0, 0))
}

// sameShape is a cheap test that avoids deciding undecided values.
func (p *path) sameShape(a, b iface) bool {
	if a.t == lazyT && b.t == lazyT {
		return a.v.(*lazyView).node == b.v.(*lazyView).node
	}
	if a.t == lazyT || b.t == lazyT {
		return false
	}
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	return identical(a.t, b.t)
}

// ---- errors, writers ---------------------------------------------------------------

func (p *path) newError(fr *frame, s value) value {
	fn := p.w.ex.pkgs["errors"].Func("New")
	return p.callSSA(fr, fr.g, fn, []value{s}, nil)
}

func (p *path) writeTo(fr *frame, w iface, s value) value {
	if w.t == nil {
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	fn := p.w.method(w.t, nil, "Write")
	if fn == nil {
		unsupported("Write on %s", w.t)
	}
	if typeStr(w.t) == "*os.File" {
		if f, ok := w.v.(*value); ok && f != nil && f == p.stderr {
			return tuple{int64(len(strBytes(s))), iface{}}
		}
		return p.stdoutWrite(fr, s)
	}
	return p.call(fr, fr.g, fn, []value{w.v, strBytes(s)})
}

// stdoutWrite collects what is written to the standard output.
func (p *path) stdoutWrite(fr *frame, s value) value {
	out, _ := p.side["stdout"].(value)
	if out == nil {
		out = ""
	}
	p.side["stdout"] = concat(out, s)
	return tuple{int64(len(strBytes(s))), iface{}}
}

func sbBuf(fr *frame, b value) []value {
	ptr := b.(*value)
	if ptr == nil {
		fr.p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	s, ok := (*ptr).(structure)
	if !ok {
		unsupported("strings.Builder layout")
	}
	buf, _ := s[1].([]value)
	return buf
}

func sbSet(fr *frame, b value, buf []value) { (*(b.(*value))).(structure)[1] = buf }

func sbWrite(fr *frame, b value, add []value) value {
	buf := sbBuf(fr, b)
	if fr.p.race != nil {
		fr.p.race.access(fr, b, true)
	}
	n := make([]value, 0, len(buf)+len(add))
	n = append(append(n, buf...), add...)
	sbSet(fr, b, n)
	return tuple{int64(len(add)), iface{}}
}

// ---- strings -------------------------------------------------------------------------

// strFind returns the first index >= from where sep occurs, forking on content.
func (p *path) strFind(s, sep value, from int) int {
	if a, ok := s.(string); ok {
		if b, ok := sep.(string); ok {
			if from > len(a) {
				return -1
			}
			i := strings.Index(a[from:], b)
			if i < 0 {
				return -1
			}
			return i + from
		}
	}
	sb, pb := strBytes(s), strBytes(sep)
	for i := from; i+len(pb) <= len(sb); i++ {
		c := p.tb.T_
		for j := range pb {
			if _, o := sb[i+j].(*opaque); o {
				// opaque chunks never contain or straddle the separator
				c = p.tb.F_
				break
			}
			c = p.tb.And(c, p.tb.Eq(p.byteTerm(sb[i+j]), p.byteTerm(pb[j])))
		}
		if p.branch(c) {
			return i
		}
	}
	return -1
}

func (p *path) strSplit(s, sep value, n int) value {
	if n == 0 {
		return []value(nil)
	}
	var out []value
	if strLen(sep) == 0 {
		b := strBytes(s)
		for i, x := range b {
			if t, ok := x.(*Term); ok {
				if !p.branch(p.tb.cmp(OUlt, t, p.tb.bv(0x80, 8))) {
					unsupported("strings.Split with empty separator on symbolic text")
				}
			} else if c, ok := x.(int64); !ok || c >= 0x80 {
				unsupported("strings.Split with empty separator on symbolic text")
			}
			if n > 0 && len(out) == n-1 {
				return append(out, mkStr(b[i:]))
			}
			out = append(out, mkStr([]value{x}))
		}
		return out
	}
	b := strBytes(s)
	l := strLen(sep)
	start, from := 0, 0
	for n < 0 || len(out) < n-1 {
		i := p.strFind(s, sep, from)
		if i < 0 {
			break
		}
		out = append(out, mkStr(b[start:i]))
		start = i + l
		from = start
	}
	return append(out, mkStr(b[start:]))
}

func strContains(fr *frame, a []value) value {
	p := fr.p
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			return strings.Contains(x, y)
		}
	}
	sb, pb := strBytes(a[0]), strBytes(a[1])
	r := p.tb.boolc(len(pb) == 0)
	for i := 0; i+len(pb) <= len(sb); i++ {
		c := p.tb.T_
		for j := range pb {
			if _, o := sb[i+j].(*opaque); o {
				c = p.tb.F_
				break
			}
			c = p.tb.And(c, p.tb.Eq(p.byteTerm(sb[i+j]), p.byteTerm(pb[j])))
		}
		r = p.tb.Or(r, c)
	}
	return boolVal(r)
}

func strHasPrefix(fr *frame, a []value) value {
	p := fr.p
	sb, pb := strBytes(a[0]), strBytes(a[1])
	c := p.tb.T_
	for j := range pb {
		if j >= len(sb) {
			return false
		}
		if _, o := sb[j].(*opaque); o {
			unsupported("prefix of opaque text")
		}
		c = p.tb.And(c, p.tb.Eq(p.byteTerm(sb[j]), p.byteTerm(pb[j])))
		if c.isFalse() {
			return false
		}
	}
	return boolVal(c)
}

func strHasSuffix(fr *frame, a []value) value {
	p := fr.p
	sb, pb := strBytes(a[0]), strBytes(a[1])
	if len(pb) > len(sb) {
		return false
	}
	return boolVal(p.strEq(mkStr(sb[len(sb)-len(pb):]), mkStr(pb)))
}

func strReplace(fr *frame, a []value) value {
	p := fr.p
	n := int(a[3].(int64))
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			if z, ok := a[2].(string); ok {
				return strings.Replace(x, y, z, n)
			}
		}
	}
	if strLen(a[1]) == 0 {
		unsupported("strings.Replace of empty text")
	}
	b := strBytes(a[0])
	l := strLen(a[1])
	var out value = ""
	start := 0
	for k := 0; n < 0 || k < n; k++ {
		i := p.strFind(a[0], a[1], start)
		if i < 0 {
			break
		}
		out = concat(concat(out, mkStr(b[start:i])), a[2])
		start = i + l
	}
	return concat(out, mkStr(b[start:]))
}

func strTrimSpace(fr *frame, a []value) value {
	if s, ok := a[0].(string); ok {
		return strings.TrimSpace(s)
	}
	src := strBytes(a[0])
	if hasOpaque(src) {
		unsupported("TrimSpace of opaque text")
	}
	// known non-space text at both ends needs no decision
	return &sstr{lz: &lazyTrim{fr.p, src}}
}

// bytesTrimSpace is bytes.TrimSpace, with one decision per position.
func bytesTrimSpace(fr *frame, a []value) value {
	b, _ := a[0].([]value)
	if hasOpaque(b) {
		unsupported("TrimSpace of opaque text")
	}
	x, n := &sstr{lz: &lazyTrim{fr.p, b}}, len(b)
	if n == 0 || fr.p.branch(x.lz.allSpace()) {
		return []value(nil)
	}
	i, j := x.lz.ends()
	return b[i:j]
}

// fieldsOf is strings.Fields and bytes.Fields, with one decision per position.
func fieldsOf(fr *frame, b []value, mk func([]value) value) value {
	if hasOpaque(b) {
		unsupported("Fields of opaque text")
	}
	out, from := []value{}, -1
	for i := 0; i < len(b); {
		n := fr.p.spaceAt(b[i:], func(int) int { return 0 })
		if n == 0 && from < 0 {
			from = i
		}
		if n > 0 && from >= 0 {
			out, from = append(out, mk(b[from:i:i])), -1
		}
		if n == 0 {
			n = 1
		}
		i += n
	}
	if from >= 0 {
		out = append(out, mk(b[from:len(b):len(b)]))
	}
	return out
}

func strJoin(fr *frame, a []value) value {
	var r value = ""
	for i, x := range a[0].([]value) {
		if i > 0 {
			r = concat(r, a[1])
		}
		r = concat(r, x)
	}
	return r
}

func strCompare(fr *frame, a []value) value {
	p := fr.p
	if p.branch(p.strEq(a[0], a[1])) {
		return int64(0)
	}
	if p.branch(p.strLt(a[0], a[1])) {
		return int64(-1)
	}
	return int64(1)
}

func sortStrings(fr *frame, a []value) value {
	// insertion sort with symbolic comparisons: the result is the unique sorted
	// order of the values, whichever algorithm the library uses
	s := a[0].([]value)
	p := fr.p
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && p.branch(p.strLt(s[j], s[j-1])); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return nil
}

func sortSlice(fr *frame, a []value) value {
	p := fr.p
	x := a[0].(iface)
	s, ok := x.v.([]value)
	if !ok {
		unsupported("sort.Slice on %s", x.t)
	}
	less := a[1]
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := p.call(fr, fr.g, less, []value{int64(j), int64(j - 1)})
			if !p.truth(r) {
				break
			}
			u, v := copyVal(s[j]), copyVal(s[j-1])
			store(&s[j], v)
			store(&s[j-1], u)
		}
	}
	return nil
}

// ---- sync -----------------------------------------------------------------------------

type wgState struct {
	n  int64
	vc vclock
}
type muState struct {
	locked  bool
	readers int
	vc      vclock
}

func (p *path) wg(k value) *wgState {
	ptr := k.(*value)
	if ptr == nil {
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	s, ok := p.side[ptr].(*wgState)
	if !ok {
		s = &wgState{vc: vclock{}}
		p.side[ptr] = s
	}
	return s
}
func (p *path) mu(k value) *muState {
	ptr := k.(*value)
	if ptr == nil {
		p.rtPanicPlain("invalid memory address or nil pointer dereference")
	}
	s, ok := p.side[ptr].(*muState)
	if !ok {
		s = &muState{vc: vclock{}}
		p.side[ptr] = s
	}
	return s
}

func wgAdd(fr *frame, a []value) value {
	p := fr.p
	s := p.wg(a[0])
	s.n += p.concInt(a[1])
	if s.n < 0 {
		p.rtPanicPlain("sync: negative WaitGroup counter")
	}
	if p.race != nil {
		for k, v := range p.race.release(fr.g) {
			if s.vc[k] < v {
				s.vc[k] = v
			}
		}
	}
	p.yield(fr.g, "wg")
	return nil
}

func wgWait(fr *frame, a []value) value {
	p := fr.p
	s := p.wg(a[0])
	p.yield(fr.g, "wait")
	if s.n != 0 {
		p.block(fr.g, func() bool { return s.n == 0 }, "wait")
	}
	if p.race != nil {
		p.race.acquire(fr.g, s.vc)
	}
	return nil
}

func wgGo(fr *frame, a []value) value {
	p := fr.p
	s := p.wg(a[0])
	s.n++
	fn := a[1]
	p.spawn(fr, &hostFn{"wg.Go", func(fr2 *frame, _ []value) value {
		p.call(fr2, fr2.g, fn, nil)
		return wgAdd(fr2, []value{a[0], int64(-1)})
	}}, nil)
	return nil
}

func muLock(fr *frame, a []value) value {
	p := fr.p
	s := p.mu(a[0])
	p.yield(fr.g, "lock")
	for s.locked || s.readers > 0 {
		p.block(fr.g, func() bool { return !s.locked && s.readers == 0 }, "lock")
	}
	s.locked = true
	if p.race != nil {
		p.race.acquire(fr.g, s.vc)
	}
	return nil
}
func muTryLock(fr *frame, a []value) value {
	s := fr.p.mu(a[0])
	if s.locked || s.readers > 0 {
		return false
	}
	muLock(fr, a)
	return true
}
func muUnlock(fr *frame, a []value) value {
	p := fr.p
	s := p.mu(a[0])
	if !s.locked {
		p.rtPanicPlain("sync: unlock of unlocked mutex")
	}
	s.locked = false
	if p.race != nil {
		s.vc = p.race.release(fr.g)
	}
	p.yield(fr.g, "unlock")
	return nil
}
func rwRLock(fr *frame, a []value) value {
	p := fr.p
	s := p.mu(a[0])
	p.yield(fr.g, "rlock")
	for s.locked {
		p.block(fr.g, func() bool { return !s.locked }, "rlock")
	}
	s.readers++
	if p.race != nil {
		p.race.acquire(fr.g, s.vc)
	}
	return nil
}
func rwRUnlock(fr *frame, a []value) value {
	p := fr.p
	s := p.mu(a[0])
	s.readers--
	if p.race != nil {
		for k, v := range p.race.release(fr.g) {
			if s.vc[k] < v {
				s.vc[k] = v
			}
		}
	}
	p.yield(fr.g, "runlock")
	return nil
}

func onceDo(fr *frame, a []value) value {
	p := fr.p
	s := p.mu(a[0])
	if s.readers == 0 && !s.locked {
		s.locked = true
		defer func() { // also when the function panics
			s.locked = false
			s.readers = 1
			if p.race != nil {
				s.vc = p.race.release(fr.g)
			}
		}()
		p.call(fr, fr.g, a[1], nil)
		return nil
	}
	if s.locked {
		p.block(fr.g, func() bool { return !s.locked }, "once")
	}
	if p.race != nil {
		p.race.acquire(fr.g, s.vc)
	}
	return nil
}

func (p *path) numGor() int64 {
	n := int64(0)
	for _, g := range p.gors {
		if !g.done {
			n++
		}
	}
	return n
}

// ---- time --------------------------------------------------------------------------------

// virtual instants are time.Time structures whose ext field is nanoseconds
func (p *path) timeAt(ns int64) value { return structure{int64(0), ns + 1000000000, (*value)(nil)} }
func timeOf(v value) int64            { return v.(structure)[1].(int64) - 1000000000 }

func timeAfter(fr *frame, a []value) value {
	p := fr.p
	ch := p.newChan(1)
	d := p.concInt(a[0])
	p.spawnHost(fr, "time.After", func(fr2 *frame) {
		p.sleep(fr2.g, d)
		p.selectOp(fr2, []selCase{{send: true, ch: ch, val: p.timeAt(p.now)}}, true)
	})
	return ch
}

func (p *path) spawnHost(fr *frame, name string, f func(fr *frame)) {
	p.spawn(fr, &hostFn{name, func(fr2 *frame, _ []value) value { f(fr2); return nil }}, nil)
}

type timerState struct {
	stopped, fired bool
	start          func(fr *frame, d int64, ts *timerState) // set again by Reset
}

func (p *path) newTimer(fr *frame, d int64, st structure, start func(fr *frame, d int64, ts *timerState)) value {
	cell := new(value)
	*cell = st
	ts := &timerState{start: start}
	p.side[cell] = ts
	start(fr, d, ts)
	return cell
}

func timerReset(fr *frame, a []value) value {
	p := fr.p
	cell := a[0].(*value)
	ts, _ := p.side[cell].(*timerState)
	if ts == nil {
		unsupported("Reset on unknown timer")
	}
	active := !ts.stopped && !ts.fired
	ts.stopped = true
	if ch, ok := (*cell).(structure)[0].(*schan); ok && ch != nil {
		ch.buf, ch.bufvc = nil, nil // since go1.23 no stale value stays behind
	}
	n := &timerState{start: ts.start}
	p.side[cell] = n
	n.start(fr, p.concInt(a[1]), n)
	return active
}

func timeNewTimer(fr *frame, a []value) value {
	p := fr.p
	tt := p.w.ex.pkgs["time"].Pkg.Scope().Lookup("Timer").Type()
	st := zero(tt).(structure)
	ch := p.newChan(1)
	st[0] = ch
	return p.newTimer(fr, p.concInt(a[0]), st, func(fr *frame, d int64, ts *timerState) {
		p.spawnHost(fr, "timer", func(fr2 *frame) {
			p.timerSleep(fr2, d, ts)
			if !ts.stopped {
				ts.fired = true
				p.selectOp(fr2, []selCase{{send: true, ch: ch, val: p.timeAt(p.now)}}, true)
			}
		})
	})
}

// maxTicks bounds what an unstopped ticker does on one path.
const maxTicks = 200

func timeNewTicker(fr *frame, a []value) value {
	p := fr.p
	tt := p.w.ex.pkgs["time"].Pkg.Scope().Lookup("Ticker").Type()
	st := zero(tt).(structure)
	ch := p.newChan(1)
	st[0] = ch
	return p.newTimer(fr, p.concInt(a[0]), st, func(fr *frame, d int64, ts *timerState) {
		if d <= 0 {
			p.rtPanicPlain("non-positive interval for NewTicker")
		}
		p.spawnHost(fr, "ticker", func(fr2 *frame) {
			for i := 0; i < maxTicks; i++ {
				p.timerSleep(fr2, d, ts)
				if ts.stopped {
					return
				}
				p.selectOp(fr2, []selCase{{send: true, ch: ch, val: p.timeAt(p.now)}}, true)
			}
		})
	})
}

func (p *path) timerSleep(fr *frame, d int64, ts *timerState) {
	if d <= 0 {
		return
	}
	t := p.now + d
	fr.g.timer = t
	p.block(fr.g, func() bool { return p.now >= t || ts.stopped }, "timer")
}

func timeAfterFunc(fr *frame, a []value) value {
	p := fr.p
	tt := p.w.ex.pkgs["time"].Pkg.Scope().Lookup("Timer").Type()
	return p.newTimer(fr, p.concInt(a[0]), zero(tt).(structure), func(fr *frame, d int64, ts *timerState) {
		p.spawnHost(fr, "afterfunc", func(fr2 *frame) {
			p.timerSleep(fr2, d, ts)
			if !ts.stopped {
				ts.fired = true
				p.call(fr2, fr2.g, a[1], nil)
			}
		})
	})
}

func timerStop(fr *frame, a []value) value {
	ts, _ := fr.p.side[a[0].(*value)].(*timerState)
	if ts == nil {
		unsupported("Stop on unknown timer")
	}
	r := !ts.stopped && !ts.fired
	ts.stopped = true
	return r
}

// ---- reflect --------------------------------------------------------------------------------

// ---- fmt --------------------------------------------------------------------------------------

func (p *path) opaqueStr(what string, v value) value {
	return &sstr{b: []value{&opaque{what: what, v: v, id: p.id()}}}
}

func (p *path) fmtInt(v value) value {
	if i, ok := v.(int64); ok {
		return strconv.FormatInt(i, 10)
	}
	return p.opaqueStr("int", v)
}

func (p *path) sprint(fr *frame, args []value, ln bool) value {
	var r value = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isS := x.t != nil && x.t != lazyT && isString(x.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = concat(r, " ")
		}
		r = concat(r, p.fmtValue(fr, 'v', x, false))
		prevStr = isS
	}
	if ln {
		r = concat(r, "\n")
	}
	return r
}

func (p *path) sprintf(fr *frame, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		return p.sprintfSym(fr, strBytes(format), args)
	}
	var r value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = concat(r, f[i:])
			break
		}
		r = concat(r, f[i:i+j])
		i += j + 1
		start := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = concat(r, "%!(NOVERB)")
			break
		}
		flags, verb := f[start:i], f[i]
		i++
		if verb == '%' {
			r = concat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = concat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		x := args[ai].(iface)
		ai++
		if verb == 'T' {
			x = p.forceIface(x)
			if x.t == nil {
				r = concat(r, "<nil>")
			} else {
				r = concat(r, typeStr(x.t))
			}
			continue
		}
		if flags != "" {
			if n, ok := native(x); ok {
				r = concat(r, fmt.Sprintf("%"+flags+string(verb), n))
				continue
			}
		}
		r = concat(r, p.fmtValue(fr, rune(verb), x, strings.Contains(flags, "+")))
	}
	if ai < len(args) {
		r = concat(r, "%!(EXTRA)")
	}
	return r
}

// hasPercent says whether the JSON text of x has a % in it.
func (p *path) hasPercent(x iface) bool {
	if x.t == lazyT {
		x = p.forceIface(x)
	}
	text := func(v value) bool {
		for _, b := range strBytes(v) {
			switch b := b.(type) {
			case int64:
				if b == '%' {
					return true
				}
			case *opaque:
				if y, ok := blobOf([]value{b}); ok && p.hasPercent(y) {
					return true
				}
			default:
				if p.branch(p.tb.Eq(p.byteTerm(b), p.tb.bv('%', 8))) {
					return true
				}
			}
		}
		return false
	}
	switch y := x.v.(type) {
	case *smap:
		if y != nil {
			p.forceMap(y)
			for _, e := range y.ents {
				if ei, ok := e.v.(iface); text(e.k) || ok && p.hasPercent(ei) {
					return true
				}
			}
		}
	case []value:
		for _, e := range y {
			if ei, ok := e.(iface); ok && p.hasPercent(ei) {
				return true
			}
		}
	case string, *sstr:
		return text(y)
	}
	return false
}

// sprintfSym is sprintf for a format with bytes that are not concrete. The text of a number has no %;
// JSON text that has one does not stay JSON text.
func (p *path) sprintfSym(fr *frame, b []value, args []value) value {
	var r value = ""
	for i := 0; i < len(b); {
		x := b[i]
		i++
		_, op := x.(*opaque)
		if y, ok := blobOf([]value{x}); ok && p.hasPercent(y) {
			r = concat(r, mkStr([]value{x}))
			r = concat(r, "%!(NOVERB)")
			continue
		}
		if n, ok := x.(int64); op || ok && n != '%' || !ok && !p.branch(p.tb.Eq(p.byteTerm(x), p.tb.bv('%', 8))) {
			r = concat(r, mkStr([]value{x}))
			continue
		}
		verb := "%"
		for {
			if i >= len(b) {
				break
			}
			c, ok := b[i].(int64)
			if !ok {
				if _, op := b[i].(*opaque); op {
					unsupported("opaque text in a format")
				}
				c = int64(p.concretize(p.byteTerm(b[i])))
			}
			if c >= 0x80 || c == '*' || c == '[' {
				unsupported("unusual verb in a format that is not concrete")
			}
			i++
			verb += string(rune(c))
			if strings.IndexByte("+-# 0123456789.", byte(c)) < 0 {
				break
			}
		}
		n := 0
		if c := verb[len(verb)-1]; len(verb) > 1 && c != '%' && len(args) > 0 && strings.IndexByte("+-# 0123456789.", c) < 0 {
			n = 1
		}
		r = concat(r, p.sprintf(fr, verb, args[:n]))
		args = args[n:]
	}
	if len(args) > 0 {
		r = concat(r, "%!(EXTRA)")
	}
	return r
}

// native converts a concrete basic value.
func native(x iface) (interface{}, bool) {
	if x.t == nil || x.t == lazyT {
		return nil, x.t == nil
	}
	b, ok := x.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch v := x.v.(type) {
	case bool, string, float64:
		if b.Kind() == types.Float32 {
			return float32(v.(float64)), true
		}
		return v, true
	case int64:
		switch b.Kind() {
		case types.Int:
			return int(v), true
		case types.Int64:
			return v, true
		case types.Int32:
			return int32(v), true
		case types.Uint8:
			return uint8(v), true
		case types.Uint64, types.Uint, types.Uintptr:
			return uint64(v), true
		case types.Uint32:
			return uint32(v), true
		case types.Uint16:
			return uint16(v), true
		case types.Int16:
			return int16(v), true
		case types.Int8:
			return int8(v), true
		}
	}
	return nil, false
}

// addrKey is the identity of what an address was asked of.
type addrKey struct{ v interface{} }

// address gives an address to what v refers to: the same each time, and another for everything else.
func (p *path) address(v value) (int64, bool) {
	var k interface{}
	switch v := v.(type) {
	case *smap:
		if v == nil {
			return 0, true
		}
		k = v
	case *value:
		if v == nil {
			return 0, true
		}
		k = v
	case *schan:
		if v == nil {
			return 0, true
		}
		k = v
	case *closure:
		if v == nil {
			return 0, true
		}
		k = v.fn
	case *ssa.Function:
		if v == nil {
			return 0, true
		}
		k = v
	case []value:
		if v == nil {
			return 0, true
		}
		if cap(v) == 0 {
			return 0xc0000001, true
		}
		k = &v[:1][0]
	default:
		return 0, false
	}
	if n, ok := p.side[addrKey{k}].(int64); ok {
		return n, true
	}
	n := 0xc000010000 + 64*int64(p.id())
	p.side[addrKey{k}] = n
	return n, true
}

func (p *path) fmtValue(fr *frame, verb rune, x iface, plus bool) value {
	if x.t == lazyT {
		v := x.v.(*lazyView)
		if v.forced == nil {
			return p.opaqueStr("json value", x)
		}
		x = *v.forced
	}
	if x.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'p' {
		if n, ok := p.address(x.v); ok {
			return fmt.Sprintf("0x%x", n)
		}
		return p.opaqueStr("address", x.v)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if fn := p.w.method(x.t, nil, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if ptr, ok := x.v.(*value); ok && ptr == nil {
					return "<nil>"
				}
				return p.call(fr, fr.g, fn, []value{x.v})
			}
		}
	}
	if n, ok := native(x); ok {
		return fmt.Sprintf("%"+string(verb), n)
	}
	switch u := x.t.Underlying().(type) {
	case *types.Basic:
		switch v := x.v.(type) {
		case *sstr:
			if verb == 'q' {
				return concat(concat("\"", v), "\"")
			}
			return v
		case *Term:
			if v.w == 0 {
				if p.branch(v) {
					return "true"
				}
				return "false"
			}
			if verb == 'c' {
				return p.runeStr(v, x.t)
			}
			return p.opaqueStr("number", v)
		}
	case *types.Slice:
		if isByteSlice(x.t) && verb == 's' {
			return mkStr(x.v.([]value))
		}
		var r value = "["
		for i, e := range x.v.([]value) {
			if i > 0 {
				r = concat(r, " ")
			}
			r = concat(r, p.fmtElem(fr, verb, u.Elem(), e))
		}
		return concat(r, "]")
	case *types.Array:
		var r value = "["
		for i, e := range x.v.(array) {
			if i > 0 {
				r = concat(r, " ")
			}
			r = concat(r, p.fmtElem(fr, verb, u.Elem(), e))
		}
		return concat(r, "]")
	case *types.Map:
		m := x.v.(*smap)
		if m != nil && m.view != nil {
			return p.opaqueStr("json map", m)
		}
		var r value = "map["
		if m != nil {
			for i, e := range m.sortedEnts() {
				if i > 0 {
					r = concat(r, " ")
				}
				r = concat(r, p.fmtElem(fr, verb, u.Key(), e.k))
				r = concat(r, ":")
				r = concat(r, p.fmtElem(fr, verb, u.Elem(), e.v))
			}
		}
		return concat(r, "]")
	case *types.Struct:
		var r value = "{"
		for i, e := range x.v.(structure) {
			if i > 0 {
				r = concat(r, " ")
			}
			if plus {
				r = concat(r, u.Field(i).Name()+":")
			}
			r = concat(r, p.fmtElem(fr, verb, u.Field(i).Type(), e))
		}
		return concat(r, "}")
	case *types.Pointer:
		ptr := x.v.(*value)
		if ptr == nil {
			return "<nil>"
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return concat("&", p.fmtValue(fr, verb, iface{u.Elem(), *ptr}, plus))
		}
	case *types.Signature:
		if isNilFn(x.v) {
			return "<nil>"
		}
	}
	return p.opaqueStr("address", x.v)
}

func (p *path) fmtElem(fr *frame, verb rune, t types.Type, e value) value {
	if i, ok := e.(iface); ok {
		return p.fmtValue(fr, verb, i, false)
	}
	return p.fmtValue(fr, verb, iface{t, e}, false)
}

var _ = ssa.NewProgram

// softIntrinsics shortcut a library function on some arguments; on the others
// its source is executed.
var softIntrinsics = map[string]func(fr *frame, a []value) (value, bool){
	"strings.ToLower": func(fr *frame, a []value) (value, bool) { return fr.p.foldASCII(a[0], 'A', 32) },
	"strings.ToUpper": func(fr *frame, a []value) (value, bool) { return fr.p.foldASCII(a[0], 'a', -32) },
	"strings.EqualFold": func(fr *frame, a []value) (value, bool) {
		x, ok := fr.p.foldASCII(a[0], 'A', 32)
		if !ok {
			return nil, false
		}
		y, ok := fr.p.foldASCII(a[1], 'A', 32)
		if !ok {
			return nil, false
		}
		return boolVal(fr.p.strEq(x, y)), true
	},
}

// foldASCII shifts the 26 letters from lo by d when every byte is ASCII.
func (p *path) foldASCII(s value, lo uint64, d int64) (value, bool) {
	src := strBytes(s)
	if hasOpaque(src) {
		return nil, false
	}
	ascii := p.tb.T_
	out := make([]value, len(src))
	for i, x := range src {
		t := p.byteTerm(x)
		ascii = p.tb.And(ascii, p.tb.cmp(OUlt, t, p.tb.bv(0x80, 8)))
		up := p.tb.And(p.tb.cmp(OUle, p.tb.bv(lo, 8), t), p.tb.cmp(OUle, t, p.tb.bv(lo+25, 8)))
		r := p.tb.Ite(up, p.tb.bin(OAdd, t, p.tb.bv(uint64(d), 8)), t)
		if r.op == OConst {
			out[i] = int64(r.val)
		} else {
			out[i] = r
		}
	}
	if !p.branch(ascii) {
		return nil, false
	}
	return mkStr(out), true
}

// symRunMain runs the command line: its arguments and files are given, what it
// writes to the standard output is collected, and exiting ends it.
func symRunMain(fr *frame, a []value) value {
	p := fr.p
	m := a[1].(*smap)
	files := map[string]value{}
	if m != nil {
		for _, e := range m.ents {
			if !e.dead {
				files[e.k.(string)] = e.v
			}
		}
	}
	p.side["files"] = files
	osp := p.w.ex.pkgs["os"]
	cell := func(name string, v value) *value {
		c := new(value)
		*c = v
		p.globals[osp.Var(name)] = c
		return c
	}
	cell("Args", append([]value{"json-dom"}, a[2].([]value)...))
	f := func() *value { v := new(value); *v = structure{}; return v }
	cell("Stdout", f())
	p.stderr = f()
	cell("Stderr", p.stderr)
	delete(p.side, "stdout")
	code := int64(0)
	depth := fr.g.depth
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case ctlExit:
				code = int64(x.code)
			case targetPanic:
				code = 2
			default:
				panic(x)
			}
		}()
		p.call(fr, fr.g, a[0], nil)
	}()
	fr.g.depth = depth
	out, _ := p.side["stdout"].(value)
	if out == nil {
		out = ""
	}
	delete(p.side, "stdout")
	return tuple{out, code}
}

func (p *path) file(name value) (value, bool) {
	files, _ := p.side["files"].(map[string]value)
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	if n, ok := name.(string); ok && n != "" && !strings.HasSuffix(n, "/") {
		name = path_.Clean(n)
	}
	for _, n := range names {
		if p.branch(p.strEq(name, n)) {
			return files[n], true
		}
	}
	return nil, false
}

func readFile(fr *frame, a []value) value {
	text, ok := fr.p.file(a[0])
	if !ok {
		return tuple{[]value(nil), fr.p.newError(fr, concat("open ", concat(a[0], ": no such file or directory")))}
	}
	b := strBytes(text)
	return tuple{append([]value(nil), b...), iface{}}
}
