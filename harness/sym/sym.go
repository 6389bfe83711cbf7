// Package sym is the harness interface of the symbolic checker. Under the
// checker every function here is an engine intrinsic; natively the functions
// replay one concrete tape of inputs.
package sym

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// RuntimeError stands for the run-time errors the checked code can raise.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}

// Spec bounds a symbolic JSON document (field order is known to the engine).
type Spec struct {
	Depth    int
	Width    int
	MinWidth int
	KeyLo    int
	KeyHi    int
	KeyLen   int
	Leaves   int
	StrLen   int
	CapExtra bool
	MapOnly  bool
	Extra    []interface{}
	Root     int
	Keys     []string
}

const (
	LNil  = 1
	LNum  = 2
	LBool = 4
	LStr  = 8

	RootAny = 0
	RootMap = 1
	RootArr = 2
)

// Input is one tape entry.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	I    string `json:"i"`
	B    bool   `json:"b"`
	S    []int  `json:"s"`
	Doc  *Node  `json:"doc"`
}

// Node is a concrete JSON document.
type Node struct {
	K   string  `json:"k"`
	N   string  `json:"n"`
	B   bool    `json:"b"`
	S   []int   `json:"s"`
	E   []Entry `json:"e"`
	A   []*Node `json:"a"`
	Cap int     `json:"cap"`
	X   int     `json:"x"`
}

// Entry is a key and a value.
type Entry struct {
	Key []int `json:"key"`
	Val *Node `json:"val"`
}

// Stop ends a replay run.
type Stop struct {
	Kind string // assume, violation, known, reach
	Msg  string
}

var (
	tape     []Input
	pos      int
	Observed []string
	Reached  map[string]bool
	baseG    int
	tier     int
	// Short says that the run went on after the end of the tape.
	Short bool
)

// Load starts a replay.
func Load(t []Input, tr int) {
	tape, pos, Observed, Reached, tier = t, 0, nil, map[string]bool{}, tr
	baseG, Short = runtime.NumGoroutine(), false
}

func next(kind string) *Input {
	if pos >= len(tape) {
		// inputs created after the point the tape covers take a default
		Short = true
		return &Input{Kind: kind, I: "0"}
	}
	in := &tape[pos]
	pos++
	if in.Kind != kind {
		panic(Stop{"tape", fmt.Sprintf("wanted %s, tape has %s (%s)", kind, in.Kind, in.Name)})
	}
	return in
}

func Symbolic() bool { return false }

func Int(name string, lo, hi int) int {
	n, _ := strconv.ParseInt(next("int").I, 10, 64)
	if int(n) < lo {
		return lo
	}
	return int(n)
}
func Byte(name string) byte {
	n, _ := strconv.ParseInt(next("byte").I, 10, 64)
	return byte(n)
}
func Bool(name string) bool { return next("bool").B }
func Float(name string) float64 {
	n, _ := strconv.ParseUint(next("float").I, 10, 64)
	return math.Float64frombits(n)
}
func Choose(name string, n int) int {
	if n <= 1 {
		next("choose")
		return 0
	}
	v, _ := strconv.ParseInt(next("choose").I, 10, 64)
	return int(v)
}

func bytesStr(s []int) string {
	b := make([]byte, len(s))
	for i, x := range s {
		b[i] = byte(x)
	}
	return string(b)
}

func Str(name string, n int, alphabet string) string {
	in := next("str")
	if in.S == nil && n > 0 {
		c := byte('a')
		if alphabet != "" {
			c = alphabet[0]
		}
		return strings.Repeat(string(rune(c)), n)
	}
	return bytesStr(in.S)
}

func JSON(name string, spec Spec) interface{} {
	in := next("json")
	if in.Doc == nil {
		return nil
	}
	return in.Doc.Value(spec.Extra)
}

// Value builds the document.
func (n *Node) Value(extra []interface{}) interface{} {
	switch n.K {
	case "num":
		b, _ := strconv.ParseUint(n.N, 10, 64)
		return math.Float64frombits(b)
	case "bool":
		return n.B
	case "str":
		return bytesStr(n.S)
	case "extra":
		return extra[n.X]
	case "map":
		m := map[string]interface{}{}
		for _, e := range n.E {
			m[bytesStr(e.Key)] = e.Val.Value(extra)
		}
		return m
	case "arr":
		a := make([]interface{}, len(n.A), len(n.A)+n.Cap)
		for i, e := range n.A {
			a[i] = e.Value(extra)
		}
		return a
	}
	return nil
}

func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"violation", msg})
	}
}

// AssertKnown is Assert, except that a failure inside class is the listed finding kf.
func AssertKnown(kf string, class, c bool, msg string) {
	if !c {
		if class {
			panic(Stop{"known", kf + ": " + msg})
		}
		panic(Stop{"violation", msg})
	}
}
func Reach(label string) { Reached[label] = true }

// Observe records values that a replay must reproduce.
func Observe(xs ...interface{}) {
	s := ""
	for _, x := range xs {
		s += fmt.Sprint(x) + " "
	}
	Observed = append(Observed, s)
}

// SameMultiset compares two lists up to order.
func SameMultiset(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		ok := false
		for i, y := range b {
			if !used[i] && reflect.DeepEqual(x, y) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func DeepEqual(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Clone copies maps and slices (with their spare capacity).
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if x == nil {
			return x
		}
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = Clone(e)
		}
		return m
	case []interface{}:
		if x == nil {
			return x
		}
		a := make([]interface{}, cap(x))
		for i, e := range x[:cap(x)] {
			a[i] = Clone(e)
		}
		return a[:len(x)]
	}
	return v
}

// MapOrder selects how map iteration is explored: 0 insertion order, 1 every
// order, 2 reverse order, 3 every rotation in both directions.
func MapOrder(mode int) {}

// Spin makes the given time (ns) pass at each poll of a channel, which is how
// an interpreter notices that it is interrupted. Natively time passes by itself.
func Spin(ns int) {}

// Schedules explores every interleaving at synchronisation points with at most
// preempts preemptions; early lets timers fire before runnable work finishes.
func Schedules(preempts int, early bool) {}
func Races()                             {}
func RaceFound() string                  { return "" }

// Drain lets everything else run and returns the number of goroutines left.
func Drain() int {
	n := 0
	for i := 0; i < 60; i++ {
		n = runtime.NumGoroutine() - baseG
		if n <= 0 {
			return 0
		}
		time.Sleep(50 * time.Millisecond)
	}
	return n
}
func Tier() int                       { return tier }
func And(a, b bool) bool              { return a && b }
func Or(a, b bool) bool               { return a || b }
func Force(v interface{}) interface{} { return v }
func SameMap(a, b map[string]interface{}) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}
func Now() int64 { return time.Now().UnixNano() }

// Panics runs f and returns what it panicked with.
func Panics(f func()) (p interface{}) {
	defer func() {
		p = recover()
		if s, ok := p.(Stop); ok {
			panic(s)
		}
	}()
	f()
	return nil
}

// IsRuntime tells Go run-time errors from errors the library raised itself.
func IsRuntime(p interface{}) bool {
	_, ok := p.(runtime.Error)
	return ok
}

// Keys returns the sorted keys of a map.
func Keys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// RunMain runs the command line with these arguments, in a directory with these
// files, and returns what it writes to its standard output and its exit status.
func RunMain(main func(), files map[string]string, args ...string) (out string, status int) {
	dir, err := ioutil.TempDir("", "zzmain")
	if err != nil {
		panic(Stop{"tape", err.Error()})
	}
	defer os.RemoveAll(dir)
	for name, text := range files {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755); err != nil {
			panic(Stop{"tape", err.Error()})
		}
		if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			panic(Stop{"tape", err.Error()})
		}
	}
	exe, err := os.Executable()
	if err != nil {
		panic(Stop{"tape", err.Error()})
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "ZZ_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	b, err := cmd.Output()
	if err != nil {
		x, is := err.(*exec.ExitError)
		if !is {
			panic(Stop{"tape", err.Error()})
		}
		return string(b), x.ExitCode()
	}
	return string(b), 0
}
