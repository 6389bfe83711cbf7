package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/andygello555/json-dom"

type intrinsic func(fr *frame, args []value) value

type explorer struct {
	first     bool // development: enough of a harness, and of a check, once something is found
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	rtErrType types.Type
	overrides map[string]intrinsic
	buildMu   sync.Mutex
	built     map[*ssa.Package]bool
	tier      int
	seed      int64
	nworkers  int
	workers   []*worker
	solverBin string
	known     map[string]knownEntry
	propID    string
}

// isStd tells library code (trusted, initialised once) from the code under test.
func isStd(path string) bool { return !strings.HasPrefix(path, "github.com/andygello555/") }

func (ex *explorer) build(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg == nil {
		return
	}
	ex.buildMu.Lock()
	defer ex.buildMu.Unlock()
	if !ex.built[pkg] {
		pkg.Build()
		ex.built[pkg] = true
	}
}

func (ex *explorer) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ex.buildMu.Lock()
	defer ex.buildMu.Unlock()
	sel := ex.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return ex.prog.MethodValue(sel)
}

type worker struct {
	ex      *explorer
	id      int
	sol     *Solver
	finfos  map[*ssa.Function]*finfo
	methods map[methKey]*ssa.Function
	miss    map[missKey]string
	std     map[*ssa.Global]*value
	stdInit map[*ssa.Package]bool
	fnSeen  map[*ssa.Function]bool
	wg      sync.WaitGroup
	side    map[interface{}]interface{}
}

func newWorker(ex *explorer, id int) (*worker, error) {
	w := &worker{ex: ex, id: id, finfos: map[*ssa.Function]*finfo{}, methods: map[methKey]*ssa.Function{},
		miss: map[missKey]string{}, std: map[*ssa.Global]*value{}, stdInit: map[*ssa.Package]bool{}, fnSeen: map[*ssa.Function]bool{},
		side: map[interface{}]interface{}{}}
	s, err := newSolver(ex.solverBin, "-in")
	w.sol = s
	return w, err
}

// stdGlobal returns a library global, running its package's initialiser once
// per worker.
func (w *worker) stdGlobal(p *path, g *ssa.Global) *value {
	if !w.stdInit[g.Pkg] {
		w.stdInit[g.Pkg] = true
		w.runInit(p, g.Pkg)
	}
	c, ok := w.std[g]
	if !ok {
		c = new(value)
		*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
		if g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
			*c = []value{"json-dom"}
		}
		w.std[g] = c
	}
	return c
}

func (w *worker) runInit(p *path, pkg *ssa.Package) {
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if why := deniedPkg(pkg.Pkg.Path()); why {
		return // globals stay zero; its functions are not interpreted anyway
	}
	ip := &path{w: w, h: p.h, tb: p.tb, globals: map[*ssa.Global]*value{}, maxSteps: 50_000_000, side: map[interface{}]interface{}{},
		model: Model{}, reached: map[string]bool{}}
	ip.ev = newEval(ip.model)
	g := ip.newGor(nil)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(ctlUnsupported); ok {
					debugf("init of %s incomplete: %s", pkg.Pkg.Path(), u.why)
					return
				}
				if _, ok := x.(targetPanic); ok {
					return
				}
				panic(x)
			}
		}()
		ip.callInit(g, init)
	}()
}

func (p *path) callInit(g *gor, init *ssa.Function) {
	p.callSSA(nil, g, init, nil, nil)
}

// harnessRun explores one harness function.
type harnessRun struct {
	ex     *explorer
	name   string
	fn     *ssa.Function
	cfg    *harnessCfg
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []*item
	active int
	stop   bool
	start  time.Time
	limit  time.Duration

	paths                                  atomic.Int64
	done                                   atomic.Int64 // paths that ran to the end
	infeasible                             atomic.Int64
	branches                               atomic.Int64
	asserts                                atomic.Int64
	steps                                  atomic.Int64
	queries, sats, unsats, unknowns, serrs int
	stime                                  time.Duration
	incompl                                map[string]int
	viols                                  []*violation
	violCount                              map[string]int
	reached                                map[string]int
	known                                  map[string]int
	fns                                    map[*ssa.Function]bool
	samples, partial                       []*sample
	truncated                              bool
	left, npartial                         int
	wall                                   time.Duration
	rng                                    *rand.Rand
}

type sample struct {
	tape interface{}
	obs  []string
	desc string
}

type violation struct {
	Harness string
	Msg     string
	Known   string
	Tape    []interface{}
	Sched   []string
	Desc    string
	Replay  string
	Output  string
}

func (h *harnessRun) push(it *item) {
	h.mu.Lock()
	h.stack = append(h.stack, it)
	h.cond.Signal()
	h.mu.Unlock()
}

func (h *harnessRun) incomplete(why string, p *path) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if i := strings.Index(why, "\n"); i > 0 && !debugStacks {
		why = why[:i]
	}
	h.incompl[why]++
	h.npartial++
	at := len(h.partial)
	if at >= 40 {
		at = h.rng.Intn(h.npartial)
	}
	if at < 40 {
		e := newEval(p.model)
		var tape []interface{}
		for _, in := range p.inputs {
			tape = append(tape, p.inputJSON(in, e))
		}
		h.partial = append(h.partial[:at], append([]*sample{{tape: tape, desc: p.describe(p.model)}}, h.partial[min(at+1, len(h.partial)):]...)...)
	}
}

func (h *harnessRun) violation(p *path, m Model, msg, known string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if known != "" {
		h.known[known]++
		if h.known[known] > 1 {
			return
		}
	} else {
		h.violCount[msg]++
		if h.violCount[msg] > 4 {
			return
		}
	}
	e := newEval(m)
	v := &violation{Harness: h.name, Msg: msg, Known: known, Sched: append([]string(nil), p.schedLog...), Desc: p.describe(m)}
	for _, in := range p.inputs {
		v.Tape = append(v.Tape, p.inputJSON(in, e))
	}
	h.viols = append(h.viols, v)
}

func (ex *explorer) run(name string, fn *ssa.Function, cfg *harnessCfg, limit time.Duration) *harnessRun {
	h := &harnessRun{ex: ex, name: name, fn: fn, cfg: cfg, start: time.Now(), limit: limit,
		incompl: map[string]int{}, violCount: map[string]int{}, reached: map[string]int{}, known: map[string]int{}, fns: map[*ssa.Function]bool{}}
	h.rng = rand.New(rand.NewSource(ex.seed))
	h.cond = sync.NewCond(&h.mu)
	h.stack = []*item{{nil, Model{}}}
	var wg sync.WaitGroup
	type base struct {
		q, s, u, k, e int
		t             time.Duration
	}
	var b0 []base
	for _, w := range ex.workers {
		b0 = append(b0, base{w.sol.Queries, w.sol.Sats, w.sol.Unsats, w.sol.Unknown, w.sol.Errors, w.sol.Time})
	}
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			h.work(w)
		}(w)
	}
	wg.Wait()
	for i, w := range ex.workers {
		h.queries += w.sol.Queries - b0[i].q
		h.sats += w.sol.Sats - b0[i].s
		h.unsats += w.sol.Unsats - b0[i].u
		h.unknowns += w.sol.Unknown - b0[i].k
		h.serrs += w.sol.Errors - b0[i].e
		h.stime += w.sol.Time - b0[i].t
		for f := range w.fnSeen {
			h.fns[f] = true
		}
		w.fnSeen = map[*ssa.Function]bool{}
	}
	h.left = len(h.stack)
	if h.left > 0 {
		h.truncated = true
	}
	h.wall = time.Since(h.start)
	return h
}

func (h *harnessRun) work(w *worker) {
	for n := 0; ; {
		h.mu.Lock()
		for len(h.stack) == 0 && h.active > 0 && !h.stop {
			h.cond.Wait()
		}
		if h.stop || len(h.stack) == 0 {
			h.cond.Broadcast()
			h.mu.Unlock()
			return
		}
		if time.Since(h.start) > h.limit || h.ex.first && len(h.viols) >= 8 {
			h.stop = true
			h.cond.Broadcast()
			h.mu.Unlock()
			return
		}
		// What takes long is explored here and there, so that all of it is touched when the time is over
		if n++; n%3 == 0 && time.Since(h.start) > 15*time.Second {
			i, k := h.rng.Intn(len(h.stack)), len(h.stack)-1
			h.stack[i], h.stack[k] = h.stack[k], h.stack[i]
		}
		it := h.stack[len(h.stack)-1]
		h.stack = h.stack[:len(h.stack)-1]
		h.active++
		h.mu.Unlock()
		w.runPath(h, it)
		h.mu.Lock()
		h.active--
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

func (w *worker) runPath(h *harnessRun, it *item) {
	w.sol.reset()
	m := make(Model, len(it.model)+8)
	for k, v := range it.model {
		m[k] = v
	}
	p := &path{w: w, h: h, tb: newTB(), sol: w.sol, prefix: it.prefix, model: m, globals: map[*ssa.Global]*value{},
		maxSteps: 20_000_000, side: map[interface{}]interface{}{}, reached: map[string]bool{}, fnSeen: w.fnSeen}
	p.ev = newEval(p.model)
	main := p.newGor(nil)
	main.what = "main"
	p.cur = main
	e0 := w.sol.Errors
	var out interface{}
	func() {
		defer func() { out = recover() }()
		if init := h.fn.Pkg.Func("init"); init != nil {
			p.callInit(main, init)
		}
		p.callSSA(nil, main, h.fn, nil, nil)
	}()
	if p.abort && p.why != nil {
		out = p.why
	}
	p.abort = true
	p.wakeAll(main)
	w.wg.Wait()
	h.paths.Add(1)
	h.steps.Add(int64(p.steps))
	if w.sol.Errors > e0 {
		h.incomplete("solver error", p)
		return
	}
	switch x := out.(type) {
	case nil:
		h.done.Add(1)
		h.finish(p)
	case ctlAbort:
		if x.why == "assume" {
			h.infeasible.Add(1)
		}
		h.mergeReached(p)
	case ctlUnsupported:
		h.incomplete("unsupported: "+x.why, p)
	case ctlExit:
		h.violation(p, p.model, fmt.Sprintf("the process exits with code %d", x.code), "")
	case ctlForever:
		h.violation(p, p.model, "the run goes on after every time limit: the call never returns", "")
	case ctlStack:
		h.violation(p, p.model, "calls nest without end: the stack overflows", "")
	case ctlDeadlock:
		h.violation(p, p.model, "all goroutines are asleep: the call never returns", "")
	case targetPanic:
		h.violation(p, p.model, "uncaught panic: "+p.panicText(x), "")
	case goPanic:
		h.violation(p, p.model, "uncaught panic in goroutine "+x.what+": "+p.panicText(x.tp), "")
	case runtime.Error:
		h.incomplete("engine: "+x.Error(), p)
	default:
		h.incomplete(fmt.Sprintf("engine: %v", x), p)
	}
}

func (p *path) panicText(t targetPanic) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("%v", t.v.v)
		}
	}()
	return showStr(p.fmtValue(&frame{p: p, g: p.gors[0]}, 'v', t.v, false))
}

func (h *harnessRun) mergeReached(p *path) {
	h.mu.Lock()
	for l := range p.reached {
		h.reached[l]++
	}
	h.mu.Unlock()
}

func (h *harnessRun) finish(p *path) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for l := range p.reached {
		h.reached[l]++
	}
	if p.knownHit {
		return
	}
	// reservoir of completed paths, replayed natively afterwards
	n := int(h.done.Load())
	cap := 40
	if h.cfg.Samples > 0 {
		cap = h.cfg.Samples
	}
	e := p.ev
	mk := func() *sample {
		var tape []interface{}
		for _, in := range p.inputs {
			tape = append(tape, p.inputJSON(in, e))
		}
		obs := make([]string, len(p.obs))
		copy(obs, p.obs)
		return &sample{tape: tape, obs: obs, desc: p.describe(p.model)}
	}
	if len(h.samples) < cap {
		h.samples = append(h.samples, mk())
	} else if j := h.rng.Intn(n); j < cap {
		h.samples[j] = mk()
	}
}

func (h *harnessRun) fnNames() []string {
	var r []string
	for f := range h.fns {
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/zz_verif") {
			continue
		}
		n := f.String()
		if strings.Contains(n, "zz_verif") || strings.Contains(n, ".init") {
			continue
		}
		r = append(r, strings.ReplaceAll(n, modPath+"/", ""))
	}
	sort.Strings(r)
	return r
}
