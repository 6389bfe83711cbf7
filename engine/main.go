package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type knownEntry struct{ kf, prop, text string }

// known-findings.txt lines: "KNOWN-FINDING: property=<id> kf=<name> <text>" and "fixed: ...".
func readKnown(file string) map[string]knownEntry {
	r := map[string]knownEntry{}
	f, err := os.Open(file)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		e := knownEntry{}
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "KNOWN-FINDING:")) {
			switch {
			case strings.HasPrefix(w, "property=") && e.prop == "":
				e.prop = w[9:]
			case strings.HasPrefix(w, "kf=") && e.kf == "":
				e.kf = w[3:]
			default:
				rest = append(rest, w)
			}
		}
		e.text = strings.Join(rest, " ")
		if e.kf != "" {
			r[e.kf] = e
		}
	}
	return r
}

func (ex *explorer) knownListed(kf string) bool {
	e, ok := ex.known[kf]
	return ok && e.prop == ex.propID
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|list|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayFile(os.Args[2:]))
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func envTier() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1
	}
	return 0
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", "", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "this directory")
	only := fs.String("only", "", "run only the harness of this name")
	workers := fs.Int("workers", 0, "parallel workers")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("budget", 0, "total seconds (default 600 quick, 3600 thorough)")
	first := fs.Bool("first", false, "stop at the first violation")
	fs.Parse(args)
	tier := envTier()
	if *tierS == "thorough" {
		tier = 1
	} else if *tierS == "quick" {
		tier = 0
	}
	pc := propByID(*prop)
	if pc == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		return 2
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	start := time.Now()
	hdir := filepath.Join(*verif, "harness")
	ev := newEvidence(pc, tier)
	fail := func(err error) int {
		// the code does not load (or the machinery cannot run): nothing was decided
		ev.note("nothing was decided: " + err.Error())
		fmt.Println("gosym: nothing decided:", err)
		ev.write(*verif, start)
		return 0
	}
	ex, err := loadProgram(*repo, hdir)
	if err != nil {
		return fail(err)
	}
	loadT := time.Since(start)
	ex.tier = tier
	ex.seed = 1
	ex.propID = pc.ID
	ex.known = readKnown(filepath.Join(*verif, "known-findings.txt"))
	ex.solverBin = solverPath()
	for i := 0; i < *workers; i++ {
		w, err := newWorker(ex, i)
		if err != nil {
			return fail(err)
		}
		ex.workers = append(ex.workers, w)
	}
	total := *budget
	if total == 0 {
		total = 540
		if tier == 1 {
			total = 3600
		}
	}
	ex.first = *first
	rp := newReplayer(*repo, hdir, tier)
	defer rp.close()
	var runs []*harnessRun
	code := 0
	ev.loadS = loadT.Seconds()
	knownSeen := map[string]bool{}
	nviol := 0
	for i := range pc.Harnesses {
		hc := &pc.Harnesses[i]
		if *first && code == 1 {
			break
		}
		if *only != "" && hc.Fn != *only {
			continue
		}
		if tier == 0 && !hc.Quick && *only == "" {
			continue
		}
		pkg := modPath + "/zz_verif/h"
		if hc.Main {
			pkg = modPath
		}
		fn := ex.pkgs[pkg].Func(hc.Fn)
		if fn == nil {
			return fail(fmt.Errorf("no harness %s", hc.Fn))
		}
		secs := hc.Secs
		if secs == 0 {
			secs = 100
		}
		if tier == 1 {
			secs = hc.SecsT
			if secs == 0 {
				secs = 600
			}
		}
		left := time.Duration(total)*time.Second - time.Since(start)
		lim := time.Duration(secs) * time.Second
		if lim > left {
			lim = left
		}
		if lim < 2*time.Second {
			ev.note(hc.Fn + ": not run (time budget used up)")
			continue
		}
		h := ex.run(hc.Fn, fn, hc, lim)
		runs = append(runs, h)
		fmt.Printf("%s: paths=%d completed=%d assumed-away=%d branches=%d asserts=%d queries=%d sat=%d unsat=%d unknown=%d solver=%.1fs wall=%.1fs left=%d\n",
			hc.Fn, h.paths.Load(), h.done.Load(), h.infeasible.Load(), h.branches.Load(), h.asserts.Load(), h.queries, h.sats, h.unsats, h.unknowns, h.stime.Seconds(), h.wall.Seconds(), h.left)
		var inc []string
		for k, n := range h.incompl {
			inc = append(inc, fmt.Sprintf("%s (x%d)", k, n))
		}
		sort.Strings(inc)
		for _, s := range inc {
			fmt.Println("  incomplete:", s)
		}
		for _, r := range hc.Reach {
			if h.reached[r] == 0 {
				fmt.Println("  never reached:", r)
				ev.note(hc.Fn + ": never reached " + r)
			}
		}
		if *verbose {
			for k, n := range h.reached {
				fmt.Printf("  reached %s: %d\n", k, n)
			}
		}
		// native confirmation of violations
		confirmed := map[string]bool{}
		for _, v := range h.viols {
			if confirmed[v.Msg+v.Known] && v.Known != "" {
				continue
			}
			if nviol >= 5 && v.Known == "" {
				break
			}
			ok, out := rp.confirm(h, v)
			v.Output = out
			if *verbose || !ok {
				fmt.Printf("  candidate [%s] %s\n    input: %s\n    native: confirmed=%v %s\n", v.Known, v.Msg, v.Desc, ok, strings.TrimSpace(out))
				if *verbose && len(v.Sched) > 0 {
					fmt.Println("    schedule:", strings.Join(v.Sched, " / "))
				}
			}
			if !ok {
				ev.unconfirmed = append(ev.unconfirmed, hc.Fn+": "+v.Msg+" on "+v.Desc)
				continue
			}
			confirmed[v.Msg+v.Known] = true
			if v.Known != "" {
				if !knownSeen[v.Known] {
					knownSeen[v.Known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", pc.ID, ex.known[v.Known].text)
				}
				continue
			}
			path := rp.save(*verif, pc.ID, h, v, nviol)
			nviol++
			code = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", pc.ID, path)
			fmt.Printf("  %s: %s\n  input: %s\n", hc.Fn, v.Msg, v.Desc)
		}
		// inputs of paths that the engine could not follow to their end, on the real code
		native := func(ss []*sample) {
			for _, v := range rp.partials(h, ss) {
				path := rp.save(*verif, pc.ID, h, v, nviol)
				nviol++
				code = 1
				fmt.Printf("VIOLATION property=%s replay=%s\n", pc.ID, path)
				fmt.Printf("  %s: %s\n  input: %s\n", hc.Fn, v.Msg, v.Desc)
			}
		}
		if code == 0 && !hc.Sched {
			native(h.partial)
		}
		// native replay of completed paths
		if !hc.NoSample && code == 0 {
			n, bad, out := rp.samples(h)
			ev.replayed += n
			ev.mismatch += bad
			if bad > 0 {
				fmt.Printf("  %d of %d replayed paths differ from the native run: %s\n", bad, n, out)
				ev.note(fmt.Sprintf("%s: %d of %d replayed paths differ natively: %s", hc.Fn, bad, n, out))
				if !hc.Sched && hc.Samples == 0 {
					native(h.samples)
				}
			}
		}
	}
	// every listed finding of this property that was looked for is reported
	ev.runs = runs
	ev.violations = nviol
	ev.known = knownSeen
	ev.write(*verif, start)
	if code == 0 {
		fmt.Printf("ok property=%s tier=%s wall=%.1fs\n", pc.ID, tierName(tier), time.Since(start).Seconds())
	}
	return code
}

func tierName(t int) string {
	if t == 1 {
		return "thorough"
	}
	return "quick"
}

func solverPath() string {
	for _, s := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(s); err == nil {
			return s
		}
	}
	return "z3"
}

// ---- evidence -----------------------------------------------------------------

type evidence struct {
	pc          *propCfg
	tier        int
	runs        []*harnessRun
	notes       []string
	unconfirmed []string
	replayed    int
	mismatch    int
	violations  int
	known       map[string]bool
	loadS       float64
}

func newEvidence(pc *propCfg, tier int) *evidence { return &evidence{pc: pc, tier: tier} }
func (e *evidence) note(s string)                 { e.notes = append(e.notes, s) }

func (e *evidence) write(verif string, start time.Time) {
	states, trans := int64(0), int64(0)
	fns := map[string]bool{}
	var hs []interface{}
	var samples []interface{}
	q, s, u, k := 0, 0, 0, 0
	var st time.Duration
	truncated := false
	for _, h := range e.runs {
		states += h.paths.Load()
		trans += h.branches.Load()
		q += h.queries
		s += h.sats
		u += h.unsats
		k += h.unknowns
		st += h.stime
		for _, f := range h.fnNames() {
			fns[f] = true
		}
		if h.truncated {
			truncated = true
		}
		inc := map[string]int{}
		for a, b := range h.incompl {
			inc[a] = b
		}
		hs = append(hs, map[string]interface{}{
			"harness": h.name, "paths": h.paths.Load(), "paths_completed": h.done.Load(), "paths_assumed_away": h.infeasible.Load(),
			"decisions": h.branches.Load(), "assertions_decided": h.asserts.Load(), "solver_queries": h.queries, "sat": h.sats, "unsat": h.unsats,
			"unknown": h.unknowns, "solver_s": h.stime.Seconds(), "wall_s": h.wall.Seconds(), "unexplored_left": h.left,
			"instructions": h.steps.Load(), "reached": h.reached, "not_decided": inc, "known_findings_hit": h.known,
		})
		for i, sm := range h.samples {
			if i >= 4 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": h.name, "path_input": sm.desc})
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if fl == nil {
		fl = []string{}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	assumptions := []string{
		"bounds: " + e.pc.Bounds,
		"outside: " + e.pc.Outside,
		"golang.org/x/tools/go/ssa is a faithful translation of the source, the engine interprets it as the Go specification says, and z3 is sound",
		"library models (fmt, regexp via regexp/syntax programs, encoding/json, sync, time, otto subset) behave as the real libraries; completed paths are replayed natively to check this",
	}
	for _, n := range e.notes {
		assumptions = append(assumptions, "note: "+n)
	}
	for _, n := range e.unconfirmed {
		assumptions = append(assumptions, "solver candidate not reproduced natively (not reported): "+n)
	}
	var kn []string
	for a := range e.known {
		kn = append(kn, a)
	}
	sort.Strings(kn)
	out := map[string]interface{}{
		"property": e.pc.ID, "tier": tierName(e.tier), "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": e.replayed, "samples": samples,
			"traces_that_differed": e.mismatch,
			"functions_encoded":    fl, "harnesses": hs, "solver_queries": q, "solver_sat": s, "solver_unsat": u, "solver_unknown": k,
			"solver_s": st.Seconds(), "bounds": e.pc.Bounds, "outside_bounds": e.pc.Outside, "truncated_by_time": truncated,
			"load_s": e.loadS, "known_findings": kn, "exhaustive_within_bounds": !truncated && k == 0 && allDecided(e.runs),
		},
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": e.violations,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", e.pc.ID+".json"), append(b, '\n'), 0o644)
}

func allDecided(rs []*harnessRun) bool {
	for _, h := range rs {
		if len(h.incompl) > 0 {
			return false
		}
	}
	return len(rs) > 0
}
