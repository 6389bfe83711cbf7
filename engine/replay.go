package main

// Native replay: the harness runs as ordinary Go against the real code.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type replayer struct {
	repo, hdir string
	tier       int
	dir        string
	bins       map[string]string
	errs       map[string]string
}

func newReplayer(repo, hdir string, tier int) *replayer {
	return &replayer{repo: repo, hdir: hdir, tier: tier, bins: map[string]string{}, errs: map[string]string{}}
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) scratch() string {
	if r.dir == "" {
		d, err := os.MkdirTemp("", "gosym")
		if err != nil {
			d = filepath.Join(os.TempDir(), "gosym-scratch")
			os.MkdirAll(d, 0o755)
		}
		r.dir = d
	}
	return r.dir
}

const replayMain = `package main

import (
	"%MOD%/zz_verif/h"
	"%MOD%/zz_verif/nrun"
)

func main() { nrun.Main(h.All) }
`

// build returns the replay binary for harnesses of package h or main.
func (r *replayer) build(isMain, race bool) (string, error) {
	key := fmt.Sprintf("main=%v race=%v", isMain, race)
	if e, ok := r.errs[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	if b, ok := r.bins[key]; ok {
		return b, nil
	}
	d := r.scratch()
	ofs, err := overlayFiles(r.repo, r.hdir)
	if err != nil {
		return "", err
	}
	fs, _ := filepath.Glob(filepath.Join(r.hdir, "nrun", "*.go"))
	for _, f := range fs {
		ofs[filepath.Join(r.repo, "zz_verif/nrun", filepath.Base(f))] = f
	}
	reg := filepath.Join(d, "reg_h.go")
	os.WriteFile(reg, []byte(registry("h", r.hdir)), 0o644)
	ofs[filepath.Join(r.repo, "zz_verif/h/zz_registry.go")] = reg
	target := "./zz_verif/replay"
	if isMain {
		reg := filepath.Join(d, "reg_main.go")
		os.WriteFile(reg, []byte(registry("hmain", r.hdir)), 0o644)
		ofs[filepath.Join(r.repo, "zz_registry.go")] = reg
		target = "."
	} else {
		m := filepath.Join(d, "main.go")
		os.WriteFile(m, []byte(strings.ReplaceAll(replayMain, "%MOD%", modPath)), 0o644)
		ofs[filepath.Join(r.repo, "zz_verif/replay/main.go")] = m
		for dst, src := range ofs {
			if strings.HasPrefix(src, filepath.Join(r.hdir, "hmain")) {
				delete(ofs, dst)
			}
		}
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": ofs})
	ov := filepath.Join(d, "ov"+fmt.Sprint(len(r.bins))+".json")
	os.WriteFile(ov, ovb, 0o644)
	bin := filepath.Join(d, "replay-"+strings.NewReplacer("=", "", " ", "-").Replace(key))
	args := []string{"build", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, target)...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.errs[key] = fmt.Sprintf("%v: %s", err, out)
		return "", fmt.Errorf("%s", r.errs[key])
	}
	r.bins[key] = bin
	return bin, nil
}

// registry lists the exported harness functions of a directory.
func registry(dir, hdir string) string {
	fs, _ := filepath.Glob(filepath.Join(hdir, dir, "*.go"))
	var sb strings.Builder
	pkg := dir
	imp := ""
	if dir == "hmain" {
		pkg = "main"
		imp = "import \"" + modPath + "/zz_verif/nrun\"\n"
	}
	fmt.Fprintf(&sb, "package %s\n%s\nvar All = map[string]func(){\n", pkg, imp)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H") && strings.Contains(l, "() {") {
				n := l[5:strings.Index(l, "(")]
				fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
			}
		}
	}
	sb.WriteString("}\n")
	if dir == "hmain" {
		sb.WriteString("\nfunc init() { nrun.MaybeMain(All) }\n")
	}
	return sb.String()
}

type runReq struct {
	Harness string        `json:"harness"`
	Tapes   []interface{} `json:"tapes"`
	Tier    int           `json:"tier"`
	Repeat  int           `json:"repeat"`
	Strict  bool          `json:"strict"`
}

type runRes struct {
	Kind     string   `json:"kind"` // ok, violation, known, panic, assume, tape, exit
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

func (r *replayer) exec(bin string, req runReq, timeout time.Duration, env ...string) ([]runRes, string, error) {
	d := r.scratch()
	rf := filepath.Join(d, "req.json")
	of := filepath.Join(d, "res.json")
	os.Remove(of)
	b, _ := json.Marshal(req)
	os.WriteFile(rf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	wd := filepath.Join(d, "cwd")
	os.MkdirAll(wd, 0o755)
	cmd.Dir = wd
	cmd.Env = append(goEnv(), append([]string{"ZZ_REPLAY=" + rf, "ZZ_RESULT=" + of}, env...)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	var res []runRes
	if rb, e := os.ReadFile(of); e == nil {
		for _, l := range strings.Split(string(rb), "\n") {
			if l == "" {
				continue
			}
			var x runRes
			if json.Unmarshal([]byte(l), &x) == nil {
				res = append(res, x)
			}
		}
	}
	if ctx.Err() != nil {
		err = fmt.Errorf("timeout")
	}
	o := out.String()
	if len(o) > 8000 {
		o = o[:4000] + o[len(o)-4000:]
	}
	return res, o, err
}

// confirm reproduces a violation natively.
func (r *replayer) confirm(h *harnessRun, v *violation) (bool, string) {
	bin, err := r.build(h.cfg.Main, h.cfg.RaceRun)
	if err != nil {
		return false, "replay build failed: " + err.Error()
	}
	rep := 1
	to := 60 * time.Second
	if h.cfg.Sched {
		rep = 400
		if h.cfg.Repeat > 0 {
			rep = h.cfg.Repeat
		}
	}
	req := runReq{Harness: h.name, Tapes: []interface{}{v.Tape}, Tier: r.tier, Repeat: rep}
	ok, out := r.judge(bin, req, to, v)
	if !ok && h.cfg.Sched {
		// more parallelism pressure
		ok, out = r.judge(bin, req, to, v, "GOMAXPROCS=2")
	}
	return ok, out
}

func (r *replayer) judge(bin string, req runReq, to time.Duration, v *violation, env ...string) (bool, string) {
	res, out, err := r.exec(bin, req, to, env...)
	if strings.Contains(out, "WARNING: DATA RACE") && strings.Contains(v.Msg, "race") {
		return true, firstLines(out, 12)
	}
	for _, x := range res {
		if x.Kind == "violation" && v.Known == "" {
			return true, x.Msg
		}
		if x.Kind == "known" && v.Known != "" && strings.HasPrefix(x.Msg, v.Known) {
			return true, x.Msg
		}
		if x.Kind == "panic" && (strings.HasPrefix(v.Msg, "uncaught panic")) {
			return true, x.Msg
		}
	}
	if err != nil {
		es := err.Error()
		switch {
		case strings.Contains(out, "panic: ") && strings.HasPrefix(v.Msg, "uncaught panic"):
			return true, firstLines(out, 6)
		case es == "timeout" && strings.Contains(v.Msg, "never returns"):
			return true, "native run does not return"
		case strings.Contains(out, "all goroutines are asleep") && strings.Contains(v.Msg, "never returns"):
			return true, firstLines(out, 4)
		case strings.Contains(out, "stack overflow") && strings.Contains(v.Msg, "the stack overflows"):
			return true, firstLines(out, 4)
		case strings.Contains(out, "concurrent map") && strings.Contains(v.Msg, "race"):
			return true, firstLines(out, 4)
		}
		var ee *exec.ExitError
		if strings.HasPrefix(v.Msg, "the process exits") {
			if x, ok := err.(*exec.ExitError); ok {
				ee = x
				if strings.HasSuffix(v.Msg, fmt.Sprintf("code %d", ee.ExitCode())) {
					return true, firstLines(out, 4)
				}
			}
		}
	}
	d := ""
	for i, x := range res {
		if i < 3 {
			d += fmt.Sprintf("%s %s; ", x.Kind, x.Msg)
		}
	}
	return false, fmt.Sprintf("results: %s err=%v out=%s", d, err, firstLines(out, 6))
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// samples replays completed paths and compares what they observed.
func (r *replayer) samples(h *harnessRun) (n, bad int, msg string) {
	if len(h.samples) == 0 {
		return
	}
	bin, err := r.build(h.cfg.Main, false)
	if err != nil {
		return 0, 0, err.Error()
	}
	req := runReq{Harness: h.name, Tier: r.tier, Repeat: 1}
	for _, s := range h.samples {
		req.Tapes = append(req.Tapes, s.tape)
	}
	res, out, err := r.exec(bin, req, 90*time.Second)
	for i, x := range res {
		if i >= len(h.samples) {
			break
		}
		n++
		s := h.samples[i]
		why := ""
		if x.Kind != "ok" {
			why = x.Kind + " " + x.Msg
		} else if !sameObs(s.obs, x.Observed) {
			why = fmt.Sprintf("observed %q, expected %q", x.Observed, s.obs)
		}
		if why != "" {
			bad++
			if msg == "" {
				msg = why + " on " + s.desc
			}
		}
	}
	if len(res) < len(h.samples) && msg == "" {
		msg = fmt.Sprintf("replay stopped after %d of %d: %v %s", len(res), len(h.samples), err, firstLines(out, 8))
		bad++
	}
	return
}

// partials replays paths that the engine could not follow to their end, and completed ones, and returns those on which
// the real code violates an assertion again and again.
func (r *replayer) partials(h *harnessRun, ss []*sample) (vs []*violation) {
	if len(ss) == 0 {
		return
	}
	bin, err := r.build(h.cfg.Main, false)
	if err != nil {
		return
	}
	req := runReq{Harness: h.name, Tier: r.tier, Repeat: 1, Strict: true}
	for _, s := range ss {
		req.Tapes = append(req.Tapes, s.tape)
	}
	res, _, _ := r.exec(bin, req, 90*time.Second)
	for i, x := range res {
		if i >= len(ss) || x.Kind != "violation" || len(vs) >= 3 {
			continue
		}
		again := true
		for k := 0; k < 2 && again; k++ {
			res, _, _ := r.exec(bin, runReq{Harness: h.name, Tier: r.tier, Repeat: 1, Strict: true, Tapes: []interface{}{ss[i].tape}}, 60*time.Second)
			again = len(res) == 1 && res[0].Kind == "violation"
		}
		if again {
			vs = append(vs, &violation{Harness: h.name, Msg: x.Msg, Tape: ss[i].tape.([]interface{}), Desc: ss[i].desc, Output: x.Msg})
		}
	}
	return
}

// observed texts may hold placeholders for symbolic parts
func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.ContainsAny(a[i], "?<") {
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type savedReplay struct {
	Property string        `json:"property"`
	Harness  string        `json:"harness"`
	Main     bool          `json:"main"`
	Race     bool          `json:"race"`
	Sched    bool          `json:"sched"`
	Tier     int           `json:"tier"`
	Msg      string        `json:"msg"`
	Input    string        `json:"input"`
	Schedule []string      `json:"schedule"`
	Native   string        `json:"native"`
	Tape     []interface{} `json:"tape"`
	Rerun    string        `json:"rerun"`
}

func (r *replayer) save(verif, prop string, h *harnessRun, v *violation, n int) string {
	d := filepath.Join(verif, "replays")
	os.MkdirAll(d, 0o755)
	f := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", prop, h.name, n))
	b, _ := json.MarshalIndent(savedReplay{prop, h.name, h.cfg.Main, h.cfg.RaceRun, h.cfg.Sched, r.tier, v.Msg, v.Desc, v.Sched, v.Output, v.Tape,
		"bash /verif/run.sh replay " + f}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func replayFile(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var s savedReplay
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Println(err)
		return 2
	}
	r := newReplayer("/repo", filepath.Join("/verif", "harness"), s.Tier)
	defer r.close()
	h := &harnessRun{name: s.Harness, cfg: &harnessCfg{Fn: s.Harness, Main: s.Main, RaceRun: s.Race, Sched: s.Sched}}
	ok, out := r.confirm(h, &violation{Harness: s.Harness, Msg: s.Msg, Tape: s.Tape})
	fmt.Println(s.Msg)
	fmt.Println("input:", s.Input)
	fmt.Println("reproduced:", ok, out)
	if ok {
		return 1
	}
	return 0
}
