// Package nrun runs harnesses natively from recorded tapes.
package nrun

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strings"

	"github.com/andygello555/json-dom/zz_verif/sym"
)

type req struct {
	Harness string        `json:"harness"`
	Tapes   [][]sym.Input `json:"tapes"`
	Tier    int           `json:"tier"`
	Repeat  int           `json:"repeat"`
	Strict  bool          `json:"strict"` // tapes must be complete
}

type res struct {
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

// MaybeMain runs the replay when asked to by the environment.
func MaybeMain(all map[string]func()) {
	if os.Getenv("ZZ_REPLAY") != "" {
		Main(all)
		os.Exit(0)
	}
}

// Main replays the requested tapes, writing one result line each.
func Main(all map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("ZZ_REPLAY"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var q req
	if err := json.Unmarshal(b, &q); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	out, err := os.Create(os.Getenv("ZZ_RESULT"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer out.Close()
	f := all[q.Harness]
	if f == nil {
		fmt.Println("no harness", q.Harness)
		os.Exit(3)
	}
	for _, t := range q.Tapes {
		var r res
		for i := 0; i < q.Repeat || i == 0; i++ {
			r = one(f, t, q.Tier)
			if q.Strict && sym.Short {
				r.Kind = "tape"
			}
			if r.Kind != "ok" {
				break
			}
			if i%7 == 3 {
				runtime.GC()
			}
		}
		j, _ := json.Marshal(r)
		out.Write(append(j, '\n'))
	}
}

func one(f func(), t []sym.Input, tier int) (r res) {
	sym.Load(t, tier)
	defer func() {
		r.Observed = sym.Observed
		if p := recover(); p != nil {
			if s, ok := p.(sym.Stop); ok {
				r.Kind, r.Msg = s.Kind, s.Msg
				return
			}
			buf := make([]byte, 3000)
			n := runtime.Stack(buf, false)
			r.Kind, r.Msg = "panic", fmt.Sprint(p)+"\n"+strings.TrimSpace(string(buf[:n]))
			return
		}
	}()
	f()
	r.Kind = "ok"
	return
}
