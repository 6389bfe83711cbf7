package h

import (
	"errors"
	"strings"
	"time"

	"github.com/andygello555/json-dom/code"
	gocode "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/andygello555/json-dom/zz_verif/sym"
)

func goCode(f func(json_map.JsonMapInt)) code.Code {
	c, _ := code.NewFrom(f)
	return c
}

const haltMsg = "(-1) Infinite loop has occurred after"

// HCallback: a callback that finishes, fails or blocks, on every schedule.
func HCallback() {
	globals.HaltingDelay = 1
	what := sym.Choose("callback", 6)
	doc := obj{"a": sym.JSON("a", sym.Spec{Depth: 0, Leaves: sym.LNum | sym.LNil})}
	mine := errors.New("mine")
	var seen json_map.JsonMapInt
	n := 0
	f := func(j json_map.JsonMapInt) {
		seen = j
		n++
		switch what {
		case 1:
			(*j.GetInsides())["b"] = 2.0
		case 2:
			panic(mine)
		case 3:
			panic("text")
		case 4:
			var l []int
			_ = l[n]
		case 5:
			<-make(chan bool)
		}
	}
	j := jom.NewFromMap(doc)
	sym.Schedules(1+sym.Tier(), false)
	var out json_map.JsonMapInt
	var err error
	p := sym.Panics(func() { out, err = gocode.RunCallback(goCode(f), j) })
	sym.Assert(n == 1 && seen == json_map.JsonMapInt(j), "the callback is not run exactly once on the scope")
	switch what {
	case 0, 1:
		sym.Assert(p == nil && err == nil, "a callback that finishes is reported as failed")
		sym.Assert(out == json_map.JsonMapInt(j), "the scope after a callback is not the scope it was given")
		_, has := (*out.GetInsides())["b"]
		sym.Assert(has == (what == 1), "the changes of a callback are lost")
		sym.Assert(sym.Drain() == 0, "a callback that finishes leaves a goroutine behind")
	case 2:
		sym.Assert(p == error(mine), "the panic of a callback does not surface unchanged")
		sym.Assert(sym.Drain() == 0, "a callback that panics leaves a goroutine behind")
	case 3:
		sym.Assert(p == "text", "the panic of a callback does not surface unchanged")
	case 4:
		sym.Assert(sym.IsRuntime(p), "the run-time panic of a callback does not surface")
	case 5:
		sym.Assert(p == nil && err != nil && strings.HasPrefix(err.Error(), haltMsg), "a callback that never ends is not reported as one")
	}
}

// HCallbackLate: the time limit may pass at any point of the run.
func HCallbackLate() {
	globals.HaltingDelay = 0
	defer func() { globals.HaltingDelay = 1 }()
	what := sym.Choose("callback", 2)
	mine := errors.New("mine")
	f := func(j json_map.JsonMapInt) {
		(*j.GetInsides())["b"] = 2.0
		if what == 1 {
			panic(mine)
		}
	}
	j := jom.NewFromMap(obj{"a": 1.0})
	sym.Schedules(1+sym.Tier(), true)
	var err error
	p := sym.Panics(func() { _, err = gocode.RunCallback(goCode(f), j) })
	halted := err != nil && strings.HasPrefix(err.Error(), haltMsg)
	if what == 0 {
		sym.Assert(p == nil && (err == nil || halted), "a callback that is slow ends neither normally nor with the time limit")
	} else {
		sym.Assert((p == error(mine)) != halted, "a failing callback that is slow ends neither with its panic nor with the time limit")
	}
	sym.Assert(sym.Drain() == 0, "a slow callback leaves a goroutine behind")
}

// HCallbackLimit: the limit is the configured number of seconds, no less and not much more.
func HCallbackLimit() {
	globals.HaltingDelay = sym.Choose("delay", 4)
	ms := []int{0, 700, 1300, 1700, 2300, 3500}[sym.Choose("takes", 6)]
	f := func(j json_map.JsonMapInt) { time.Sleep(time.Duration(ms) * time.Millisecond) }
	j := jom.NewFromMap(obj{"a": 1.0})
	start := sym.Now()
	_, err := gocode.RunCallback(goCode(f), j)
	took := (sym.Now() - start) / 1000000
	limit := 1000 * globals.HaltingDelay
	if limit == 0 && ms == 0 {
		sym.Assume(false) // either may be first
	}
	if ms < limit {
		sym.Assert(err == nil, "a callback that ends in time is halted")
		sym.Assert(int(took) < limit, "a callback that ends in time is waited for longer than it runs")
	} else {
		sym.Assert(err != nil && strings.HasPrefix(err.Error(), haltMsg), "a callback that takes longer than the limit is not halted")
		sym.Assert(int(took) < limit+250, "a callback is halted long after the limit")
	}
	globals.HaltingDelay = 1
}

// HRunCallbacks: callbacks in a document run like scripts: once each, in their scopes, their changes kept.
func HRunCallbacks() {
	globals.HaltingDelay = 1
	code.RegisterLang("go", gocode.RunCallback)
	var log []event
	put := func(name string) callback {
		return func(j json_map.JsonMapInt) {
			log = append(log, event{path: j.GetCurrentScopePath(), action: name})
			j.MustSet("$.z"+name, j.GetCurrentScopePath())
		}
	}
	docs := []func() obj{
		func() obj { return obj{"a": put("1"), "b": put("2"), "n": 1.0} },
		func() obj { return obj{"b": put("1"), "o": obj{"a": put("2"), "n": 1.0}} },
		func() obj { return obj{"l": list{1.0, obj{"a": put("1")}, list{obj{"b": put("2")}}}, "n": 1.0} },
	}
	wants := []obj{
		{"z1": "$", "z2": "$", "n": 1.0},
		{"z1": "$", "o": obj{"z2": "$.o", "n": 1.0}},
		{"l": list{1.0, obj{"z1": "$.l.[1]"}, list{obj{"z2": "$.l.[2].[0]"}}}, "n": 1.0},
	}
	i := sym.Choose("doc", len(docs))
	j := jom.NewFromMap(docs[i]())
	if sym.Tier() > 0 || i == 0 {
		sym.Schedules(0, false)
	}
	j.Run()
	sym.Assert(len(log) == 2 && log[0].action == "1" && log[1].action == "2", "callbacks are not run once each, outer ones first and in the order of their keys")
	sym.Assert(sym.DeepEqual(*j.GetInsides(), wants[i]), "running callbacks does not leave what they made of the document")
	sym.Assert(sym.Drain() == 0, "running callbacks leaves goroutines behind")
}

// HRunCallbackFails: a failing or endless callback ends the run of the document with an error, on any schedule.
func HRunCallbackFails() {
	globals.HaltingDelay = 1
	code.RegisterLang("go", gocode.RunCallback)
	mine := errors.New("mine")
	endless := sym.Choose("endless", 2) == 1
	f := func(j json_map.JsonMapInt) {
		if endless {
			<-make(chan bool)
		}
		panic(mine)
	}
	doc := obj{"o": obj{"a": callback(f)}, "n": 1.0}
	if sym.Choose("array", 2) == 1 {
		doc = obj{"l": list{obj{"a": callback(f)}}, "n": 1.0}
	}
	j := jom.NewFromMap(doc)
	sym.Schedules(sym.Tier(), false)
	p := sym.Panics(func() { j.Run() })
	if endless {
		e, isErr := p.(error)
		sym.Assert(isErr && strings.HasPrefix(e.Error(), haltMsg), "an endless callback does not end the run with the time limit")
		return
	}
	sym.Assert(p == error(mine), "a failing callback does not end the run with its error")
}
