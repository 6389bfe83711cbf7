package main

import (
	"fmt"
	"math"
	"os/exec"
	"strings"
	"testing"
)

func TestF(t *testing.T) {
	b := newTB()
	fs := []float64{0, math.Copysign(0, -1), .5, -.5, 1, -1, 1.5, -1.5, 1.999999, -1.9999999, 3, 4.5, -4.5, 1e15 + .5, -1e15 - .5, 4503599627370495.5, -4503599627370495.5, 9007199254740993, 1e18, -1e18, 9.2233720368547748e18, -9.2233720368547748e18, 9.3e18, -9.3e18, -9223372036854775808, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, -5e-324, .9999999999999999, -.9999999999999999, 1023.99999, -7.25}
	var sb strings.Builder
	n := 0
	for _, f := range fs {
		for _, o := range []Op{OFround, OF2I} {
			for m := uint64(0); m < 3; m++ {
				v := b.bv(math.Float64bits(f), 64)
				x := &Term{op: o, val: m, w: 64, a: []*Term{v}}
				want := farithEval(o, m, v.val, 0)
				fmt.Fprintf(&sb, "(simplify (= %s #x%016x))\n", x.farithStr([]string{constStr(v)}), want)
				n++
			}
		}
	}
	c := exec.Command("z3-new", "-in")
	c.Stdin = strings.NewReader(sb.String())
	out, _ := c.CombinedOutput()
	l := strings.Split(strings.TrimSpace(string(out)), "\n")
	i := 0
	for _, f := range fs {
		for _, o := range []Op{OFround, OF2I} {
			for m := uint64(0); m < 3; m++ {
				if l[i] != "true" {
					t.Errorf("%v op %d mode %d: %s", f, o, m, l[i])
				}
				i++
			}
		}
	}
	fmt.Println(n, len(l))
}
