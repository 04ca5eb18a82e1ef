//go:build go1.21 && (p_all || p_c05)

package main

import (
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
)

func init() {
	props["C05"] = &Prop{
		ID: "C05", Quick: 250000, Deep: 7200000,
		Rule: "A run assigns a drawn batch to a drawn circuit (built-in or user-defined gates, or MiMC) under a drawn schedule and compares every layer with an independent evaluator.",
		Real: []string{"circuit", "examples", "common (semaphore)", "hash (round constants)"},
		Stub: []string{"scheduler", "channels, sync, runtime", "user-defined gates that yield inside an evaluation"},
		Run:  runC05,
	}
}

func runC05(x *X) {
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 10, mimcBN: 4, maxBN: 5, bigPct: 1, circ: circOpts{maxLayers: 5, maxB: 3, maxWires: 9}})
	want := spec.evalAll(sh.bN, in)
	if spec.mimc {
		// an independent definition of the permutation
		n := 1 << sh.bN
		out := make([]fr.Element, n)
		for h := range out {
			s, k := in[h], in[n+h]
			s.Sub(&s, &k)
			out[h] = refMimcPerm(s, k)
			out[h].Add(&out[h], &k)
		}
		want[len(want)-1] = out
	}
	own := !spec.mimc && x.Chance("ownGates", 30)
	nb := drawNeighbour(x, 5)
	x.Sim(func() {
		nb.start(x)
		var w *watch
		if own {
			w = &watch{}
		}
		circ := spec.build(w)
		a := circ.Assign(split(in, sh.bN, sh.logChunks), sh.cores)
		checkAssignment(x, spec, sh, a, want)
	})
}

func checkAssignment(x *X, spec *CircS, sh Shape, a circuit.Assignment, want [][]fr.Element) {
	x.Evals++
	if len(a.Values) != len(want) {
		x.Failf("layers", "%d layers of values instead of %d: %s", len(a.Values), len(want), describe(spec, sh))
		return
	}
	for l := range want {
		expect := split(want[l], sh.bN, sh.logChunks)
		if len(expect) != len(a.Values[l]) {
			x.Failf("layout", "layer %d has %d chunks: %s", l, len(a.Values[l]), describe(spec, sh))
			return
		}
		for c := range expect {
			if len(expect[c]) != len(a.Values[l][c]) {
				x.Failf("layout", "layer %d chunk %d has %d values: %s", l, c, len(a.Values[l][c]), describe(spec, sh))
				return
			}
			for i := range expect[c] {
				if expect[c][i] != a.Values[l][c][i] {
					x.Failf("value", "layer %d chunk %d value %d is %s instead of %s: %s", l, c, i, a.Values[l][c][i].String(), expect[c][i].String(), describe(spec, sh))
					return
				}
			}
		}
	}
}
