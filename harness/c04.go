//go:build go1.21 && (p_all || p_c04)

package main

import (
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
)

func init() {
	props["C04"] = &Prop{
		ID: "C04", Quick: 18000, Deep: 720000,
		Rule: "A run assigns and proves a drawn batch with one chunk and one core, undisturbed, and then with one to three drawn chunkings, core counts and adversarial schedules; all values are compared.",
		Real: []string{"circuit", "gkr prover", "sumcheck", "polynomial", "hash", "common", "examples"},
		Stub: []string{"scheduler", "channels, sync, runtime", "crypto/rand source"},
		Run:  runC04,
	}
}

func runC04(x *X) {
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 6, bigPct: 1})
	var ref gkr.Proof
	var refVals [][]fr.Element
	x.Quiet(func() {
		circ := spec.build(nil)
		a := circ.Assign(split(in, sh.bN, 0), 1)
		for l := range a.Values {
			refVals = append(refVals, join(copy2(a.Values[l]), sh.bN))
		}
		p := gkr.NewProver(circ, a)
		ref = p.Prove(1)
	})
	if x.Failed() {
		return
	}
	n := 1 + x.Pick("more", 6, 3, 1)
	for k := 0; k < n && !x.Failed(); k++ {
		if k > 0 {
			sh.logChunks = x.I("logChunks"+itoa(k), 0, sh.bN)
			sh.cores = genCores(x, "again"+itoa(k), sh.chunks())
			if sh.bN > 8 {
				sh.logChunks = min(sh.logChunks, 2)
			}
		}
		assignCores := sh.cores
		if x.Chance("assignCores"+itoa(k), 30) {
			assignCores = genCores(x, "assign"+itoa(k), sh.chunks())
		}
		repeat := x.Chance("repeat"+itoa(k), 20)
		x.restart(itoa(k), 30)
		var nb *neighbour
		if k == 0 {
			nb = drawNeighbour(x, 12)
		}
		x.Sim(func() {
			nb.start(x)
			circ := spec.build(nil)
			a := circ.Assign(split(in, sh.bN, sh.logChunks), assignCores)
			x.Evals++
			if len(a.Values) != len(refVals) {
				x.Failf("layers", "%d layers of values instead of %d: %s", len(a.Values), len(refVals), describe(spec, sh))
				return
			}
			for l := range a.Values {
				if !chunked(a.Values[l], sh.bN, log2ceil(len(refVals[l]))-sh.bN) || len(a.Values[l]) != sh.chunks() {
					x.Failf("layout", "layer %d of the assignment has another layout: %s", l, describe(spec, sh))
					return
				}
				if !equalSlices(join(a.Values[l], sh.bN), refVals[l]) {
					x.Failf("assignment", "layer %d of the assignment differs: %s", l, describe(spec, sh))
					return
				}
			}
			times := 1
			if repeat {
				times = 2
			}
			for j := 0; j < times; j++ {
				p := gkr.NewProver(circ, a)
				proof := p.Prove(sh.cores)
				x.Evals++
				if !equalProofs(ref, proof) {
					x.Failf("proof", "proof %d differs at %s: %s", j, diffProofs(ref, proof), describe(spec, sh))
					return
				}
			}
		})
		x.Note("again with %v", sh)
	}
}
