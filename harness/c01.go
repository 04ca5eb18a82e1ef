//go:build go1.21 && (p_all || p_c01)

package main

import (
	"gkr-mimc/gkr"
)

func init() {
	props["C01"] = &Prop{
		ID: "C01", Quick: 24000, Deep: 960000,
		Rule: "A run draws a well-formed circuit (or MiMC), a batch, a chunking and a core count, then assigns, proves and verifies under a drawn scheduling policy, sometimes twice and sometimes beside another session of the process.",
		Real: []string{"circuit", "gkr prover and verifier", "sumcheck", "polynomial", "hash", "common", "examples"},
		Stub: []string{"scheduler", "channels, sync, runtime", "crypto/rand source", "some gates are user-defined gates of the harness"},
		Run:  runC01,
	}
}

func runC01(x *X) {
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 8, bigPct: 1})
	sessions := 1
	if x.Chance("twoSessions", 10) {
		sessions = 2
	}
	n := drawNeighbour(x, 12)
	x.Sim(func() {
		n.start(x)
		for k := 0; k < sessions; k++ {
			circ := spec.build(nil)
			inputs := split(in, sh.bN, sh.logChunks)
			assignment := circ.Assign(inputs, sh.cores)
			outputs := assignment.Values[len(assignment.Values)-1]
			prover := gkr.NewProver(circ, assignment)
			proof := prover.Prove(sh.cores)
			verifier := gkr.NewVerifier(sh.bN, circ)
			x.Evals++
			if !verifier.Verify(proof, inputs, outputs) {
				x.Failf("rejected", "honest proof rejected: session %d of %s", k, describe(spec, sh))
				return
			}
			if !equal2(inputs, split(in, sh.bN, sh.logChunks)) {
				x.Failf("statement", "the inputs were modified on the way: %s", describe(spec, sh))
				return
			}
		}
	})
}
