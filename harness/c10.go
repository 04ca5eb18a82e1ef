//go:build go1.21 && (p_all || p_c10)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
)

func init() {
	props["C10"] = &Prop{
		ID: "C10", Quick: 90000, Deep: 3600000,
		Rule: "A run draws operand, equality and static tables, gates, a chunking and core counts; the parallel prover under a drawn schedule, the sequential prover and a naive reference compute claim, proof, challenges and final claims. A fraction of the runs takes the sumchecks of a GKR proof instead.",
		Real: []string{"sumcheck provers and verifier", "polynomial", "circuit gates", "hash", "common"},
		Stub: []string{"scheduler", "channels, sync, runtime", "some gates are user-defined gates of the harness"},
		Run:  runC10,
	}
}

func runC10(x *X) {
	if x.Chance("gkr", 15) {
		gkrClaims(x)
		return
	}
	s := &sumcheckTables{bN: x.I("bN", 0, 5), bG: x.Pick("bG", 2, 4, 2)}
	if x.Chance("large", 3) {
		s.bN = x.I("largeBN", 6, 9)
		s.bG = min(s.bG, 1)
	}
	maxGates := 4
	switch x.Pick("wide", 150, 4, 4, 1, 1) {
	case 3:
		s.bG, s.bN, maxGates = 5, min(s.bN, 2), 2
	case 4:
		maxGates = 90
		s.bN, s.bG = min(s.bN, 3), min(s.bG, 1)
	case 1:
		s.bG, s.bN = x.I("wideBG", 3, 4), min(s.bN, 2)
	case 2:
		maxGates = 16
		s.bN = min(s.bN, 3)
	}
	logChunks := x.I("logChunks", 0, s.bN)
	cores := genCores(x, "", 1<<logChunks)
	kinds := allKinds
	nGates := x.I("gates", 1, maxGates)
	own := x.Chance("ownGates", 25)
	var gates []circuit.Gate
	for i := 0; i < nGates; i++ {
		g := GateS{Kind: kinds[x.I(fmt.Sprintf("gate%d", i), 0, len(kinds)-1)]}
		switch g.Kind {
		case "cipher", "const":
			g.C[0] = x.Elems(fmt.Sprintf("ark%d", i), 1)[0]
		case "bilin":
			for j := range g.C {
				g.C[j] = u64(uint64(x.I(fmt.Sprintf("c%d.%d", i, j), 0, 4)))
			}
		case "pow", "powL", "right":
			g.K = x.I(fmt.Sprintf("pow%d", i), 1, 9)
		}
		s.gates = append(s.gates, g)
		if own {
			gates = append(gates, &hGate{s: g})
		} else {
			gates = append(gates, g.gate(nil))
		}
		st := x.Elems(fmt.Sprintf("static%d", i), 1<<(2*s.bG))
		if x.Chance(fmt.Sprintf("wires%d", i), 40) { // as a layer with few wires gives
			keep := x.I(fmt.Sprintf("wire%d", i), 0, len(st)-1)
			for k := range st {
				if k != keep {
					st[k] = fr.Element{}
				}
			}
			x.Probe("sparse static table")
		}
		s.statics = append(s.statics, st)
	}
	s.vL, s.vR = x.Elems("vL", 1<<(s.bN+s.bG)), x.Elems("vR", 1<<(s.bN+s.bG))
	if x.Chance("trueEq", 50) {
		s.eq = eqWeights(x.Elems("q", s.bN))
	} else {
		s.eq = x.Elems("eq", 1<<s.bN)
	}
	what := fmt.Sprintf("bN=%d bG=%d chunks=%d cores=%d gates=%v", s.bN, s.bG, 1<<logChunks, cores, kindsOf(s.gates))
	x.Note("%s", what)
	claimFirst := x.Chance("claimFirst", 50)

	type result struct {
		claim      fr.Element
		proof      sumcheck.Proof
		qP, qL, qR []fr.Element
		final      []fr.Element
	}
	var par, seq result
	statics := func() []polynomial.BookKeepingTable { return asTables(s.statics) }
	nb := drawNeighbour(x, 4)
	x.Sim(func() {
		nb.start(x)
		p := sumcheck.NewMultiThreadedProver(asTables(split(s.vL, s.bN, logChunks)), asTables(split(s.vR, s.bN, logChunks)),
			asTables(split(s.eq, s.bN, logChunks)), gates, statics())
		if claimFirst {
			par.claim = p.GetClaim(cores)
		}
		par.proof, par.qP, par.qL, par.qR, par.final = p.Prove(cores)
		if !claimFirst {
			p = sumcheck.NewMultiThreadedProver(asTables(split(s.vL, s.bN, logChunks)), asTables(split(s.vR, s.bN, logChunks)),
				asTables(split(s.eq, s.bN, logChunks)), gates, statics())
			par.claim = p.GetClaim(cores)
		}
	})
	if x.Failed() {
		return
	}
	x.Quiet(func() {
		tab := func(t []fr.Element) polynomial.BookKeepingTable {
			return polynomial.NewBookKeepingTable(append([]fr.Element{}, t...))
		}
		p := sumcheck.NewSingleThreadedProver(tab(s.vL), tab(s.vR), tab(s.eq), gates, statics())
		seq.claim = p.GetClaim()
		seq.proof, seq.qP, seq.qL, seq.qR, seq.final = p.Prove()
	})
	if x.Failed() {
		return
	}
	// the reference
	ref := result{claim: s.claim()}
	t := s
	cur := ref.claim
	var point []fr.Element
	for j := 0; j < s.bN+2*s.bG; j++ {
		p := t.roundPoly(j)
		ref.proof.PolyCoeffs = append(ref.proof.PolyCoeffs, p)
		r := refMimc(p)
		point = append(point, r)
		t = t.fold(j, r)
		cur = refPoly(p, r)
	}
	ref.qL, ref.qR, ref.qP = point[:s.bG], point[s.bG:2*s.bG], point[2*s.bG:]
	ref.final = []fr.Element{t.vL[0], t.vR[0], t.eq[0]}
	for i := range t.statics {
		ref.final = append(ref.final, t.statics[i][0])
	}
	cmp := func(name string, g *result) {
		x.Evals++
		switch {
		case g.claim != ref.claim:
			x.Failf("claim", "%s: the claim is %s instead of %s: %s", name, g.claim.String(), ref.claim.String(), what)
		case !equal2(g.proof.PolyCoeffs, ref.proof.PolyCoeffs):
			j := 0
			for j < len(ref.proof.PolyCoeffs) && j < len(g.proof.PolyCoeffs) && equalSlices(g.proof.PolyCoeffs[j], ref.proof.PolyCoeffs[j]) {
				j++
			}
			x.Failf("round", "%s: the polynomial of round %d is not the partial sum (%d rounds): %s", name, j, len(g.proof.PolyCoeffs), what)
		case !equalSlices(g.qL, ref.qL) || !equalSlices(g.qR, ref.qR) || !equalSlices(g.qP, ref.qP):
			x.Failf("challenges", "%s: other challenges: %s", name, what)
		case !equalSlices(g.final, ref.final):
			x.Failf("final", "%s: the final claims are not the evaluations at the challenge point: %s", name, what)
		}
	}
	cmp("parallel prover", &par)
	cmp("sequential prover", &seq)
	if x.Failed() {
		return
	}
	var ok bool
	var qP, qL, qR []fr.Element
	var final fr.Element
	x.Quiet(func() { ok, qP, qL, qR, final = sumcheck.Verifier{}.Verify(ref.claim, par.proof, s.bN, s.bG) })
	if x.Failed() {
		return
	}
	if !ok || final != cur || !equalSlices(qP, ref.qP) || !equalSlices(qL, ref.qL) || !equalSlices(qR, ref.qR) {
		x.Failf("verifier", "the sumcheck verifier says %v, or derives another point or final claim: %s", ok, what)
		return
	}
	sum := t.sum(1, 1)
	if final != sum {
		x.Failf("verifier", "the final claim is not the combination of the final evaluations: %s", what)
	}
	var comb fr.Element
	x.Quiet(func() {
		comb = circuit.EvaluateCombinator(&par.final[0], &par.final[1], &par.final[2], gates, par.final[3:])
	})
	if comb != sum {
		x.Failf("verifier", "the combinator of the final claims is not the final claim: %s", what)
	}
}

func kindsOf(g []GateS) []string {
	var out []string
	for i := range g {
		out = append(out, g[i].Kind)
	}
	return out
}

// gkrClaims checks the sumchecks a GKR prover sets up.
func gkrClaims(x *X) {
	spec := genCirc(x, "c.", circOpts{maxLayers: 3, maxWires: 5})
	sh := genShape(x, "", 3)
	in := x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In))
	layer := x.I("layer", 0, len(spec.Layers)-1)
	l := spec.Layers[layer]
	qP, qL, qR := x.Elems("qP", sh.bN), x.Elems("qL", l.Out), x.Elems("qR", l.Out)
	lam := x.Elems("lambda", 2)
	what := fmt.Sprintf("layer %d of %s", layer, describe(spec, sh))
	x.Note("%s", what)
	vals := spec.evalAll(sh.bN, in)
	last := layer == len(spec.Layers)-1 && x.Chance("initial", 60)
	var claim fr.Element
	var proof sumcheck.Proof
	var finals []fr.Element
	nb := drawNeighbour(x, 8)
	x.Sim(func() {
		nb.start(x)
		circ := spec.build(nil)
		a := circ.Assign(split(in, sh.bN, sh.logChunks), sh.cores)
		p := gkr.NewProver(circ, a)
		var sp sumcheck.MultiThreadedProver
		if last {
			sp = p.InitialRoundSumcheckProver(qP, qL, sh.cores)
		} else {
			sp = p.IntermediateRoundsSumcheckProver(layer, qP, qL, qR, lam[0], lam[1], sh.cores)
		}
		claim = sp.GetClaim(sh.cores)
		proof, _, _, _, finals = sp.Prove(sh.cores)
	})
	if x.Failed() {
		return
	}
	x.Evals++
	qs, lambdas := [][]fr.Element{qL, qR}, []fr.Element{lam[0], lam[1]}
	if last {
		qs, lambdas = qs[:1], []fr.Element{u64(1)}
	}
	// the claim is the combination of evaluations of the layer above
	var want fr.Element
	for k := range qs {
		v := refMLE(vals[layer+1], append(append([]fr.Element{}, qs[k]...), qP...))
		v.Mul(&v, &lambdas[k])
		want.Add(&want, &v)
	}
	if claim != want {
		x.Failf("claim", "the claim is not the value of the layer above: %s", what)
		return
	}
	s := spec.tables(sh.bN, layer, vals[layer], qs, lambdas, qP)
	t := s
	for j := range proof.PolyCoeffs {
		p := t.roundPoly(j)
		if !equalSlices(p, proof.PolyCoeffs[j]) {
			x.Failf("round", "the polynomial of round %d is not the partial sum: %s", j, what)
			return
		}
		t = t.fold(j, refMimc(p))
	}
	if len(proof.PolyCoeffs) != s.bN+2*s.bG || len(finals) < 3 || finals[0] != t.vL[0] || finals[1] != t.vR[0] || finals[2] != t.eq[0] {
		x.Failf("final", "the final claims are not the evaluations at the challenge point: %s", what)
	}
}
