//go:build go1.21 && (p_all || p_c03)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
)

func init() {
	props["C03"] = &Prop{
		ID: "C03", Quick: 40000, Deep: 2400000,
		Rule: "A Byzantine prover follows the protocol up to a drawn message and from then on sends values of its own that satisfy every check of the verifier except one drawn check (a round sum, a layer combination, an input evaluation), or all of them; a reference verifier that evaluates every check independently confirms what is violated, and the verifier of the code runs in the simulation.",
		Real: []string{"gkr verifier (and prover for the honest part)", "circuit", "sumcheck", "polynomial", "hash", "common"},
		Stub: []string{"the prover is a Byzantine prover of the harness", "scheduler", "channels, sync, runtime"},
		Run:  runC03,
	}
}

func runC03(x *X) {
	mode := x.Pick("mode", 4, 12, 3, 2, 3)
	var spec *CircS
	var sh Shape
	var in []fr.Element
	big := mode == 1 && x.Chance("mimc", 2)
	if big {
		spec = mimcSpec()
		sh = genShape(x, "", 2)
		in = x.Elems("inputs", 1<<(sh.bN+1))
		x.Probe("MiMC circuit")
	} else {
		spec = genCirc(x, "c.", circOpts{maxLayers: 8, maxWires: 5, linearL: mode == 1})
		sh = genShape(x, "", 3)
		if x.Chance("mid", 2) {
			sh.bN, sh.logChunks = x.I("mid.bN", 4, 6), min(sh.logChunks, 3)
		}
		in = x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In))
	}
	x.Note("%s", describe(spec, sh))
	bN := sh.bN
	n := len(spec.Layers)
	var base *Transcript
	x.Quiet(func() { base = honest(spec, sh, in) })
	if x.Failed() {
		return
	}
	x.restart("", 30)
	if !spec.refVerify(bN, base).ok { // another protocol, which nothing can be forged for
		mode = 0
		x.Probe("honest transcript that the reference verifier rejects")
	}
	var t *Transcript
	what := ""
	finding := ""
	switch mode {
	case 0: // honest
		t, what = base, "honest transcript"
	case 1: // every check but one
		checks := spec.checks(bN)
		target := -1
		if x.Chance("violate", 85) {
			target = drawCheck(x, "target", checks)
		}
		from := x.I("from", 0, len(checks)-1)
		if target >= 0 && (x.Chance("fromTarget", 50) || from > target) {
			from = target // honest up to the violation
		}
		if target >= 0 {
			what = fmt.Sprintf("every check but %v holds, honest up to message %d", checks[target], from)
		} else {
			what = fmt.Sprintf("every check holds, forged from message %d", from)
			finding = "forged"
		}
		if x.Chance("wrongOutputs", 30) { // the claim starts wrong
			base = base.copy()
			k := x.I("wrongOutput", 0, len(base.Outputs[0])-1)
			base.Outputs[0][k] = x.Elems("wrongOut", 1)[0]
			from = 0
		}
		t = forge(x, spec, bN, sh.logChunks, base, target, from, target >= 0 && x.Chance("keep", 5))
		if t == nil {
			x.Probe("no forgery with these circuits")
			return
		}
		x.Fault("Byzantine transcript")
	case 2: // wrong outputs or inputs with an honest proof for the right ones
		t = base.copy()
		g := x.RNG("wrong")
		if x.Chance("inputs", 40) {
			k := x.I("chunk", 0, len(t.Inputs)-1)
			e := x.I("entry", 0, len(t.Inputs[k])-1)
			t.Inputs[k][e] = randElem(g)
			what = "honest proof, another input"
		} else {
			k := x.I("chunk", 0, len(t.Outputs)-1)
			e := x.I("entry", 0, len(t.Outputs[k])-1)
			t.Outputs[k][e] = randElem(g)
			what = "honest proof, another output"
		}
		x.Fault("wrong statement")
	case 3: // outputs or inputs moved in the kernel of what the verifier evaluates
		t = base.copy()
		qPrime, q := initialPoint(bN, spec.Layers[n-1].Out)
		if x.Chance("inputs", 50) {
			v := join(t.Inputs, bN)
			bG := spec.Layers[0].In
			var pt []fr.Element
			for _, p := range t.Proof.SumcheckProofs[0].PolyCoeffs {
				pt = append(pt, refMimc(p))
			}
			wL := eqWeights(append(append([]fr.Element{}, pt[:bG]...), pt[2*bG:]...))
			wR := eqWeights(append(append([]fr.Element{}, pt[bG:2*bG]...), pt[2*bG:]...))
			if !kernelShift(v, wL, wR) {
				return
			}
			t.Inputs = split(v, bN, sh.logChunks)
			what, finding = "inputs moved in the kernel of both final evaluations", "inputs-not-bound"
		} else {
			v := join(t.Outputs, bN)
			if len(v) < 2 {
				return
			}
			w := eqWeights(append(append([]fr.Element{}, q...), qPrime...))
			// v0 += w1, v1 -= w0
			v[0].Add(&v[0], &w[1])
			v[1].Sub(&v[1], &w[0])
			t.Outputs = split(v, bN, sh.logChunks)
			what, finding = "outputs moved in the kernel of the initial evaluation", "outputs-not-bound"
		}
		x.Fault("statement adapted to the challenges")
	case 4: // values at random in the right shape
		t = base.copy()
		g := x.RNG("random")
		all := x.Chance("all", 30)
		for l := range t.Proof.SumcheckProofs {
			for _, p := range t.Proof.SumcheckProofs[l].PolyCoeffs {
				for k := range p {
					if all || g.N(40) == 0 {
						p[k] = randElem(g)
					}
				}
			}
			if all || g.N(8) == 0 {
				t.Proof.ClaimsLeft[l] = randElem(g)
			}
			if all || g.N(8) == 0 {
				t.Proof.ClaimsRight[l] = randElem(g)
			}
		}
		if x.Chance("zero", 10) { // an all-zero proof
			for l := range t.Proof.SumcheckProofs {
				for j, p := range t.Proof.SumcheckProofs[l].PolyCoeffs {
					t.Proof.SumcheckProofs[l].PolyCoeffs[j] = make([]fr.Element, len(p))
				}
				t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l] = fr.Element{}, fr.Element{}
			}
		}
		if x.Chance("surplus", 10) { // more coefficients than the degree allows, with the same sum
			l := x.I("surplusLayer", 0, n-1)
			if r := len(t.Proof.SumcheckProofs[l].PolyCoeffs); r > 0 {
				j := x.I("surplusRound", 0, r-1)
				p := t.Proof.SumcheckProofs[l].PolyCoeffs[j]
				d := randElem(g)
				p[len(p)-1].Sub(&p[len(p)-1], &d)
				t.Proof.SumcheckProofs[l].PolyCoeffs[j] = append(p, d)
			}
		}
		what = "random values"
		x.Fault("random transcript")
	}
	ref := spec.refVerify(bN, t)
	if mode == 1 && len(ref.failed) > 1 && !contains(ref.failed, "input") {
		// (with inputs kept, both input checks may fail)
		must(fmt.Errorf("C03: the forgery violates %v: %s: %s", ref.failed, what, describe(spec, sh)))
	}
	truth := equalSlices(join(t.Outputs, bN), spec.evalAll(bN, join(t.Inputs, bN))[n])
	verdict := false
	nb := drawNeighbour(x, 4)
	x.Sim(func() {
		nb.start(x)
		v := gkr.NewVerifier(bN, spec.build(nil))
		verdict = v.Verify(t.Proof, t.Inputs, t.Outputs)
	})
	if x.Failed() {
		return
	}
	x.Evals++
	if verdict && !ref.ok {
		x.Failf("check-not-enforced", "accepted although %v fails (%s): %s", ref.failed, what, describe(spec, sh))
		return
	}
	if verdict && !truth {
		if finding == "" {
			x.Failf("false-statement", "accepted outputs that are not the circuit's (%s): %s", what, describe(spec, sh))
		} else {
			x.Finding(finding, "accepted outputs that are not the circuit's (%s): %s", what, describe(spec, sh))
		}
		return
	}
	// The sumcheck verifier on its own: same rounds, and the challenges and final claim it derives.
	if mode == 1 || mode == 4 || mode == 0 {
		l := x.I("alone", 0, n-1)
		c03Alone(x, spec, bN, l, t.Proof.SumcheckProofs[l])
	}
	switch {
	case verdict:
		x.Probe("accepted transcript")
	case len(ref.failed) == 1:
		x.Probe("rejected with one violated check")
	case len(ref.failed) > 1:
		x.Probe("rejected with several violated checks")
	default:
		x.Probe("rejected although every check holds")
	}
}

// kernelShift moves three entries of v so that the products with both weights stay the same.
func kernelShift(v, a, b []fr.Element) bool {
	if len(v) < 3 {
		return false
	}
	// the cross product of the first three weights
	cross := func(i, j int) fr.Element {
		var p, q fr.Element
		p.Mul(&a[i], &b[j])
		q.Mul(&a[j], &b[i])
		p.Sub(&p, &q)
		return p
	}
	c := []fr.Element{cross(1, 2), cross(2, 0), cross(0, 1)}
	zero := true
	for i := range c {
		zero = zero && c[i].IsZero()
		v[i].Add(&v[i], &c[i])
	}
	return !zero
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == "left "+s || e == "right "+s {
			return true
		}
	}
	return false
}

// c03Alone drives the sumcheck verifier with a proof that starts from the claim it proves or from another one.
func c03Alone(x *X, c *CircS, bN, l int, proof sumcheck.Proof) {
	bG := c.Layers[l].In
	if len(proof.PolyCoeffs) == 0 {
		return
	}
	claim := refPoly(proof.PolyCoeffs[0], u64(0))
	s := refPoly(proof.PolyCoeffs[0], u64(1))
	claim.Add(&claim, &s)
	if x.Chance("aloneWrong", 40) {
		one := u64(1)
		claim.Add(&claim, &one)
	}
	want := true
	cur := claim
	var point []fr.Element
	for _, p := range proof.PolyCoeffs {
		a, b := refPoly(p, u64(0)), refPoly(p, u64(1))
		a.Add(&a, &b)
		want = want && a == cur
		r := refMimc(p)
		point = append(point, r)
		cur = refPoly(p, r)
	}
	var ok bool
	var qP, qL, qR []fr.Element
	var final fr.Element
	x.Sim(func() {
		ok, qP, qL, qR, final = sumcheck.Verifier{}.Verify(claim, proof, bN, bG)
	})
	if x.Failed() {
		return
	}
	x.Evals++
	if ok && !want {
		x.Failf("sumcheck-not-enforced", "the sumcheck verifier accepted rounds that do not add up: %d rounds of layer %d: %v", len(point), l, c)
	}
	if ok && want && (!equalSlices(qL, point[:bG]) || !equalSlices(qR, point[bG:2*bG]) || !equalSlices(qP, point[2*bG:]) || final != cur) {
		x.Failf("sumcheck-challenges", "the sumcheck verifier derived other challenges or another final claim: %d rounds of layer %d: %v", len(point), l, c)
	}
}
