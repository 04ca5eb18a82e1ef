//go:build go1.21 && (p_all || p_c09)

package main

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	snarksum "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C09"] = &Prop{
		ID: "C09", Quick: 1600, Deep: 60000,
		Rule: "A native prover runs under a drawn schedule, chunking and core count; its transcript crosses the simulated network, unaltered, altered or with one protocol check violated on purpose, and is judged by the native verifier and by solving the constraint system of the in-circuit verifier. The same for single sumchecks, with the challenges and the final claim as witnesses.",
		Real: []string{"gkr prover and native verifier", "snark/gkr, snark/sumcheck, snark/polynomial, snark/hash", "sumcheck", "circuit", "polynomial", "hash", "examples", "gnark compiler and solver"},
		Stub: []string{"network between prover and verifier", "scheduler", "channels, sync, runtime", "Byzantine prover of the harness for transcripts that violate one check"},
		Run:  runC09,
	}
}

// sumCk is the in-circuit sumcheck verifier, with its results as witnesses.
type sumCk struct {
	Claim, Last frontend.Variable
	Proof       snarksum.Proof
	QL, QR, QP  []frontend.Variable
	bG          int
}

func newSumCk(bN, bG, dL, dR, dP int) sumCk {
	return sumCk{
		Proof: snarksum.AllocateProof(bN, bG, dL, dR, dP),
		QL:    make([]frontend.Variable, bG),
		QR:    make([]frontend.Variable, bG),
		QP:    make([]frontend.Variable, bN),
		bG:    bG,
	}
}

// Define implements frontend.Circuit
func (c *sumCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	hL, hR, hP, last := c.Proof.AssertValid(cs, c.Claim, c.bG)
	if len(hL) != len(c.QL) || len(hR) != len(c.QR) || len(hP) != len(c.QP) {
		return fmt.Errorf("the in-circuit verifier returns %d, %d and %d challenges instead of %d, %d and %d", len(hL), len(hR), len(hP), len(c.QL), len(c.QR), len(c.QP))
	}
	for i := range hL {
		cs.AssertIsEqual(hL[i], c.QL[i])
	}
	for i := range hR {
		cs.AssertIsEqual(hR[i], c.QR[i])
	}
	for i := range hP {
		cs.AssertIsEqual(hP[i], c.QP[i])
	}
	cs.AssertIsEqual(last, c.Last)
	return nil
}

func runC09(x *X) {
	if x.Chance("sumcheck", 55) {
		c09Sumcheck(x)
		return
	}
	bN := x.Pick("bN", 10, 30, 40, 27, 2, 1)
	spec := mimcSpec()
	sh := Shape{bN: bN, logChunks: x.I("logChunks", 0, bN)}
	sh.cores = genCores(x, "", sh.chunks())
	in := x.Elems("inputs", 1<<(bN+1))
	in2 := x.Elems("inputs2", len(in))
	x.Note("%s", describe(spec, sh))
	tpl := newGkrCk(bN)
	sys, err := compile(fmt.Sprint("gkr", bN), &tpl)
	if err != nil {
		x.Failf("compile", "the in-circuit verifier for bN=%d does not compile: %v", bN, err)
		return
	}
	mode := x.Pick("mode", 4, 5, 5)
	o := drawNet(x)
	var base, got *Transcript
	var what []string
	verdict := false
	qPrime, q := initialPoint(bN, 0)
	if len(q) != 0 || len(qPrime) != bN {
		x.Failf("point", "the initial point has %d and %d coordinates for bN=%d", len(qPrime), len(q), bN)
		return
	}
	x.Sim(func() {
		base = honest(spec, sh, in)
		t := base
		switch mode {
		case 1:
			frames := t.frames(0)
			var other []frame
			if x.Chance("foreign", 30) {
				other = honest(spec, sh, in2).frames(1)
			}
			for k := 1 + x.Pick("more", 8, 2); k > 0; k-- {
				what = append(what, tamper(x, "tamper"+itoa(k), frames, other))
			}
			t = t.skeleton().assemble(0, frames)
		case 2:
			checks := spec.checks(bN)
			target := -1
			if x.Chance("violate", 85) {
				target = drawCheck(x, "target", checks)
			}
			from := x.I("from", 0, len(checks)-1)
			if target >= 0 {
				from = min(from, target)
				what = append(what, fmt.Sprintf("every check but %v holds", checks[target]))
			} else {
				what = append(what, "every check holds")
			}
			x.Fault("Byzantine transcript")
			if f := forge(x, spec, bN, sh.logChunks, base, target, from, false); f != nil {
				t = f
			}
		}
		frames := t.frames(0)
		wire := make(chan frame, 4)
		fates := o.fates(x, "net", len(frames))
		zzsim.GoHarness(func() { x.link(frames, fates, wire) })
		got = t.skeleton().assemble(0, x.receive(len(frames), wire))
		v := gkr.NewVerifier(bN, spec.build(nil))
		verdict = v.Verify(got.Proof, got.Inputs, got.Outputs)
	})
	if x.Failed() {
		return
	}
	w := newGkrCk(bN)
	w.Proof.Assign(got.Proof)
	assignAll(w.QInitialprime, qPrime)
	w.VInput.AssignFromChunkedBKT(got.Inputs)
	w.VOutput.AssignFromChunkedBKT(got.Outputs)
	ok, err := solved(sys, &w)
	if err != nil {
		x.Failf("witness", "the transcript cannot be assigned to the in-circuit verifier: %v", err)
		return
	}
	x.Evals++
	x.Note("%s", strings.Join(what, "; "))
	name := map[bool]string{true: "accepts", false: "rejects"}
	if ok != verdict {
		x.Failf("verdicts", "the in-circuit verifier %s, the native one %s (%s): %s", name[ok], name[verdict], strings.Join(what, "; "), describe(spec, sh))
		return
	}
	if got.equal(base) && !ok {
		x.Failf("rejected", "both verifiers reject an honest transcript: %s", describe(spec, sh))
	}
	if mode == 1 && !got.equal(base) && ok && !strings.Contains(strings.Join(what, ";"), "another session") {
		x.Failf("accepted", "both verifiers accept an altered transcript (%s): %s", strings.Join(what, "; "), describe(spec, sh))
	}
	x.Probe(fmt.Sprintf("both verifiers: %s", map[bool]string{true: "accepted", false: "rejected"}[ok]))
	if mode == 2 {
		c09Volley(x, spec, sh, sys, qPrime, base)
	}
}

// c09Volley has both verifiers judge more transcripts that violate one check each: with 91 layers a
// check that one of them skips somewhere is met only by aiming at every layer.
func c09Volley(x *X, spec *CircS, sh Shape, sys r1cs.R1CS, qPrime []fr.Element, base *Transcript) {
	checks := spec.checks(sh.bN)
	var comb []int
	for i, c := range checks {
		if c.layer >= 0 && c.round < 0 {
			comb = append(comb, i)
		}
	}
	for k, n := 0, x.I("volley", 0, 8); k < n && !x.Failed(); k++ {
		p := "shot" + itoa(k)
		target := x.I(p, 0, len(checks)-1)
		if x.Chance(p+"combination", 50) {
			target = comb[target%len(comb)]
		}
		t := forge(x, spec, sh.bN, sh.logChunks, base, target, target, false)
		if t == nil {
			continue
		}
		x.Fault("Byzantine transcript")
		verdict := false
		x.Quiet(func() {
			v := gkr.NewVerifier(sh.bN, spec.build(nil))
			verdict = v.Verify(t.Proof, t.Inputs, t.Outputs)
		})
		if x.Failed() {
			return
		}
		w := newGkrCk(sh.bN)
		w.Proof.Assign(t.Proof)
		assignAll(w.QInitialprime, qPrime)
		w.VInput.AssignFromChunkedBKT(t.Inputs)
		w.VOutput.AssignFromChunkedBKT(t.Outputs)
		ok, err := solved(sys, &w)
		if err != nil {
			x.Failf("witness", "the transcript cannot be assigned to the in-circuit verifier: %v", err)
			return
		}
		x.Evals++
		if ok != verdict {
			name := map[bool]string{true: "accepts", false: "rejects"}
			x.Failf("verdicts", "the in-circuit verifier %s, the native one %s (every check but %v holds): %s", name[ok], name[verdict], checks[target], describe(spec, sh))
			return
		}
		x.Probe("volley: both verifiers: " + map[bool]string{true: "accepted", false: "rejected"}[ok])
	}
}

// c09Sumcheck compares the sumcheck verifiers on one sumcheck.
func c09Sumcheck(x *X) {
	s := &sumcheckTables{bN: x.I("bN", 0, 3), bG: x.Pick("bG", 1, 4, 2)}
	if x.Chance("large", 5) {
		s.bN = x.I("largeBN", 4, 6)
	}
	if s.bN+s.bG == 0 {
		s.bN = 1
	}
	kinds := []string{"copy", "mul", "cipher", "sq"}
	nGates := x.I("gates", 1, 2)
	for i := 0; i < nGates; i++ {
		g := GateS{Kind: kinds[x.I(fmt.Sprintf("gate%d", i), 0, len(kinds)-1)]}
		if g.Kind == "cipher" {
			g.C[0] = x.Elems(fmt.Sprintf("ark%d", i), 1)[0]
		}
		s.gates = append(s.gates, g)
		s.statics = append(s.statics, x.Elems(fmt.Sprintf("static%d", i), 1<<(2*s.bG)))
	}
	s.vL, s.vR, s.eq = x.Elems("vL", 1<<(s.bN+s.bG)), x.Elems("vR", 1<<(s.bN+s.bG)), x.Elems("eq", 1<<s.bN)
	logChunks := x.I("logChunks", 0, s.bN)
	cores := genCores(x, "", 1<<logChunks)
	dL, dR, dP := s.degrees()
	tpl := newSumCk(s.bN, s.bG, dL, dR, dP)
	key := fmt.Sprint("sum", s.bN, s.bG, dL, dR, dP)
	sys, err := compile(key, &tpl)
	if err != nil {
		x.Failf("compile", "the in-circuit sumcheck verifier does not compile (%s): %v", key, err)
		return
	}
	x.Note("sumcheck bN=%d bG=%d degrees %d,%d,%d chunks=%d cores=%d", s.bN, s.bG, dL, dR, dP, 1<<logChunks, cores)
	var proof sumcheck.Proof
	var claim, final fr.Element
	var qP, qL, qR []fr.Element
	verdict := false
	what := "unaltered"
	shaped := true
	tables := asTables
	x.Sim(func() {
		p := sumcheck.NewMultiThreadedProver(tables(split(s.vL, s.bN, logChunks)), tables(split(s.vR, s.bN, logChunks)),
			tables(split(s.eq, s.bN, logChunks)), gatesOf(s.gates), tables(s.statics))
		claim = p.GetClaim(cores)
		proof, _, _, _, _ = p.Prove(cores)
		if n := len(proof.PolyCoeffs); n != s.bN+2*s.bG {
			shaped = false
			return
		}
		t := &Transcript{Proof: gkr.Proof{SumcheckProofs: []sumcheck.Proof{proof}, ClaimsLeft: make([]fr.Element, 1), ClaimsRight: make([]fr.Element, 1)}}
		frames := t.frames(0)
		if x.Chance("alter", 50) {
			what = tamper(x, "tamper", frames[:len(frames)-1], nil)
			proof = t.skeleton().assemble(0, frames).Proof.SumcheckProofs[0]
		}
		switch x.Pick("claim", 8, 1, 1) {
		case 1:
			one := u64(1)
			claim.Add(&claim, &one)
			what += ", another claim"
			x.Fault("value shifted")
		case 2: // a later round with another sum
			j := x.I("round", 0, len(proof.PolyCoeffs)-1)
			one := u64(1)
			proof.PolyCoeffs[j][0].Add(&proof.PolyCoeffs[j][0], &one)
			what += fmt.Sprintf(", round %d shifted", j)
			x.Fault("value shifted")
		}
		verdict, qP, qL, qR, final = sumcheck.Verifier{}.Verify(claim, proof, s.bN, s.bG)
	})
	if x.Failed() {
		return
	}
	if !shaped {
		x.Failf("shape", "the proof has %d rounds instead of %d", len(proof.PolyCoeffs), s.bN+2*s.bG)
		return
	}
	for j, p := range proof.PolyCoeffs {
		d := dP
		if j < s.bG {
			d = dL
		} else if j < 2*s.bG {
			d = dR
		}
		if len(p) != d+1 {
			x.Failf("shape", "round %d of the proof has %d coefficients instead of %d", j, len(p), d+1)
			return
		}
	}
	w := newSumCk(s.bN, s.bG, dL, dR, dP)
	w.Proof.Assign(proof)
	// the challenges of the definition when the native verifier gave none
	point := make([]fr.Element, len(proof.PolyCoeffs))
	for j, p := range proof.PolyCoeffs {
		point[j] = refMimc(p)
	}
	last := refPoly(proof.PolyCoeffs[len(point)-1], point[len(point)-1])
	if verdict {
		point = append(append(append([]fr.Element{}, qL...), qR...), qP...)
		last = final
		if len(qL) != s.bG || len(qR) != s.bG || len(qP) != s.bN {
			x.Failf("challenges", "the native verifier returned %d, %d and %d challenges for bN=%d bG=%d", len(qL), len(qR), len(qP), s.bN, s.bG)
			return
		}
	}
	expect := verdict
	switch k := x.Pick("witness", 12, 1, 1); {
	case k == 1: // a challenge that is not the one derived
		j := x.I("wrongChallenge", 0, len(point)-1)
		one := u64(1)
		point[j].Add(&point[j], &one)
		what += fmt.Sprintf(", challenge %d shifted", j)
		expect = false
		x.Fault("value shifted")
	case k == 2:
		one := u64(1)
		last.Add(&last, &one)
		what += ", final claim shifted"
		expect = false
		x.Fault("value shifted")
	}
	w.Claim.Assign(claim)
	w.Last.Assign(last)
	assignAll(w.QL, point[:s.bG])
	assignAll(w.QR, point[s.bG:2*s.bG])
	assignAll(w.QP, point[2*s.bG:])
	ok, err := solved(sys, &w)
	if err != nil {
		x.Failf("witness", "the proof cannot be assigned to the in-circuit sumcheck verifier: %v", err)
		return
	}
	x.Evals++
	x.Probe(fmt.Sprintf("sumcheck verifiers agree: %v", ok))
	if ok != expect {
		x.Failf("sumcheck-verdicts", "in-circuit sumcheck verifier: %v, native: %v, expected %v (%s): %s", ok, verdict, expect, what, strings.Join(x.trace, "; "))
	}
}
