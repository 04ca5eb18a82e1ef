//go:build go1.21 && (p_all || p_c02)

package main

import (
	"strings"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C02"] = &Prop{
		ID: "C02", Quick: 20000, Deep: 840000,
		Rule: "Two provers send their transcripts frame by frame over a simulated network that loses (and retransmits), repeats, delays and reorders frames and, in most runs, alters some values; a shared verifier judges what arrives, concurrently for both sessions. What arrives unaltered must be accepted, everything else rejected.",
		Real: []string{"gkr prover and verifier", "circuit", "sumcheck", "polynomial", "hash", "common", "examples"},
		Stub: []string{"scheduler", "network between prover and verifier", "clock", "channels, sync, runtime"},
		Run:  runC02,
	}
}

// equalMessages tells whether t is h but for its inputs, and two round polynomials of layer 0 are the same, and therefore their challenges:
// the evaluations of the inputs then do not tell apart positions that differ in the order of these coordinates only. It is a recorded finding.
func equalMessages(spec *CircS, bN int, t, h *Transcript) bool {
	u := t.copy()
	u.Inputs = copy2(h.Inputs)
	if !u.equal(h) || !spec.refVerify(bN, t).ok {
		return false
	}
	p := t.Proof.SumcheckProofs[0].PolyCoeffs
	for i := range p {
		for j := range p[:i] {
			if equalSlices(p[i], p[j]) {
				return true
			}
		}
	}
	return false
}

// c02Degenerate alters inputs of a batch whose round polynomials are all zero.
func c02Degenerate(x *X) {
	spec := genCirc(x, "degenerate.", circOpts{maxLayers: 2, maxB: 2, maxWires: 3, only: []string{"add", "mul"}})
	sh := genShape(x, "degenerate.", 3)
	n := 1 << (sh.bN + spec.Layers[0].In)
	i, j := x.I("degenerate.i", 0, n-1), x.I("degenerate.j", 0, n-1)
	if i == j {
		return
	}
	x.Note("all inputs zero, %d and %d changed in opposite directions: %s", i, j, describe(spec, sh))
	verdict := false
	var h, t *Transcript
	x.Sim(func() {
		h = honest(spec, sh, make([]fr.Element, n))
		t = h.copy()
		in := join(t.Inputs, sh.bN)
		d := u64(1)
		in[i].Add(&in[i], &d)
		in[j].Sub(&in[j], &d)
		t.Inputs = split(in, sh.bN, sh.logChunks)
		x.Fault("compensating change")
		v := gkr.NewVerifier(sh.bN, spec.build(nil))
		verdict = v.Verify(t.Proof, t.Inputs, t.Outputs)
	})
	if x.Failed() {
		return
	}
	x.Evals++
	if verdict {
		if equalMessages(spec, sh.bN, t, h) {
			x.Finding("equal-messages", "accepted inputs %d and %d changed in opposite directions: %s", i, j, describe(spec, sh))
		} else {
			x.Failf("accepted", "accepted inputs %d and %d changed in opposite directions: %s", i, j, describe(spec, sh))
		}
	}
}

func runC02(x *X) {
	if x.Chance("degenerate", 1) {
		c02Degenerate(x)
		return
	}
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 4, mimcBN: 2, maxBN: 3, circ: circOpts{maxLayers: 5}})
	in2 := x.Elems("inputs2", len(in))
	if x.Chance("nearby", 40) { // the other session differs in one value only
		copy(in2, in)
		k := x.I("nearbyAt", 0, len(in2)-1)
		one := u64(1)
		in2[k].Add(&in2[k], &one)
	}
	o := drawNet(x)
	nTamper := x.Pick("tampers", 2, 10, 3, 2)
	// deliveries of session 0 to the same verifier: the first may come unaltered, the others not
	deliveries := 1 + x.Pick("deliveries", 6, 3, 1)
	firstAltered := deliveries == 1 || x.Chance("firstAltered", 30)
	inPlace := x.Chance("inPlace", 40) // the receiver writes a delivery over the one before
	var honestT [2]*Transcript
	type delivery struct {
		session  int
		t        *Transcript
		verdict  bool
		tampered []string
	}
	var delivered []*delivery
	nb := drawNeighbour(x, 8)
	x.Sim(func() {
		nb.start(x)
		circ := spec.build(nil)
		verifier := gkr.NewVerifier(sh.bN, circ)
		// the provers
		ready := make(chan int, 2)
		for s := 0; s < 2; s++ {
			s := s
			zzsim.GoHarness(func() {
				v := in
				if s == 1 {
					v = in2
				}
				a := circ.Assign(split(v, sh.bN, sh.logChunks), sh.cores)
				p := gkr.NewProver(circ, a)
				honestT[s] = &Transcript{Proof: p.Prove(sh.cores), Inputs: copy2(a.Values[0]), Outputs: copy2(a.Values[len(a.Values)-1])}
				zzsim.Send(ready, s)
			})
		}
		zzsim.Recv(ready)
		zzsim.Recv(ready)
		fr0, fr1 := honestT[0].frames(0), honestT[1].frames(1)
		session := func(s, n int) {
			var buf *Transcript
			for k := 0; k < n; k++ {
				frames := [][]frame{fr0, fr1}[s]
				d := &delivery{session: s}
				if s == 0 && (k > 0 || firstAltered) {
					frames = honestT[0].frames(0)
					for i := 0; i < nTamper; i++ {
						name := "tamper" + itoa(i)
						if k > 0 {
							name += "." + itoa(k)
						}
						d.tampered = append(d.tampered, tamper(x, name, frames, fr1))
					}
				}
				name := itoa(s)
				if k > 0 {
					name += "." + itoa(k)
				}
				wire := make(chan frame, 4)
				fates := o.fates(x, name, len(frames))
				zzsim.GoHarness(func() { x.link(frames, fates, wire) })
				arrived := x.receive(len(frames), wire)
				for i := range arrived {
					if arrived[i].key() != frames[i].key() {
						x.Fault("message reordering")
						break
					}
				}
				d.t = honestT[s].skeleton().assemble(s, arrived)
				in := d.t.copy()
				if inPlace {
					if buf == nil {
						buf = d.t.copy()
					} else {
						buf.overwrite(d.t)
					}
					in = buf
				}
				d.verdict = verifier.Verify(in.Proof, in.Inputs, in.Outputs)
				delivered = append(delivered, d)
				if s == 0 && n > 1 {
					x.Fault("repeated delivery")
				}
				x.Evals++
			}
		}
		zzsim.GoHarness(func() { session(0, deliveries) })
		zzsim.GoHarness(func() { session(1, 1) })
	})
	if x.Failed() {
		return
	}
	for _, d := range delivered {
		what := strings.Join(d.tampered, "; ")
		x.Note("session %d altered: %s", d.session, what)
		same := d.t.equal(honestT[d.session])
		if d.t.equal(honestT[1]) {
			same = true
		}
		switch {
		case same && !d.verdict:
			x.Failf("rejected", "an unaltered transcript was rejected: %s", describe(spec, sh))
		case !same && d.verdict && equalMessages(spec, sh.bN, d.t, honestT[d.session]):
			x.Finding("equal-messages", "an altered transcript was accepted (%s): %s", what, describe(spec, sh))
		case !same && d.verdict:
			x.Failf("accepted", "an altered transcript was accepted (%s), delivery of %d: %s", what, deliveries, describe(spec, sh))
		case same:
			x.Probe("transcript unaltered")
		default:
			x.Probe("altered transcript rejected")
		}
	}
}
