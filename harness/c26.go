//go:build go1.21 && (p_all || p_c26)

package main

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"

	"gkr-mimc/gkr"
	snarkgkr "gkr-mimc/snark/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C26"] = &Prop{
		ID: "C26", Quick: 240, Deep: 12000,
		Rule: "A circuit with as many layers as the in-circuit verifier checks is drawn, with its own widths, wires and gates in every layer, and given to the native code (wires) and to the in-circuit verifier (gates and static tables). A transcript made under a drawn schedule, chunking and core count crosses the simulated network; it and a volley of altered transcripts, transcripts that violate one check and transcripts of other statements are judged by the native verifier and by solving the constraint system. In a part of the runs one constraint system verifies two transcripts.",
		Real: []string{"gkr prover and native verifier", "snark/gkr, snark/sumcheck, snark/polynomial, snark/hash", "sumcheck", "circuit", "polynomial", "hash", "gnark compiler and solver"},
		Stub: []string{"network between prover and verifier", "scheduler", "channels, sync, runtime", "static tables and user-defined gates of the harness in the circuit", "Byzantine prover of the harness"},
		Run:  runC26,
	}
}

// genDeep draws a circuit of as many layers as the in-circuit verifier checks.
func genDeep(x *X, bN int) *CircS {
	g := x.RNG("deep")
	c := &CircS{}
	// how expensive the layers may be
	wide := x.Pick("wide", 4, 4, 2)
	budget := 700
	kinds := []string{"copy", "add", "mul", "bilin", "cipher", "pow", "powL", "right"}
	nGates := x.I("gates", 1, 7)
	for i := 0; i < nGates; i++ {
		k := GateS{Kind: kinds[x.I("gate"+itoa(i), 0, len(kinds)-1)]}
		switch k.Kind {
		case "cipher":
			k.C[0] = randElem(g)
		case "bilin":
			for j := range k.C {
				k.C[j] = u64(g.U() % 4)
			}
		case "pow", "powL", "right":
			k.K = x.I("pow"+itoa(i), 1, 3)
		}
		c.Gates = append(c.Gates, k)
	}
	cheap := len(c.Gates)
	c.Gates = append(c.Gates, GateS{Kind: "copy"}, GateS{Kind: "add"}, GateS{Kind: "mul"})
	b := make([]int, refRounds+1)
	for i := range b {
		switch p := g.U() % 100; {
		case wide > 0 && p < 25, i == 0 && x.Chance("wideInputs", 70), i == refRounds && x.Chance("wideOutputs", 50):
			b[i] = 1
		case wide > 1 && p < 32:
			b[i] = 2
		}
	}
	for i := 0; i < refRounds; i++ {
		l := LayerS{In: b[i], Out: b[i+1]}
		w := func(any bool) {
			s := WireS{L: int(g.U() % (1 << l.In)), R: int(g.U() % (1 << l.In)), O: int(g.U() % (1 << l.Out)), G: cheap + int(g.U()%3)}
			if any {
				s.G = int(g.U() % uint64(cheap))
			}
			l.Wires = append(l.Wires, s)
		}
		n := 1 + int(g.U()%3)
		if i == 0 || i == refRounds-1 {
			n++
		}
		for k := 0; k < n; k++ {
			w(g.U()%3 == 0)
		}
		// the widths follow from the largest positions
		if l.In > 0 {
			if k := g.U() % uint64(n); g.U()%2 == 0 {
				l.Wires[k].L |= 1 << (l.In - 1)
			} else {
				l.Wires[k].R |= 1 << (l.In - 1)
			}
		}
		if l.Out > 0 {
			l.Wires[g.U()%uint64(n)].O |= 1 << (l.Out - 1)
		}
		c.Layers = append(c.Layers, l)
		cost := func() int {
			dL, dR, dP := c.degreesOf(i)
			return l.In*(dL+dR+4) + bN*(dP+2) + 2
		}
		if k := cost(); budget-k < 6*(refRounds-i) { // then with cheap gates only
			for j := range c.Layers[i].Wires {
				c.Layers[i].Wires[j].G = cheap + c.Layers[i].Wires[j].G%2
			}
		}
		budget -= cost()
	}
	return c
}

// twoCk verifies several transcripts of one circuit in one constraint system.
type twoCk struct {
	Parts []gkrCk
}

// Define implements frontend.Circuit
func (c *twoCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	for i := range c.Parts {
		if err := c.Parts[i].Define(curveID, cs); err != nil {
			return err
		}
	}
	return nil
}

func runC26(x *X) {
	bN := x.Pick("bN", 3, 4, 2)
	spec := genDeep(x, bN)
	sh := Shape{bN: bN, logChunks: x.I("logChunks", 0, bN)}
	sh.cores = genCores(x, "", sh.chunks())
	bIn, bOut := spec.Layers[0].In, spec.Layers[refRounds-1].Out
	in := x.Elems("inputs", 1<<(bN+bIn))
	in2 := x.Elems("inputs2", len(in))
	words := []string{fmt.Sprintf("%v, %d layers, 2^%d inputs, 2^%d outputs", sh, refRounds, bIn, bOut)}
	for i := range spec.Gates {
		words = append(words, spec.Gates[i].Kind)
	}
	about := strings.Join(words, " ")
	x.Note("%s", about)

	parts := 1
	if bN < 2 && x.Chance("two", 25) {
		parts = 2
		x.Probe("two transcripts in one constraint system")
	}
	inner := snarkgkr.Circuit{BGOut: bOut}
	for n := range spec.Layers {
		l := inCircuitLayer(spec, n)
		dL, dR, dP := spec.degreesOf(n)
		l.DegHL, l.DegHR, l.DegHPrime = dL, dR, dP
		inner.Layers = append(inner.Layers, l)
	}
	alloc := func() *twoCk {
		w := &twoCk{}
		for i := 0; i < parts; i++ {
			w.Parts = append(w.Parts, gkrCkOf(inner, bN, bIn))
		}
		return w
	}
	sys, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		x.Failf("compile", "the in-circuit verifier of the circuit does not compile (%s): %v", about, err)
		return
	}
	qPrime, q := initialPoint(bN, bOut)
	if len(q) != bOut || len(qPrime) != bN {
		x.Failf("point", "the initial point has %d and %d coordinates for bN=%d and 2^%d outputs", len(qPrime), len(q), bN, bOut)
		return
	}

	var base, other, got *Transcript
	verdict := false
	o := drawNet(x)
	x.Sim(func() {
		base = honest(spec, sh, in)
		frames := base.frames(0)
		wire := make(chan frame, 4)
		fates := o.fates(x, "net", len(frames))
		zzsim.GoHarness(func() { x.link(frames, fates, wire) })
		got = base.skeleton().assemble(0, x.receive(len(frames), wire))
		v := gkr.NewVerifier(bN, spec.build(nil))
		verdict = v.Verify(got.Proof, got.Inputs, got.Outputs)
	})
	if x.Failed() {
		return
	}
	x.Quiet(func() { other = honest(spec, Shape{bN: bN, logChunks: sh.logChunks, cores: 2}, in2) })
	if x.Failed() {
		return
	}
	judge := func(ts ...*Transcript) (bool, bool) {
		w := alloc()
		for i := range w.Parts {
			t, p := ts[i%len(ts)], &w.Parts[i]
			p.Proof.Assign(t.Proof)
			assignAll(p.QInitial, q)
			assignAll(p.QInitialprime, qPrime)
			p.VInput.AssignFromChunkedBKT(t.Inputs)
			p.VOutput.AssignFromChunkedBKT(t.Outputs)
		}
		ok, err := solved(sys, w)
		if err != nil {
			x.Failf("witness", "a transcript cannot be assigned to the in-circuit verifier (%s): %v", about, err)
			return false, false
		}
		x.Evals++
		return ok, true
	}
	ok, fine := judge(got, other)
	if !fine {
		return
	}
	if !verdict || !ok {
		x.Failf("rejected", "an honest transcript: the native verifier accepts: %v, the in-circuit verifier: %v (%s)", verdict, ok, about)
		return
	}
	x.Probe("honest transcript accepted by both")

	known := spec.refVerify(bN, base).ok // the protocol is the one of the reference
	checks := spec.checks(bN)
	var comb []int
	for i, c := range checks {
		if c.layer >= 0 && c.round < 0 {
			comb = append(comb, i)
		}
	}
	for k, n := 0, x.I("volley", 2, 14); k < n && !x.Failed(); k++ {
		p := "shot" + itoa(k)
		var t *Transcript
		what := ""
		honestly := false
		switch x.Pick(p+"mode", 3, 6, 2, 1) {
		case 0:
			frames := base.frames(0)
			what = tamper(x, p+"tamper", frames, other.frames(1))
			x.Fault("altered transcript")
			t = base.skeleton().assemble(0, frames)
		case 1:
			target := x.I(p, 0, len(checks)-1)
			if x.Chance(p+"combination", 40) {
				target = comb[target%len(comb)]
			}
			if x.Chance(p+"input", 10) {
				target = len(checks) - 1 - target%2
			}
			what = fmt.Sprintf("every check but %v holds", checks[target])
			x.Fault("Byzantine transcript")
			t = forge(x, spec, bN, sh.logChunks, base, target, target, false)
		case 2: // a proof of something else for these inputs or outputs
			t = other.copy()
			if x.Chance(p+"side", 50) {
				t.Inputs = copy2(base.Inputs)
				what = "inputs of another batch"
			} else {
				t.Outputs = copy2(base.Outputs)
				what = "outputs of another batch"
			}
			x.Fault("mixed sessions")
		case 3:
			what, t, honestly = "honest transcript of another batch", other, true
		}
		if t == nil {
			continue
		}
		verdict := false
		x.Quiet(func() {
			v := gkr.NewVerifier(bN, spec.build(nil))
			verdict = v.Verify(t.Proof, t.Inputs, t.Outputs)
		})
		if x.Failed() {
			return
		}
		pair := []*Transcript{t, other}
		if x.Chance(p+"second", 50) {
			pair = []*Transcript{base, t}
		}
		if parts == 1 {
			pair = []*Transcript{t}
		}
		ok, fine := judge(pair...)
		if !fine {
			return
		}
		name := map[bool]string{true: "accepts", false: "rejects"}
		if ok != verdict || honestly && !ok {
			x.Failf("verdicts", "the in-circuit verifier %s, the native one %s (%s): %s", name[ok], name[verdict], what, about)
			return
		}
		if ref := spec.refVerify(bN, t); known && ref.ok != ok {
			x.Failf("reference", "both verifiers: %s, but these checks fail: %v (%s): %s", name[ok], ref.failed, what, about)
			return
		}
		x.Probe("volley: both verifiers: " + map[bool]string{true: "accepted", false: "rejected"}[ok])
	}
}
