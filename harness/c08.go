//go:build go1.21 && (p_all || p_c08)

package main

import (
	"fmt"
	"reflect"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C08"] = &Prop{
		ID: "C08", Quick: 24000, Deep: 840000,
		Rule: "One to four callers share a circuit, an assignment, a prover, a verifier and transcripts, and the same for a batch of another shape or circuit, and each perform one to three operations (sometimes more callers, or longer histories), concurrently or one after the other; the shared arguments are compared with copies at scheduling decisions and at the end, results with those of a lone caller.",
		Real: []string{"circuit", "gkr prover and verifier", "sumcheck", "polynomial", "hash", "common", "examples"},
		Stub: []string{"scheduler", "channels, sync, runtime", "crypto/rand source"},
		Run:  runC08,
	}
}

// circSnapshot describes a circuit's contents.
func circSnapshot(c *circuit.Circuit) string {
	s := ""
	for _, l := range c.Layers {
		s += fmt.Sprintf("[%d %d", l.BGInputs, l.BGOutputs)
		for _, w := range l.Wires {
			s += fmt.Sprintf(" %d,%d,%d,%s", w.L, w.R, w.O, w.Gate.ID())
		}
		s += "|"
		for _, g := range l.Gates {
			s += " " + g.ID()
		}
		s += "]"
	}
	return s
}

// circFields keeps the fields of a circuit for a cheap comparison, without calling its code.
func circFields(c *circuit.Circuit) []circuit.Layer {
	out := make([]circuit.Layer, len(c.Layers))
	for i, l := range c.Layers {
		out[i].BGInputs, out[i].BGOutputs = l.BGInputs, l.BGOutputs
		out[i].Wires = append([]circuit.Wire{}, l.Wires...)
		out[i].Gates = append([]circuit.Gate{}, l.Gates...)
	}
	return out
}

func sameFields(c *circuit.Circuit, f []circuit.Layer) bool {
	if len(c.Layers) != len(f) {
		return false
	}
	for i, l := range c.Layers {
		if l.BGInputs != f[i].BGInputs || l.BGOutputs != f[i].BGOutputs || len(l.Wires) != len(f[i].Wires) || len(l.Gates) != len(f[i].Gates) {
			return false
		}
		for j, w := range l.Wires {
			v := f[i].Wires[j]
			if w.L != v.L || w.R != v.R || w.O != v.O || !reflect.DeepEqual(w.Gate, v.Gate) {
				return false
			}
		}
		for j, g := range l.Gates {
			if !reflect.DeepEqual(g, f[i].Gates[j]) {
				return false
			}
		}
	}
	return true
}

func copy3(a [][][]fr.Element) [][][]fr.Element {
	out := make([][][]fr.Element, len(a))
	for i := range a {
		out[i] = copy2(a[i])
	}
	return out
}

func equal3(a, b [][][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !equal2(a[i], b[i]) {
			return false
		}
	}
	return true
}

func runC08(x *X) {
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 4, mimcBN: 2, maxBN: 3, midBN: 6, circ: circOpts{maxLayers: 3, maxWires: 5}})
	in2 := x.Elems("inputs2", len(in))
	callers, maxOps := x.I("callers", 1, 4), 3
	if len(spec.Layers) <= 2 && sh.bN <= 2 {
		switch x.Pick("many", 18, 1, 1) {
		case 1:
			callers = x.I("manyCallers", 5, 12)
			x.Probe("many callers")
		case 2:
			maxOps = 20
			x.Probe("long histories")
		}
	}
	focus := x.Pick("focus", 14, 3, 1, 1, 1, 1) // the callers do the same at the same time, on either batch
	if focus > 0 {
		callers = max(callers, 2)
	}
	ops := make([][]int, callers)
	cores := make([]int, callers)
	for c := range ops {
		cores[c] = genCores(x, "caller"+itoa(c), sh.chunks())
		for k := x.I("ops"+itoa(c), 1, maxOps); k > 0; k-- {
			if focus > 0 {
				ops[c] = append(ops[c], [][]int{{}, {1, 7}, {2, 8}, {0, 6}, {1, 8}, {2, 7}}[focus][x.I("focusOp"+itoa(c)+"."+itoa(k), 0, 1)])
				continue
			}
			ops[c] = append(ops[c], x.Pick("op"+itoa(c)+"."+itoa(k), 3, 4, 4, 3, 1, 1, 1, 3, 2, 1, 1, 1))
		}
	}
	names := []string{"Assign", "Prove", "Verify honest", "Verify tampered", "Assign other inputs", "GetClaim", "Assign another batch", "Prove another batch", "Verify another batch", "Verify another batch tampered", "Assign from a reused buffer", "Prove and verify from a reused buffer"}
	x.Note("operations %v cores %v", ops, cores)
	// what a lone caller gets, on objects of its own
	want := spec.evalAll(sh.bN, in)
	want2 := spec.evalAll(sh.bN, in2)
	var proof, proof2 gkr.Proof
	var claim fr.Element
	buffers := false
	for c := range ops {
		for _, op := range ops[c] {
			buffers = buffers || op == 11
		}
	}
	outBits := spec.Layers[len(spec.Layers)-1].Out
	x.Quiet(func() {
		t := honest(spec, Shape{sh.bN, sh.logChunks, 1}, in)
		proof = t.Proof
		if buffers {
			proof2 = honest(spec, Shape{sh.bN, sh.logChunks, 1}, in2).Proof
		}
		qPrime, q := gkr.GetInitialQPrimeAndQ(sh.bN, outBits)
		claim = refMLE(join(t.Outputs, sh.bN), append(append([]fr.Element{}, q...), qPrime...))
	})
	if x.Failed() {
		return
	}
	o := drawOther(x, spec)
	if x.Failed() {
		return
	}
	x.restart("", 50)
	// the shared objects
	var circ circuit.Circuit
	var prover gkr.Prover
	var verifier gkr.Verifier
	inputs := split(in, sh.bN, sh.logChunks)
	inputs2 := split(in2, sh.bN, sh.logChunks)
	var vals, vals2 [][][]fr.Element
	for l := range want {
		vals = append(vals, split(want[l], sh.bN, sh.logChunks))
		vals2 = append(vals2, split(want2[l], sh.bN, sh.logChunks))
	}
	vals[0] = inputs
	assignment := circuit.Assignment{Values: vals}
	honestT := &Transcript{Proof: copyProof(proof), Inputs: inputs, Outputs: vals[len(vals)-1]}
	bad := honestT.copy()
	bl := x.I("badLayer", 0, len(spec.Layers)-1)
	switch x.Pick("bad", 1, 1, 1) {
	case 0:
		bad.Proof.ClaimsLeft[bl].SetUint64(12345)
	case 1:
		one := u64(7)
		bad.Outputs[0][0].Add(&bad.Outputs[0][0], &one)
	case 2:
		one := u64(1)
		bad.Inputs[0][0].Add(&bad.Inputs[0][0], &one)
	}
	var circBefore string
	var fields []circuit.Layer
	ready := false
	create := func() {
		circ = spec.build(nil)
		prover = gkr.NewProver(circ, assignment)
		verifier = gkr.NewVerifier(sh.bN, circ)
		o.create(&circ)
		circBefore, fields = circSnapshot(&circ), circFields(&circ)
		ready = true
	}
	// copies
	valsBefore := copy3(vals)
	inputsBefore, inputs2Before := copy2(inputs), copy2(inputs2)
	honestBefore, badBefore := honestT.copy(), bad.copy()
	var where string
	n := 0
	intact := func() string {
		switch {
		case !equal2(inputs, inputsBefore) || !equal2(inputs2, inputs2Before):
			return "the inputs"
		case !equal3(vals, valsBefore):
			return "the assignment"
		case !honestT.equal(honestBefore) || !bad.equal(badBefore):
			return "the transcript"
		case o.touched():
			return "the values of the other batch"
		}
		return ""
	}
	small := len(spec.Layers) < 10
	onStep := func() {
		n++
		if !ready || where != "" || (n > 300 && n%32 != 0) || (!small && n%16 != 0) {
			return
		}
		x.probes["shared arguments compared during a call"]++
		where = intact()
		if where == "" && (n%4 == 1 || small) && !sameFields(&circ, fields) {
			where = "the circuit"
		}
	}
	// results stay with the caller: it keeps them, or writes over them
	var kept []func() string
	scribble := x.Chance("scribble", 30)
	keepProof := func(name string, p, want gkr.Proof) {
		if scribble {
			x.probes["caller writes over its results"]++
			one := u64(1)
			for _, s := range p.SumcheckProofs {
				for _, poly := range s.PolyCoeffs {
					for i := range poly {
						poly[i].Add(&poly[i], &one)
					}
				}
			}
			for i := range p.ClaimsLeft {
				p.ClaimsLeft[i].Add(&p.ClaimsLeft[i], &one)
				p.ClaimsRight[i].Add(&p.ClaimsRight[i], &one)
			}
			return
		}
		kept = append(kept, func() string {
			if !equalProofs(p, want) {
				return name + " at " + diffProofs(want, p)
			}
			return ""
		})
	}
	keepValues := func(name string, v, want [][][]fr.Element) {
		if scribble {
			x.probes["caller writes over its results"]++
			one := u64(1)
			for _, layer := range v[1:] { // the first layer is the inputs given
				for _, c := range layer {
					for i := range c {
						c[i].Add(&c[i], &one)
					}
				}
			}
			return
		}
		kept = append(kept, func() string {
			if !equal3(v, want) {
				return name
			}
			return ""
		})
	}
	body := func(c int) {
		// memory the caller uses again and again for different batches
		var buffer [][]fr.Element
		var valBuffer [][][]fr.Element
		var proofBuffer gkr.Proof
		for k, op := range ops[c] {
			x.Evals++
			fail := func(format string, a ...any) {
				x.Failf("result", "caller %d of %d, operation %d (%s, %d cores): %s: %s", c, callers, k, names[op], cores[c], fmt.Sprintf(format, a...), describe(spec, sh))
			}
			switch op {
			case 0:
				a := circ.Assign(inputs, cores[c])
				if !equal3(a.Values, valsBefore) {
					fail("another assignment")
					return
				}
				keepValues("an assignment", a.Values, valsBefore)
			case 1:
				p := prover.Prove(cores[c])
				if !equalProofs(p, proof) {
					fail("another proof, at %s", diffProofs(proof, p))
					return
				}
				keepProof("a proof", p, proof)
			case 2:
				if !verifier.Verify(honestT.Proof, honestT.Inputs, honestT.Outputs) {
					fail("rejected")
				}
			case 3:
				if verifier.Verify(bad.Proof, bad.Inputs, bad.Outputs) {
					fail("accepted")
				}
			case 4:
				a := circ.Assign(inputs2, cores[c])
				if !equal3(a.Values, vals2) {
					fail("another assignment")
					return
				}
				keepValues("an assignment of other inputs", a.Values, vals2)
			case 5:
				qPrime, q := gkr.GetInitialQPrimeAndQ(sh.bN, outBits)
				qP, qq := append([]fr.Element{}, qPrime...), append([]fr.Element{}, q...)
				sp := prover.InitialRoundSumcheckProver(qPrime, q, cores[c])
				if got := sp.GetClaim(cores[c]); got != claim {
					fail("another claim")
				}
				if !equalSlices(qP, qPrime) || !equalSlices(qq, q) {
					x.Failf("modified", "the evaluation point was modified")
				}
			case 10:
				second := (k+c)%2 == 0
				from, want := inputsBefore, valsBefore
				if second {
					from, want = inputs2Before, vals2
				}
				if buffer == nil {
					buffer = copy2(from)
				}
				for i := range buffer {
					copy(buffer[i], from[i])
				}
				a := circ.Assign(buffer, cores[c])
				if !equal3(a.Values, want) {
					fail("another assignment (second inputs: %v)", second)
					return
				}
				if !equal2(buffer, from) {
					x.Failf("modified", "the inputs in a reused buffer were modified: %s", describe(spec, sh))
					return
				}
				x.probes["buffer used for several batches"]++
			case 11:
				second := (k+c)%2 == 0
				from, want := valsBefore, proof
				if second {
					from, want = vals2, proof2
				}
				if valBuffer == nil {
					valBuffer = copy3(from)
					proofBuffer = copyProof(want)
				}
				for l := range valBuffer {
					for i := range valBuffer[l] {
						copy(valBuffer[l][i], from[l][i])
					}
				}
				(&Transcript{Proof: proofBuffer}).overwrite(&Transcript{Proof: want})
				p := gkr.NewProver(circ, circuit.Assignment{Values: valBuffer})
				got := p.Prove(cores[c])
				if !equalProofs(got, want) {
					fail("another proof (second inputs: %v), at %s", second, diffProofs(want, got))
					return
				}
				if !verifier.Verify(proofBuffer, valBuffer[0], valBuffer[len(valBuffer)-1]) {
					fail("rejected (second inputs: %v)", second)
					return
				}
				if !equal3(valBuffer, from) {
					x.Failf("modified", "the assignment in a reused buffer was modified: %s", describe(spec, sh))
					return
				}
				x.probes["buffer used for several batches"]++
			default:
				if what := o.do(op, cores[c], keepProof, keepValues); what != "" {
					fail("%s (%v)", what, o.sh)
					return
				}
			}
		}
	}
	sequential := x.Chance("sequential", 20)
	r := x.SimCfg(func(c *zzsim.Config) { c.OnStep = onStep }, func() {
		create()
		for c := 0; c < callers; c++ {
			c := c
			if sequential {
				body(c)
			} else {
				zzsim.GoHarness(func() { body(c) })
			}
		}
	})
	if r.Outcome != "ok" {
		return
	}
	if where != "" {
		x.Failf("modified", "%s were modified during the calls: %s", where, describe(spec, sh))
	}
	if w := intact(); w != "" {
		x.Failf("modified", "%s were modified: %s", w, describe(spec, sh))
	}
	for _, k := range kept {
		if what := k(); what != "" {
			x.Failf("result-changed", "%s changed after it was returned: %s", what, describe(spec, sh))
			break
		}
	}
	if circSnapshot(&circ) != circBefore {
		x.Failf("modified", "the circuit was modified: %s", describe(spec, sh))
	}
	if callers > 1 && !sequential {
		x.Probe("concurrent callers on shared objects")
	}
}

// otherBatch is a batch of another shape, of the same circuit or of one of its own, that the callers work on too.
type otherBatch struct {
	spec     *CircS
	sh       Shape
	own      bool // has a circuit of its own
	vals     [][][]fr.Element
	before   [][][]fr.Element
	t, bad   *Transcript
	tBefore  *Transcript
	circ     *circuit.Circuit
	prover   gkr.Prover
	verifier gkr.Verifier
}

func drawOther(x *X, spec *CircS) *otherBatch {
	o := &otherBatch{spec: spec, own: x.Chance("other.circuit", 40)}
	if o.own {
		o.spec = genCirc(x, "other.", circOpts{maxLayers: 2, maxWires: 4})
	}
	maxBN := 3
	if len(o.spec.Layers) > 10 {
		maxBN = 1
	}
	o.sh = genShape(x, "other.", maxBN)
	in := x.Elems("inputs3", 1<<(o.sh.bN+o.spec.Layers[0].In))
	for _, l := range o.spec.evalAll(o.sh.bN, in) {
		o.vals = append(o.vals, split(l, o.sh.bN, o.sh.logChunks))
	}
	o.before = copy3(o.vals)
	x.Quiet(func() { o.t = honest(o.spec, Shape{o.sh.bN, o.sh.logChunks, 1}, in) })
	if x.Failed() {
		return o
	}
	o.t.Inputs, o.t.Outputs = o.vals[0], o.vals[len(o.vals)-1]
	o.bad, o.tBefore = o.t.copy(), o.t.copy()
	one := u64(1)
	o.bad.Outputs[0][0].Add(&o.bad.Outputs[0][0], &one)
	return o
}

// create makes the objects; the circuit is that of the other batch or a new one.
func (o *otherBatch) create(shared *circuit.Circuit) {
	o.circ = shared
	if o.own {
		c := o.spec.build(nil)
		o.circ = &c
	}
	o.prover = gkr.NewProver(*o.circ, circuit.Assignment{Values: o.vals})
	o.verifier = gkr.NewVerifier(o.sh.bN, *o.circ)
}

func (o *otherBatch) touched() bool { return !equal3(o.vals, o.before) || !o.t.equal(o.tBefore) }

func (o *otherBatch) do(op, cores int, keepProof func(string, gkr.Proof, gkr.Proof), keepValues func(string, [][][]fr.Element, [][][]fr.Element)) string {
	switch op {
	case 6:
		a := o.circ.Assign(o.vals[0], cores)
		if !equal3(a.Values, o.before) {
			return "another assignment"
		}
		keepValues("an assignment of another batch", a.Values, o.before)
	case 7:
		p := o.prover.Prove(cores)
		if !equalProofs(p, o.tBefore.Proof) {
			return "another proof, at " + diffProofs(o.tBefore.Proof, p)
		}
		keepProof("a proof of another batch", p, o.tBefore.Proof)
	case 8:
		if !o.verifier.Verify(o.t.Proof, o.t.Inputs, o.t.Outputs) {
			return "rejected"
		}
	case 9:
		if o.verifier.Verify(o.bad.Proof, o.bad.Inputs, o.bad.Outputs) {
			return "accepted"
		}
	}
	return ""
}
