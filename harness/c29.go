//go:build go1.21 && (p_all || p_c29)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C29"] = &Prop{
		ID: "C29", Quick: 6000, Deep: 240000,
		Rule: "The work of an assignment, a proof and a verification is counted in simulated steps (statements and loop iterations passed by all workers) and gate evaluations, under a drawn schedule. It is compared with the work for four times the instances (in as many or in four times the chunks), on one core, in one chunk, with more layers, and with that of later sessions of the same process.",
		Real: []string{"gkr prover and verifier", "sumcheck", "circuit", "polynomial", "hash", "common"},
		Stub: []string{"scheduler", "channels, sync, runtime", "counting gates of the harness"},
		Run:  runC29,
	}
}

// countGate counts the evaluations of a gate.
type countGate struct {
	circuit.Gate
	n *int64
}

// Eval implements circuit.Gate
func (g *countGate) Eval(res, vL, vR *fr.Element) {
	*g.n++
	g.Gate.Eval(res, vL, vR)
}

// EvalManyVL implements circuit.Gate
func (g *countGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	*g.n += int64(len(vLs))
	g.Gate.EvalManyVL(res, vLs, vR)
}

// EvalManyVR implements circuit.Gate
func (g *countGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	*g.n += int64(len(vRs))
	g.Gate.EvalManyVR(res, vL, vRs)
}

// work is what an operation costs: simulated steps and gate evaluations.
type work struct{ steps, gates int64 }

// costs is the work of a session.
type costs struct{ other, build, assign, prove, verify work }

// sessionWork measures an honest session.
func sessionWork(x *X, spec *CircS, sh Shape, g *zzsim.RNG) (c costs, ok bool) {
	in := values(g, 1<<(sh.bN+spec.Layers[0].In))
	r := x.Sim(func() {
		zzsim.Hot = false
		var n int64
		wiring := make([][]circuit.Wire, len(spec.Layers))
		for i, l := range spec.Layers {
			for _, s := range l.Wires {
				wiring[i] = append(wiring[i], circuit.Wire{L: s.L, R: s.R, O: s.O, Gate: &countGate{spec.Gates[s.G].gate(nil), &n}})
			}
		}
		circ := circuit.NewCircuit(wiring)
		mark := func(w *work, f func()) {
			s, e := zzsim.Steps(), n
			f()
			w.steps, w.gates = zzsim.Steps()-s, n-e
		}
		var a circuit.Assignment
		var proof gkr.Proof
		chunks := split(in, sh.bN, sh.logChunks)
		mark(&c.assign, func() { a = circ.Assign(chunks, sh.cores) })
		p := gkr.NewProver(circ, a)
		mark(&c.prove, func() { proof = p.Prove(sh.cores) })
		v := gkr.NewVerifier(sh.bN, circ)
		mark(&c.verify, func() { ok = v.Verify(proof, a.Values[0], a.Values[len(a.Values)-1]) })
	})
	x.Evals++
	if r.Outcome != "ok" || x.Failed() {
		return c, false
	}
	if !ok {
		x.Failf("rejected", "an honest proof is rejected: %s", describe(spec, sh))
	}
	return c, ok
}

// atMost is the bound of a comparison: by far more than the code needs, by far less than
// what another order of growth would give.
func (x *X) atMost(what string, got, base int64, percent, slack int64, about string) {
	x.Evals++
	if got > base*percent/100+slack {
		x.Failf("work", "%s: %d instead of at most %d%% of %d (%s)", what, got, percent, base, about)
	}
}

func runC29(x *X) {
	o := circOpts{maxLayers: 3, maxB: 1, maxWires: 4}
	switch x.Pick("form", 6, 3, 1, 1) {
	case 1:
		o.maxLayers = 12
	case 2:
		o.maxB = 3
	case 3:
		o.maxWires = 20
	}
	spec := genCirc(x, "", o)
	base := Shape{bN: x.I("bN", 3, 7)}
	if spec.Layers[0].In > 1 {
		base.bN = min(base.bN, 5)
	}
	base.logChunks = x.I("logChunks", 0, base.bN)
	base.cores = min(genCores(x, "", base.chunks()), 32)
	wires, rounds, nGates := 0, 0, int64(0)
	for i, l := range spec.Layers {
		wires += len(l.Wires)
		rounds += base.bN + 2*l.In + 1
		nGates += int64(len(spec.layerGates(i)))
	}
	about := describe(spec, base)
	x.Note("%s", about)
	g := x.RNG("inputs")
	if x.Chance("again", 25) {
		againAndAgain(x, spec, base, g)
		return
	}
	if x.Chance("large", 10) {
		muchLarger(x, spec, base, g)
		return
	}
	slack := int64(3000 + 300*len(spec.Layers))
	c, ok := sessionWork(x, spec, base, g)
	if !ok {
		return
	}
	n := int64(1) << base.bN
	x.atMost("gates evaluated by an assignment", c.assign.gates, int64(wires)*n, 200, 8, about)
	x.atMost("gates evaluated by the verifier", c.verify.gates, nGates, 400, 8, about)
	x.atMost("gates evaluated by the prover", c.prove.gates, proverGates(spec, n), 200, 64*nGates, about)

	// four times the instances
	compare := func(what string, sh Shape) {
		d, ok := sessionWork(x, spec, sh, g)
		if !ok {
			return
		}
		x.atMost(what+": steps of the assignment", d.assign.steps, c.assign.steps, 700, slack, about)
		x.atMost(what+": steps of the prover", d.prove.steps, c.prove.steps, 700, slack, about)
		x.atMost(what+": steps of the verifier", d.verify.steps, c.verify.steps, 700, slack, about)
		x.atMost(what+": gates evaluated by an assignment", d.assign.gates, c.assign.gates, 700, 8, about)
		x.atMost(what+": gates evaluated by the prover", d.prove.gates, c.prove.gates, 700, 64*nGates, about)
		x.atMost(what+": gates evaluated by the verifier", d.verify.gates, c.verify.gates, 200, 8, about)
	}
	sh := base
	sh.bN += 2
	switch x.Pick("grow", 2, 2, 2, 2, 3) {
	case 0:
		compare("four times the instances", sh)
	case 1:
		sh.logChunks += 2
		compare("four times the instances, in four times the chunks", sh)
	case 2: // the same batch on one core
		base.cores = 8 * x.I("eights", 1, 4)
		if c, ok = sessionWork(x, spec, base, g); !ok {
			return
		}
		sh = base
		sh.cores = 1
		d, ok := sessionWork(x, spec, sh, g)
		if !ok {
			return
		}
		spread := int64(base.cores)*int64(60*rounds+4*base.chunks()*len(spec.Layers)) + int64(100*base.chunks()*rounds)
		x.atMost("on several cores instead of one: steps of the assignment", c.assign.steps, d.assign.steps, 300, slack+spread, about)
		x.atMost("on several cores instead of one: steps of the prover", c.prove.steps, d.prove.steps, 300, slack+spread, about)
		x.atMost("on several cores instead of one: gates evaluated by an assignment", c.assign.gates, d.assign.gates, 150, 8, about)
		x.atMost("on several cores instead of one: gates evaluated by the prover", c.prove.gates, d.prove.gates, 150, 64*nGates, about)
	case 3: // the same batch in one chunk
		sh = base
		sh.logChunks, sh.cores = 0, 1
		d, ok := sessionWork(x, spec, sh, g)
		if !ok {
			return
		}
		x.atMost("in several chunks instead of one: gates evaluated by an assignment", c.assign.gates, d.assign.gates, 150, 8, about)
		x.atMost("in several chunks instead of one: gates evaluated by the prover", c.prove.gates, d.prove.gates, 150, 64*nGates, about)
	case 4: // more layers of the same width
		deep := &CircS{Gates: append(append([]GateS{}, spec.Gates...), GateS{Kind: "copy"})}
		b := spec.Layers[0].In
		l := LayerS{In: b, Out: b}
		for k := 0; k < 1<<b; k++ {
			l.Wires = append(l.Wires, WireS{L: k, O: k, G: len(spec.Gates)})
		}
		const added = 8
		for k := 0; k < added; k++ {
			deep.Layers = append(deep.Layers, l)
		}
		deep.Layers = append(deep.Layers, spec.Layers...)
		base.bN = max(base.bN, 5)
		more := base
		more.bN += 2
		var v [4]costs
		for i, s := range []struct {
			spec *CircS
			sh   Shape
		}{{spec, base}, {deep, base}, {spec, more}, {deep, more}} {
			if v[i], ok = sessionWork(x, s.spec, s.sh, g); !ok {
				return
			}
		}
		x.atMost("for more layers: steps the verifier needs when there are four times the instances", v[3].verify.steps-v[2].verify.steps, v[1].verify.steps-v[0].verify.steps, 160, 600, about)
		x.atMost("for more layers: gates the verifier evaluates when there are four times the instances", v[3].verify.gates-v[2].verify.gates, v[1].verify.gates-v[0].verify.gates, 200, 8, about)
	}
}

// proverGates is the number of evaluations a prover needs if no position is left out: in
// every round the positions that are left, at as many points as the degree asks for.
func proverGates(spec *CircS, n int64) (total int64) {
	for i, l := range spec.Layers {
		g := int64(1) << l.In
		gates := spec.layerGates(i)
		dL, dR, dP := 0, 0, 0
		for _, gate := range gates {
			a, b, c := spec.Gates[gate].gate(nil).Degrees()
			dL, dR, dP = max(dL, a), max(dR, b), max(dP, c)
		}
		k := int64(len(gates)) * n
		if l.In > 0 {
			total += k * (g*g*int64(dL+2) + g*int64(dR+2))
		}
		total += k * int64(dP+2)
	}
	return total
}

// muchLarger compares a batch with one of 32 times the instances, in one order of growth
// after which rounds that do not get shorter would show.
func muchLarger(x *X, spec *CircS, sh Shape, g *zzsim.RNG) {
	x.Probe("32 times the instances")
	sh.bN, sh.logChunks, sh.cores = 5, 0, 1
	if x.Chance("chunks of large", 30) {
		sh.logChunks, sh.cores = 2, 2
	}
	about := describe(spec, sh)
	c, ok := sessionWork(x, spec, sh, g)
	if !ok {
		return
	}
	more := sh
	more.bN += 5
	d, ok := sessionWork(x, spec, more, g)
	if !ok {
		return
	}
	x.atMost("32 times the instances: steps of the assignment", d.assign.steps, c.assign.steps, 3700, 0, about)
	x.atMost("32 times the instances: steps of the prover", d.prove.steps, c.prove.steps, 3700, 0, about)
	x.atMost("32 times the instances: gates evaluated by the prover", d.prove.gates, c.prove.gates, 3700, 0, about)
	x.atMost("32 times the instances: steps of the verifier", d.verify.steps, c.verify.steps, 3700, 0, about)
}

// againAndAgain has one process go through the same session many times.
func againAndAgain(x *X, spec *CircS, sh Shape, g *zzsim.RNG) {
	sh.bN = min(sh.bN, 4)
	sh.logChunks = min(sh.logChunks, sh.bN)
	sessions := x.I("sessions", 3, []int{12, 60}[x.Pick("many", 3, 1)])
	about := describe(spec, sh)
	x.Probe("many sessions in one process")
	in := values(g, 1<<(sh.bN+spec.Layers[0].In))
	fresh := x.Chance("fresh inputs", 70)
	others := 0 // circuits made between the sessions
	if x.Chance("others", 40) {
		others = x.I("how many others", 1, 30)
		x.Probe("other circuits between the sessions")
	}
	keep := x.Chance("keep", 50) // one circuit and one verifier for all
	var first costs
	x.Sim(func() {
		zzsim.Hot = false
		circ := spec.build(nil)
		ver := gkr.NewVerifier(sh.bN, circ)
		for k := 0; k < sessions; k++ {
			var c costs
			mark := func(w *work, f func()) {
				s := zzsim.Steps()
				f()
				w.steps = zzsim.Steps() - s
			}
			var a circuit.Assignment
			var proof gkr.Proof
			if fresh {
				in = values(g, int64(len(in)))
			}
			for i := 0; i < others; i++ {
				otherCircuit(g, 1+g.N(3), 1+g.N(6))
			}
			mark(&c.other, func() { otherCircuit(g, 2, 4) })
			chunks := split(in, sh.bN, sh.logChunks)
			mark(&c.build, func() {
				again := spec.build(nil)
				if !keep {
					circ, ver = again, gkr.NewVerifier(sh.bN, again)
				}
			})
			mark(&c.assign, func() { a = circ.Assign(chunks, sh.cores) })
			p := gkr.NewProver(circ, a)
			mark(&c.prove, func() { proof = p.Prove(sh.cores) })
			ok := false
			mark(&c.verify, func() { ok = ver.Verify(proof, a.Values[0], a.Values[len(a.Values)-1]) })
			x.Evals++
			if !ok {
				x.Failf("rejected", "an honest proof is rejected: %s", about)
			}
			switch k {
			case 0:
			case 1:
				first = c
			default:
				x.atMost(fmt.Sprintf("session %d compared with session 1: steps of making another circuit", k), c.other.steps, first.other.steps, 130, 200, about)
				x.atMost(fmt.Sprintf("session %d compared with session 1: steps of making the circuit", k), c.build.steps, first.build.steps, 130, 200, about)
				x.atMost(fmt.Sprintf("session %d compared with session 1: steps of the assignment", k), c.assign.steps, first.assign.steps, 130, 200, about)
				x.atMost(fmt.Sprintf("session %d compared with session 1: steps of the prover", k), c.prove.steps, first.prove.steps, 130, 200, about)
				x.atMost(fmt.Sprintf("session %d compared with session 1: steps of the verifier", k), c.verify.steps, first.verify.steps, 130, 200, about)
			}
			if x.Failed() {
				return
			}
		}
	})
}

// otherCircuit makes a circuit that is not used.
func otherCircuit(g *zzsim.RNG, layers, wires int64) {
	wiring := make([][]circuit.Wire, layers)
	for i := range wiring {
		for k := int64(0); k < wires; k++ {
			wiring[i] = append(wiring[i], circuit.Wire{L: int(g.N(8)), R: int(g.N(8)), O: int(g.N(8)), Gate: circuit.CopyGate{}})
		}
	}
	circuit.NewCircuit(wiring)
}
