//go:build go1.21 && (p_all || p_c23)

package main

import (
	"fmt"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	snarkgkr "gkr-mimc/snark/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C23"] = &Prop{
		ID: "C23", Quick: 16000, Deep: 640000,
		Rule: "One to three clients ask a pool of workers, over a link that loses, repeats, delays and reorders requests and answers, for pieces of a proof: the tables, the claim or the sumcheck proof of any layer at points and weights of the client's choice. Workers use several cores, crash, and start again from the inputs. Every answer is checked against the definitions, and every request is answered in the end.",
		Real: []string{"gkr prover (layer tables, layer provers)", "sumcheck prover and verifier", "circuit", "polynomial", "snark/gkr layers (some runs)", "gnark compiler and solver (some runs)"},
		Stub: []string{"scheduler", "network, clock", "channels, sync, runtime", "some gates are user-defined gates of the harness"},
		Run:  runC23,
	}
}

// piece is what a client asks for.
type piece struct {
	layer            int
	initial          bool // one output point instead of two
	what             int  // tables, claim, proof
	qP, q1, q2       []fr.Element
	lambdaL, lambdaR fr.Element
	cores            int
	client, number   int
}

// part is the answer.
type part struct {
	claim             fr.Element
	proof             sumcheck.Proof
	qP, qL, qR, final []fr.Element
	vL, vR, eq, stat  [][]fr.Element
}

var pieceNames = []string{"tables", "claim", "proof", "claim, then proof"}

func runC23(x *X) {
	spec := genCirc(x, "c.", circOpts{maxLayers: 3, maxWires: 6, maxB: 2})
	sh := genShape(x, "", 4)
	if x.Chance("manyInstances", 4) {
		spec = genCirc(x, "c.", circOpts{maxLayers: 2, maxWires: 3, maxB: 1})
		sh.bN = x.I("manyBN", 5, 8)
		sh.logChunks = x.I("manyLogChunks", 0, sh.bN)
		sh.cores = genCores(x, "many.", sh.chunks())
	}
	switch x.Pick("wide", 60, 1, 1) {
	case 1: // large tables, in a few chunks
		spec = genCirc(x, "wide.", circOpts{maxLayers: 2, maxWires: 30, maxB: 5, maxGates: 2})
		sh = genShape(x, "wide.", 2)
		x.Probe("layers of up to 32 positions")
	case 2:
		spec = genCirc(x, "gates.", circOpts{maxLayers: 2, maxWires: 4, maxB: 1, manyGates: true})
		sh = genShape(x, "wide.", 1)
		x.Probe("layers with more than 64 gates")
	}
	n := len(spec.Layers)
	values := spec.evalAll(sh.bN, x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In)))
	inputs := split(values[0], sh.bN, sh.logChunks)
	inputsB := copy2(inputs)
	clients, workers := 1+x.Pick("clients", 4, 3, 1), 1+x.Pick("workers", 4, 3, 1)
	what := describe(spec, sh)
	g := x.RNG("points")
	special := x.Chance("specialPoints", 30)
	value := func() fr.Element {
		if special {
			return u64(uint64(g.N(3)))
		}
		return randElem(g)
	}
	point := func(k int) []fr.Element {
		out := make([]fr.Element, k)
		for i := range out {
			out[i] = value()
		}
		return out
	}
	asks := make([][]piece, clients)
	for c := range asks {
		for k := x.I(fmt.Sprintf("asks%d", c), 1, 4); k > 0; k-- {
			p := fmt.Sprintf("ask%d.%d.", c, k)
			a := piece{layer: x.I(p+"layer", 0, n-1), what: x.Pick(p+"what", 3, 2, 3, 2), client: c, number: len(asks[c])}
			if c > 0 && x.Chance(p+"same", 25) && len(asks[0]) > a.number { // what another client asks for
				b := asks[0][a.number]
				b.client, b.number = c, a.number
				asks[c] = append(asks[c], b)
				continue
			}
			a.initial = a.layer == n-1 && x.Chance(p+"initial", 60)
			b := spec.Layers[a.layer].Out
			a.qP, a.q1, a.q2 = point(sh.bN), point(b), point(b)
			a.lambdaL, a.lambdaR = u64(1), value()
			if x.Chance(p+"weights", 40) {
				a.lambdaL = value()
			}
			a.cores = 1 + x.I(p+"cores", 0, sh.cores)
			asks[c] = append(asks[c], a)
		}
	}
	crashes := x.Pick("crashes", 5, 3, 2, 1)
	loss := []int64{0, 10, 30, 60}[x.Pick("loss", 3, 2, 2, 1)]
	dup := []int64{0, 20, 50}[x.Pick("dup", 2, 2, 1)]
	delay := int64(1) << uint(x.I("delay", 0, 24))
	lossy := x.I("lossy", 0, 30)
	patience := x.Pick("patience", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 2, 0, 4)
	net := x.RNG("net")
	x.Note("%d clients, %d workers, loss %d%%, repeated %d%%, delay up to %d ns, %s", clients, workers, loss, dup, delay, what)
	post := func(deliver func()) {
		if lossy > 0 && net.N(100) < loss {
			lossy--
			x.Fault("message lost")
			return
		}
		copies := 1
		if lossy > 0 && net.N(100) < dup {
			lossy--
			x.Fault("message repeated")
			copies = 2
		}
		for ; copies > 0; copies-- {
			d := net.N(delay)
			zzsim.GoHarness(func() {
				zzsim.Sleep(time.Duration(d))
				deliver()
			})
		}
	}
	var circ circuit.Circuit
	var assignment circuit.Assignment
	inbox := make([][]piece, workers)
	replies := map[[2]int][]part{}
	done := 0
	kp := make([]keeper, workers)
	shared := x.Chance("sharedAssignment", 60)
	serve := func(w int) {
		var prover gkr.Prover
		started := false
		wait := time.Duration(64)
		for done < clients {
			if len(inbox[w]) == 0 {
				zzsim.Sleep(wait)
				if wait < 1<<40 {
					wait += wait / 2
				}
				continue
			}
			wait = 64
			req := inbox[w][0]
			inbox[w] = inbox[w][1:]
			if crashes > 0 && net.N(5) == 0 {
				crashes--
				started = false
				if net.N(2) == 0 {
					inbox[w] = nil
				}
				x.Fault("worker crash and restart")
			}
			if !started {
				started = true
				if shared {
					prover = gkr.NewProver(circ, assignment)
				} else {
					own := spec.build(nil)
					prover = gkr.NewProver(own, own.Assign(inputs, sh.cores))
				}
			}
			var a part
			clone := func(q []fr.Element) []fr.Element { return append([]fr.Element{}, q...) }
			qP, q1, q2 := clone(req.qP), clone(req.q1), clone(req.q2)
			if req.what == 0 {
				var vL, vR, eq, st []polynomial.BookKeepingTable
				if req.initial {
					vL, vR, eq, st = prover.GetBookKeepingTablesForInitialRound(qP, q1, req.cores)
				} else {
					vL, vR, eq, st = prover.GetBookKeepingTablesForIntermediateRound(req.layer, qP, q1, q2, req.lambdaL, req.lambdaR, req.cores)
				}
				for i, t := range [][]polynomial.BookKeepingTable{vL, vR, eq, st} {
					to := []*[][]fr.Element{&a.vL, &a.vR, &a.eq, &a.stat}[i]
					for _, b := range t {
						*to = append(*to, clone(b.Table))
						if net.N(2) == 0 { // they are the caller's
							for e := range b.Table {
								b.Table[e].SetUint64(4714)
							}
						}
						kp[w].keep(b.Table)
					}
				}
			} else {
				var p sumcheck.MultiThreadedProver
				if req.initial {
					p = prover.InitialRoundSumcheckProver(qP, q1, req.cores)
				} else {
					p = prover.IntermediateRoundsSumcheckProver(req.layer, qP, q1, q2, req.lambdaL, req.lambdaR, req.cores)
				}
				if req.what != 2 {
					a.claim = p.GetClaim(req.cores)
				}
				if req.what != 1 {
					a.proof, a.qP, a.qL, a.qR, a.final = p.Prove(req.cores)
				}
			}
			if !equalSlices(qP, req.qP) || !equalSlices(q1, req.q1) || !equalSlices(q2, req.q2) {
				x.Failf("argument", "the points given to the prover were modified (%s)", pieceNames[req.what])
			}
			id := [2]int{req.client, req.number}
			post(func() { replies[id] = append(replies[id], a) })
		}
	}
	client := func(c int) {
		defer func() { done++ }()
		for k := range asks[c] {
			req := asks[c][k]
			id := [2]int{c, k}
			wait := time.Duration(4*delay + 1<<patience)
			for len(replies[id]) == 0 {
				to := int(net.N(int64(workers)))
				post(func() { inbox[to] = append(inbox[to], req) })
				for spent := time.Duration(0); spent < wait && len(replies[id]) == 0; spent += wait / 4 {
					zzsim.Sleep(wait / 4)
				}
				if wait < 1<<44 {
					wait *= 2
				}
			}
		}
	}
	r := x.Sim(func() {
		if shared {
			circ = spec.build(nil)
			assignment = circ.Assign(inputs, sh.cores)
		}
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			w := w
			wg.Add(1)
			zzsim.GoHarness(func() { defer wg.Done(); serve(w) })
		}
		for c := range asks {
			c := c
			wg.Add(1)
			zzsim.GoHarness(func() { defer wg.Done(); client(c) })
		}
		wg.Wait()
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	// the order of the layer's gates is the code's
	orders := make([][]int, n)
	x.Quiet(func() {
		circ := spec.build(nil)
		for l := range orders {
			for _, g := range circ.Layers[l].Gates {
				orders[l] = append(orders[l], gateNumber(x, spec, l, g))
			}
		}
	})
	for c := range asks {
		for k, req := range asks[c] {
			for _, a := range replies[[2]int{c, k}] {
				x.Evals++
				checkPart(x, spec, sh, values, req, a, orders[req.layer], fmt.Sprintf("client %d, %s of layer %d with %d cores: %s", c, pieceNames[req.what], req.layer, req.cores, what))
				if x.Failed() {
					return
				}
			}
		}
	}
	for w := range kp {
		kp[w].check(x)
	}
	if !equal2(inputs, inputsB) {
		x.Failf("argument", "the inputs were modified: %s", what)
		return
	}
	if shared {
		for l := range assignment.Values {
			if !equal2(assignment.Values[l], split(values[l], sh.bN, sh.logChunks)) {
				x.Failf("argument", "the assignment of layer %d was modified: %s", l, what)
				return
			}
		}
	}
	if clients > 1 || workers > 1 {
		x.Probe("several clients or workers")
	}
	if x.Chance("inCircuit", 2) {
		c23InCircuit(x, spec, g)
	}
}

// checkPart checks an answer against the definitions.
func checkPart(x *X, spec *CircS, sh Shape, values [][]fr.Element, req piece, a part, order []int, what string) {
	l := spec.Layers[req.layer]
	qs, lambdas := [][]fr.Element{req.q1, req.q2}, []fr.Element{req.lambdaL, req.lambdaR}
	if req.initial {
		qs, lambdas = qs[:1], []fr.Element{u64(1)}
	}
	if len(order) != len(spec.layerGates(req.layer)) {
		x.Failf("gates", "%s: the layer has %d gates", what, len(order))
		return
	}
	s := spec.tables(sh.bN, req.layer, values[req.layer], qs, lambdas, req.qP)
	var claim fr.Element
	for i := range qs {
		v := refMLE(values[req.layer+1], append(append([]fr.Element{}, qs[i]...), req.qP...))
		v.Mul(&v, &lambdas[i])
		claim.Add(&claim, &v)
	}
	switch req.what {
	case 0:
		v := split(values[req.layer], sh.bN, sh.logChunks)
		if !equal2(a.vL, v) || !equal2(a.vR, v) {
			x.Failf("tables", "%s: the operand tables do not hold the layer's values", what)
			return
		}
		if !equal2(a.eq, split(s.eq, sh.bN, sh.logChunks)) {
			x.Failf("tables", "%s: the equality tables are not those of the point", what)
			return
		}
		if len(a.stat) != len(order) {
			x.Failf("tables", "%s: %d static tables for %d gates", what, len(a.stat), len(order))
			return
		}
		for i, k := range order {
			if k < 0 || !equalSlices(a.stat[i], s.statics[k]) {
				x.Failf("tables", "%s: static table %d is not the weighted wiring at the points", what, i)
				return
			}
		}
		return
	case 1, 3:
		if a.claim != claim {
			x.Failf("claim", "%s: the claim is not the weighted value of the layer's outputs", what)
			return
		}
	}
	if req.what == 1 {
		return
	}
	if !spec.polysShaped(sh.bN, req.layer, a.proof.PolyCoeffs) {
		x.Failf("proof", "%s: the proof has another shape", what)
		return
	}
	// the rounds, with challenges by the definition
	cur := claim
	var pt []fr.Element
	for j, p := range a.proof.PolyCoeffs {
		sum := refPoly(p, u64(0))
		one := refPoly(p, u64(1))
		sum.Add(&sum, &one)
		if sum != cur {
			x.Failf("proof", "%s: round %d does not sum up to the claim before it", what, j)
			return
		}
		r := refMimc(p)
		pt = append(pt, r)
		cur = refPoly(p, r)
	}
	hL, hR, hP := pt[:l.In], pt[l.In:2*l.In], pt[2*l.In:]
	if !equalSlices(a.qL, hL) || !equalSlices(a.qR, hR) || !equalSlices(a.qP, hP) {
		x.Failf("proof", "%s: the points returned are not the challenges", what)
		return
	}
	final := []fr.Element{
		refMLE(values[req.layer], append(append([]fr.Element{}, hL...), hP...)),
		refMLE(values[req.layer], append(append([]fr.Element{}, hR...), hP...)),
		refEq(req.qP, hP),
	}
	st := spec.statAt(req.layer, qs, lambdas, hL, hR)
	for _, k := range order {
		if k < 0 {
			x.Failf("gates", "%s: a gate that is not one of the layer's", what)
			return
		}
		final = append(final, st[k])
	}
	if !equalSlices(a.final, final) {
		x.Failf("proof", "%s: the final claims are not the evaluations at the challenges", what)
		return
	}
	if cur != spec.refCombine(req.layer, qs, lambdas, req.qP, hL, hR, hP, final[0], final[1]) {
		x.Failf("proof", "%s: the final claims do not combine to the last claim", what)
		return
	}
	var ok bool
	var vQP, vQL, vQR []fr.Element
	var last fr.Element
	x.Quiet(func() {
		ok, vQP, vQL, vQR, last = sumcheck.Verifier{}.Verify(claim, a.proof, sh.bN, l.In)
	})
	if !ok || last != cur || !equalSlices(vQP, hP) || !equalSlices(vQL, hL) || !equalSlices(vQR, hR) {
		x.Failf("verifier", "%s: the sumcheck verifier does not agree (accepted: %v)", what, ok)
	}
}

// layerCk combines claims in a circuit.
type layerCk struct {
	Q1, Q2, QP, HL, HR, HP []frontend.Variable
	LL, LR, CL, CR         frontend.Variable
	One, Two               frontend.Variable
	layer                  snarkgkr.Layer
}

// Define implements frontend.Circuit
func (c *layerCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	cs.AssertIsEqual(c.One, c.layer.Combine(cs, c.Q1, c.QP, c.HL, c.HR, c.HP, c.CL, c.CR))
	cs.AssertIsEqual(c.Two, c.layer.CombineWithLinearComb(cs, c.Q1, c.Q2, c.QP, c.HL, c.HR, c.HP, c.LL, c.LR, c.CL, c.CR))
	return nil
}

// c23InCircuit compares the in-circuit combination of a layer's claims with the definition.
func c23InCircuit(x *X, spec *CircS, g *zzsim.RNG) {
	n := x.I("circuitLayer", 0, len(spec.Layers)-1)
	l := spec.Layers[n]
	bN := x.I("circuitBN", 0, 3)
	layer := inCircuitLayer(spec, n)
	alloc := func() *layerCk {
		v := func(n int) []frontend.Variable { return make([]frontend.Variable, n) }
		return &layerCk{Q1: v(l.Out), Q2: v(l.Out), QP: v(bN), HL: v(l.In), HR: v(l.In), HP: v(bN), layer: layer}
	}
	sys, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		x.Failf("compile", "layer %d does not compile: %v: %v", n, err, spec)
		return
	}
	point := func(k int) []fr.Element {
		out := make([]fr.Element, k)
		for i := range out {
			out[i] = randElem(g)
		}
		return out
	}
	for k := 0; k < 3; k++ {
		q1, q2, qP, hL, hR, hP := point(l.Out), point(l.Out), point(bN), point(l.In), point(l.In), point(bN)
		e := point(4)
		one := spec.refCombine(n, [][]fr.Element{q1}, []fr.Element{u64(1)}, qP, hL, hR, hP, e[2], e[3])
		two := spec.refCombine(n, [][]fr.Element{q1, q2}, e[:2], qP, hL, hR, hP, e[2], e[3])
		for wrong := 0; wrong < 3; wrong++ {
			if wrong == 1 {
				v := u64(1)
				one.Add(&one, &v)
			}
			if wrong == 2 {
				v := u64(1)
				one.Sub(&one, &v)
				two.Add(&two, &v)
			}
			w := alloc()
			for i, q := range [][]fr.Element{q1, q2, qP, hL, hR, hP} {
				assignAll([][]frontend.Variable{w.Q1, w.Q2, w.QP, w.HL, w.HR, w.HP}[i], q)
			}
			w.LL.Assign(e[0])
			w.LR.Assign(e[1])
			w.CL.Assign(e[2])
			w.CR.Assign(e[3])
			w.One.Assign(one)
			w.Two.Assign(two)
			ok, err := solved(sys, w)
			if err != nil {
				x.Failf("witness", "layer %d: the claims cannot be assigned: %v", n, err)
				return
			}
			x.Evals++
			if ok != (wrong == 0) {
				x.Failf("in-circuit", "layer %d: in the circuit the claims combine to another value (wrong value given: %v): %v", n, wrong > 0, spec)
				return
			}
		}
	}
	x.Probe("combined in a circuit")
}
