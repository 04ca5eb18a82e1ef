//go:build go1.21 && (p_all || p_c27)

package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	snarkpoly "gkr-mimc/snark/polynomial"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C27"] = &Prop{
		ID: "C27", Quick: 60000, Deep: 2400000,
		Rule: "One to three callers go through histories of right operations on shared and own objects, mixed with calls that are refused: arguments that do not fit, user-defined gates that fail in the caller's goroutine, an entropy source that fails. What is thrown is recovered, and every right operation, before, after and beside it, has to return what it returns in a new process. In a part of the runs the history is long and the memory held by package-level variables and shared objects is measured four times and more.",
		Real: []string{"gkr prover and verifier", "sumcheck", "circuit", "polynomial", "hash", "common"},
		Stub: []string{"scheduler", "channels, sync, runtime", "entropy source", "environment", "failing gates of the harness"},
		Run:  runC27,
	}
}

var errFuse = errors.New("the gate fails")

// fuses make gates fail in the goroutines that ask for it.
type fuses map[string]int

func (f fuses) burn() {
	if len(f) == 0 || !zzsim.InRun() {
		return
	}
	p := zzsim.CurPath()
	n, ok := f[p]
	if !ok {
		return
	}
	if n == 0 {
		delete(f, p)
		panic(errFuse)
	}
	f[p] = n - 1
}

type fuseGate struct {
	circuit.Gate
	f fuses
}

// Eval implements circuit.Gate
func (g *fuseGate) Eval(res, vL, vR *fr.Element) {
	g.f.burn()
	g.Gate.Eval(res, vL, vR)
}

// EvalManyVL implements circuit.Gate
func (g *fuseGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	g.f.burn()
	g.Gate.EvalManyVL(res, vLs, vR)
}

// EvalManyVR implements circuit.Gate
func (g *fuseGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	g.f.burn()
	g.Gate.EvalManyVR(res, vL, vRs)
}

// world is what the callers of one process share.
type world struct {
	x       *X
	f       fuses
	spec    *CircS
	circ    circuit.Circuit
	sh      Shape
	in      []fr.Element
	ref     *Transcript
	ver     gkr.Verifier
	asg     circuit.Assignment
	prover  gkr.Prover
	ready   bool
	bad     []*Transcript
	verdict []bool
	s       *sumcheckTables
	gates   []circuit.Gate
	table   []fr.Element // a shared table of values
	bkt     polynomial.BookKeepingTable
	seen    map[fr.Element]bool
	failing map[string]bool // tasks whose entropy fails
	ended   bool
	refused int
	weights bool
}

func (w *world) fail(who, format string, a ...any) {
	w.x.Failf("after-refusal", "%s: %s", who, fmt.Sprintf(format, a...))
}

// refuse makes a call that is not expected to succeed.
func (w *world) refuse(f func()) {
	w.refused++
	switch e := attempt(f).(type) {
	case nil:
		w.x.probes["refused call that returns"]++
	case zzsim.ExitPanic:
		w.ended = true
		w.x.probes["process ended by itself"]++
	default:
		if e == errFuse {
			w.x.faults["gate fails"]++
		} else {
			w.x.faults["call refused"]++
		}
	}
}

func drawWorld(x *X) *world {
	w := &world{x: x, f: fuses{}, seen: map[fr.Element]bool{}, failing: map[string]bool{}}
	w.spec = genCirc(x, "", circOpts{maxLayers: 3, maxB: 1, maxWires: 4, maxGates: 3})
	w.sh = genShape(x, "", 2)
	w.in = x.Elems("inputs", 1<<(w.sh.bN+w.spec.Layers[0].In))
	wiring := make([][]circuit.Wire, len(w.spec.Layers))
	for i, l := range w.spec.Layers {
		for _, s := range l.Wires {
			wiring[i] = append(wiring[i], circuit.Wire{L: s.L, R: s.R, O: s.O, Gate: &fuseGate{w.spec.Gates[s.G].gate(nil), w.f}})
		}
	}
	w.circ = circuit.NewCircuit(wiring)
	w.ver = gkr.NewVerifier(w.sh.bN, w.circ)
	w.s, w.gates = drawTables(x, "rounds.", false)
	for i := range w.gates {
		w.gates[i] = &fuseGate{w.gates[i], w.f}
	}
	w.table = x.Elems("table", 1<<uint(x.I("tableVars", 0, 5)))
	w.bkt = polynomial.NewBookKeepingTable(append([]fr.Element{}, w.table...))
	return w
}

// prepare makes the transcripts the callers work with.
func (w *world) prepare() bool {
	w.x.Quiet(func() { w.ref = honest(w.spec, w.sh, w.in) })
	if w.x.Failed() {
		return false
	}
	g := w.x.RNG("altered")
	for k := 0; k < 3; k++ {
		t := w.ref.copy()
		delta := randElem(g)
		add := func(v []fr.Element) {
			if len(v) > 0 {
				p := &v[g.N(int64(len(v)))]
				p.Add(p, &delta)
			}
		}
		l := int(g.N(int64(len(w.spec.Layers))))
		switch g.N(7) {
		case 0:
			add(t.Proof.ClaimsLeft)
		case 1:
			add(t.Proof.ClaimsRight)
		case 2:
			add(t.Inputs[g.N(int64(len(t.Inputs)))])
		case 3:
			add(t.Outputs[g.N(int64(len(t.Outputs)))])
		case 4:
			t.Proof.ClaimsLeft = t.Proof.ClaimsLeft[1:]
		case 5:
			if p := t.Proof.SumcheckProofs[l].PolyCoeffs; len(p) > 0 {
				add(p[g.N(int64(len(p)))])
			}
		case 6:
			if p := t.Proof.SumcheckProofs[l].PolyCoeffs; len(p) > 0 {
				t.Proof.SumcheckProofs[l].PolyCoeffs = p[:len(p)-1]
			}
		}
		w.bad = append(w.bad, t)
		w.verdict = append(w.verdict, w.spec.refVerify(w.sh.bN, t).ok)
	}
	return true
}

// start makes the objects that have to be made in the process.
func (w *world) start() {
	w.asg = w.circ.Assign(split(w.in, w.sh.bN, w.sh.logChunks), w.sh.cores)
	w.prover = gkr.NewProver(w.circ, w.asg)
}

const (
	rightOps   = 15
	refusedOps = 19
)

// right performs an operation that has to succeed and compares what it returns.
func (w *world) right(who string, op int, g *zzsim.RNG) {
	w.x.Evals++
	switch op {
	case 0:
		m := values(g, g.N(10))
		var got, want fr.Element
		k := int(g.N(8))
		switch k {
		case 0:
			got, want = hash.MimcHash(m), refMimc(m)
		case 1:
			got, want = common.GetChallenge(m), refMimc(m)
		case 2:
			got, want = hash.GMimcT2.Hash(m), refGmimc(2, m)
		case 3:
			got, want = hash.GMimcT4.Hash(m), refGmimc(4, m)
		case 4:
			got, want = hash.GMimcT8.Hash(m), refGmimc(8, m)
		case 5:
			got, want = hash.PoseidonT2.Hash(m), refPoseidon(2, m)
		case 6:
			got, want = hash.PoseidonT4.Hash(m), refPoseidon(4, m)
		case 7:
			got, want = hash.PoseidonT8.Hash(m), refPoseidon(8, m)
		}
		if got != want {
			w.fail(who, "hash %d of %d elements is wrong", k, len(m))
		}
	case 1:
		v := values(g, 1+g.N(12))
		if got := polynomial.InterpolateOnRange(v); !equalSlices(got, refInterpolate(v)) {
			w.fail(who, "the interpolation of %d values is wrong", len(v))
		}
	case 2, 3:
		n := 1 + g.N(40)
		if op == 3 && g.N(12) == 0 {
			n = int64(common.MinChunkSize) + g.N(3000)
		}
		cores := 1 + int(g.N(5))
		a, b := values(g, n), values(g, n)
		lambda := randElem(g)
		var t polynomial.BookKeepingTable
		if g.N(2) == 0 {
			t = polynomial.NewBookKeepingTable(make([]fr.Element, g.N(n+3)))
		}
		ta, tb := polynomial.NewBookKeepingTable(append([]fr.Element{}, a...)), polynomial.NewBookKeepingTable(append([]fr.Element{}, b...))
		kind := g.N(3)
		want := make([]fr.Element, n)
		switch kind {
		case 0:
			t.Add(ta, tb)
		case 1:
			t.Sub(ta, tb, cores)
		case 2:
			t.Mul(lambda, ta, cores)
		}
		for i := range want {
			switch kind {
			case 0:
				want[i].Add(&a[i], &b[i])
			case 1:
				want[i].Sub(&a[i], &b[i])
			case 2:
				want[i].Mul(&a[i], &lambda)
			}
		}
		if !equalSlices(t.Table, want) || !equalSlices(ta.Table, a) || !equalSlices(tb.Table, b) {
			w.fail(who, "%s of tables of %d entries on %d cores is wrong", []string{"sum", "difference", "product"}[kind], n, cores)
		}
	case 4: // the shared table
		q := values(g, int64(log2ceil(len(w.table))))
		if got := w.bkt.Evaluate(q); got != refMLE(w.table, q) {
			w.fail(who, "the value of a table of %d entries is wrong", len(w.table))
		}
	case 5:
		n := int(g.N(6))
		q := values(g, int64(n))
		eq := eqWeights(q)
		if g.N(2) == 0 {
			t := polynomial.GetFoldedEqTable(q)
			if !equalSlices(t.Table, eq) {
				w.fail(who, "the equality table of %d variables is wrong", n)
			}
			return
		}
		logChunks := int(g.N(int64(n + 1)))
		t := polynomial.GetChunkedEqTable(q, 1<<logChunks, 1+int(g.N(4)))
		for i, c := range split(eq, n, logChunks) {
			if len(t) != 1<<logChunks || !equalSlices(t[i].Table, c) {
				w.fail(who, "the equality table of %d variables in %d chunks is wrong", n, 1<<logChunks)
				return
			}
		}
	case 6:
		n := g.N(5)
		a, b := values(g, n), values(g, n)
		if polynomial.EvalEq(a, b) != refEq(a, b) {
			w.fail(who, "the equality polynomial of %d variables is wrong", n)
		}
	case 7:
		l := int(g.N(int64(len(w.spec.Layers))))
		q := values(g, int64(w.spec.Layers[l].Out))
		got, want := w.circ.Layers[l].GetStaticTable(q), w.spec.refStatics(l, q)
		for i := range want {
			if len(got) != len(want) || !equalSlices(got[i].Table, want[i]) {
				w.fail(who, "the static tables of layer %d are wrong (%s)", l, w.spec)
				return
			}
		}
	case 8: // prove
		cores := 1 + int(g.N(4))
		p := w.prover
		if g.N(2) == 0 {
			a := w.circ.Assign(split(w.in, w.sh.bN, w.sh.logChunks), cores)
			p = gkr.NewProver(w.circ, a)
			if !equal2(a.Values[len(a.Values)-1], w.ref.Outputs) {
				w.fail(who, "the outputs are wrong (%s)", describe(w.spec, w.sh))
			}
		}
		if proof := p.Prove(cores); !equalProofs(proof, w.ref.Proof) {
			w.fail(who, "the proof differs in %s (%s)", diffProofs(proof, w.ref.Proof), describe(w.spec, w.sh))
		}
	case 9, 10: // verify
		t, want := w.ref, true
		if op == 10 {
			k := g.N(int64(len(w.bad)))
			t, want = w.bad[k], w.verdict[k]
		}
		if w.ver.Verify(t.Proof, t.Inputs, t.Outputs) != want {
			w.fail(who, "the verdict on a transcript is not %v (%s)", want, describe(w.spec, w.sh))
		}
	case 11: // a prover by rounds
		r := &remote{s: w.s, gates: w.gates}
		r.rebuild()
		w.rounds(who, r, g, -1)
	case 12:
		n := 1 + g.N(8)
		out := common.RandomFrArray(int(n))
		if len(out) != int(n) {
			w.fail(who, "%d random values instead of %d", len(out), n)
		}
		for _, e := range out {
			if w.seen[e] && !w.weights {
				w.fail(who, "a random value was drawn before")
			}
			if !w.weights {
				w.seen[e] = true
			}
		}
	case 13:
		v := values(g, g.N(6))
		var want []string
		for _, e := range v {
			want = append(want, pretty(e))
		}
		if wrong := numbersIn(common.FrSliceToString(v), want); wrong != "" {
			w.fail(who, "a printed slice is wrong: %s", wrong)
		}
	case 14:
		n, cores := int(g.N(60000)), 1+int(g.N(20))
		next := 0
		for _, r := range common.IntoChunkRanges(cores, n) {
			if r.Begin != next {
				w.fail(who, "work of %d on %d cores is split wrongly", n, cores)
				return
			}
			next = r.End
		}
		if next != n {
			w.fail(who, "work of %d on %d cores is split wrongly", n, cores)
		}
	}
}

// rounds steps a prover; before the round it is to fail in, its gates fail while it is asked.
func (w *world) rounds(who string, r *remote, g *zzsim.RNG, failIn int) {
	cur := w.s.copy()
	n := w.s.bN + 2*w.s.bG
	var challenges []fr.Element
	for k := 0; k < n; k++ {
		if k == failIn {
			w.arm(g.N(6))
			w.refuse(func() {
				switch {
				case r.at < r.s.bG:
					r.p.GetEvalsOnHL()
				case r.at < 2*r.s.bG:
					r.p.GetEvalsOnHR()
				default:
					r.p.GetEvalsOnHPrime()
				}
			})
			w.disarm()
			if w.ended {
				return
			}
		}
		evals, poly := r.answer(challenges), cur.roundPoly(k)
		w.x.Evals++
		if got := refInterpolate(evals); !samePoly(got, poly) {
			w.fail(who, "the message of round %d of %d is wrong", k, n)
			return
		}
		c := randElem(g)
		challenges = append(challenges, c)
		cur = cur.fold(k, c)
	}
}

// samePoly compares polynomials, leading zeros aside.
func samePoly(a, b []fr.Element) bool {
	for len(a) > 0 && a[len(a)-1].IsZero() {
		a = a[:len(a)-1]
	}
	for len(b) > 0 && b[len(b)-1].IsZero() {
		b = b[:len(b)-1]
	}
	return equalSlices(a, b)
}

func (w *world) arm(n int64) { w.f[zzsim.CurPath()] = int(n) }
func (w *world) disarm()     { delete(w.f, zzsim.CurPath()) }

// wrong makes a call that cannot succeed; what it throws is recovered.
func (w *world) wrong(who string, op int, g *zzsim.RNG) {
	n := 1 + g.N(9)
	tab := func(n int64) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(values(g, n)) }
	switch op {
	case 0, 1: // a verifier whose gates fail
		t := w.ref
		if g.N(3) == 0 {
			t = w.bad[g.N(int64(len(w.bad)))]
		}
		w.arm(g.N(5))
		w.refuse(func() { w.ver.Verify(t.Proof, t.Inputs, t.Outputs) })
		w.disarm()
		if !w.ended && g.N(2) == 0 {
			w.right(who, 9, g)
		}
	case 2: // a prover whose gates fail, asked again
		r := &remote{s: w.s, gates: w.gates}
		r.rebuild()
		w.rounds(who, r, g, int(g.N(int64(w.s.bN+2*w.s.bG+1))))
	case 3: // the same, given up
		r := &remote{s: w.s, gates: w.gates}
		r.rebuild()
		w.arm(g.N(20))
		w.refuse(func() { r.p.Prove() })
		w.disarm()
	case 4: // layers evaluated gate by gate
		l := g.N(int64(len(w.spec.Layers)))
		gates := w.circ.Layers[l].Gates
		a, b, e := randElem(g), randElem(g), randElem(g)
		w.arm(g.N(int64(len(gates))))
		w.refuse(func() { circuit.EvaluateCombinator(&a, &b, &e, gates, values(g, int64(len(gates)))) })
		w.disarm()
	case 5:
		var t polynomial.BookKeepingTable
		a, b := tab(n), tab(n+1+g.N(5))
		if g.N(2) == 0 {
			a, b = b, a
		}
		w.refuse(func() { t.Sub(a, b, 1+int(g.N(4))) })
	case 6:
		var t polynomial.BookKeepingTable
		a, b := tab(n), tab(n+1+g.N(5))
		w.refuse(func() { t.Add(b, a) })
	case 7:
		v := values(g, []int64{13, 14, 20, 64}[g.N(4)])
		w.refuse(func() { polynomial.InterpolateOnRange(v) })
	case 8:
		k := []int{-1, 13, 14, 1000}[g.N(4)]
		w.refuse(func() { polynomial.GetLagrangePolynomial(k) })
	case 9:
		w.refuse(func() { polynomial.EvaluatePolynomial(nil, randElem(g)) })
	case 10:
		a, b := values(g, n+1), values(g, n)
		w.refuse(func() { polynomial.EvalEq(a, b) })
	case 11: // no entropy
		me := zzsim.CurPath()
		w.failing[me] = true
		w.refuse(func() {
			if g.N(2) == 0 {
				common.RandomFrArray(int(n))
			} else {
				common.RandomFrDoubleSlice(int(n), int(n))
			}
		})
		delete(w.failing, me)
		if !w.ended && g.N(2) == 0 {
			w.right(who, 12, g)
		}
	case 12: // a block or a state that is too short
		h := []hash.GMimcHasher{hash.GMimcT2, hash.GMimcT4, hash.GMimcT8}[g.N(3)]
		s, b := values(g, 8), values(g, 1)
		w.refuse(func() { h.UpdateInplace(s, b) })
	case 13:
		h := []*hash.PoseidonHasher{&hash.PoseidonT2, &hash.PoseidonT4, &hash.PoseidonT8}[g.N(3)]
		s, b := values(g, 1+g.N(9)), values(g, 1)
		w.refuse(func() { h.Update(s, b) })
	case 14: // more coordinates than the shared table has
		q := values(g, int64(log2ceil(len(w.table)))+1+g.N(3))
		w.refuse(func() { w.bkt.Evaluate(q) })
		if !w.ended && g.N(2) == 0 {
			w.right(who, 4, g)
		}
	case 15: // a point that is too short
		l := int(g.N(int64(len(w.spec.Layers))))
		if k := int64(w.spec.Layers[l].Out); k > 0 {
			w.refuse(func() { w.circ.Layers[l].GetStaticTable(values(g, g.N(k))) })
		}
	case 16:
		w.refuse(func() { common.NewSemaphore(-int(n)) })
	case 17:
		m := snarkpoly.AllocateMultilinear(int(g.N(3)))
		u := snarkpoly.AllocateUnivariate(int(g.N(3)))
		v := values(g, 9+n)
		w.refuse(func() { m.Assign(common.FrToGenericArray(v)) })
		if !w.ended {
			w.refuse(func() { u.Assign(v) })
		}
	case 18: // chunks that do not fit the point
		bkts := []polynomial.BookKeepingTable{tab(2), tab(2), tab(2), tab(2)}
		switch g.N(3) {
		case 0:
			w.refuse(func() { polynomial.EvaluateMixedChunked(bkts, values(g, 1), values(g, 1), values(g, 1)) })
		case 1:
			w.refuse(func() { polynomial.EvaluateChunked(bkts, values(g, 1)) })
		case 2:
			w.refuse(func() { polynomial.EvaluateChunked(bkts[:3], values(g, 2)) })
		}
	}
}

func runC27(x *X) {
	w := drawWorld(x)
	if !w.prepare() {
		return
	}
	x.restart("", 30)
	g := x.RNG("entropy")
	zzsim.Entropy = func(p []byte) (int, error) {
		zzsim.Y()
		if len(w.failing) > 0 && zzsim.InRun() && w.failing[zzsim.CurPath()] && g.N(3) == 0 {
			x.Fault("entropy source fails")
			return 0, errors.New("no entropy")
		}
		g.Fill(p)
		return len(p), nil
	}
	defer func() { zzsim.Entropy = nil }()
	if x.Chance("long", 2) {
		w.longUse()
		return
	}

	tasks := 1 + x.Pick("tasks", 4, 4, 2)
	type job struct {
		wrong bool
		op    int
	}
	jobs := make([][]job, tasks)
	favourite, favoured := x.I("favourite", 0, rightOps-1), x.Pick("favoured", 2, 1)*50
	again := x.I("again", 0, refusedOps-1) // refused more often
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, []int{4, 10}[x.Pick(fmt.Sprintf("t%d.more", t), 3, 1)]); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			j := job{wrong: x.Chance(p+"refused", 50)}
			if j.wrong {
				if j.op = x.I(p+"op", 0, refusedOps-1); x.Chance(p+"again", favoured) {
					j.op = again
				}
			} else if j.op = x.I(p+"op", 0, rightOps-1); x.Chance(p+"favourite", favoured) {
				j.op = favourite
			}
			jobs[t] = append(jobs[t], j)
		}
	}
	x.Note("%s, %d tasks, jobs %v", describe(w.spec, w.sh), tasks, jobs)
	r := x.Sim(func() {
		w.start()
		var wg sync.WaitGroup
		for t := range jobs {
			t := t
			wg.Add(1)
			zzsim.GoHarness(func() {
				defer wg.Done()
				for k, j := range jobs[t] {
					who := fmt.Sprintf("task %d, call %d after %d refused ones", t, k, w.refused)
					g := x.RNG(fmt.Sprintf("t%d.%d", t, k))
					if j.wrong {
						w.wrong(who, j.op, g)
					} else {
						w.right(who, j.op, g)
					}
					if w.ended || x.Failed() {
						return
					}
				}
			})
		}
		wg.Wait()
		if w.ended || x.Failed() {
			return
		}
		// whatever happened, everything works
		for op := 0; op < rightOps; op++ {
			if tasks > 1 && op == 3 {
				continue
			}
			w.right(fmt.Sprintf("afterwards, %d calls were refused", w.refused), op, x.RNG("after"+itoa(op)))
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	w.left(r)
}

func (w *world) left(r zzsim.Result) {
	if len(r.Leaked) > 0 && !w.ended {
		w.x.Failf("leak", "%d goroutines never ended: %s", len(r.Leaked), strings.Join(r.Leaked[:min(len(r.Leaked), 6)], "; "))
	}
}

// longUse goes on for long and measures what is held.
func (w *world) longUse() {
	x := w.x
	w.weights = true
	wrongPct := int64(x.I("wrongPct", 0, 60))
	var ops, wrongs []int
	few := x.Pick("few", 1, 1) == 1 // the same again and again
	usePct, refusePct := 40, 30
	if few {
		usePct, refusePct = 5, 5
	}
	for k := 0; k < rightOps; k++ {
		if x.Chance("use"+itoa(k), usePct) {
			ops = append(ops, k)
		}
	}
	if len(ops) == 0 {
		ops = append(ops, x.I("useOne", 0, rightOps-1))
	}
	for k := 0; k < refusedOps; k++ {
		if x.Chance("refuse"+itoa(k), refusePct) {
			wrongs = append(wrongs, k)
		}
	}
	quarter := x.I("quarter", 8, 60)
	if few {
		quarter = x.I("quarterOfFew", 20, []int{100, 400}[x.Pick("most", 2, 1)])
	}
	x.Note("%s, long use: operations %v, refused %v (%d%%), %d at a time", describe(w.spec, w.sh), ops, wrongs, wrongPct, quarter)
	x.Probe("long use")
	g := x.RNG("long")
	r := x.Sim(func() {
		w.start()
		call := 0
		use := func(n int) int {
			for ; n > 0 && !w.ended && !x.Failed(); n-- {
				call++
				who := fmt.Sprintf("call %d after %d refused ones", call, w.refused)
				if len(wrongs) > 0 && g.N(100) < wrongPct {
					w.wrong(who, wrongs[g.N(int64(len(wrongs)))], g)
				} else {
					w.right(who, ops[g.N(int64(len(ops)))], g)
				}
			}
			return zzsim.Weigh(&w.circ, &w.ver, &w.prover, &w.asg, &w.bkt)
		}
		// four times the same amount of work; where that grows, more and more of it
		for n := quarter; ; n *= 4 {
			sizes := []int{use(n)}
			grows := true
			for k := 0; k < 3; k++ {
				sizes = append(sizes, use(n))
				grows = grows && sizes[k+1] > sizes[k]
			}
			first, last := sizes[1]-sizes[0], sizes[3]-sizes[2]
			if w.ended || x.Failed() {
				return
			}
			if !grows || 2*last < first {
				for op := 0; op < rightOps && !x.Failed(); op++ {
					w.right(fmt.Sprintf("after %d calls, %d of them refused", call, w.refused), op, g)
				}
				return
			}
			if n >= 1500 {
				x.Failf("grows", "after %d calls the process holds %d bytes more than after %d, and the growth goes on: %v", call, sizes[3]-sizes[0], call-3*n, sizes)
				return
			}
			x.probes["growth looked into"]++
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	w.left(r)
}
