//go:build go1.21 && (p_all || p_c15)

package main

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/polynomial"
	snarkpoly "gkr-mimc/snark/polynomial"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C15"] = &Prop{
		ID: "C15", Quick: 150000, Deep: 7200000,
		Rule: "One to five tasks interpolate, evaluate and fold drawn polynomials at the same time, some on shared values and some overwriting their earlier results; every result is compared with independent definitions. Some runs also compile and solve the in-circuit counterparts.",
		Real: []string{"polynomial", "common", "snark/polynomial", "gnark compiler and solver"},
		Stub: []string{"scheduler"},
		Run:  runC15,
	}
}

const maxInterpolation = 12 // the largest domain the code prepares

func runC15(x *X) {
	tasks, maxCalls := x.I("tasks", 1, 5), 6
	switch x.Pick("extent", 40, 1, 1) {
	case 1:
		tasks = x.I("manyTasks", 6, 30)
	case 2:
		maxCalls = 80
	}
	// values that tasks share
	nVals := x.I("vectors", 1, 4)
	vals, before := make([][]fr.Element, nVals), make([][]fr.Element, nVals)
	for i := range vals {
		n := x.I(fmt.Sprintf("v%d.len", i), 1, maxInterpolation)
		if x.Chance(fmt.Sprintf("v%d.table", i), 40) {
			n = 1 << x.I(fmt.Sprintf("v%d.log", i), 0, 7)
		}
		vals[i] = x.Elems(fmt.Sprintf("v%d", i), n)
		if i > 0 && x.Chance(fmt.Sprintf("v%d.related", i), 30) {
			vals[i] = append([]fr.Element{}, vals[i-1]...)
			k := x.I(fmt.Sprintf("v%d.at", i), 0, len(vals[i])-1)
			vals[i][k] = partly(vals[i][k], 1<<x.I(fmt.Sprintf("v%d.word", i), 0, 3), x.RNG("related"))
		}
		before[i] = append([]fr.Element{}, vals[i]...)
	}
	points := x.Elems("points", 32)
	long := x.Chance("longPoints", 2) // equality with points of up to twelve coordinates
	type job struct{ kind, v, p, n int }
	names := []string{"InterpolateOnRange", "EvaluatePolynomial", "LagrangeCoefficient", "GetLagrangePolynomial", "Evaluate", "Fold", "FunctionEvals", "EvalEq", "GetFoldedEqTable", "LinearCombination", "EvaluateLeftAndRight", "DeepCopy", "InterleavedChunk"}
	jobs := make([][]job, tasks)
	scribble := make([]bool, tasks)
	for t := range jobs {
		scribble[t] = x.Chance(fmt.Sprintf("t%d.scribble", t), 30)
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, maxCalls); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			jobs[t] = append(jobs[t], job{x.Pick(p+"kind", 6, 4, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1), x.I(p+"v", 0, nVals-1), x.I(p+"p", 0, 8), x.I(p+"n", 1, maxInterpolation)})
		}
	}
	x.Note("%d tasks, %d vectors, jobs %v", tasks, nVals, jobs)
	one := u64(1)
	kept := &keeper{}
	do := func(t int, j job) string {
		v, b := vals[j.v], before[j.v]
		r := points[j.p]
		q := points[j.p:] // a point, shared with other tasks
		log := log2ceil(len(v))
		isTable := len(v) == 1<<log
		ruin := func(s []fr.Element) {
			if scribble[t] {
				for i := range s {
					s[i].SetUint64(1234)
				}
				x.probes["earlier result overwritten"]++
				return
			}
			kept.keep(s)
		}
		table := func() polynomial.BookKeepingTable {
			return polynomial.NewBookKeepingTable(append([]fr.Element{}, v...))
		}
		switch j.kind {
		case 0:
			if len(v) > maxInterpolation {
				v, b = v[:j.n], b[:j.n]
			}
			got := polynomial.InterpolateOnRange(v)
			if !equalSlices(got, refInterpolate(b)) {
				return fmt.Sprintf("%d values", len(v))
			}
			for i := range b { // and evaluate it again
				if polynomial.EvaluatePolynomial(got, u64(uint64(i))) != b[i] {
					return fmt.Sprintf("value %d of %d", i, len(b))
				}
			}
			ruin(got)
		case 1:
			if polynomial.EvaluatePolynomial(v, r) != refPoly(b, r) {
				return fmt.Sprintf("%d coefficients", len(v))
			}
		case 2, 3:
			n := j.n
			if j.kind == 2 {
				n += j.p // any domain can be computed
			}
			get := polynomial.GetLagrangePolynomial
			if j.kind == 2 {
				get = polynomial.LagrangeCoefficient
			}
			m := get(n)
			if len(m) != n {
				return fmt.Sprintf("%d polynomials instead of %d", len(m), n)
			}
			l := j.v % n
			unit := make([]fr.Element, n)
			unit[l].SetOne()
			if !equalSlices(m[l], refInterpolate(unit)) {
				return fmt.Sprintf("polynomial %d of %d", l, n)
			}
			if j.kind == 2 {
				ruin(m[l])
			}
		case 4:
			if isTable && log <= 7 {
				tab := polynomial.NewBookKeepingTable(v)
				if tab.Evaluate(q[:log]) != refMLE(b, q[:log]) {
					return fmt.Sprintf("%d values", len(v))
				}
			}
		case 5:
			if isTable && log > 0 {
				tab := table()
				tab.Fold(r)
				if !equalSlices(tab.Table, refFold(b, r)) {
					return fmt.Sprintf("%d values", len(v))
				}
			}
		case 6:
			if isTable && log > 0 {
				got := polynomial.NewBookKeepingTable(v).FunctionEvals()
				if len(got) != len(v)/2 {
					return fmt.Sprintf("%d differences of %d values", len(got), len(v))
				}
				for i := range got {
					var want fr.Element
					want.Sub(&b[i+len(b)/2], &b[i])
					if got[i] != want {
						return fmt.Sprintf("difference %d of %d values", i, len(v))
					}
				}
				ruin(got)
			}
		case 7:
			n := min(len(v), 7)
			if long {
				n = min(len(v), 24)
			}
			if polynomial.EvalEq(q[:n], v[:n]) != refEq(q[:n], b[:n]) {
				return fmt.Sprintf("%d coordinates", n)
			}
		case 8:
			n := min(j.n, 7)
			if long {
				n = j.n
			}
			got := polynomial.GetFoldedEqTable(q[:n])
			if !equalSlices(got.Table, eqWeights(q[:n])) {
				return fmt.Sprintf("%d coordinates", n)
			}
			ruin(got.Table)
		case 9:
			got := polynomial.LinearCombinationOfBookKeepingTables(table(), table(), r, one) // works in place
			for i := range b {
				var want fr.Element
				want.Mul(&b[i], &r)
				want.Add(&want, &b[i])
				if len(got.Table) != len(b) || got.Table[i] != want {
					return fmt.Sprintf("value %d of %d", i, len(b))
				}
			}
			ruin(got.Table)
		case 10:
			if isTable && log <= 5 {
				g := j.n % (log + 1)
				hP, hL, hR := q[g:log], q[:g], points[31-g:31]
				tab := polynomial.NewBookKeepingTable(v)
				l, r := tab.EvaluateLeftAndRight(hP, hL, hR)
				if l != refMLE(b, q[:log]) || r != refMLE(b, append(append([]fr.Element{}, hR...), hP...)) {
					return fmt.Sprintf("%d values", len(v))
				}
			}
		case 11: // copies and tables live their own lives
			tab := table()
			c, d := tab.DeepCopy(), tab.DeepCopy()
			if !equalSlices(c.Table, b) || !equalSlices(d.Table, b) {
				return fmt.Sprintf("%d values", len(v))
			}
			for i := range c.Table {
				c.Table[i].SetUint64(1234)
			}
			if !equalSlices(tab.Table, b) || !equalSlices(d.Table, b) {
				return fmt.Sprintf("%d values, after writing to another copy", len(v))
			}
			for i := range tab.Table {
				tab.Table[i].SetUint64(4321)
			}
			if !equalSlices(d.Table, b) {
				return fmt.Sprintf("%d values, after writing to the table", len(v))
			}
			ruin(d.Table)
		case 12:
			if isTable {
				k := j.p % (log + 1) // 2^k chunks
				tab := polynomial.NewBookKeepingTable(v)
				on := j.n % (1 << k)
				c := tab.InterleavedChunk(on, 1<<k)
				if len(c.Table) != len(b)>>k {
					return fmt.Sprintf("%d values in chunk %d of %d, of %d", len(c.Table), on, 1<<k, len(v))
				}
				for i := range c.Table {
					if c.Table[i] != b[on+i<<k] {
						return fmt.Sprintf("value %d in chunk %d of %d, of %d", i, on, 1<<k, len(v))
					}
				}
			}
		}
		return ""
	}
	pts := append([]fr.Element{}, points...)
	r := x.Sim(func() {
		for t := range jobs {
			t := t
			zzsim.GoHarness(func() {
				for k, j := range jobs[t] {
					x.Evals++
					if what := do(t, j); what != "" {
						x.Failf("value", "task %d, call %d: %s: %s", t, k, names[j.kind], what)
						return
					}
				}
			})
		}
	})
	if r.Outcome != "ok" {
		return
	}
	if !equal2(vals, before) || !equalSlices(points, pts) {
		x.Failf("operand", "an operand was modified")
	}
	kept.check(x)
	if tasks > 1 {
		x.Probe("several tasks")
	}
	if !x.Failed() && x.Chance("inCircuit", 4) {
		polyCircuit(x)
	}
}

// polyCk evaluates polynomials in a circuit, each more than once.
type polyCk struct {
	U      snarkpoly.Univariate
	M      snarkpoly.MultilinearByValues
	X      [2]frontend.Variable
	QP     []frontend.Variable
	QL, QR []frontend.Variable
	Out    []frontend.Variable
}

func newPolyCk(deg, bN, bG int) polyCk {
	return polyCk{
		U:  snarkpoly.AllocateUnivariate(deg),
		M:  snarkpoly.AllocateMultilinear(bN + bG),
		QP: make([]frontend.Variable, bN), QL: make([]frontend.Variable, bG), QR: make([]frontend.Variable, bG),
		Out: make([]frontend.Variable, 9),
	}
}

// Define implements frontend.Circuit
func (c *polyCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	q := append(append([]frontend.Variable{}, c.QL...), c.QP...)
	left, right := c.M.EvalMixed(cs, c.QL, c.QR, c.QP)
	r := append(append([]frontend.Variable{}, c.QR...), c.QP...)
	got := []frontend.Variable{
		c.U.Eval(cs, c.X[0]), c.U.ZeroAndOne(cs), c.U.Eval(cs, c.X[1]),
		c.M.Eval(cs, q), left, right, c.M.Eval(cs, r),
		snarkpoly.EqEval(cs, q, r), snarkpoly.UnivariateEqEval(cs, c.X[0], c.X[1]),
	}
	for i := range got {
		cs.AssertIsEqual(got[i], c.Out[i])
	}
	return nil
}

func polyCircuit(x *X) {
	deg, bN, bG := x.I("deg", 0, 9), x.I("circuit.bN", 0, 3), x.I("circuit.bG", 0, 2)
	if x.Chance("largeCircuit", 10) {
		bN = x.I("circuit.largeBN", 4, 7)
	}
	tpl := newPolyCk(deg, bN, bG)
	sys, err := compile(fmt.Sprint("poly", deg, bN, bG), &tpl)
	if err != nil {
		x.Failf("compile", "polynomials of degree %d and %d+%d variables do not compile: %v", deg, bG, bN, err)
		return
	}
	coeffs, table := x.Elems("coeffs", deg+1), x.Elems("circuit.table", 1<<(bN+bG))
	xs, qP, qL, qR := x.Elems("xs", 2), x.Elems("circuit.qP", bN), x.Elems("circuit.qL", bG), x.Elems("circuit.qR", bG)
	q, r := append(append([]fr.Element{}, qL...), qP...), append(append([]fr.Element{}, qR...), qP...)
	zno := refPoly(coeffs, fr.Element{})
	at1 := refPoly(coeffs, u64(1))
	zno.Add(&zno, &at1)
	l, rr := refMLE(table, q), refMLE(table, r)
	want := []fr.Element{refPoly(coeffs, xs[0]), zno, refPoly(coeffs, xs[1]), l, l, rr, rr, refEq(q, r), refEq(xs[:1], xs[1:])}
	wrong := x.I("wrong", -1, len(want)-1)
	for pass := 0; pass < 2; pass++ {
		if pass == 1 {
			if wrong < 0 {
				break
			}
			d := u64(1)
			want[wrong].Add(&want[wrong], &d)
		}
		w := newPolyCk(deg, bN, bG)
		w.U.Assign(coeffs)
		w.M.AssignFromChunkedBKT(split(table, bN, x.I("circuit.logChunks", 0, bN)))
		assignAll(w.X[:], xs)
		assignAll(w.QP, qP)
		assignAll(w.QL, qL)
		assignAll(w.QR, qR)
		assignAll(w.Out, want)
		ok, err := solved(sys, &w)
		if err != nil {
			x.Failf("witness", "polynomials of degree %d and %d+%d variables cannot be given a witness: %v", deg, bG, bN, err)
			return
		}
		x.Evals++
		if ok != (pass == 0) {
			x.Failf("in-circuit", "polynomials of degree %d and %d+%d variables: constraints satisfied: %v, with the wrong value at %d: %v", deg, bG, bN, ok, wrong, pass == 1)
			return
		}
	}
	x.Probe("in-circuit polynomials solved")
}
