//go:build go1.21 && (p_all || p_c14)

package main

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	snarkgkr "gkr-mimc/snark/gkr"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C14"] = &Prop{
		ID: "C14", Quick: 150000, Short: true, Deep: 7200000,
		Rule: "One to five tasks share a set of gates (and some of the operand slices) and evaluate them in all their forms, compute combinations, names and degrees, with yield points inside the gates; every result is compared with an independent definition of the gates. Some runs also compile and solve the gates' in-circuit forms.",
		Real: []string{"circuit (gates)", "snark/gkr (gates)", "gnark compiler and solver"},
		Stub: []string{"scheduler"},
		Run:  runC14,
	}
}

// gateCk asserts that a gate's in-circuit form gives Out.
type gateCk struct {
	L, R, Out frontend.Variable
	f         func(cs *frontend.ConstraintSystem, l, r frontend.Variable) frontend.Variable
}

// Define implements frontend.Circuit
func (c *gateCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	cs.AssertIsEqual(c.f(cs, c.L, c.R), c.Out)
	return nil
}

func runC14(x *X) {
	// the gates: the stateless ones, and ciphers with unrelated, related and special constants
	specs := []GateS{{Kind: "add"}, {Kind: "mul"}, {Kind: "copy"}}
	arks := x.Elems("arks", 4)
	for i := 0; i < 4; i++ {
		g := GateS{Kind: "cipher"}
		g.C[0] = arks[i]
		if i > 0 && x.Chance("ark"+itoa(i)+".related", 30) {
			g.C[0] = partly(arks[i-1], 1<<x.I("ark"+itoa(i)+".word", 0, 3), x.RNG("ark"+itoa(i)))
		}
		specs = append(specs, g)
	}
	nGates := len(specs)
	gates := make([]circuit.Gate, nGates)
	tasks := x.I("tasks", 1, 5)
	maxCalls, maxLen := 6, 9
	switch x.Pick("extent", 40, 1, 1, 1) {
	case 1:
		tasks = x.I("manyTasks", 6, 30)
	case 2:
		maxCalls = 100
	case 3:
		maxLen = 600
	}
	// operands some tasks share
	nOps := x.I("operands", 1, 3)
	ops, before := make([][]fr.Element, nOps), make([][]fr.Element, nOps)
	for i := range ops {
		ops[i] = x.Elems("operand"+itoa(i), x.I("operand"+itoa(i)+".len", 1, maxLen))
		before[i] = append([]fr.Element{}, ops[i]...)
	}
	type job struct{ kind, gate, many, at, one, oneAt int }
	names := []string{"Eval", "EvalManyVL", "EvalManyVR", "EvaluateCombinator", "Degrees", "ID"}
	jobs := make([][]job, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, maxCalls); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			j := job{kind: x.Pick(p+"kind", 4, 4, 4, 2, 2, 1), gate: x.I(p+"gate", 0, nGates-1), many: x.I(p+"many", 0, nOps-1), one: x.I(p+"one", 0, nOps-1)}
			j.at = x.I(p+"at", 0, len(ops[j.many])-1)
			j.oneAt = x.I(p+"oneAt", 0, len(ops[j.one])-1)
			jobs[t] = append(jobs[t], j)
		}
	}
	x.Note("%d tasks, %d operand slices, jobs %v", tasks, nOps, jobs)
	statics, eq := x.Elems("statics", nGates), x.Elems("eq", 1)[0]
	fail := func(t, k int, j job, got, want fr.Element) {
		x.Failf("value", "task %d, call %d: %s of %s gives %s instead of %s", t, k, names[j.kind], specs[j.gate].id(), got.String(), want.String())
	}
	body := func(t int) {
		for k, j := range jobs[t] {
			x.Evals++
			g, s := gates[j.gate], specs[j.gate]
			one, oneB := &ops[j.one][j.oneAt], before[j.one][j.oneAt]
			many, manyB := ops[j.many][j.at:], before[j.many][j.at:]
			// a result nobody cleared, in the middle of other memory
			buf := make([]fr.Element, len(many)+2)
			for i := range buf {
				buf[i].SetUint64(77)
			}
			res := buf[1 : 1+len(many)]
			switch j.kind {
			case 0:
				g.Eval(&buf[1], &many[0], one)
				if want := s.eval(manyB[0], oneB); buf[1] != want {
					fail(t, k, j, buf[1], want)
					return
				}
				res = buf[1:2]
			case 1:
				g.EvalManyVL(res, many, one)
				for i := range res {
					if want := s.eval(manyB[i], oneB); res[i] != want {
						fail(t, k, j, res[i], want)
						return
					}
				}
			case 2:
				g.EvalManyVR(res, one, many)
				for i := range res {
					if want := s.eval(oneB, manyB[i]); res[i] != want {
						fail(t, k, j, res[i], want)
						return
					}
				}
			case 3:
				n := 1 + j.gate
				got := circuit.EvaluateCombinator(one, &many[0], &eq, gates[:n], statics[:n])
				var want fr.Element
				for i := 0; i < n; i++ {
					v := specs[i].eval(oneB, manyB[0])
					v.Mul(&v, &statics[i])
					want.Add(&want, &v)
				}
				want.Mul(&want, &eq)
				if got != want {
					fail(t, k, j, got, want)
					return
				}
			case 4:
				if what := tooHigh(g, oneB, manyB[0], statics[0], statics[1]); what != "" {
					x.Failf("degree", "the degree of %s is more than it declares in %s", s.id(), what)
					return
				}
			case 5:
				for i := range gates {
					if same := gates[i].ID() == g.ID(); same != sameGate(specs[i], s) {
						x.Failf("id", "gates %s and %s: same ID: %v", specs[i].id(), s.id(), same)
						return
					}
				}
			}
			var seven fr.Element
			seven.SetUint64(77)
			if buf[0] != seven || buf[1+len(res)] != seven {
				x.Failf("memory", "%s of %s wrote beside its result", names[j.kind], s.id())
				return
			}
		}
	}
	r := x.Sim(func() {
		for i, s := range specs {
			gates[i] = s.gate(nil)
		}
		for t := range jobs {
			t := t
			zzsim.GoHarness(func() { body(t) })
		}
	})
	if r.Outcome != "ok" {
		return
	}
	if !equal2(ops, before) {
		x.Failf("operand", "an operand was modified")
		return
	}
	if tasks > 1 {
		x.Probe("gates shared by several tasks")
	}
	if !x.Failed() && x.Chance("inCircuit", 8) {
		inCircuit(x, gates, specs, before)
	}
}

// tooHigh says in which variable the gate's degree exceeds the declared one.
func tooHigh(g circuit.Gate, a, b, c, d fr.Element) string {
	dL, dR, dP := g.Degrees()
	var zero fr.Element
	for i, n := range []int{dL, dR, dP} {
		// steps in the left, the right or both operands
		sL, sR := []fr.Element{u64(1), zero, c}[i], []fr.Element{zero, u64(1), d}[i]
		if n < 0 || n > 64 {
			continue
		}
		// the difference of order n+1 of a polynomial of degree n is zero
		l, r := a, b
		v := make([]fr.Element, n+2)
		for k := range v {
			g.Eval(&v[k], &l, &r)
			l.Add(&l, &sL)
			r.Add(&r, &sR)
		}
		for m := n + 1; m > 0; m-- {
			for k := 0; k < m; k++ {
				v[k].Sub(&v[k+1], &v[k])
			}
		}
		if !v[0].IsZero() {
			return []string{"hL", "hR", "h'"}[i]
		}
	}
	return ""
}

func inCircuit(x *X, gates []circuit.Gate, specs []GateS, ops [][]fr.Element) {
	i := x.I("circuitGate", 0, len(gates)-1)
	s := specs[i]
	f := gates[i].GnarkEval
	how := "GnarkEval"
	if x.Chance("snarkGate", 40) {
		switch s.Kind {
		case "cipher":
			f, how = snarkgkr.CipherGate(s.C[0]), "snark/gkr.CipherGate"
		case "copy":
			f, how = snarkgkr.CopyGate(), "snark/gkr.CopyGate"
		}
	}
	tpl := gateCk{f: f}
	sys, err := frontend.Compile(gurvy.BN256, &tpl)
	if err != nil {
		x.Failf("compile", "%s of %s does not compile: %v", how, s.id(), err)
		return
	}
	for k := 0; k < 3; k++ {
		l := ops[k%len(ops)][0]
		r := ops[(k+1)%len(ops)][len(ops[(k+1)%len(ops)])-1]
		out := s.eval(l, r)
		for _, right := range []bool{true, false} {
			if !right {
				d := u64(uint64(k) + 1)
				out.Add(&out, &d)
			}
			var w gateCk
			w.L.Assign(l)
			w.R.Assign(r)
			w.Out.Assign(out)
			ok, err := solved(sys, &w)
			if err != nil {
				x.Failf("witness", "%s of %s cannot be given a witness: %v", how, s.id(), err)
				return
			}
			x.Evals++
			if ok != right {
				x.Failf("in-circuit", "%s of %s: constraints satisfied: %v, although the gate gives %s", how, s.id(), ok, map[bool]string{true: "this", false: "another"}[right]+" value")
				return
			}
		}
	}
	x.Probe("in-circuit form solved")
}
