//go:build go1.21 && (p_all || p_c28)

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/backend/r1cs/r1c"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	snarkgkr "gkr-mimc/snark/gkr"
	snarkhash "gkr-mimc/snark/hash"
	snarkpoly "gkr-mimc/snark/polynomial"
	snarksumcheck "gkr-mimc/snark/sumcheck"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C28"] = &Prop{
		ID: "C28", Quick: 2400, Deep: 160000,
		Rule: "Circuits made of one to four in-circuit components, or up to 25 of one kind (hash, multilinear and univariate polynomials, equality, gates, static tables, layers, sumcheck verifier, rarely the whole verifier) are compiled alone in a new process, and again in a process with a history: one to three callers compile them in drawn orders, on shared gates and layers, between compilations that are refused and recovered from, beside sessions and native calls, under drawn schedules. The constraint systems are compared wire by wire and constraint by constraint; right witnesses have to satisfy them and wrong ones must not.",
		Real: []string{"snark/gkr, snark/sumcheck, snark/polynomial, snark/hash", "circuit (gates)", "gkr prover and verifier", "polynomial", "hash", "gnark compiler and solver"},
		Stub: []string{"scheduler", "channels, sync, runtime", "circuits of the harness around the components"},
		Run:  runC28,
	}
}

// component is a component of a compiled circuit: how many inputs it takes, what it computes in
// the constraint system and what it has to compute.
type component struct {
	kind, a, b, c int
	ark           fr.Element
}

var partNames = []string{"hash", "multilinear", "mixed multilinear", "univariate", "equality", "cipher gate", "copy gate", "gate of the circuit package", "layer", "layer for two points", "static table", "sumcheck"}

func (p component) String() string {
	return fmt.Sprintf("%s(%d,%d,%d)", partNames[p.kind], p.a, p.b, p.c)
}

// tools are what a process makes once and all its circuits use.
type tools struct {
	mimc   snarkgkr.Circuit
	native []circuit.Gate
	gates  map[component]snarkgkr.Gate
	shared bool
}

func newTools(shared bool) *tools {
	t := &tools{shared: shared, gates: map[component]snarkgkr.Gate{}}
	t.mimc = snarkgkr.CreateMimcCircuit()
	return t
}

func (t *tools) layer(i int) *snarkgkr.Layer {
	if t.shared {
		return &t.mimc.Layers[i]
	}
	return &snarkgkr.CreateMimcCircuit().Layers[i]
}

func (t *tools) gate(p component) snarkgkr.Gate {
	key := component{kind: p.kind, a: p.a, ark: p.ark}
	if g, ok := t.gates[key]; ok && t.shared {
		return g
	}
	var g snarkgkr.Gate
	switch {
	case p.kind == 5:
		g = snarkgkr.CipherGate(p.ark)
	case p.kind == 6:
		g = snarkgkr.CopyGate()
	case p.a == 0:
		g = (&circuit.AddGate{}).GnarkEval
	case p.a == 1:
		g = (&circuit.MulGate{}).GnarkEval
	case p.a == 2:
		g = (&circuit.CopyGate{}).GnarkEval
	default:
		g = circuit.NewCipherGate(p.ark).GnarkEval
	}
	t.gates[key] = g
	return g
}

// drawPart draws a component, of the given kind if that is not -1.
func drawPart(x *X, name string, kind int) component {
	p := component{kind: kind}
	if kind < 0 {
		p.kind = x.Pick(name+"kind", 3, 3, 3, 3, 2, 2, 1, 2, 3, 3, 1, 3)
	}
	switch p.kind {
	case 0:
		p.a = x.I(name+"message", 0, 4)
	case 1:
		p.a = x.I(name+"vars", 0, 5)
	case 2:
		p.a, p.b = x.I(name+"bG", 0, 2), x.I(name+"bN", 0, 3)
	case 3:
		p.a = x.I(name+"degree", 0, 9)
	case 4:
		p.a = x.I(name+"vars", 0, 6)
	case 5:
		p.ark = x.Elems(name+"ark", 1)[0]
	case 7:
		if p.a = x.I(name+"gate", 0, 3); p.a == 3 {
			p.ark = x.Elems(name+"ark", 1)[0]
		}
	case 8, 9:
		p.a, p.b = x.I(name+"layer", 0, refRounds-1), x.I(name+"bN", 0, 3)
		if x.Chance(name+"last", 25) {
			p.a = refRounds - 1
		}
	case 10:
		p.a = x.I(name+"table", 0, 2)
	case 11:
		p.a, p.b, p.c = x.I(name+"bN", 0, 2), x.I(name+"bG", 0, 1), x.I(name+"degree", 1, 8)
	}
	return p
}

func (p component) bGOut() int {
	if p.a == refRounds-1 {
		return 0
	}
	return 1
}

func (p component) inputs() int {
	switch p.kind {
	case 0:
		return p.a
	case 1:
		return 1<<p.a + p.a
	case 2:
		return 1<<(p.a+p.b) + 2*p.a + p.b
	case 3:
		return p.a + 2
	case 4:
		return 2 * p.a
	case 5, 6, 7:
		return 2
	case 8: // q, q', hL, hR, h', vL, vR
		return p.bGOut() + 2*p.b + 4
	case 9: // qL, qR, lambdaL, lambdaR too
		return 2*p.bGOut() + 2*p.b + 6
	case 10:
		return 1
	}
	return 1 + (p.a+2*p.b)*(p.c+1)
}

// front takes the next n entries.
func front[T any](v *[]T, n int) []T {
	r := (*v)[:n:n]
	*v = (*v)[n:]
	return r
}

// define computes the component in the constraint system.
func (p component) define(t *tools, cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
	switch p.kind {
	case 0:
		return []frontend.Variable{snarkhash.MimcHash(cs, in...)}
	case 1:
		m := snarkpoly.NewMultilinearByValues(front(&in, 1<<p.a))
		return []frontend.Variable{m.Eval(cs, in)}
	case 2:
		m := snarkpoly.NewMultilinearByValues(front(&in, 1<<(p.a+p.b)))
		l, r := front(&in, p.a), front(&in, p.a)
		vL, vR := m.EvalMixed(cs, l, r, in)
		return []frontend.Variable{vL, vR}
	case 3:
		u := snarkpoly.NewUnivariate(front(&in, p.a+1))
		return []frontend.Variable{u.Eval(cs, in[0]), u.ZeroAndOne(cs)}
	case 4:
		a := front(&in, p.a)
		return []frontend.Variable{snarkpoly.EqEval(cs, a, in)}
	case 5, 6, 7:
		return []frontend.Variable{t.gate(p)(cs, in[0], in[1])}
	case 8:
		q, qP := front(&in, p.bGOut()), front(&in, p.b)
		hL, hR, hP := front(&in, 1), front(&in, 1), front(&in, p.b)
		return []frontend.Variable{t.layer(p.a).Combine(cs, q, qP, hL, hR, hP, in[0], in[1])}
	case 9:
		qL, qR, qP := front(&in, p.bGOut()), front(&in, p.bGOut()), front(&in, p.b)
		hL, hR, hP := front(&in, 1), front(&in, 1), front(&in, p.b)
		return []frontend.Variable{t.layer(p.a).CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, in[0], in[1], in[2], in[3])}
	case 10:
		f := []snarkgkr.StaticTableGenerator{snarkgkr.GetCipherTable, snarkgkr.GetCopyTable, snarkgkr.GetFinalCipherTable}[p.a]
		return append([]frontend.Variable{}, f(cs, in).Table...)
	}
	proof := snarksumcheck.AllocateProof(p.a, p.b, p.c, p.c, p.c)
	claim := front(&in, 1)[0]
	for i := range proof.HPolys {
		copy(proof.HPolys[i].Coefficients, front(&in, p.c+1))
	}
	hL, hR, hP, last := proof.AssertValid(cs, claim, p.b)
	out := append(append(append([]frontend.Variable{}, hL...), hR...), hP...)
	for _, h := range [][]frontend.Variable{hL, hR, hP} { // they are the caller's
		for i := range h {
			h[i] = cs.Constant(3)
		}
	}
	return append(out, last)
}

// right draws inputs and computes what has to come out.
func (p component) right(g *zzsim.RNG) (in, out []fr.Element) {
	in = values(g, int64(p.inputs()))
	rest := in
	switch p.kind {
	case 0:
		return in, []fr.Element{refMimc(in)}
	case 1:
		t := front(&rest, 1<<p.a)
		return in, []fr.Element{refMLE(t, rest)}
	case 2:
		t := front(&rest, 1<<(p.a+p.b))
		l, r := front(&rest, p.a), front(&rest, p.a)
		at := func(q []fr.Element) fr.Element { return refMLE(t, append(append([]fr.Element{}, q...), rest...)) }
		return in, []fr.Element{at(l), at(r)}
	case 3:
		c := front(&rest, p.a+1)
		zno := refPoly(c, u64(1))
		zno.Add(&zno, &c[0])
		return in, []fr.Element{refPoly(c, rest[0]), zno}
	case 4:
		a := front(&rest, p.a)
		return in, []fr.Element{refEq(a, rest)}
	case 5, 6, 7:
		s := GateS{Kind: "copy"}
		if p.kind == 5 || p.kind == 7 && p.a == 3 {
			s.Kind, s.C[0] = "cipher", p.ark
		} else if p.kind == 7 {
			s.Kind = []string{"add", "mul", "copy"}[p.a]
		}
		return in, []fr.Element{s.eval(in[0], in[1])}
	case 8, 9:
		spec := mimcSpec()
		q := [][]fr.Element{front(&rest, p.bGOut())}
		weights := []fr.Element{u64(1)}
		if p.kind == 9 {
			q = append(q, front(&rest, p.bGOut()))
		}
		qP := front(&rest, p.b)
		h := front(&rest, 2)
		hP := front(&rest, p.b)
		if p.kind == 9 {
			weights = front(&rest, 2)
		}
		vL, vR := rest[0], rest[1]
		var sum fr.Element
		for k := range q {
			for n, tab := range spec.refStatics(p.a, q[k]) {
				v := spec.Gates[spec.layerGates(p.a)[n]].eval(vL, vR)
				w := refMLE(tab, h)
				v.Mul(&v, &w)
				v.Mul(&v, &weights[k])
				sum.Add(&sum, &v)
			}
		}
		e := refEq(qP, hP)
		sum.Mul(&sum, &e)
		return in, []fr.Element{sum}
	case 10:
		out = make([]fr.Element, 4)
		one := u64(1)
		switch p.a {
		case 0:
			out[2].Sub(&one, &in[0])
		case 1:
			out[2] = in[0]
		case 2:
			out[2] = one
		}
		return in, out
	}
	claim := front(&rest, 1)[0]
	half := u64(2)
	half.Inverse(&half)
	for len(rest) > 0 {
		c := front(&rest, p.c+1)
		c[0] = claim
		for _, e := range c[1:] {
			c[0].Sub(&c[0], &e)
		}
		c[0].Mul(&c[0], &half)
		h := refMimc(c)
		out = append(out, h)
		claim = refPoly(c, h)
	}
	return in, append(out, claim)
}

// partsCk is a circuit of components, each on its own inputs; again has it computed twice.
type partsCk struct {
	In, Out []frontend.Variable
	parts   []component
	again   int
	refuse  func(cs *frontend.ConstraintSystem, in []frontend.Variable) error
	at      int
	t       *tools
}

var errRefused = errors.New("refused")

func allocParts(parts []component, again int) *partsCk {
	n, m := 0, 0
	g := zzsim.NewRNG(1)
	for i, p := range parts {
		n += p.inputs()
		_, out := p.right(&g)
		m += len(out)
		if i == again {
			m += len(out)
		}
	}
	return &partsCk{In: make([]frontend.Variable, n), Out: make([]frontend.Variable, m), parts: parts, again: again}
}

// Define implements frontend.Circuit
func (c *partsCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	in, out := c.In, c.Out
	for i, p := range c.parts {
		mine := front(&in, p.inputs())
		times := 1
		if i == c.again {
			times = 2
		}
		for ; times > 0; times-- {
			for _, v := range p.define(c.t, cs, mine) {
				cs.AssertIsEqual(v, front(&out, 1)[0])
			}
		}
		if c.refuse != nil && i == c.at {
			return c.refuse(cs, mine)
		}
	}
	return nil
}

func (c *partsCk) witness(g *zzsim.RNG) (in, out []fr.Element) {
	for i, p := range c.parts {
		a, b := p.right(g)
		in, out = append(in, a...), append(out, b...)
		if i == c.again {
			out = append(out, b...)
		}
	}
	return in, out
}

// form is a constraint system: its wires and the linear expressions of its constraints,
// however their terms are written.
type form struct {
	Wires, Public, Secret, Solved uint64
	Names                         []string
	Constraints                   []uint64
}

func formOf(s r1cs.R1CS) *form {
	v := reflect.ValueOf(s).Elem()
	n := func(name string) uint64 { return v.FieldByName(name).Uint() }
	f := &form{Wires: n("NbWires"), Public: n("NbPublicWires"), Secret: n("NbSecretWires"), Solved: n("NbCOConstraints")}
	f.Names = append(append(f.Names, v.FieldByName("PublicWires").Interface().([]string)...), v.FieldByName("SecretWires").Interface().([]string)...)
	coeffs := v.FieldByName("Coefficients").Interface().([]fr.Element)
	type term struct {
		v int
		c fr.Element
	}
	var terms []term
	var buf [40]byte
	h := fnv.New64a()
	for _, c := range v.FieldByName("Constraints").Interface().([]r1c.R1C) {
		h.Reset()
		for _, e := range []r1c.LinearExpression{c.L, c.R, c.O} {
			terms = terms[:0]
			for _, t := range e {
				terms = append(terms, term{t.VariableID(), coeffOf(t, coeffs)})
			}
			sort.SliceStable(terms, func(i, j int) bool { return terms[i].v < terms[j].v })
			n := 0
			for i, t := range terms {
				if i+1 < len(terms) && terms[i+1].v == t.v {
					terms[i+1].c.Add(&terms[i+1].c, &t.c)
					continue
				}
				if t.c = terms[i].c; t.c.IsZero() {
					continue
				}
				n++
				binary.BigEndian.PutUint64(buf[:], uint64(t.v))
				for i, w := range t.c {
					binary.BigEndian.PutUint64(buf[8+8*i:], w)
				}
				h.Write(buf[:])
			}
			h.Write([]byte{1, byte(n), byte(c.Solver)})
		}
		f.Constraints = append(f.Constraints, h.Sum64())
	}
	return f
}

// coeffOf is the coefficient the solver uses.
func coeffOf(t r1c.Term, coeffs []fr.Element) (c fr.Element) {
	switch k := t.CoeffValue(); k {
	case 0, 1, 2:
		return u64(uint64(k))
	case -1:
		c.SetOne()
		c.Neg(&c)
		return c
	}
	return coeffs[t.CoeffID()]
}

// diff says where two constraint systems differ.
func (f *form) diff(o *form) string {
	for _, k := range []struct {
		what string
		a, b uint64
	}{{"wires", f.Wires, o.Wires}, {"public wires", f.Public, o.Public}, {"secret wires", f.Secret, o.Secret}, {"constraints", uint64(len(f.Constraints)), uint64(len(o.Constraints))}, {"solved constraints", f.Solved, o.Solved}} {
		if k.a != k.b {
			return fmt.Sprintf("it has %d %s instead of %d", k.b, k.what, k.a)
		}
	}
	if !reflect.DeepEqual(f.Names, o.Names) {
		return "its inputs have other names"
	}
	n, first := 0, -1
	for i := range f.Constraints {
		if f.Constraints[i] != o.Constraints[i] {
			if first < 0 {
				first = i
			}
			n++
		}
	}
	if n > 0 {
		return fmt.Sprintf("%d of its %d constraints differ, constraint %d first", n, len(f.Constraints), first)
	}
	return ""
}

// refusals are the ways in which a compilation ends early.
func refusal(kind int) func(cs *frontend.ConstraintSystem, in []frontend.Variable) error {
	return func(cs *frontend.ConstraintSystem, in []frontend.Variable) error {
		one := cs.Constant(1)
		two := []frontend.Variable{one, cs.Constant(2)}
		switch kind {
		case 0:
			return errRefused
		case 1:
			panic(errRefused)
		case 2: // more coordinates than variables
			m := snarkpoly.NewMultilinearByValues(two)
			m.Eval(cs, append(two, two...))
		case 3:
			m := snarkpoly.NewMultilinearByValues(two)
			m.EvalMixed(cs, append(two, two...), two, two)
		case 4:
			u := snarkpoly.NewUnivariate(nil)
			u.ZeroAndOne(cs)
		case 5:
			snarkpoly.EqEval(cs, append(two, two...), two)
		case 6:
			snarkgkr.GetCopyTable(cs, nil)
		case 7: // fewer polynomials than the layer's width asks for
			p := snarksumcheck.AllocateProof(1, 0, 1, 1, 1)
			copy(p.HPolys[0].Coefficients, two)
			p.AssertValid(cs, one, 3)
		case 8: // a variable nobody set
			snarkhash.MimcHash(cs, frontend.Variable{}, one)
		case 9: // a layer with fewer tables than gates
			l := snarkgkr.Layer{Gates: []snarkgkr.Gate{snarkgkr.CopyGate(), snarkgkr.CopyGate()}, StaticTable: []snarkgkr.StaticTableGenerator{snarkgkr.GetFinalCipherTable}}
			l.Combine(cs, two[:1], nil, two[:1], two[:1], nil, one, one)
		}
		return errRefused
	}
}

func runC28(x *X) {
	if x.Chance("whole", 1) {
		wholeVerifier(x)
		return
	}
	nCircs := x.Pick("circuits", 2, 3, 1) + 1
	// all callers at work on the same kind of component
	kind := -1
	if x.Chance("sameKind", 40) {
		kind = x.I("ofKind", 0, len(partNames)-1)
		nCircs = 2 + x.I("more", 0, 1)
		x.Probe("callers at work on one kind of component")
	}
	circs := make([]func() *partsCk, nCircs)
	var about []string
	for i := range circs {
		p := fmt.Sprintf("c%d.", i)
		var parts []component
		k := x.Pick(p+"parts", 4, 3, 2, 1)
		if kind >= 0 && kind != 0 && kind != 11 {
			k = x.I(p+"partsOfKind", 0, 24)
		}
		for ; k >= 0; k-- {
			parts = append(parts, drawPart(x, fmt.Sprintf("%s%d.", p, k), kind))
		}
		again := x.I(p+"again", 0, 2*len(parts)) // most often none
		circs[i] = func() *partsCk { return allocParts(parts, again) }
		about = append(about, fmt.Sprint(parts))
	}
	type job struct {
		circ   int // or -1 for a native operation
		op     int
		refuse int // or -1
		at     int
	}
	tasks := x.Pick("tasks", 3, 4, 2) + 1
	if kind >= 0 {
		tasks = 2 + x.Pick("tasksOfKind", 3, 1)
	}
	jobs := make([][]job, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, 3); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			j := job{circ: x.I(p+"circ", 0, nCircs-1), refuse: -1, op: x.I(p+"op", 0, 4)}
			if kind >= 0 {
				j.circ = (t + k) % nCircs
			}
			switch x.Pick(p+"what", 6, 2, 3) {
			case 1:
				j.refuse = x.I(p+"refuse", 0, 9)
				j.at = x.I(p+"at", 0, 3)
			case 2:
				j.circ = -1
			}
			jobs[t] = append(jobs[t], j)
		}
	}
	last := x.I("last", 0, nCircs-1) // compiled when all have returned
	shared := x.Chance("shared", 60)
	x.Note("circuits %v, shared gates and layers: %v, jobs %v", about, shared, jobs)

	compileOne := func(t *tools, i int) (*form, r1cs.R1CS, error) {
		c := circs[i]()
		c.t = t
		s, err := frontend.Compile(gurvy.BN256, c)
		if err != nil {
			return nil, nil, err
		}
		return formOf(s), s, nil
	}
	// alone, in a process of its own
	refs := make([]*form, nCircs)
	for i := range refs {
		zzsim.Reset()
		var err error
		x.Quiet(func() { refs[i], _, err = compileOne(newTools(false), i) })
		if x.Failed() {
			return
		}
		if err != nil {
			x.Failf("compile", "%s does not compile: %v", about[i], err)
			return
		}
		x.Evals++
	}
	// a session to go on beside the compilations
	spec, sh := sessionSpec(x)
	in := x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In))
	var ref *Transcript
	x.Quiet(func() { ref = honest(spec, sh, in) })
	if x.Failed() {
		return
	}
	zzsim.Reset()
	x.Fault("process restart")

	systems := make([]r1cs.R1CS, nCircs)
	check := func(who string, t *tools, i int) {
		f, s, err := compileOne(t, i)
		x.Evals++
		if err != nil {
			x.Failf("compile", "%s: %s does not compile: %v", who, about[i], err)
			return
		}
		if d := refs[i].diff(f); d != "" {
			x.Failf("constraints", "%s: the constraint system of %s is not the one a new process makes: %s", who, about[i], d)
			return
		}
		systems[i] = s
	}
	r := x.Sim(func() {
		t := newTools(shared)
		var wg sync.WaitGroup
		for n := range jobs {
			n := n
			wg.Add(1)
			zzsim.GoHarness(func() {
				defer wg.Done()
				for k, j := range jobs[n] {
					who := fmt.Sprintf("task %d, call %d", n, k)
					if x.Failed() {
						return
					}
					switch {
					case j.circ < 0:
						beside(x, who, j.op, x.RNG(fmt.Sprintf("t%d.%d", n, k)), spec, sh, ref)
					case j.refuse >= 0:
						c := circs[j.circ]()
						c.t, c.refuse, c.at = t, refusal(j.refuse), j.at%len(c.parts)
						var err error
						if thrown := attempt(func() { _, err = frontend.Compile(gurvy.BN256, c) }); thrown != nil || err != nil {
							x.Fault("compilation refused")
						} else {
							x.Probe("refused compilation that goes through")
						}
					default:
						check(who, t, j.circ)
					}
				}
			})
		}
		wg.Wait()
		if !x.Failed() {
			check("afterwards", t, last)
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	if len(r.Leaked) > 0 {
		x.Failf("leak", "%d goroutines never ended", len(r.Leaked))
		return
	}
	if tasks > 1 {
		x.Probe("compilations beside each other")
	}
	if shared {
		x.Probe("gates and layers shared by circuits")
	}
	for i, s := range systems {
		if s == nil {
			continue
		}
		g := x.RNG("witness" + itoa(i))
		a, b := circs[i]().witness(g)
		for k := 0; k < 2; k++ {
			if k == 1 {
				d := randElem(g)
				e := &b[g.N(int64(len(b)))]
				e.Add(e, &d)
			}
			w := circs[i]()
			assignAll(w.In, a)
			assignAll(w.Out, b)
			ok, err := solved(s, w)
			if err != nil {
				x.Failf("witness", "%s cannot be given a witness: %v", about[i], err)
				return
			}
			x.Evals++
			if ok != (k == 0) {
				x.Failf("in-circuit", "%s: constraints satisfied: %v, although the witness is %s", about[i], ok, []string{"right", "wrong"}[k])
				return
			}
		}
	}
}

func sessionSpec(x *X) (*CircS, Shape) {
	return genCirc(x, "session.", circOpts{maxLayers: 2, maxB: 1, maxWires: 3, maxGates: 2}), genShape(x, "session.", 1)
}

// beside does what other parts of a process do while circuits are compiled.
func beside(x *X, who string, op int, g *zzsim.RNG, spec *CircS, sh Shape, ref *Transcript) {
	x.Evals++
	switch op {
	case 0:
		m := values(g, g.N(5))
		if hash.MimcHash(m) != refMimc(m) {
			x.Failf("value", "%s: hash of %d elements is wrong", who, len(m))
		}
	case 1:
		v := values(g, 1+g.N(12))
		if !equalSlices(polynomial.InterpolateOnRange(v), refInterpolate(v)) {
			x.Failf("value", "%s: interpolation of %d values is wrong", who, len(v))
		}
	case 2:
		v := gkr.NewVerifier(sh.bN, spec.build(nil))
		if !v.Verify(ref.Proof, ref.Inputs, ref.Outputs) {
			x.Failf("value", "%s: an honest transcript is rejected", who)
		}
	case 3: // what a caller does with its own copy is not seen by others
		c := snarkgkr.CreateMimcCircuit()
		k := g.N(int64(len(c.Layers)))
		c.Layers[k].Gates[0] = snarkgkr.CopyGate()
		c.Layers[k].StaticTable[0] = snarkgkr.GetCopyTable
		c.Layers[k].BG = 7
		c.BGOut = 3
	case 4:
		v := values(g, 16)
		m := snarkpoly.AllocateMultilinear(4)
		m.Assign(fieldValues(v))
		p := snarksumcheck.AllocateProof(2, 1, 2, 8, 8)
		for i := range p.HPolys {
			p.HPolys[i].Assign(values(g, int64(len(p.HPolys[i].Coefficients))))
		}
	}
}

func fieldValues(v []fr.Element) []interface{} {
	out := make([]interface{}, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

// wholeVerifier compiles the in-circuit verifier in a new process and in one that has
// compiled before, under a drawn schedule.
func wholeVerifier(x *X) {
	bN := x.I("bN", 0, 2)
	p := drawPart(x, "before.", -1)
	x.Note("whole verifier, bN=%d, after %v", bN, p)
	x.Probe("whole verifier compiled")
	var forms [2]*form
	var err error
	whole := func(c snarkgkr.Circuit) *form {
		k := gkrCkOf(c, bN, 1)
		s, e := frontend.Compile(gurvy.BN256, &k)
		if e != nil {
			err = e
			return nil
		}
		return formOf(s)
	}
	zzsim.Reset()
	x.Quiet(func() { forms[0] = whole(snarkgkr.CreateMimcCircuit()) })
	if x.Failed() {
		return
	}
	zzsim.Reset()
	x.Sim(func() {
		t := newTools(true)
		c := allocParts([]component{p}, 1)
		c.t = t
		if _, e := frontend.Compile(gurvy.BN256, c); e != nil {
			err = e
			return
		}
		small := gkrCkOf(t.mimc, 0, 1)
		if bN > 0 && x.RNG("another").N(2) == 0 {
			if _, e := frontend.Compile(gurvy.BN256, &small); e != nil {
				err = e
				return
			}
		}
		forms[1] = whole(t.mimc)
	})
	if x.Failed() {
		return
	}
	x.Evals += 2
	if err != nil {
		x.Failf("compile", "the verifier does not compile: %v", err)
		return
	}
	if d := forms[0].diff(forms[1]); d != "" {
		x.Failf("constraints", "the constraint system of the verifier is not the one a new process makes: %s", d)
	}
}
