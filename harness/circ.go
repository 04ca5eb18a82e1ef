//go:build go1.21

package main

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
)

// GateS is the specification of a gate.
type GateS struct {
	Kind string // add, mul, copy, cipher, bilin (a*L + b*R + c*L*R + d), pow (L*R^k), powL (L^k*R), right (R^k + c), const (c), sq (L^2 + R)
	C    [4]fr.Element
	K    int
}

// allKinds lists the kinds of gates, the more interesting ones several times
var allKinds = []string{"add", "add", "mul", "mul", "copy", "copy", "cipher", "cipher", "bilin", "bilin", "pow", "pow", "sq", "sq", "powL", "right", "const"}

func (g GateS) degrees() (int, int, int) {
	switch g.Kind {
	case "add":
		return 1, 1, 1
	case "mul", "bilin":
		return 1, 1, 2
	case "copy":
		return 1, 0, 1
	case "cipher":
		return 1, 7, 7
	case "pow":
		return 1, g.K, 1 + g.K
	case "powL":
		return g.K, 1, 1 + g.K
	case "right":
		return 0, g.K, g.K
	case "const":
		return 0, 0, 0
	case "sq":
		return 2, 1, 2
	}
	panic(g.Kind)
}

func (g GateS) eval(l, r fr.Element) fr.Element {
	var v, t fr.Element
	switch g.Kind {
	case "add":
		v.Add(&l, &r)
	case "mul":
		v.Mul(&l, &r)
	case "copy":
		v = l
	case "cipher":
		t.Add(&r, &g.C[0])
		v = refPow7(t)
		v.Add(&v, &l)
	case "bilin":
		v.Mul(&g.C[0], &l)
		t.Mul(&g.C[1], &r)
		v.Add(&v, &t)
		t.Mul(&l, &r)
		t.Mul(&t, &g.C[2])
		v.Add(&v, &t)
		v.Add(&v, &g.C[3])
	case "pow":
		v = l
		for i := 0; i < g.K; i++ {
			v.Mul(&v, &r)
		}
	case "powL":
		v = r
		for i := 0; i < g.K; i++ {
			v.Mul(&v, &l)
		}
	case "right":
		v = u64(1)
		for i := 0; i < g.K; i++ {
			v.Mul(&v, &r)
		}
		v.Add(&v, &g.C[0])
	case "const":
		v = g.C[0]
	case "sq":
		v.Mul(&l, &l)
		v.Add(&v, &r)
	}
	return v
}

func (g GateS) id() string {
	switch g.Kind {
	case "bilin":
		return fmt.Sprintf("H-bilin-%v-%v-%v-%v", g.C[0].String(), g.C[1].String(), g.C[2].String(), g.C[3].String())
	case "pow", "powL":
		return fmt.Sprintf("H-%s-%d", g.Kind, g.K)
	case "right", "const":
		return fmt.Sprintf("H-%s-%d-%v", g.Kind, g.K, g.C[0].String())
	}
	return "H-" + g.Kind
}

// gate returns a gate of the code under test, or a harness gate where there is none.
func (g GateS) gate(w *watch) circuit.Gate {
	if w == nil {
		switch g.Kind {
		case "add":
			return circuit.AddGate{}
		case "mul":
			return circuit.MulGate{}
		case "copy":
			return circuit.CopyGate{}
		case "cipher":
			return circuit.NewCipherGate(g.C[0])
		}
	}
	return &hGate{s: g, w: w}
}

// watch counts the workers inside a gate.
type watch struct {
	inside, max int
	calls       int64
	limit       int
	over        bool
}

func (w *watch) enter() {
	if w == nil {
		return
	}
	w.inside++
	w.calls++
	if w.inside > w.max {
		w.max = w.inside
	}
	if w.limit > 0 && w.inside > w.limit {
		w.over = true
	}
	zzsim.Y()
}

func (w *watch) leave() {
	if w == nil {
		return
	}
	zzsim.Y()
	w.inside--
}

// hGate is a user-defined gate: the Gate interface is the seam of the code under test.
type hGate struct {
	s GateS
	w *watch
}

func (h *hGate) ID() string {
	if h.s.Kind == "cipher" {
		return "H-cipher-" + h.s.C[0].String()
	}
	return h.s.id()
}
func (h *hGate) Degrees() (int, int, int) { return h.s.degrees() }
func (h *hGate) Eval(res, vL, vR *fr.Element) {
	h.w.enter()
	v := h.s.eval(*vL, *vR)
	zzsim.Y()
	*res = v
	h.w.leave()
}
func (h *hGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	h.w.enter()
	for i := range vLs {
		zzsim.Y()
		res[i] = h.s.eval(vLs[i], *vR)
	}
	h.w.leave()
}
func (h *hGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	h.w.enter()
	for i := range vRs {
		zzsim.Y()
		res[i] = h.s.eval(*vL, vRs[i])
	}
	h.w.leave()
}
func (h *hGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	g := h.s
	switch g.Kind {
	case "add":
		return cs.Add(vL, vR)
	case "mul":
		return cs.Mul(vL, vR)
	case "copy":
		return vL
	case "cipher":
		t := cs.Add(vR, cs.Constant(g.C[0]))
		p := t
		for i := 0; i < 6; i++ {
			p = cs.Mul(p, t)
		}
		return cs.Add(p, vL)
	case "bilin":
		return cs.Add(cs.Mul(cs.Constant(g.C[0]), vL), cs.Mul(cs.Constant(g.C[1]), vR),
			cs.Mul(cs.Mul(vL, vR), cs.Constant(g.C[2])), cs.Constant(g.C[3]))
	case "pow":
		for i := 0; i < g.K; i++ {
			vL = cs.Mul(vL, vR)
		}
		return vL
	case "powL":
		for i := 0; i < g.K; i++ {
			vR = cs.Mul(vL, vR)
		}
		return vR
	case "right":
		p := vR
		for i := 1; i < g.K; i++ {
			p = cs.Mul(p, vR)
		}
		return cs.Add(p, cs.Constant(g.C[0]))
	case "const":
		return cs.Constant(g.C[0])
	case "sq":
		return cs.Add(cs.Mul(vL, vL), vR)
	}
	panic(g.Kind)
}

// WireS, LayerS and CircS specify a circuit.
type WireS struct{ L, R, O, G int }

// LayerS is a layer.
type LayerS struct {
	Wires   []WireS
	In, Out int // log sizes
}

// CircS is a circuit.
type CircS struct {
	Layers []LayerS
	Gates  []GateS
	mimc   bool
}

func log2ceil(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

func (c *CircS) String() string {
	if c.mimc {
		return "MiMC(91 layers)"
	}
	s := ""
	for i, l := range c.Layers {
		s += fmt.Sprintf("layer%d[2^%d->2^%d]", i, l.In, l.Out)
		for _, w := range l.Wires {
			s += fmt.Sprintf(" %s(%d,%d)>%d", c.Gates[w.G].Kind, w.L, w.R, w.O)
		}
		s += "; "
	}
	return s
}

// build makes the circuit of the code under test. Some repeated gates are distinct objects with the same ID.
func (c *CircS) build(w *watch) circuit.Circuit {
	if c.mimc && w == nil {
		return examples.CreateMimcCircuit()
	}
	wiring := make([][]circuit.Wire, len(c.Layers))
	for i, l := range c.Layers {
		for _, s := range l.Wires {
			wiring[i] = append(wiring[i], circuit.Wire{L: s.L, R: s.R, O: s.O, Gate: c.Gates[s.G].gate(w)})
		}
	}
	return circuit.NewCircuit(wiring)
}

// layerGates lists the gates of a layer in order of first use.
func (c *CircS) layerGates(l int) []int {
	var out []int
	seen := map[string]bool{}
	for _, w := range c.Layers[l].Wires {
		k := c.Gates[w.G].Kind + c.Gates[w.G].id() + c.Gates[w.G].C[0].String()
		if !seen[k] {
			seen[k] = true
			out = append(out, w.G)
		}
	}
	return out
}

func mimcSpec() *CircS {
	c := &CircS{mimc: true}
	for i := 0; i < refRounds; i++ {
		c.Gates = append(c.Gates, GateS{Kind: "cipher", C: [4]fr.Element{refArk[i]}})
	}
	c.Gates = append(c.Gates, GateS{Kind: "copy"})
	for i := 0; i < refRounds; i++ {
		l := LayerS{In: 1, Out: 1, Wires: []WireS{{1, 0, 0, i}, {1, 0, 1, refRounds}}}
		if i == refRounds-1 {
			l.Out, l.Wires = 0, l.Wires[:1]
		}
		c.Layers = append(c.Layers, l)
	}
	return c
}

// circOpts restricts the generated circuits.
type circOpts struct {
	maxLayers, maxB, maxWires int
	maxGates                  int
	linearFirst               bool // layer 0 linear in the right operand too
	linearL                   bool // every gate linear in the left operand
	only                      []string
	manyGates                 bool // more than sixty-four gates, all of them in every layer
}

// genCirc draws a well-formed circuit.
func genCirc(x *X, n string, o circOpts) *CircS {
	c := &CircS{}
	if o.maxLayers == 0 {
		o.maxLayers = 4
	}
	if o.maxB == 0 {
		o.maxB = 2
	}
	if o.maxWires == 0 {
		o.maxWires = 6
	}
	nLayers := x.I(n+"layers", 1, o.maxLayers)
	kinds := o.only
	if kinds == nil {
		kinds = allKinds
	}
	// a small palette of gates per circuit
	if o.maxGates == 0 {
		o.maxGates = 5
	}
	nGates := x.I(n+"gates", 1, o.maxGates)
	if o.manyGates {
		nGates = x.I(n+"manyGates", 65, 90)
		kinds = []string{"bilin", "cipher", "bilin", "pow"}
	}
	for i := 0; i < nGates; i++ {
		k := kinds[x.I(fmt.Sprintf("%sgate%d", n, i), 0, len(kinds)-1)]
		if i > 0 && x.Chance(fmt.Sprintf("%sgatesame%d", n, i), 15) {
			k = c.Gates[i-1].Kind
		}
		if o.linearL && (k == "sq" || k == "powL") {
			k = "bilin"
		}
		g := GateS{Kind: k}
		switch k {
		case "cipher":
			// few constants, so that gates with the same ID but different objects meet
			g.C[0] = u64(uint64(x.I(fmt.Sprintf("%sark%d", n, i), 0, 2)))
			if x.Chance(fmt.Sprintf("%sarkr%d", n, i), 40) {
				g.C[0] = refArk[x.I(fmt.Sprintf("%sarkn%d", n, i), 0, 90)]
			}
			// or close to the constant of the previous gate
			if i > 0 && c.Gates[i-1].Kind == "cipher" && x.Chance(fmt.Sprintf("%sarkw%d", n, i), 40) {
				g.C[0] = partly(c.Gates[i-1].C[0], x.I(fmt.Sprintf("%sarkm%d", n, i), 1, 15), x.RNG(fmt.Sprintf("%sarkv%d", n, i)))
			}
		case "bilin":
			for j := range g.C {
				g.C[j] = u64(uint64(x.I(fmt.Sprintf("%sc%d.%d", n, i, j), 0, 5)))
			}
		case "pow", "powL", "right":
			g.K = x.I(fmt.Sprintf("%spow%d", n, i), 1, 9)
		}
		if k == "right" || k == "const" {
			g.C[0] = u64(uint64(x.I(fmt.Sprintf("%sconst%d", n, i), 0, 3)))
		}
		c.Gates = append(c.Gates, g)
	}
	linear := -1
	if o.linearFirst {
		c.Gates = append(c.Gates, GateS{Kind: "add"}, GateS{Kind: "mul"})
		linear = len(c.Gates) - 2
	}
	b := make([]int, nLayers+1)
	for i := range b {
		b[i] = x.Pick(fmt.Sprintf("%sb%d", n, i), 2, 4, 3, 1)
		if o.maxB > 3 && x.Chance(fmt.Sprintf("%sbMax%d", n, i), 40) {
			b[i] = o.maxB
		}
		if b[i] > o.maxB {
			b[i] = o.maxB
		}
	}
	for i := 0; i < nLayers; i++ {
		l := LayerS{In: b[i], Out: b[i+1]}
		nW := x.I(fmt.Sprintf("%sw%d", n, i), 1, o.maxWires)
		if o.manyGates {
			nW += nGates
		}
		for k := 0; k < nW; k++ {
			p := fmt.Sprintf("%sl%dw%d.", n, i, k)
			w := WireS{
				L: x.I(p+"L", 0, 1<<l.In-1),
				R: x.I(p+"R", 0, 1<<l.In-1),
				O: x.I(p+"O", 0, 1<<l.Out-1),
				G: x.I(p+"G", 0, nGates-1),
			}
			if k > 0 && x.Chance(p+"twin", 8) { // the place of another wire, with any gate
				w.L, w.R, w.O = l.Wires[k-1].L, l.Wires[k-1].R, l.Wires[k-1].O
			}
			if o.manyGates && k < nGates {
				w.G = k
			}
			if linear >= 0 && i == 0 {
				w.G = linear + x.I(p+"lin", 0, 1)
			}
			l.Wires = append(l.Wires, w)
		}
		// the declared sizes follow from the largest indices
		top := func(v, b int) int {
			if b > 0 {
				return 1<<(b-1) | v
			}
			return 0
		}
		k := x.I(fmt.Sprintf("%stop%d", n, i), 0, nW-1)
		if x.Chance(fmt.Sprintf("%stopR%d", n, i), 50) {
			l.Wires[k].R = top(l.Wires[k].R, l.In)
		} else {
			l.Wires[k].L = top(l.Wires[k].L, l.In)
		}
		k = x.I(fmt.Sprintf("%stopO%d", n, i), 0, nW-1)
		l.Wires[k].O = top(l.Wires[k].O, l.Out)
		c.Layers = append(c.Layers, l)
	}
	return c
}

// Shape is how a batch is laid out and with how many cores it is processed.
type Shape struct{ bN, logChunks, cores int }

func (s Shape) chunks() int { return 1 << s.logChunks }
func (s Shape) String() string {
	return fmt.Sprintf("bN=%d chunks=%d cores=%d", s.bN, s.chunks(), s.cores)
}

func genCores(x *X, n string, chunks int) int {
	switch x.Pick(n+"coreKind", 40, 20, 20, 10, 10, 1) {
	case 0:
		return x.I(n+"cores", 1, 4)
	case 1:
		return chunks
	case 2:
		return 1 + x.I(n+"cores", 0, 2*chunks)
	case 3:
		return chunks + 1
	case 5:
		return x.I(n+"manyCores", 65, 1200)
	}
	return 1 << uint(x.I(n+"cores", 0, 6))
}

func genShape(x *X, n string, maxBN int) Shape {
	s := Shape{bN: x.I(n+"bN", 0, maxBN)}
	s.logChunks = x.I(n+"logChunks", 0, s.bN)
	s.cores = genCores(x, n, s.chunks())
	return s
}

// split lays a global table (g*2^bN + h) out in interleaved chunks: instance h is
// number h/nChunks of chunk h%nChunks.
func split(table []fr.Element, bN, logChunks int) [][]fr.Element {
	n, k := 1<<bN, 1<<logChunks
	g := len(table) / n
	per := n / k
	out := make([][]fr.Element, k)
	for c := range out {
		out[c] = make([]fr.Element, g*per)
		for j := 0; j < g; j++ {
			for u := 0; u < per; u++ {
				out[c][j*per+u] = table[j*n+u*k+c]
			}
		}
	}
	return out
}

// join is the inverse of split.
func join(chunks [][]fr.Element, bN int) []fr.Element {
	k := len(chunks)
	n := 1 << bN
	per := n / k
	g := len(chunks[0]) / per
	out := make([]fr.Element, g*n)
	for c := range chunks {
		for j := 0; j < g; j++ {
			for u := 0; u < per; u++ {
				out[j*n+u*k+c] = chunks[c][j*per+u]
			}
		}
	}
	return out
}

// evalAll evaluates the circuit on a global table, layer by layer.
func (c *CircS) evalAll(bN int, inputs []fr.Element) [][]fr.Element {
	n := 1 << bN
	out := [][]fr.Element{inputs}
	cur := inputs
	for _, l := range c.Layers {
		next := make([]fr.Element, n<<l.Out)
		for _, w := range l.Wires {
			for h := 0; h < n; h++ {
				v := c.Gates[w.G].eval(cur[w.L*n+h], cur[w.R*n+h])
				next[w.O*n+h].Add(&next[w.O*n+h], &v)
			}
		}
		out = append(out, next)
		cur = next
	}
	return out
}

// Transcript is everything the verifier is given.
type Transcript struct {
	Proof           gkr.Proof
	Inputs, Outputs [][]fr.Element
}

func copyProof(p gkr.Proof) gkr.Proof {
	var q gkr.Proof
	if p.SumcheckProofs != nil {
		q.SumcheckProofs = make([]sumcheck.Proof, len(p.SumcheckProofs))
	}
	for i := range p.SumcheckProofs {
		q.SumcheckProofs[i].PolyCoeffs = copy2(p.SumcheckProofs[i].PolyCoeffs)
	}
	q.ClaimsLeft = append([]fr.Element(nil), p.ClaimsLeft...)
	q.ClaimsRight = append([]fr.Element(nil), p.ClaimsRight...)
	return q
}

func (t *Transcript) copy() *Transcript {
	return &Transcript{Proof: copyProof(t.Proof), Inputs: copy2(t.Inputs), Outputs: copy2(t.Outputs)}
}

// overwrite copies o into the memory of t, which has the same shape.
func (t *Transcript) overwrite(o *Transcript) {
	over := func(a, b [][]fr.Element) {
		for i := range a {
			copy(a[i], b[i])
		}
	}
	over(t.Inputs, o.Inputs)
	over(t.Outputs, o.Outputs)
	copy(t.Proof.ClaimsLeft, o.Proof.ClaimsLeft)
	copy(t.Proof.ClaimsRight, o.Proof.ClaimsRight)
	for i := range t.Proof.SumcheckProofs {
		over(t.Proof.SumcheckProofs[i].PolyCoeffs, o.Proof.SumcheckProofs[i].PolyCoeffs)
	}
}

func equalProofs(a, b gkr.Proof) bool {
	if len(a.SumcheckProofs) != len(b.SumcheckProofs) || !equalSlices(a.ClaimsLeft, b.ClaimsLeft) || !equalSlices(a.ClaimsRight, b.ClaimsRight) {
		return false
	}
	for i := range a.SumcheckProofs {
		if !equal2(a.SumcheckProofs[i].PolyCoeffs, b.SumcheckProofs[i].PolyCoeffs) {
			return false
		}
	}
	return true
}

func (t *Transcript) equal(o *Transcript) bool {
	return equalProofs(t.Proof, o.Proof) && equal2(t.Inputs, o.Inputs) && equal2(t.Outputs, o.Outputs)
}

// diffProofs says where two proofs differ first.
func diffProofs(a, b gkr.Proof) string {
	if len(a.SumcheckProofs) != len(b.SumcheckProofs) {
		return "number of layers"
	}
	for l := len(a.SumcheckProofs) - 1; l >= 0; l-- {
		p, q := a.SumcheckProofs[l].PolyCoeffs, b.SumcheckProofs[l].PolyCoeffs
		if len(p) != len(q) {
			return fmt.Sprintf("layer %d: number of rounds", l)
		}
		for j := range p {
			if !equalSlices(p[j], q[j]) {
				return fmt.Sprintf("layer %d: round %d", l, j)
			}
		}
		if a.ClaimsLeft[l] != b.ClaimsLeft[l] {
			return fmt.Sprintf("layer %d: left claim", l)
		}
		if a.ClaimsRight[l] != b.ClaimsRight[l] {
			return fmt.Sprintf("layer %d: right claim", l)
		}
	}
	return "nothing"
}

// refStatics returns the static tables of a layer for an output point q.
func (c *CircS) refStatics(layer int, q []fr.Element) [][]fr.Element {
	l := c.Layers[layer]
	gates := c.layerGates(layer)
	w := eqWeights(q)
	out := make([][]fr.Element, len(gates))
	for i, g := range gates {
		out[i] = make([]fr.Element, 1<<(2*l.In))
		for _, s := range l.Wires {
			if sameGate(c.Gates[s.G], c.Gates[g]) {
				k := s.L<<l.In | s.R
				out[i][k].Add(&out[i][k], &w[s.O])
			}
		}
	}
	return out
}

func sameGate(a, b GateS) bool { return a == b }

// refVerdict is the verdict of the reference verifier.
type refVerdict struct {
	ok     bool
	failed []string // every check that fails (all are evaluated)
}

// refVerify checks a transcript against the definition of the protocol, evaluating every check.
func (c *CircS) refVerify(bN int, t *Transcript) refVerdict {
	var v refVerdict
	bad := func(format string, a ...any) { v.failed = append(v.failed, fmt.Sprintf(format, a...)) }
	n := len(c.Layers)
	if len(t.Proof.SumcheckProofs) != n || len(t.Proof.ClaimsLeft) != n || len(t.Proof.ClaimsRight) != n ||
		!chunked(t.Inputs, bN, c.Layers[0].In) || !chunked(t.Outputs, bN, c.Layers[n-1].Out) {
		return refVerdict{failed: []string{"shape"}}
	}
	for l := range c.Layers {
		if !c.polysShaped(bN, l, t.Proof.SumcheckProofs[l].PolyCoeffs) {
			return refVerdict{failed: []string{"shape"}}
		}
	}
	qPrime, q := initialPoint(bN, c.Layers[n-1].Out)
	claim := refMLE(join(t.Outputs, bN), append(append([]fr.Element{}, q...), qPrime...))
	qs, lambdas := [][]fr.Element{q}, []fr.Element{u64(1)}
	for l := n - 1; l >= 0; l-- {
		bG := c.Layers[l].In
		cur := claim
		var point []fr.Element
		for j, p := range t.Proof.SumcheckProofs[l].PolyCoeffs {
			s := refPoly(p, u64(0))
			s1 := refPoly(p, u64(1))
			s.Add(&s, &s1)
			if s != cur {
				bad("layer %d round %d", l, j)
			}
			r := refMimc(p)
			point = append(point, r)
			cur = refPoly(p, r)
		}
		hL, hR, hP := point[:bG], point[bG:2*bG], point[2*bG:]
		if cur != c.refCombine(l, qs, lambdas, qPrime, hL, hR, hP, t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l]) {
			bad("layer %d combination", l)
		}
		lambda := refMimc([]fr.Element{t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l]})
		claim.Mul(&lambda, &t.Proof.ClaimsRight[l])
		claim.Add(&claim, &t.Proof.ClaimsLeft[l])
		qs, lambdas, qPrime = [][]fr.Element{hL, hR}, []fr.Element{u64(1), lambda}, hP
		if l == 0 {
			in := join(t.Inputs, bN)
			if refMLE(in, append(append([]fr.Element{}, hL...), hP...)) != t.Proof.ClaimsLeft[0] {
				bad("left input")
			}
			if refMLE(in, append(append([]fr.Element{}, hR...), hP...)) != t.Proof.ClaimsRight[0] {
				bad("right input")
			}
		}
	}
	v.ok = len(v.failed) == 0
	return v
}

func (c *CircS) polysShaped(bN, l int, polys [][]fr.Element) bool {
	bG := c.Layers[l].In
	if len(polys) != bN+2*bG {
		return false
	}
	s := sumcheckTables{}
	for _, g := range c.layerGates(l) {
		s.gates = append(s.gates, c.Gates[g])
	}
	dL, dR, dP := s.degrees()
	for j := range polys {
		d := dP
		if j < bG {
			d = dL
		} else if j < 2*bG {
			d = dR
		}
		if len(polys[j]) != d+1 {
			return false
		}
	}
	return true
}

func chunked(v [][]fr.Element, bN, b int) bool {
	k := len(v)
	if k == 0 || k&(k-1) != 0 || k > 1<<bN {
		return false
	}
	for i := range v {
		if len(v[i])*k != 1<<(bN+b) {
			return false
		}
	}
	return true
}

// statAt evaluates sum_k lambda_k static_i(q_k, hL, hR) for each gate of the layer.
func (c *CircS) statAt(l int, qs [][]fr.Element, lambdas []fr.Element, hL, hR []fr.Element) []fr.Element {
	out := make([]fr.Element, len(c.layerGates(l)))
	pt := append(append([]fr.Element{}, hL...), hR...)
	for k := range qs {
		st := c.refStatics(l, qs[k])
		for i := range st {
			v := refMLE(st[i], pt)
			v.Mul(&v, &lambdas[k])
			out[i].Add(&out[i], &v)
		}
	}
	return out
}

func (c *CircS) refCombine(l int, qs [][]fr.Element, lambdas []fr.Element, qPrime, hL, hR, hP []fr.Element, cL, cR fr.Element) fr.Element {
	st := c.statAt(l, qs, lambdas, hL, hR)
	var res fr.Element
	for i, g := range c.layerGates(l) {
		v := c.Gates[g].eval(cL, cR)
		v.Mul(&v, &st[i])
		res.Add(&res, &v)
	}
	eq := refEq(qPrime, hP)
	res.Mul(&res, &eq)
	return res
}

// tables returns the sumcheck instance of a layer for the true values of the layer below.
func (c *CircS) tables(bN, l int, values []fr.Element, qs [][]fr.Element, lambdas []fr.Element, qPrime []fr.Element) *sumcheckTables {
	s := &sumcheckTables{bN: bN, bG: c.Layers[l].In, vL: values, vR: values, eq: eqWeights(qPrime)}
	for _, g := range c.layerGates(l) {
		s.gates = append(s.gates, c.Gates[g])
	}
	s.statics = make([][]fr.Element, len(s.gates))
	for i := range s.statics {
		s.statics[i] = make([]fr.Element, 1<<(2*s.bG))
	}
	for k := range qs {
		st := c.refStatics(l, qs[k])
		for i := range st {
			for j := range st[i] {
				var t fr.Element
				t.Mul(&st[i][j], &lambdas[k])
				s.statics[i][j].Add(&s.statics[i][j], &t)
			}
		}
	}
	return s
}

// gateNumber finds the gate of the specification that has the ID of g.
func gateNumber(x *X, spec *CircS, l int, g circuit.Gate) int {
	for k, n := range spec.layerGates(l) {
		if spec.Gates[n].gate(nil).ID() == g.ID() {
			return k
		}
	}
	return -1
}
