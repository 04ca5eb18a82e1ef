//go:build go1.21

package main

import (
	"github.com/consensys/gurvy/bn256/fr"
)

// Independent reference implementations: hashes, evaluation of circuits,
// multilinear extensions, sumcheck prover, GKR verifier. They share only the field
// arithmetic with the code under test.

const refRounds = 91

var refX, refY, refArk []fr.Element

func init() {
	parse := func(l []string) []fr.Element {
		out := make([]fr.Element, len(l))
		for i := range l {
			out[i].SetString(l[i])
		}
		return out
	}
	refX, refY, refArk = parse(goldX), parse(goldY), parse(goldArk)
}

func refPow7(x fr.Element) fr.Element {
	var x2, x4, r fr.Element
	x2.Mul(&x, &x)
	x4.Mul(&x2, &x2)
	r.Mul(&x4, &x2)
	r.Mul(&r, &x)
	return r
}

func refMimcPerm(state, key fr.Element) fr.Element {
	for i := 0; i < refRounds; i++ {
		state.Add(&state, &key)
		state.Add(&state, &refArk[i])
		state = refPow7(state)
	}
	return state
}

func refMimc(msg []fr.Element) fr.Element {
	var s fr.Element
	for _, m := range msg {
		p := refMimcPerm(s, m)
		p.Add(&p, &s)
		p.Add(&p, &m)
		s = p
	}
	return s
}

// refCompress updates the state with one block.
func refCompress(state, block []fr.Element, perm func(state, block []fr.Element) []fr.Element) []fr.Element {
	old := append([]fr.Element{}, state...)
	state = perm(append([]fr.Element{}, state...), block)
	for j := range state {
		state[j].Add(&state[j], &old[j])
		state[j].Add(&state[j], &block[j])
	}
	return state
}

// refBlocks are the zero-padded blocks of a message.
func refBlocks(t int, msg []fr.Element) [][]fr.Element {
	var out [][]fr.Element
	for i := 0; i < len(msg); i += t {
		block := make([]fr.Element, t)
		copy(block, msg[i:])
		out = append(out, block)
	}
	return out
}

func refSponge(t int, msg []fr.Element, perm func(state, block []fr.Element) []fr.Element) fr.Element {
	state := make([]fr.Element, t)
	for _, block := range refBlocks(t, msg) {
		state = refCompress(state, block, perm)
	}
	return state[0]
}

func refGmimc(t int, msg []fr.Element) fr.Element { return refSponge(t, msg, refGmimcPerm) }

func refGmimcPerm(state, block []fr.Element) []fr.Element {
	for r := 0; r < refRounds; r++ {
		for j := range state {
			state[j].Add(&state[j], &block[j])
			state[j].Add(&state[j], &refArk[r])
		}
		state[0] = refPow7(state[0])
		state = append(append([]fr.Element{}, state[1:]...), state[0])
	}
	return state
}

func refPoseidon(t int, msg []fr.Element) fr.Element { return refSponge(t, msg, refPoseidonPerm(t)) }

// refMDS is the Cauchy matrix of the constants.
func refMDS(t int) [][]fr.Element {
	mds := make([][]fr.Element, t)
	for i := range mds {
		mds[i] = make([]fr.Element, t)
		for j := range mds[i] {
			mds[i][j].Add(&refX[i], &refY[j])
			mds[i][j].Inverse(&mds[i][j])
		}
	}
	return mds
}

func refMatVec(m [][]fr.Element, v []fr.Element) []fr.Element {
	out := make([]fr.Element, len(m))
	for i := range m {
		for j := range m[i] {
			var p fr.Element
			p.Mul(&m[i][j], &v[j])
			out[i].Add(&out[i], &p)
		}
	}
	return out
}

func refPoseidonPerm(t int) func(state, block []fr.Element) []fr.Element {
	const full = 8
	partial := map[int]int{2: 82, 4: 83, 8: 84}[t]
	mds := refMDS(t)
	return func(state, block []fr.Element) []fr.Element {
		for r := 0; r < 2*full+partial; r++ {
			for j := range state {
				state[j].Add(&state[j], &block[j])
				state[j].Add(&state[j], &refArk[r])
			}
			for j := range state {
				if j == 0 || r < full || r >= full+partial {
					state[j] = refPow7(state[j])
				}
			}
			state = refMatVec(mds, state)
		}
		return state
	}
}

// refEq is the multilinear extension of x == y on points of any dimension.
func refEq(x, y []fr.Element) fr.Element {
	var res, one fr.Element
	one.SetOne()
	res.SetOne()
	for i := range x {
		var a, b, c, d fr.Element
		a.Mul(&x[i], &y[i])
		b.Sub(&one, &x[i])
		c.Sub(&one, &y[i])
		d.Mul(&b, &c)
		a.Add(&a, &d)
		res.Mul(&res, &a)
	}
	return res
}

// bits returns v as a point of n coordinates, most significant first.
func bits(v, n int) []fr.Element {
	out := make([]fr.Element, n)
	for i := range out {
		if v>>(n-1-i)&1 == 1 {
			out[i].SetOne()
		}
	}
	return out
}

// eqWeights returns eq(q, h) for every h.
func eqWeights(q []fr.Element) []fr.Element {
	var one fr.Element
	one.SetOne()
	w := []fr.Element{one}
	for _, c := range q {
		next := make([]fr.Element, 2*len(w))
		var nc fr.Element
		nc.Sub(&one, &c)
		for i := range w {
			next[2*i].Mul(&w[i], &nc)
			next[2*i+1].Mul(&w[i], &c)
		}
		w = next
	}
	return w
}

// refMLE evaluates the multilinear extension of table at q (first coordinate = most significant bit).
func refMLE(table, q []fr.Element) fr.Element {
	w := eqWeights(q)
	var res, t fr.Element
	for i := range table {
		t.Mul(&w[i], &table[i])
		res.Add(&res, &t)
	}
	return res
}

// poly evaluates coefficients at x.
func refPoly(coeffs []fr.Element, x fr.Element) fr.Element {
	var res fr.Element
	for i := len(coeffs) - 1; i >= 0; i-- {
		res.Mul(&res, &x)
		res.Add(&res, &coeffs[i])
	}
	return res
}

// refFold fixes the first coordinate of table to r.
func refFold(table []fr.Element, r fr.Element) []fr.Element {
	mid := len(table) / 2
	out := make([]fr.Element, mid)
	for i := range out {
		var d fr.Element
		d.Sub(&table[i+mid], &table[i])
		d.Mul(&d, &r)
		out[i].Add(&table[i], &d)
	}
	return out
}

// interpolate returns the coefficients of the polynomial through (i, v[i]).
func refInterpolate(v []fr.Element) []fr.Element {
	n := len(v)
	// Newton's divided differences, then expansion
	d := append([]fr.Element{}, v...)
	for k := 1; k < n; k++ {
		for i := n - 1; i >= k; i-- {
			var den fr.Element
			den.SetUint64(uint64(k))
			den.Inverse(&den)
			d[i].Sub(&d[i], &d[i-1])
			d[i].Mul(&d[i], &den)
		}
	}
	coeffs := make([]fr.Element, n)
	for k := n - 1; k >= 0; k-- {
		// coeffs = coeffs * (X - k) + d[k]
		next := make([]fr.Element, n)
		var kk fr.Element
		kk.SetUint64(uint64(k))
		for i := 0; i < n; i++ {
			if i+1 < n {
				next[i+1].Add(&next[i+1], &coeffs[i])
			}
			var t fr.Element
			t.Mul(&coeffs[i], &kk)
			next[i].Sub(&next[i], &t)
		}
		next[0].Add(&next[0], &d[k])
		coeffs = next
	}
	return coeffs
}

func u64(v uint64) fr.Element {
	var e fr.Element
	e.SetUint64(v)
	return e
}

func equalSlices(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func equal2(a, b [][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !equalSlices(a[i], b[i]) {
			return false
		}
	}
	return true
}

func copy2(a [][]fr.Element) [][]fr.Element {
	if a == nil {
		return nil
	}
	out := make([][]fr.Element, len(a))
	for i := range a {
		if a[i] != nil {
			out[i] = append(make([]fr.Element, 0, len(a[i])), a[i]...)
		}
	}
	return out
}

// sumcheckTables is an instance of the sumcheck protocol:
// sum over hL, hR, h of eq(h) * sum_i static_i(hL,hR) * gate_i(vL(hL,h), vR(hR,h))
type sumcheckTables struct {
	bN, bG  int
	vL, vR  []fr.Element // index g*2^bN + h
	eq      []fr.Element
	gates   []GateS
	statics [][]fr.Element // index hL*2^bG + hR
}

func (s *sumcheckTables) degrees() (dL, dR, dP int) {
	for _, g := range s.gates {
		l, r, p := g.degrees()
		dL, dR, dP = max(dL, l), max(dR, r), max(dP, p)
	}
	return dL + 1, dR + 1, dP + 1
}

func (s *sumcheckTables) copy() *sumcheckTables {
	c := *s
	c.statics = append([][]fr.Element{}, s.statics...)
	return &c
}

// sum adds up everything that is left, given the sizes of the hL and hR parts.
func (s *sumcheckTables) sum(nL, nR int) fr.Element {
	var res fr.Element
	nh := len(s.eq)
	for h := 0; h < nh; h++ {
		var part fr.Element
		for l := 0; l < nL; l++ {
			for r := 0; r < nR; r++ {
				for i := range s.gates {
					st := s.statics[i][l*nR+r]
					if st.IsZero() {
						continue
					}
					v := s.gates[i].eval(s.vL[l*nh+h], s.vR[r*nh+h])
					v.Mul(&v, &st)
					part.Add(&part, &v)
				}
			}
		}
		part.Mul(&part, &s.eq[h])
		res.Add(&res, &part)
	}
	return res
}

// fold fixes the variable of the given round to r
func (s *sumcheckTables) fold(round int, r fr.Element) *sumcheckTables {
	c := s.copy()
	switch {
	case round < s.bG:
		c.vL = refFold(s.vL, r)
		for i := range c.statics {
			c.statics[i] = refFold(s.statics[i], r)
		}
	case round < 2*s.bG:
		c.vR = refFold(s.vR, r)
		for i := range c.statics {
			c.statics[i] = refFold(s.statics[i], r)
		}
	default:
		c.vL, c.vR, c.eq = refFold(s.vL, r), refFold(s.vR, r), refFold(s.eq, r)
	}
	return c
}

// roundPoly returns the true partial sum polynomial of a round.
func (s *sumcheckTables) roundPoly(round int) []fr.Element {
	dL, dR, dP := s.degrees()
	nL, nR, d := 1<<s.bG, 1<<s.bG, dP
	if round < s.bG {
		nL = 1 << (s.bG - round - 1)
		d = dL
	} else {
		nL = 1
		if round < 2*s.bG {
			nR = 1 << (2*s.bG - round - 1)
			d = dR
		} else {
			nR = 1
		}
	}
	evals := make([]fr.Element, d+1)
	for t := range evals {
		evals[t] = s.fold(round, u64(uint64(t))).sum(nL, nR)
	}
	return refInterpolate(evals)
}

func (s *sumcheckTables) claim() fr.Element { return s.sum(1<<s.bG, 1<<s.bG) }
