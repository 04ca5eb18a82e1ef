//go:build go1.21

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/zzverif/zzsim"
)

// step names a check: round >= 0, or -1 for the combination, or the inputs (layer -1, round 0 or 1).
type step struct{ layer, round int }

func (s step) String() string {
	if s.layer < 0 {
		return []string{"left input", "right input"}[s.round]
	}
	if s.round < 0 {
		return fmt.Sprintf("layer %d combination", s.layer)
	}
	return fmt.Sprintf("layer %d round %d", s.layer, s.round)
}

// checks lists the checks of the protocol in the order of the messages.
func (c *CircS) checks(bN int) []step {
	var out []step
	for l := len(c.Layers) - 1; l >= 0; l-- {
		for j := 0; j < bN+2*c.Layers[l].In; j++ {
			out = append(out, step{l, j})
		}
		out = append(out, step{l, -1})
	}
	return append(out, step{-1, 0}, step{-1, 1})
}

// drawCheck draws one of the checks: the rare kinds (combinations, inputs, ends) more often than their share.
func drawCheck(x *X, n string, checks []step) int {
	k := x.I(n, 0, len(checks)-1)
	switch x.Pick(n+"Kind", 4, 2, 2, 1) {
	case 1: // the inputs
		k = len(checks) - 1 - k%2
	case 2: // a combination
		for checks[k].round >= 0 && checks[k].layer >= 0 {
			k++
		}
		if checks[k].layer < 0 {
			k = len(checks) - 3
		}
	case 3: // the first messages
		k %= min(len(checks), 6)
	}
	return k
}

func (c *CircS) degreesOf(l int) (int, int, int) {
	s := sumcheckTables{}
	for _, g := range c.layerGates(l) {
		s.gates = append(s.gates, c.Gates[g])
	}
	return s.degrees()
}

// forge builds a transcript that satisfies every check but target (none if target < 0),
// honest (copied from base) up to message number from. It returns nil if the algebra does not work out.
func forge(x *X, c *CircS, bN, logChunks int, base *Transcript, target, from int, keepInputs bool) *Transcript {
	g := x.RNG("forge")
	n := len(c.Layers)
	t := base.copy()
	violate := func(v fr.Element, alternatives ...fr.Element) fr.Element {
		k := x.I("violation", 0, len(alternatives)+1)
		var w fr.Element
		switch {
		case k == 0:
			one := u64(1)
			w.Add(&v, &one)
		case k == 1:
			w = randElem(g)
		default:
			w = alternatives[k-2]
		}
		if x.Chance("partial", 25) { // differs in some words of the representation only
			w = partly(v, x.I("words", 1, 15), g)
		}
		if w == v {
			w = randElem(g)
		}
		return w
	}
	qPrime, q := initialPoint(bN, c.Layers[n-1].Out)
	cur := refMLE(join(t.Outputs, bN), append(append([]fr.Element{}, q...), qPrime...))
	qs, lambdas := [][]fr.Element{q}, []fr.Element{u64(1)}
	pos := 0
	var hL, hR, hP []fr.Element
	for l := n - 1; l >= 0; l-- {
		bG := c.Layers[l].In
		dL, dR, dP := c.degreesOf(l)
		var point []fr.Element
		for j := 0; j < bN+2*bG; j++ {
			p := t.Proof.SumcheckProofs[l].PolyCoeffs[j]
			if pos >= from || pos == target {
				want := cur
				if pos == target {
					var half, z fr.Element
					half.SetUint64(2)
					half.Inverse(&half)
					z.Double(&cur)
					half.Mul(&half, &cur)
					want = violate(cur, fr.Element{}, z, half)
				}
				d := dP
				if j < bG {
					d = dL
				} else if j < 2*bG {
					d = dR
				}
				// p(0) + p(1) = 2 c0 + c1 + ... = want
				p = make([]fr.Element, d+1)
				sum := fr.Element{}
				for k := 1; k <= d; k++ {
					p[k] = randElem(g)
					sum.Add(&sum, &p[k])
				}
				two := u64(2)
				two.Inverse(&two)
				p[0].Sub(&want, &sum)
				p[0].Mul(&p[0], &two)
				t.Proof.SumcheckProofs[l].PolyCoeffs[j] = p
			}
			r := refMimc(p)
			point = append(point, r)
			cur = refPoly(p, r)
			pos++
		}
		hL, hR, hP = point[:bG], point[bG:2*bG], point[2*bG:]
		if pos >= from || pos == target {
			want := cur
			st := c.statAt(l, qs, lambdas, hL, hR)
			eq := refEq(qPrime, hP)
			comb := func(cL, cR fr.Element) fr.Element {
				var res fr.Element
				for i, gi := range c.layerGates(l) {
					v := c.Gates[gi].eval(cL, cR)
					v.Mul(&v, &st[i])
					res.Add(&res, &v)
				}
				res.Mul(&res, &eq)
				return res
			}
			if pos == target {
				// what a verifier would expect that forgot a factor
				var noEq fr.Element
				noEq.Mul(&cur, &eq)
				want = violate(cur, noEq, fr.Element{})
			}
			cR := randElem(g)
			if x.Chance("sameClaims", 20) {
				cR = t.Proof.ClaimsRight[l]
			}
			// the gates are linear in the left operand
			a0, a1 := comb(fr.Element{}, cR), comb(u64(1), cR)
			a1.Sub(&a1, &a0)
			if a1.IsZero() {
				return nil
			}
			a1.Inverse(&a1)
			want.Sub(&want, &a0)
			want.Mul(&want, &a1)
			t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l] = want, cR
		}
		pos++
		lambda := refMimc([]fr.Element{t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l]})
		cur.Mul(&lambda, &t.Proof.ClaimsRight[l])
		cur.Add(&cur, &t.Proof.ClaimsLeft[l])
		qs, lambdas, qPrime = [][]fr.Element{hL, hR}, []fr.Element{u64(1), lambda}, hP
	}
	// the inputs that go with the last claims
	cL, cR := t.Proof.ClaimsLeft[0], t.Proof.ClaimsRight[0]
	if pos == target {
		cL = violate(cL, cR, fr.Element{})
	}
	if pos+1 == target {
		cR = violate(cR, cL, fr.Element{})
	}
	in := join(t.Inputs, bN)
	if len(in) < 2 {
		return nil
	}
	wL := eqWeights(append(append([]fr.Element{}, hL...), hP...))
	wR := eqWeights(append(append([]fr.Element{}, hR...), hP...))
	if !keepInputs {
		// two entries are adapted: [wL_i wL_j; wR_i wR_j] (a b) = rest
		i := x.I("entry", 0, len(in)-1)
		for try := 0; ; try++ {
			if try == len(in) {
				return nil
			}
			j := (i + 1 + try) % len(in)
			var det, m fr.Element
			det.Mul(&wL[i], &wR[j])
			m.Mul(&wL[j], &wR[i])
			det.Sub(&det, &m)
			if det.IsZero() {
				continue
			}
			in[i], in[j] = fr.Element{}, fr.Element{}
			restL, restR := dot(wL, in), dot(wR, in)
			restL.Sub(&cL, &restL)
			restR.Sub(&cR, &restR)
			det.Inverse(&det)
			var a, b fr.Element
			a.Mul(&restL, &wR[j])
			m.Mul(&restR, &wL[j])
			a.Sub(&a, &m)
			a.Mul(&a, &det)
			b.Mul(&restR, &wL[i])
			m.Mul(&restL, &wR[i])
			b.Sub(&b, &m)
			b.Mul(&b, &det)
			in[i], in[j] = a, b
			break
		}
		t.Inputs = split(in, bN, logChunks)
	}
	return t
}

func dot(a, b []fr.Element) fr.Element {
	var s, m fr.Element
	for i := range a {
		m.Mul(&a[i], &b[i])
		s.Add(&s, &m)
	}
	return s
}

// partly changes the words of the representation of v selected by mask.
func partly(v fr.Element, mask int, g *zzsim.RNG) fr.Element {
	for i := range v {
		if mask>>i&1 == 0 {
			continue
		}
		if i == 3 {
			v[i] ^= 1 + g.U()&0xffffff // stays below the modulus, or is reduced
		} else {
			v[i] ^= 1 + g.U()>>1
		}
	}
	var w fr.Element
	w.Add(&v, &fr.Element{}) // reduces once
	return w
}
