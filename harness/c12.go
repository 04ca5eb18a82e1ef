//go:build go1.21 && (p_all || p_c12)

package main

import (
	"fmt"
	"strings"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C12"] = &Prop{
		ID: "C12", Quick: 120000, Deep: 4800000,
		Rule: "An honest transcript crosses a simulated network that loses frames for good, truncates or pads them, or a sender that gets the structure wrong (missing or surplus layers, rounds, coefficients, claims, chunks; empty, nil or unevenly sized parts); the verifier judges what is left. It must reject everything that is not the honest transcript in shape and value, and never panic.",
		Real: []string{"gkr verifier (and prover for the honest part)", "circuit", "sumcheck verifier", "polynomial", "hash", "common"},
		Stub: []string{"network between prover and verifier", "scheduler", "channels, sync, runtime"},
		Run:  runC12,
	}
}

// mangle damages the structure of a transcript and describes what it did.
func mangle(x *X, name string, t *Transcript, g *zzsim.RNG) string {
	p := &t.Proof
	nL := len(p.SumcheckProofs)
	layer := x.I(name+".layer", 0, max(0, nL-1))
	pad := func() fr.Element {
		if x.Chance(name+".padZero", 50) {
			return fr.Element{}
		}
		return randElem(g)
	}
	cut := func(v []fr.Element, how int) []fr.Element {
		k := 0
		if len(v) > 0 {
			k = x.I(name+".at", 0, len(v)-1)
		}
		switch how {
		case 0: // the end is lost
			if len(v) > 0 {
				return v[:k]
			}
		case 1: // one value is lost
			if len(v) > 0 {
				return append(append([]fr.Element{}, v[:k]...), v[k+1:]...)
			}
		case 2: // one too many at the end
			return append(append([]fr.Element{}, v...), pad())
		case 3: // one too many inside
			return append(append(append([]fr.Element{}, v[:k]...), pad()), v[k:]...)
		case 4:
			return nil
		case 5:
			return []fr.Element{}
		case 6: // twice
			return append(append([]fr.Element{}, v...), v...)
		case 7: // half
			return v[:len(v)/2]
		}
		return v
	}
	howNames := []string{"truncated", "missing a value", "one value longer", "with a value inserted", "nil", "empty", "doubled", "halved"}
	how := x.Pick(name+".how", 3, 3, 3, 2, 2, 1, 1, 1)
	table := func(c [][]fr.Element, what string) ([][]fr.Element, string) {
		k := 0
		if len(c) > 0 {
			k = x.I(name+".chunk", 0, len(c)-1)
		}
		switch x.Pick(name+".tableOp", 5, 2, 2, 1, 1, 2, 2, 1, 1) {
		case 0:
			if len(c) > 0 {
				c[k] = cut(c[k], how)
				x.Fault("chunk damaged")
				return c, fmt.Sprintf("%s chunk %d %s", what, k, howNames[how])
			}
		case 1:
			if len(c) > 0 {
				x.Fault("chunk lost")
				return append(append([][]fr.Element{}, c[:k]...), c[k+1:]...), fmt.Sprintf("%s chunk %d lost", what, k)
			}
		case 2:
			x.Fault("surplus chunk")
			extra := []fr.Element{}
			if len(c) > 0 {
				extra = append(extra, c[k]...)
			}
			return append(c, extra), what + " with a surplus chunk"
		case 3:
			x.Fault("no chunks")
			return nil, what + " nil"
		case 4:
			x.Fault("no chunks")
			return [][]fr.Element{}, what + " empty"
		case 5: // uneven: a value moves from one chunk to another
			if len(c) > 1 && len(c[k]) > 0 {
				j := (k + 1) % len(c)
				c[j] = append(append([]fr.Element{}, c[j]...), c[k][len(c[k])-1:]...)
				c[k] = c[k][:max(0, len(c[k])-1)]
				x.Fault("uneven chunks")
				return c, what + " unevenly split"
			}
		case 6: // more chunks than instances, or another number of chunks
			m := x.I(name+".parts", 1, 9)
			var flat []fr.Element
			for i := range c {
				flat = append(flat, c[i]...)
			}
			var out [][]fr.Element
			per := max(1, len(flat)/m)
			for len(flat) > 0 {
				e := min(per, len(flat))
				out = append(out, flat[:e:e])
				flat = flat[e:]
			}
			x.Fault("split otherwise")
			return out, fmt.Sprintf("%s cut in %d parts", what, len(out))
		case 7:
			for i := range c {
				c[i] = nil
			}
			x.Fault("empty chunks")
			return c, what + " with nil chunks only"
		case 8:
			for i := range c {
				c[i] = append(append([]fr.Element{}, c[i]...), c[i]...)
			}
			x.Fault("doubled chunks")
			return c, what + " with every chunk doubled"
		}
		return c, what + " untouched"
	}
	switch x.Pick(name+".part", 6, 3, 2, 2, 4, 4, 1, 1) {
	case 0: // coefficients
		if nL > 0 && len(p.SumcheckProofs[layer].PolyCoeffs) > 0 {
			r := x.I(name+".round", 0, len(p.SumcheckProofs[layer].PolyCoeffs)-1)
			p.SumcheckProofs[layer].PolyCoeffs[r] = cut(p.SumcheckProofs[layer].PolyCoeffs[r], how)
			x.Fault("polynomial damaged")
			return fmt.Sprintf("layer %d round %d %s", layer, r, howNames[how])
		}
	case 1: // rounds
		if nL > 0 {
			pc := p.SumcheckProofs[layer].PolyCoeffs
			k := 0
			if len(pc) > 0 {
				k = x.I(name+".round", 0, len(pc)-1)
			}
			op := x.Pick(name+".roundOp", 3, 3, 2, 2, 1, 1, 1)
			switch op {
			case 0:
				pc = pc[:k]
			case 1:
				if len(pc) > 0 {
					pc = append(append([][]fr.Element{}, pc[:k]...), pc[k+1:]...)
				}
			case 2: // a surplus round that adds up
				deg := 3
				if len(pc) > 0 {
					deg = len(pc[len(pc)-1])
				}
				extra := make([]fr.Element, deg)
				if len(pc) > 0 && deg > 0 {
					last := refPoly(pc[len(pc)-1], refMimc(pc[len(pc)-1]))
					two := u64(2)
					two.Inverse(&two)
					extra[0].Mul(&last, &two)
				}
				pc = append(append([][]fr.Element{}, pc...), extra)
			case 3:
				if len(pc) > 0 {
					pc = append(append(append([][]fr.Element{}, pc[:k]...), pc[k]), pc[k:]...)
				}
			case 4:
				pc = nil
			case 5:
				pc = [][]fr.Element{}
			case 6:
				pc = append(append([][]fr.Element{}, pc...), nil)
			}
			p.SumcheckProofs[layer].PolyCoeffs = pc
			x.Fault("rounds lost or added")
			return fmt.Sprintf("layer %d has %d rounds", layer, len(pc))
		}
	case 2: // layers
		sp := p.SumcheckProofs
		switch x.Pick(name+".layerOp", 2, 2, 2, 1, 1) {
		case 0:
			sp = sp[:layer]
		case 1:
			if nL > 0 {
				sp = append(append([]sumcheck.Proof{}, sp[:layer]...), sp[layer+1:]...)
			}
		case 2:
			if nL > 0 {
				sp = append(append([]sumcheck.Proof{}, sp...), sp[layer])
			} else {
				sp = append(sp, sumcheck.Proof{})
			}
		case 3:
			sp = nil
		case 4:
			sp = append(append([]sumcheck.Proof{}, sp...), sumcheck.Proof{})
		}
		p.SumcheckProofs = sp
		if x.Chance(name+".both", 30) { // the claims follow
			for len(p.ClaimsLeft) < len(sp) {
				p.ClaimsLeft, p.ClaimsRight = append(p.ClaimsLeft, pad()), append(p.ClaimsRight, pad())
			}
			p.ClaimsLeft, p.ClaimsRight = p.ClaimsLeft[:min(len(sp), len(p.ClaimsLeft))], p.ClaimsRight[:min(len(sp), len(p.ClaimsRight))]
		}
		x.Fault("layers lost or added")
		return fmt.Sprintf("%d layers", len(sp))
	case 3: // claims
		which := x.I(name+".claims", 0, 2)
		if which != 1 {
			p.ClaimsLeft = cut(p.ClaimsLeft, how)
		}
		if which != 0 {
			p.ClaimsRight = cut(p.ClaimsRight, how)
		}
		x.Fault("claims lost or added")
		return fmt.Sprintf("%d and %d claims", len(p.ClaimsLeft), len(p.ClaimsRight))
	case 4:
		c, s := table(t.Inputs, "inputs")
		t.Inputs = c
		return s
	case 5:
		c, s := table(t.Outputs, "outputs")
		t.Outputs = c
		return s
	case 6: // everything empty
		*p = gkr.Proof{}
		x.Fault("empty proof")
		return "an empty proof"
	case 7: // the proof of a smaller or larger batch
		for l := range p.SumcheckProofs {
			if pc := p.SumcheckProofs[l].PolyCoeffs; len(pc) > 0 {
				if x.Chance(name+".smaller", 60) {
					p.SumcheckProofs[l].PolyCoeffs = pc[:len(pc)-1]
				} else {
					p.SumcheckProofs[l].PolyCoeffs = append(append([][]fr.Element{}, pc...), pc[len(pc)-1])
				}
			}
		}
		x.Fault("batch of another size")
		return "a round more or less in every layer"
	}
	return "untouched"
}

func runC12(x *X) {
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 1, mimcBN: 2, maxBN: 3, midBN: 6, circ: circOpts{maxLayers: 4, maxWires: 5}})
	var base *Transcript
	x.Quiet(func() { base = honest(spec, sh, in) })
	if x.Failed() {
		return
	}
	x.restart("", 30)
	g := x.RNG("mangle")
	t := base.copy()
	var done []string
	verifierBN := sh.bN
	switch x.Pick("mode", 10, 4, 1, 1) {
	case 0: // structural damage
		for k := 1 + x.Pick("mangles", 6, 2, 1); k > 0; k-- {
			done = append(done, mangle(x, "m"+itoa(k), t, g))
		}
	case 1: // frames lost for good
		frames := t.frames(0)
		var kept []frame
		pct := []int64{1, 5, 20, 50, 100}[x.I("lossPct", 0, 4)]
		only := x.I("lossOne", -1, len(frames)-1)
		for i, f := range frames {
			if i == only || (only < 0 && g.N(100) < pct) {
				x.Fault("message loss")
				done = append(done, "lost "+f.String())
				continue
			}
			kept = append(kept, f)
		}
		t = t.skeleton().assemble(0, kept)
	case 2: // a verifier for another batch size
		verifierBN = sh.bN + x.I("otherBN", -1, 2)
		if verifierBN < 0 {
			verifierBN = 0
		}
		if verifierBN != sh.bN {
			x.Fault("batch of another size")
		}
		done = append(done, fmt.Sprintf("verifier for bN=%d", verifierBN))
	case 3: // a transcript of another circuit
		other := genCirc(x, "other.", circOpts{maxLayers: 4, maxWires: 5})
		oin := x.Elems("otherInputs", 1<<(sh.bN+other.Layers[0].In))
		x.Quiet(func() { t = honest(other, sh, oin) })
		if x.Failed() {
			return
		}
		x.Fault("transcript of another circuit")
		done = append(done, "transcript of "+other.String())
	}
	what := strings.Join(done, "; ")
	x.Note("%s", what)
	ref := spec.refVerify(verifierBN, t)
	verdict := false
	before := t.copy()
	x.Sim(func() {
		v := gkr.NewVerifier(verifierBN, spec.build(nil))
		verdict = v.Verify(t.Proof, t.Inputs, t.Outputs)
	})
	if x.Failed() {
		x.fail.Detail = what + ": " + describe(spec, sh) + ": " + x.fail.Detail
		return
	}
	x.Evals++
	if !t.equal(before) {
		x.Failf("modified", "the verifier modified the transcript (%s): %s", what, describe(spec, sh))
	}
	if verdict && !ref.ok {
		x.Failf("accepted", "a transcript with %s was accepted although %v: %s", what, ref.failed, describe(spec, sh))
		return
	}
	if !verdict && t.equal(base) && verifierBN == sh.bN {
		x.Failf("rejected", "an undamaged transcript was rejected: %s", describe(spec, sh))
		return
	}
	if len(ref.failed) > 0 && ref.failed[0] == "shape" {
		x.Probe("malformed transcript rejected")
	}
	// the sumcheck verifier on its own must not panic either
	if n := len(t.Proof.SumcheckProofs); n > 0 {
		l := x.I("alone", 0, n-1)
		pr := t.Proof.SumcheckProofs[l]
		bG := x.I("aloneBG", 0, 3)
		claim := fr.Element{}
		if len(pr.PolyCoeffs) > 0 && len(pr.PolyCoeffs[0]) > 0 {
			a, b := refPoly(pr.PolyCoeffs[0], u64(0)), refPoly(pr.PolyCoeffs[0], u64(1))
			claim.Add(&a, &b)
		}
		var ok bool
		x.Sim(func() { ok, _, _, _, _ = sumcheck.Verifier{}.Verify(claim, pr, sh.bN, bG) })
		if x.Failed() {
			x.fail.Detail = "sumcheck verifier, " + what + ": " + x.fail.Detail
			return
		}
		x.Evals++
		bad := len(pr.PolyCoeffs) < 2*bG
		for _, p := range pr.PolyCoeffs {
			bad = bad || len(p) == 0
		}
		if ok && bad {
			x.Failf("accepted", "the sumcheck verifier accepted %d rounds for bG=%d, some without coefficients: %s", len(pr.PolyCoeffs), bG, what)
		}
	}
}
