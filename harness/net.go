//go:build go1.21

package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
)

// The simulated transport between prover and verifier: a transcript is a sequence of
// frames that a network loses, repeats, delays, reorders and corrupts.

// frame is a message: a round polynomial, the claims of a layer, a chunk of inputs or outputs.
type frame struct {
	session int
	kind    byte // 'p' polynomial of layer a, round b; 'c' claims of layer a; 'i', 'o' chunk a
	a, b    int
	vals    []fr.Element
}

func (f frame) key() string { return fmt.Sprintf("%d%c%d.%d", f.session, f.kind, f.a, f.b) }
func (f frame) String() string {
	switch f.kind {
	case 'p':
		return fmt.Sprintf("polynomial of layer %d round %d", f.a, f.b)
	case 'c':
		return fmt.Sprintf("claims of layer %d", f.a)
	case 'i':
		return fmt.Sprintf("input chunk %d", f.a)
	}
	return fmt.Sprintf("output chunk %d", f.a)
}

// frames cuts a transcript into messages, in the order a prover sends them.
func (t *Transcript) frames(session int) []frame {
	var out []frame
	add := func(kind byte, a, b int, v []fr.Element) {
		out = append(out, frame{session, kind, a, b, append([]fr.Element{}, v...)})
	}
	for k, c := range t.Inputs {
		add('i', k, 0, c)
	}
	for k, c := range t.Outputs {
		add('o', k, 0, c)
	}
	for l := len(t.Proof.SumcheckProofs) - 1; l >= 0; l-- {
		for j, p := range t.Proof.SumcheckProofs[l].PolyCoeffs {
			add('p', l, j, p)
		}
		add('c', l, 0, []fr.Element{t.Proof.ClaimsLeft[l], t.Proof.ClaimsRight[l]})
	}
	return out
}

// skeleton is the shape of a transcript: how many frames of each kind are expected.
type skeleton struct {
	rounds  []int
	in, out int
}

func (t *Transcript) skeleton() skeleton {
	s := skeleton{in: len(t.Inputs), out: len(t.Outputs)}
	for _, p := range t.Proof.SumcheckProofs {
		s.rounds = append(s.rounds, len(p.PolyCoeffs))
	}
	return s
}

// assemble puts the frames of a session together; what is missing stays empty.
func (s skeleton) assemble(session int, frames []frame) *Transcript {
	n := len(s.rounds)
	t := &Transcript{
		Proof:   gkr.Proof{SumcheckProofs: make([]sumcheck.Proof, n), ClaimsLeft: make([]fr.Element, n), ClaimsRight: make([]fr.Element, n)},
		Inputs:  make([][]fr.Element, s.in),
		Outputs: make([][]fr.Element, s.out),
	}
	for l, r := range s.rounds {
		t.Proof.SumcheckProofs[l].PolyCoeffs = make([][]fr.Element, r)
	}
	for _, f := range frames {
		if f.session != session {
			continue
		}
		v := append([]fr.Element{}, f.vals...)
		switch f.kind {
		case 'i':
			t.Inputs[f.a] = v
		case 'o':
			t.Outputs[f.a] = v
		case 'c':
			t.Proof.ClaimsLeft[f.a], t.Proof.ClaimsRight[f.a] = v[0], v[1]
		case 'p':
			t.Proof.SumcheckProofs[f.a].PolyCoeffs[f.b] = v
		}
	}
	return t
}

// netOpts are the rates (percent) of the network faults that do not change values.
type netOpts struct {
	loss, dup, delay int
	maxDelay         time.Duration
}

func drawNet(x *X) netOpts {
	o := netOpts{}
	if x.Chance("net.loss", 40) {
		o.loss = x.I("net.lossPct", 1, 60)
	}
	if x.Chance("net.dup", 40) {
		o.dup = x.I("net.dupPct", 1, 60)
	}
	if x.Chance("net.delay", 60) {
		o.delay = x.I("net.delayPct", 1, 100)
		o.maxDelay = time.Duration(x.Int("net.maxDelay", 1, 5000))
	}
	return o
}

type fate struct {
	losses int // transmissions lost before one gets through
	copies int
	delays [4]time.Duration
}

// fates draws what the network does to each frame.
func (o netOpts) fates(x *X, name string, n int) []fate {
	g := x.RNG("net:" + name)
	out := make([]fate, n)
	for i := range out {
		f := &out[i]
		for f.losses < 3 && int(g.N(100)) < o.loss {
			f.losses++
		}
		f.copies = 1
		for f.copies < 4 && int(g.N(100)) < o.dup {
			f.copies++
		}
		for k := range f.delays {
			if int(g.N(100)) < o.delay {
				f.delays[k] = time.Duration(g.N(int64(o.maxDelay)) + 1)
			}
		}
	}
	return out
}

// link carries frames to a receiver, with retransmission of lost ones. Call it from a task of the simulation.
func (x *X) link(frames []frame, fates []fate, to chan frame) {
	for i := range frames {
		f, w := frames[i], fates[i]
		zzsim.Y()
		x.faults["message loss"] += int64(w.losses)
		x.faults["message duplication"] += int64(w.copies - 1)
		carry := func(k int) {
			d := w.delays[k] + time.Duration(w.losses)*8000
			if d > 0 {
				x.faults["message delay"]++
				zzsim.Sleep(d)
			}
			zzsim.Send(to, f)
		}
		if w.losses == 0 && w.copies == 1 && w.delays[0] == 0 {
			zzsim.Send(to, f)
			continue
		}
		for k := 0; k < w.copies; k++ {
			k := k
			zzsim.GoHarness(func() { carry(k) })
		}
	}
}

// receive collects n distinct frames in whatever order they come.
func (x *X) receive(n int, from chan frame) []frame {
	seen := map[string]bool{}
	var out []frame
	for len(out) < n {
		f := zzsim.Recv(from)
		if k := f.key(); !seen[k] {
			seen[k] = true
			out = append(out, f)
		}
	}
	return out
}

func toBig(e fr.Element) *big.Int {
	var b big.Int
	e.ToBigIntRegular(&b)
	return &b
}

// flipBit flips a bit of the regular representation and reduces the result.
func flipBit(e fr.Element, bit int) fr.Element {
	b := toBig(e)
	b.SetBit(b, bit, b.Bit(bit)^1)
	var r fr.Element
	r.SetBigInt(b)
	return r
}

// tamper changes the values of frames without knowledge of the challenges; it describes what it did.
// The other session's frames are the source of stale and foreign values.
func tamper(x *X, name string, frames, other []frame) string {
	g := x.RNG(name)
	// a frame by kind first, so that rare kinds are hit
	var cand []int
	want := "pcio"[x.Pick(name+".kind", 4, 3, 2, 2)]
	for i, f := range frames {
		if f.kind == want && len(f.vals) > 0 {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		for i, f := range frames {
			if len(f.vals) > 0 {
				cand = append(cand, i)
			}
		}
	}
	i := cand[x.I(name+".frame", 0, len(cand)-1)]
	f := &frames[i]
	e := x.I(name+".value", 0, len(f.vals)-1)
	e2 := 0
	if len(f.vals) > 1 {
		e2 = (e + 1 + x.I(name+".value2", 0, len(f.vals)-2)) % len(f.vals)
	}
	j := cand[x.I(name+".frame2", 0, len(cand)-1)]
	delta := randElem(g)
	if x.Chance(name+".small", 40) {
		delta = u64(1)
	}
	one := u64(1)
	_ = one
	match := func(f *frame) *frame {
		for k := range other {
			o := &other[k]
			if o.kind == f.kind && o.a == f.a && o.b == f.b && len(o.vals) == len(f.vals) {
				return o
			}
		}
		return nil
	}
	d := ""
	switch op := x.Pick(name+".op", 6, 3, 3, 3, 2, 3, 3, 3, 3, 2, 2, 2, 3, 1, 2, 3); op {
	case 0:
		bit := x.I(name+".bit", 0, 253)
		f.vals[e] = flipBit(f.vals[e], bit)
		x.Fault("bit flip")
		d = fmt.Sprintf("bit %d of value %d flipped", bit, e)
	case 1:
		f.vals[e] = randElem(g)
		x.Fault("value replaced")
		d = fmt.Sprintf("value %d replaced", e)
	case 2:
		f.vals[e].Add(&f.vals[e], &delta)
		x.Fault("value shifted")
		d = fmt.Sprintf("value %d shifted", e)
	case 3:
		f.vals[e] = fr.Element{}
		x.Fault("value zeroed")
		d = fmt.Sprintf("value %d zeroed", e)
	case 4:
		f.vals[e].Neg(&f.vals[e])
		x.Fault("value negated")
		d = fmt.Sprintf("value %d negated", e)
	case 5:
		f.vals[e], f.vals[e2] = f.vals[e2], f.vals[e]
		x.Fault("values swapped")
		d = fmt.Sprintf("values %d and %d swapped", e, e2)
	case 6:
		if len(frames[j].vals) == len(f.vals) {
			f.vals, frames[j].vals = frames[j].vals, f.vals
		}
		x.Fault("messages swapped")
		d = fmt.Sprintf("swapped with the %v", frames[j])
	case 7: // the sum over 0 and 1 stays the same
		if len(f.vals) > 1 {
			f.vals[0].Add(&f.vals[0], &delta)
			delta.Double(&delta)
			k := 1 + x.I(name+".coef", 0, len(f.vals)-2)
			f.vals[k].Sub(&f.vals[k], &delta)
		} else {
			f.vals[0].Add(&f.vals[0], &delta)
		}
		x.Fault("sum-preserving change")
		d = "changed with the same sum over 0 and 1"
	case 8: // compensating change of two values
		f.vals[e].Add(&f.vals[e], &delta)
		f.vals[e2].Sub(&f.vals[e2], &delta)
		x.Fault("compensating change")
		d = fmt.Sprintf("values %d and %d changed in opposite directions", e, e2)
	case 9:
		if o := match(f); o != nil {
			f.vals[e] = o.vals[e]
		}
		x.Fault("stale value")
		d = fmt.Sprintf("value %d of another session", e)
	case 10:
		if o := match(f); o != nil {
			f.vals = append([]fr.Element{}, o.vals...)
		}
		x.Fault("message of another session")
		d = "of another session"
	case 11: // everything of one kind, or of one layer, of another session
		byLayer := x.Chance(name+".byLayer", 50)
		for k := range frames {
			if q := &frames[k]; (byLayer && (q.kind == 'p' || q.kind == 'c') && q.a == f.a) || (!byLayer && q.kind == f.kind) {
				if o := match(q); o != nil {
					q.vals = append([]fr.Element{}, o.vals...)
				}
			}
		}
		x.Fault("part of another session")
		d = fmt.Sprintf("and those like it of another session (by layer: %v)", byLayer)
	case 12: // not updated since the message before
		if i > 0 && len(frames[i-1].vals) == len(f.vals) {
			f.vals = append([]fr.Element{}, frames[i-1].vals...)
		} else {
			f.vals[e] = f.vals[e2]
		}
		x.Fault("stale buffer")
		d = "holds the message before"
	case 13:
		for k := range f.vals {
			f.vals[k].Double(&f.vals[k])
		}
		x.Fault("message scaled")
		d = "scaled"
	case 14:
		r := 1 + x.I(name+".rot", 0, len(f.vals))
		r %= len(f.vals)
		f.vals = append(append([]fr.Element{}, f.vals[r:]...), f.vals[:r]...)
		x.Fault("values rotated")
		d = fmt.Sprintf("rotated by %d", r)
	case 15:
		m := 1 << x.I(name+".word", 0, 3)
		f.vals[e] = partly(f.vals[e], m, g)
		x.Fault("word changed")
		d = fmt.Sprintf("words %d of value %d changed", m, e)
	}
	return fmt.Sprintf("%v %s", frames[i], d)
}
