//go:build go1.21 && (p_all || p_c21 || p_c27)

package main

import (
	"fmt"
	"time"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C21"] = &Prop{
		ID: "C21", Quick: 40000, Deep: 1600000,
		Rule: "One to four verifiers run the sumcheck as an interactive protocol with provers stepped round by round (messages, folds) over a link that loses, repeats, delays and reorders requests and answers; provers crash and are rebuilt from their tables and the challenges so far. Challenges are drawn by the verifiers. Every answer is compared with the reference's partial sum, and each session has to finish.",
		Real: []string{"sumcheck (sequential prover: claim, round messages, folds)", "polynomial", "circuit gates", "common"},
		Stub: []string{"scheduler", "network", "clock", "some gates are user-defined gates of the harness"},
		Run:  runC21,
	}
}

// drawTables draws an instance of the sumcheck protocol and its gates.
func drawTables(x *X, p string, own bool) (*sumcheckTables, []circuit.Gate) {
	s := &sumcheckTables{bN: x.I(p+"bN", 0, 3), bG: x.Pick(p+"bG", 2, 4, 2)}
	n := x.I(p+"gates", 1, 3)
	if x.Chance(p+"larger", 3) {
		s.bN, n = x.I(p+"largerBN", 4, 6), x.I(p+"moreGates", 1, 8)
	}
	switch x.Pick(p+"wide", 60, 1, 1) {
	case 1: // tables of up to 1024 entries
		s.bG, s.bN, n = x.I(p+"wideBG", 3, 5), min(s.bN, 1), min(n, 2)
		x.Probe("operands of up to 32 positions")
	case 2:
		s.bG, s.bN, n = min(s.bG, 1), min(s.bN, 2), x.I(p+"wideGates", 10, 80)
		x.Probe("many gates")
	}
	kinds := allKinds
	var gates []circuit.Gate
	for i := 0; i < n; i++ {
		g := GateS{Kind: kinds[x.I(fmt.Sprintf("%sgate%d", p, i), 0, len(kinds)-1)]}
		switch g.Kind {
		case "cipher", "const":
			g.C[0] = x.Elems(fmt.Sprintf("%sark%d", p, i), 1)[0]
		case "bilin":
			for j := range g.C {
				g.C[j] = u64(uint64(x.I(fmt.Sprintf("%sc%d.%d", p, i, j), 0, 4)))
			}
		case "pow", "powL", "right":
			g.K = x.I(fmt.Sprintf("%spow%d", p, i), 1, 9)
		}
		s.gates = append(s.gates, g)
		if own {
			gates = append(gates, &hGate{s: g})
		} else {
			gates = append(gates, g.gate(nil))
		}
		st := x.Elems(fmt.Sprintf("%sstatic%d", p, i), 1<<(2*s.bG))
		if x.Chance(fmt.Sprintf("%swires%d", p, i), 40) {
			keep := x.I(fmt.Sprintf("%swire%d", p, i), 0, len(st)-1)
			for k := range st {
				if k != keep {
					st[k] = fr.Element{}
				}
			}
		}
		s.statics = append(s.statics, st)
	}
	s.vL, s.vR = x.Elems(p+"vL", 1<<(s.bN+s.bG)), x.Elems(p+"vR", 1<<(s.bN+s.bG))
	s.eq = x.Elems(p+"eq", 1<<s.bN)
	return s, gates
}

// remote is a prover that serves a verifier: it can be asked any number of times and may crash.
type remote struct {
	s     *sumcheckTables
	gates []circuit.Gate
	p     *sumcheck.SingleThreadedProver
	at    int // folds so far
}

func (r *remote) rebuild() {
	tab := func(t []fr.Element) polynomial.BookKeepingTable {
		return polynomial.NewBookKeepingTable(append([]fr.Element{}, t...))
	}
	p := sumcheck.NewSingleThreadedProver(tab(r.s.vL), tab(r.s.vR), tab(r.s.eq), r.gates, asTables(r.s.statics))
	r.p, r.at = &p, 0
}

// answer is the message of the round after the given challenges; nil if it was asked for the past.
func (r *remote) answer(challenges []fr.Element) []fr.Element {
	if r.p == nil {
		r.rebuild()
	}
	if r.at > len(challenges) {
		return nil
	}
	for ; r.at < len(challenges); r.at++ {
		c := challenges[r.at]
		switch {
		case r.at < r.s.bG:
			r.p.FoldHL(c)
		case r.at < 2*r.s.bG:
			r.p.FoldHR(c)
		default:
			r.p.FoldHPrime(c)
		}
	}
	switch {
	case r.at < r.s.bG:
		return r.p.GetEvalsOnHL()
	case r.at < 2*r.s.bG:
		return r.p.GetEvalsOnHR()
	case r.at < 2*r.s.bG+r.s.bN:
		return r.p.GetEvalsOnHPrime()
	}
	// nothing is left to sum over: the final claims
	_, _, _, _, finals := r.p.Prove()
	return finals
}

type session struct {
	remote
	inbox   [][]fr.Element // requests that arrived: the challenges so far
	replies map[int][][]fr.Element
	crashes int
	rounds  int
	asked   int
	done    bool
	claims  []fr.Element
	kept    [][2][]fr.Element // messages, and what they were when they were returned
}

func runC21(x *X) {
	n := 1 + x.Pick("sessions", 4, 3, 1, 1)
	own := x.Chance("ownGates", 25)
	var ss []*session
	for i := 0; i < n; i++ {
		s := &session{replies: map[int][][]fr.Element{}}
		s.s, s.gates = drawTables(x, fmt.Sprintf("s%d.", i), own)
		if i > 0 && x.Chance(fmt.Sprintf("s%d.same", i), 30) { // the same statement, proven twice
			s.s, s.gates = ss[0].s, ss[0].gates
		}
		s.crashes = x.Pick(fmt.Sprintf("s%d.crashes", i), 4, 2, 1, 1)
		s.rounds = s.s.bN + 2*s.s.bG
		ss = append(ss, s)
	}
	loss := []int64{0, 10, 30, 60}[x.Pick("loss", 2, 2, 2, 1)]
	dup := []int64{0, 20, 50}[x.Pick("dup", 2, 2, 1)]
	delay := int64(1) << uint(x.I("delay", 0, 24))
	lossy := x.I("lossy", 0, 40) // messages that may be lost
	rare := x.Chance("specialChallenges", 30)
	g := x.RNG("net")
	x.Note("%d sessions, loss %d%%, repeated %d%%, delay up to %d ns", n, loss, dup, delay)
	post := func(deliver func()) {
		if lossy > 0 && g.N(100) < loss {
			lossy--
			x.Fault("message lost")
			return
		}
		copies := 1
		if lossy > 0 && g.N(100) < dup {
			lossy--
			x.Fault("message repeated")
			copies = 2
		}
		for ; copies > 0; copies-- {
			d := g.N(delay)
			if d == 0 {
				deliver()
				continue
			}
			x.faults["message delayed"]++
			zzsim.GoHarness(func() {
				zzsim.Sleep(time.Duration(d))
				deliver()
			})
		}
	}
	serve := func(s *session) {
		wait := time.Duration(64)
		for !s.done {
			if len(s.inbox) == 0 {
				zzsim.Sleep(wait)
				if wait < 1<<40 {
					wait += wait / 2
				}
				continue
			}
			wait = 64
			req := s.inbox[0]
			s.inbox = s.inbox[1:]
			if s.crashes > 0 && g.N(6) == 0 {
				s.crashes--
				s.p = nil
				if g.N(2) == 0 {
					s.inbox = nil // what was not read is gone
				}
				x.Fault("prover crash and restart")
			}
			if s.asked%3 == 0 && (s.p == nil || s.at == 0) {
				if s.p == nil {
					s.rebuild()
				}
				s.claims = append(s.claims, s.p.GetClaim())
			}
			s.asked++
			a := s.answer(req)
			if a == nil {
				x.Probe("late request")
				continue
			}
			sent := append([]fr.Element{}, a...)
			k := len(req)
			post(func() { s.replies[k] = append(s.replies[k], sent) })
			if g.N(3) == 0 { // asking twice gives the same, and the first answer stays as it was
				b := s.answer(req)
				if !equalSlices(b, sent) {
					x.Failf("unstable", "round %d: asked twice, the prover gives two messages", k)
				}
				if !equalSlices(a, sent) {
					x.Failf("result-changed", "round %d: a message changed after it was returned", k)
				}
				for i := range b {
					b[i].SetUint64(99)
				}
			}
			if g.N(2) == 0 { // kept until the session ends
				s.kept = append(s.kept, [2][]fr.Element{a, sent})
				continue
			}
			for i := range a { // the message is the caller's
				a[i].SetUint64(77)
			}
		}
	}
	verify := func(i int, s *session) {
		defer func() { s.done = true }()
		cur := s.s
		want := cur.claim()
		var challenges []fr.Element
		for k := 0; k <= s.rounds; k++ {
			wait := time.Duration(256)
			for len(s.replies[k]) == 0 {
				req := append([]fr.Element{}, challenges...)
				post(func() { s.inbox = append(s.inbox, req) })
				for spent := time.Duration(0); spent < wait && len(s.replies[k]) == 0; spent += wait / 4 {
					zzsim.Sleep(wait / 4)
				}
				if len(s.replies[k]) == 0 {
					x.probes["request repeated"]++
				}
				if wait < 1<<44 {
					wait *= 2
				}
			}
			got := s.replies[k][len(s.replies[k])-1]
			x.Evals++
			what := fmt.Sprintf("session %d (bN=%d bG=%d gates=%v), round %d", i, s.s.bN, s.s.bG, kindsList(s.s.gates), k)
			if k == s.rounds {
				final := []fr.Element{cur.vL[0], cur.vR[0], cur.eq[0]}
				for _, t := range cur.statics {
					final = append(final, t[0])
				}
				if !equalSlices(got, final) {
					x.Failf("final", "%s: the final claims are not the evaluations at the challenges", what)
				}
				return
			}
			poly := cur.roundPoly(k)
			if len(got) < 2 {
				x.Failf("round", "%s: a message of %d values", what, len(got))
				return
			}
			for t := len(got); t < len(poly); t++ { // a shorter message stands for the polynomial through its values
				got = append(got, refPoly(refInterpolate(got), u64(uint64(t))))
			}
			for t := range got {
				if got[t] != refPoly(poly, u64(uint64(t))) {
					x.Failf("round", "%s: the value at %d is not the partial sum", what, t)
					return
				}
			}
			var sum fr.Element
			sum.Add(&got[0], &got[1])
			if sum != want {
				panic("harness: the reference contradicts itself")
			}
			r := randElem(g)
			if rare {
				r = u64(uint64(g.N(4)))
			}
			challenges = append(challenges, r)
			want = refPoly(poly, r)
			cur = cur.fold(k, r)
		}
	}
	r := x.Sim(func() {
		var wg sync.WaitGroup
		for i, s := range ss {
			i, s := i, s
			wg.Add(2)
			zzsim.GoHarness(func() { defer wg.Done(); serve(s) })
			zzsim.GoHarness(func() { defer wg.Done(); verify(i, s) })
		}
		wg.Wait()
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	for i, s := range ss {
		for _, m := range s.kept {
			if !equalSlices(m[0], m[1]) {
				x.Failf("result-changed", "session %d: a message changed after it was returned", i)
				return
			}
		}
		want := s.s.claim()
		for _, c := range s.claims {
			if c != want {
				x.Failf("claim", "session %d: the claim is not the sum", i)
				return
			}
		}
	}
	if n > 1 {
		x.Probe("several sessions")
	}
}

func kindsList(g []GateS) []string {
	var out []string
	for i := range g {
		out = append(out, g[i].Kind)
	}
	return out
}
