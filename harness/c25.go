//go:build go1.21 && (p_all || p_c25)

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

func init() {
	props["C25"] = &Prop{
		ID: "C25", Quick: 900, Deep: 36000,
		Rule: "One to three clients have batches of messages of several blocks hashed by a pool of workers: in every round the running states and the next blocks go to a worker, which returns the outputs of the MiMC circuit with a proof; the client verifies, updates its states and goes on. The link loses, repeats, delays and reorders, answers come for other rounds and sessions, some are altered, workers crash. In the end the states have to be the MiMC hashes of the messages.",
		Real: []string{"examples (MiMC circuit)", "circuit", "gkr prover and verifier", "sumcheck", "polynomial", "hash", "snark/gkr in-circuit verifier (some runs)", "gnark compiler and solver (some runs)"},
		Stub: []string{"scheduler", "network, clock", "channels, sync, runtime"},
		Run:  runC25,
	}
}

// batch is a client's work: messages hashed side by side, one block per round.
type batch struct {
	bN, logChunks int
	msgs          [][]fr.Element
	rounds        int
	idle          int // what idle instances are given
}

// inputs are the running states and the blocks of a round, in global layout.
func (b *batch) inputs(round int, states, pad []fr.Element) []fr.Element {
	n := 1 << b.bN
	in := make([]fr.Element, 2*n)
	for i := 0; i < n; i++ {
		switch {
		case i < len(b.msgs) && round < len(b.msgs[i]):
			in[n+i] = b.msgs[i][round]
			in[i].Add(&states[i], &in[n+i]) // the circuit leaves the first addition of the block to its user
		case b.idle == 1 && i > 0: // like the instance before
			in[i], in[n+i] = in[i-1], in[n+i-1]
		case b.idle == 2:
			in[i], in[n+i] = pad[i], pad[n+i]
		}
	}
	return in
}

func runC25(x *X) {
	clients, workers := 1+x.Pick("clients", 4, 3, 1), 1+x.Pick("workers", 4, 3, 1)
	batches := make([]*batch, clients)
	pads := make([][]fr.Element, clients)
	var words []string
	for c := range batches {
		p := fmt.Sprintf("c%d.", c)
		b := &batch{bN: x.Pick(p+"bN", 3, 5, 4, 1), idle: x.I(p+"idle", 0, 2)}
		if x.Chance(p+"large", 2) {
			b.bN = x.I(p+"largeBN", 4, 5)
		}
		b.logChunks = x.I(p+"logChunks", 0, b.bN)
		b.rounds = 1 + x.Pick(p+"rounds", 4, 4, 1)
		for k := x.I(p+"messages", 1, 1<<b.bN); k > 0; k-- {
			q := fmt.Sprintf("%sm%d", p, k)
			b.msgs = append(b.msgs, x.Elems(q, x.I(q+".len", 0, b.rounds)))
		}
		if c > 0 && x.Chance(p+"same", 20) {
			b = batches[0]
		}
		batches[c], pads[c] = b, x.Elems(p+"pad", 2<<b.bN)
		words = append(words, fmt.Sprintf("2^%d instances in 2^%d chunks, %d messages, %d rounds", b.bN, b.logChunks, len(b.msgs), b.rounds))
	}
	crashes := x.Pick("crashes", 5, 3, 2, 1)
	loss := []int64{0, 10, 30}[x.Pick("loss", 3, 2, 2)]
	dup := []int64{0, 20, 50}[x.Pick("dup", 2, 2, 1)]
	alter := []int64{0, 25}[x.Pick("alter", 3, 2)]
	delay := int64(1) << uint(x.I("delay", 0, 24))
	troubles := x.I("troubles", 0, 12)
	net := x.RNG("net")
	x.Note("%d clients, %d workers, loss %d%%, repeated %d%%, altered %d%%: %s", clients, workers, loss, dup, alter, strings.Join(words, "; "))
	type request struct {
		client, round int
		inputs        [][]fr.Element
	}
	post := func(deliver func()) {
		if troubles > 0 && net.N(100) < loss {
			troubles--
			x.Fault("message lost")
			return
		}
		copies := 1
		if troubles > 0 && net.N(100) < dup {
			troubles--
			x.Fault("message repeated")
			copies = 2
		}
		for ; copies > 0; copies-- {
			d := net.N(delay)
			zzsim.GoHarness(func() {
				zzsim.Sleep(time.Duration(d))
				deliver()
			})
		}
	}
	shared := x.Chance("sharedCircuit", 60)
	var common circuit.Circuit
	mimc := func() circuit.Circuit {
		if shared {
			return common
		}
		return examples.CreateMimcCircuit()
	}
	inbox := make([][]request, workers)
	type answer struct {
		round int
		t     *Transcript
	}
	answers := make([][]answer, clients) // not yet looked at
	current := make([]int, clients)      // round of the client
	honestly := map[[2]int]*Transcript{} // by client and round
	var sent []*Transcript
	done, altered := 0, 0
	serve := func(w int) {
		circ := mimc()
		wait := time.Duration(64)
		for done < clients {
			if len(inbox[w]) == 0 {
				zzsim.Sleep(wait)
				if wait < 1<<40 {
					wait += wait / 2
				}
				continue
			}
			wait = 64
			req := inbox[w][0]
			inbox[w] = inbox[w][1:]
			if req.round != current[req.client] && net.N(8) > 0 { // mostly, late requests are dropped
				continue
			}
			if crashes > 0 && net.N(5) == 0 {
				crashes--
				x.Fault("worker crash and restart")
				if net.N(2) == 0 {
					inbox[w] = nil
				}
				circ = mimc()
				if net.N(2) == 0 {
					continue
				}
			}
			id := [2]int{req.client, req.round}
			if t := honestly[id]; t != nil && net.N(6) > 0 { // answered before
				t = t.skeleton().assemble(0, t.frames(0))
				post(func() { answers[req.client] = append(answers[req.client], answer{req.round, t}) })
				continue
			}
			cores := 1 + int(net.N(4))
			a := circ.Assign(copy2(req.inputs), cores)
			p := gkr.NewProver(circ, a)
			proof := p.Prove(cores)
			t := &Transcript{Proof: proof, Inputs: copy2(req.inputs), Outputs: copy2(a.Values[len(a.Values)-1])}
			t = t.skeleton().assemble(0, t.frames(0)) // on the wire: its own memory
			if honestly[id] == nil {
				honestly[id] = t.skeleton().assemble(0, t.frames(0))
			} else if !honestly[id].equal(t) {
				x.Failf("transcript", "the same batch proven again gives another transcript")
				return
			}
			sent = append(sent, t)
			if troubles > 0 && net.N(100) < alter {
				troubles--
				altered++
				frames := t.frames(0)
				var other []frame
				if net.N(3) == 0 {
					other = sent[net.N(int64(len(sent)))].frames(1)
				}
				x.Note("%s", tamper(x, fmt.Sprintf("alter%d.", altered), frames, other))
				t = t.skeleton().assemble(0, frames)
			} else if troubles > 0 && net.N(8) == 0 {
				troubles--
				x.Fault("answer to another request")
				t = sent[net.N(int64(len(sent)))]
			}
			post(func() { answers[req.client] = append(answers[req.client], answer{req.round, t}) })
		}
	}
	digests := make([][]fr.Element, clients)
	client := func(c int) {
		defer func() {
			current[c] = -1
			done++
		}()
		b := batches[c]
		n := 1 << b.bN
		states := make([]fr.Element, n)
		v := gkr.NewVerifier(b.bN, mimc())
		for round := 0; round < b.rounds; round++ {
			current[c] = round
			in := b.inputs(round, states, pads[c])
			truth := make([]fr.Element, n)
			for i := range truth {
				truth[i].Sub(&in[i], &in[n+i])
				truth[i] = refMimcPerm(truth[i], in[n+i])
				truth[i].Add(&truth[i], &in[n+i]) // it makes the last one
			}
			chunks := split(in, b.bN, b.logChunks)
			wait := time.Duration(4*delay + 1<<uint(10+net.N(20)))
			accepted := false
			for !accepted {
				if len(answers[c]) == 0 {
					to := int(net.N(int64(workers)))
					req := request{c, round, copy2(chunks)}
					post(func() { inbox[to] = append(inbox[to], req) })
					for spent := time.Duration(0); spent < wait && len(answers[c]) == 0; spent += wait / 4 {
						zzsim.Sleep(wait / 4)
					}
					if wait < 1<<44 {
						wait *= 2
					}
				}
				for len(answers[c]) > 0 && !accepted {
					t := answers[c][0].t
					late := answers[c][0].round != round
					answers[c] = answers[c][1:]
					if late && net.N(4) > 0 {
						continue
					}
					outputs := copy2(t.Outputs)
					x.Evals++
					ok := v.Verify(t.Proof, copy2(chunks), copy2(t.Outputs))
					honest := honestly[[2]int{c, round}]
					right := equal2(outputs, split(truth, b.bN, b.logChunks))
					if ok && !right {
						x.Failf("accepted", "client %d, round %d: a proof for outputs that are not the MiMC permutation of the inputs is accepted (%s)", c, round, words[c])
						return
					}
					if !ok && honest != nil && t.equal(honest) {
						x.Failf("rejected", "client %d, round %d: an honest answer is rejected (%s)", c, round, words[c])
						return
					}
					if !ok {
						x.Probe("answer rejected")
						continue
					}
					accepted = true
					for i := range b.msgs {
						if round < len(b.msgs[i]) {
							o := outputs[i&(1<<b.logChunks-1)][i>>b.logChunks]
							states[i].Add(&states[i], &o)
						}
					}
				}
				if x.Failed() {
					return
				}
			}
		}
		digests[c] = states[:len(b.msgs)]
		for i, m := range b.msgs {
			x.Evals++
			if want := refMimc(m); states[i] != want || hash.MimcHash(m) != want {
				x.Failf("digest", "client %d: message %d of %d blocks is hashed to something else (%s)", c, i, len(m), words[c])
				return
			}
		}
	}
	r := x.SimCfg(func(c *zzsim.Config) { c.StepCap = 3 << 30 }, func() {
		common = examples.CreateMimcCircuit()
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			w := w
			wg.Add(1)
			zzsim.GoHarness(func() { defer wg.Done(); serve(w) })
		}
		for c := range batches {
			c := c
			wg.Add(1)
			zzsim.GoHarness(func() { defer wg.Done(); client(c) })
		}
		wg.Wait()
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	for c := range digests {
		if digests[c] == nil {
			x.Failf("progress", "client %d did not finish", c)
			return
		}
	}
	if clients > 1 || workers > 1 {
		x.Probe("several clients or workers")
	}
	if b := batches[0]; b.bN <= 3 && x.Chance("inCircuit", 8) {
		t := honestly[[2]int{0, x.I("provenRound", 0, b.rounds-1)}]
		if t != nil {
			c25InCircuit(x, b.bN, t)
		}
	}
}

// c25InCircuit verifies a batch inside a constraint system.
func c25InCircuit(x *X, bN int, t *Transcript) {
	tpl := newGkrCk(bN)
	sys, err := compile(fmt.Sprint("gkr", bN), &tpl)
	if err != nil {
		x.Failf("compile", "the in-circuit verifier for bN=%d does not compile: %v", bN, err)
		return
	}
	qPrime, _ := initialPoint(bN, 0)
	for _, right := range []bool{true, false} {
		outputs := copy2(t.Outputs)
		if !right {
			k := x.I("wrongChunk", 0, len(outputs)-1)
			j := x.I("wrongValue", 0, len(outputs[k])-1)
			d := u64(uint64(x.I("wrongBy", 1, 3)))
			outputs[k][j].Add(&outputs[k][j], &d)
		}
		w := newGkrCk(bN)
		w.Proof.Assign(t.Proof)
		assignAll(w.QInitialprime, qPrime)
		w.VInput.AssignFromChunkedBKT(t.Inputs)
		w.VOutput.AssignFromChunkedBKT(outputs)
		ok, err := solved(sys, &w)
		if err != nil {
			x.Failf("witness", "the batch cannot be assigned to the in-circuit verifier: %v", err)
			return
		}
		x.Evals++
		if ok != right {
			x.Failf("in-circuit", "the proof of the batch with %s outputs: the constraints are satisfied: %v", map[bool]string{true: "its", false: "other"}[right], ok)
			return
		}
	}
	x.Probe("batch verified in a constraint system")
}
