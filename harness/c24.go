//go:build go1.21 && (p_all || p_c24)

package main

import (
	"fmt"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/hash"
	snarkhash "gkr-mimc/snark/hash"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C24"] = &Prop{
		ID: "C24", Quick: 40000, Deep: 1600000,
		Rule: "Several streams are hashed block by block by a pool of workers that store the running state and the position, crash, lose writes and take over each other's streams, also two at a time; other tasks use the building blocks of the hashers on memory of their own. Every stored state is compared with the reference's state at that position.",
		Real: []string{"hash", "snark/hash (some runs)", "gnark compiler and solver (some runs)"},
		Stub: []string{"scheduler, clock", "stored states (a simulated store that loses writes)"},
		Run:  runC24,
	}
}

// stream is a sequence of blocks to be hashed from some state.
type stream struct {
	kind, t int
	zero    bool // it begins with the state of an empty message
	msg     []fr.Element
	blocks  [][]fr.Element // as given to the code
	states  [][]fr.Element // by definition, after each number of blocks
}

var streamNames = []string{"Mimc", "GMimc", "Poseidon"}

func (s *stream) String() string {
	return fmt.Sprintf("%s, width %d, %d blocks", streamNames[s.kind], s.t, len(s.blocks))
}

func (s *stream) perm() func(state, block []fr.Element) []fr.Element {
	switch s.kind {
	case 0:
		return func(state, block []fr.Element) []fr.Element { return []fr.Element{refMimcPerm(state[0], block[0])} }
	case 1:
		return refGmimcPerm
	}
	return refPoseidonPerm(s.t)
}

// update is the code under test: one block.
func (s *stream) update(state, block []fr.Element, copied bool) {
	switch s.kind {
	case 0:
		hash.MimcUpdateInplace(&state[0], block[0])
	case 1:
		h := map[int]*hash.GMimcHasher{2: &hash.GMimcT2, 4: &hash.GMimcT4, 8: &hash.GMimcT8}[s.t]
		if copied {
			c := *h
			h = &c
		}
		h.UpdateInplace(state, block)
	default:
		h := map[int]*hash.PoseidonHasher{2: &hash.PoseidonT2, 4: &hash.PoseidonT4, 8: &hash.PoseidonT8}[s.t]
		if copied {
			c := *h
			h = &c
		}
		h.Update(state, block)
	}
}

func (s *stream) whole() fr.Element {
	switch s.kind {
	case 0:
		return hash.MimcHash(s.msg)
	case 1:
		return map[int]*hash.GMimcHasher{2: &hash.GMimcT2, 4: &hash.GMimcT4, 8: &hash.GMimcT8}[s.t].Hash(s.msg)
	}
	return map[int]*hash.PoseidonHasher{2: &hash.PoseidonT2, 4: &hash.PoseidonT4, 8: &hash.PoseidonT8}[s.t].Hash(s.msg)
}

func runC24(x *X) {
	streams := make([]*stream, x.I("streams", 1, 4))
	maxBlocks := 5
	if x.Chance("longer", 3) {
		maxBlocks = 30
	}
	for i := range streams {
		p := fmt.Sprintf("s%d.", i)
		s := &stream{t: 1}
		switch x.Pick(p+"kind", 3, 3, 2) {
		case 1:
			s.kind, s.t = 1, 2<<x.I(p+"width", 0, 2)
		case 2:
			s.kind, s.t = 2, 2<<x.I(p+"width", 0, 2)
		}
		state := make([]fr.Element, s.t)
		s.zero = x.Chance(p+"zero", 60)
		if !s.zero {
			state = x.Elems(p+"state", s.t)
		}
		s.msg = x.Elems(p+"msg", x.I(p+"len", 0, maxBlocks*s.t))
		if i > 0 && x.Chance(p+"same", 20) { // what another stream hashes
			s.msg = streams[0].msg
		}
		s.states = append(s.states, state)
		if x.Chance(p+"joined", 50) { // blocks next to each other in memory
			all := make([]fr.Element, 0, len(s.msg)+s.t)
			for _, b := range refBlocks(s.t, s.msg) {
				all = append(all, b...)
			}
			for k := 0; k < len(all); k += s.t {
				s.blocks = append(s.blocks, all[k:k+s.t])
			}
		} else {
			s.blocks = refBlocks(s.t, s.msg)
		}
		for _, b := range s.blocks {
			s.states = append(s.states, refCompress(s.states[len(s.states)-1], b, s.perm()))
		}
		streams[i] = s
	}
	var blocksB [][][]fr.Element
	var msgsB [][]fr.Element
	for _, s := range streams {
		blocksB = append(blocksB, copy2(s.blocks))
		msgsB = append(msgsB, append([]fr.Element{}, s.msg...))
	}
	workers := 1 + x.Pick("workers", 3, 4, 2, 1)
	crashes := x.I("crashes", 0, 6)
	lost := x.I("lostWrites", 0, 6)
	blocksTasks := x.Pick("blockTasks", 3, 3, 2)
	net := x.RNG("net")
	x.Note("%d workers, streams %v", workers, streams)
	type stored struct {
		pos   int
		state []fr.Element
	}
	store := make([]stored, len(streams))
	for i, s := range streams {
		store[i] = stored{0, append([]fr.Element{}, s.states[0]...)}
	}
	finished := func() bool {
		for i, s := range streams {
			if store[i].pos < len(s.blocks) {
				return false
			}
		}
		return true
	}
	checkState := func(i, pos int, state []fr.Element, how string) bool {
		x.Evals++
		if !equalSlices(state, streams[i].states[pos]) {
			x.Failf("state", "%s: the state of stream %d (%s) after block %d is not the one the message has there", how, i, streams[i], pos)
			return false
		}
		return true
	}
	worker := func(w int) {
		// the worker keeps its states side by side
		memory := make([]fr.Element, 0, 8*len(streams)+2)
		for !finished() && !x.Failed() {
			i := int(net.N(int64(len(streams))))
			s := streams[i]
			if store[i].pos == len(s.blocks) {
				zzsim.Sleep(time.Duration(1 + net.N(64)))
				continue
			}
			// load
			memory = memory[:8*len(streams)]
			var guards [2]fr.Element
			at := int(net.N(int64(len(memory) - s.t + 1)))
			for k := range memory {
				memory[k].SetUint64(uint64(k) + 77)
			}
			pos := store[i].pos
			state := memory[at : at+s.t]
			copy(state, store[i].state)
			if at > 0 {
				guards[0] = memory[at-1]
			}
			if at+s.t < len(memory) {
				guards[1] = memory[at+s.t]
			}
			for n := 1 + net.N(3); n > 0 && pos < len(s.blocks); n-- {
				if crashes > 0 && net.N(6) == 0 {
					crashes--
					x.Fault("worker crash")
					zzsim.Sleep(time.Duration(net.N(1 << 10)))
					pos = -1
					break
				}
				s.update(state, s.blocks[pos], net.N(3) == 0)
				pos++
				if !checkState(i, pos, state, fmt.Sprintf("worker %d", w)) {
					return
				}
			}
			if at > 0 && memory[at-1] != guards[0] || at+s.t < len(memory) && memory[at+s.t] != guards[1] {
				x.Failf("memory", "memory next to the state of stream %d (%s) was written to", i, s)
				return
			}
			if pos < 0 {
				continue
			}
			if lost > 0 && net.N(4) == 0 {
				lost--
				x.Fault("write lost")
				continue
			}
			if pos > store[i].pos || net.N(4) == 0 { // two workers on one stream: either may write
				if pos < store[i].pos {
					x.Fault("stale write")
				}
				store[i] = stored{pos, append([]fr.Element{}, state...)}
			}
			if net.N(4) == 0 && s.zero { // the message as a whole
				if got := s.whole(); got != s.states[len(s.blocks)][0] {
					x.Failf("digest", "the digest of stream %d (%s) is not the state's first value after its last block", i, s)
					return
				}
			}
		}
	}
	bt := make([]*buildingBlocks, blocksTasks)
	for k := range bt {
		bt[k] = newBuildingBlocks(x, fmt.Sprintf("b%d.", k))
	}
	r := x.Sim(func() {
		for w := 0; w < workers; w++ {
			w := w
			zzsim.GoHarness(func() { worker(w) })
		}
		for _, b := range bt {
			b := b
			zzsim.GoHarness(b.run)
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	for i, s := range streams {
		if store[i].pos != len(s.blocks) {
			x.Failf("progress", "stream %d (%s) was not finished", i, s)
			return
		}
		if !checkState(i, store[i].pos, store[i].state, "store") {
			return
		}
		if !equal2(s.blocks, blocksB[i]) || !equalSlices(s.msg, msgsB[i]) {
			x.Failf("argument", "the blocks of stream %d (%s) were modified", i, s)
			return
		}
	}
	for _, b := range bt {
		b.kept.check(x)
	}
	if x.Chance("inCircuit", 2) {
		hashInCircuit(x, streams)
	}
}

// buildingBlocks is a task that uses the parts the hashers are made of.
type buildingBlocks struct {
	x    *X
	g    *zzsim.RNG
	n    int
	vals []fr.Element
	kept keeper
}

func newBuildingBlocks(x *X, p string) *buildingBlocks {
	return &buildingBlocks{x: x, g: x.RNG(p + "ops"), n: x.I(p+"n", 1, 6), vals: x.Elems(p+"values", 60)}
}

func (b *buildingBlocks) draw(n int) []fr.Element {
	at := int(b.g.N(int64(len(b.vals) - n + 1)))
	return append([]fr.Element{}, b.vals[at:at+n]...)
}

func (b *buildingBlocks) run() {
	x := b.x
	for k := 0; k < b.n && !x.Failed(); k++ {
		t := 1 + int(b.g.N(9))
		room := append(append(b.draw(1), b.draw(t)...), b.draw(1)...)
		state := room[1 : 1+t : 1+t]
		if b.g.N(2) == 0 {
			state = room[1 : 1+t]
		}
		first, last := room[0], room[t+1]
		want := append([]fr.Element{}, state...)
		name := ""
		x.Evals++
		switch b.g.N(7) {
		case 0:
			name = "SBoxInplace"
			i := int(b.g.N(int64(t)))
			want[i] = refPow7(want[i])
			hash.SBoxInplace(&state[i])
		case 1:
			name = "FullRoundInPlace"
			for i := range want {
				want[i] = refPow7(want[i])
			}
			hash.FullRoundInPlace(state)
		case 2:
			name = "PartialRoundInplace"
			want[0] = refPow7(want[0])
			hash.PartialRoundInplace(state)
		case 3:
			name = "InPlaceCircularPermutation"
			want = append(append([]fr.Element{}, want[1:]...), want[0])
			hash.InPlaceCircularPermutation(state)
		case 4:
			name = "AddArkAndKeysInplace"
			keys, ark := b.draw(t), b.draw(1)[0]
			keysB := append([]fr.Element{}, keys...)
			for i := range want {
				want[i].Add(&want[i], &keys[i])
				want[i].Add(&want[i], &ark)
			}
			hash.AddArkAndKeysInplace(state, keys, ark)
			if !equalSlices(keys, keysB) {
				x.Failf("argument", "the keys given to %s were modified", name)
			}
		case 5:
			name = "MatrixMultiplication"
			m := make([][]fr.Element, 1+b.g.N(9))
			for i := range m {
				m[i] = b.draw(t)
			}
			mB := copy2(m)
			got := hash.MatrixMultiplication(m, state)
			if !equalSlices(got, refMatVec(mB, want)) {
				x.Failf("matrix", "the product of a %d x %d matrix and a vector is wrong", len(m), t)
			}
			if !equal2(m, mB) {
				x.Failf("argument", "the matrix given to %s was modified", name)
			}
			if b.g.N(2) == 0 { // it is the caller's
				for i := range got {
					got[i].SetUint64(4711)
				}
			}
			b.kept.keep(got)
		case 6:
			name = "GenerateMDSMatrix"
			if b.g.N(8) == 0 {
				t = 10 + int(b.g.N(20))
			}
			m := hash.GenerateMDSMatrix(t)
			if !equal2(m, refMDS(t)) {
				x.Failf("matrix", "the matrix of size %d is not the Cauchy matrix of the constants", t)
			}
			change := b.g.N(2) == 0 // it is the caller's
			for i := range m {
				if change {
					for j := range m[i] {
						m[i][j].SetUint64(4712)
					}
				}
				b.kept.keep(m[i])
			}
		}
		if !equalSlices(state, want) {
			x.Failf("building-block", "%s on %d values: the values are not what they should be afterwards", name, len(state))
		}
		if room[0] != first || room[len(room)-1] != last {
			x.Failf("memory", "%s on %d values wrote next to them", name, len(state))
		}
		if b.g.N(3) == 0 {
			zzsim.Sleep(time.Duration(1 + b.g.N(1<<8)))
		}
	}
}

// hashCk is a circuit that hashes variables and constants.
type hashCk struct {
	In    []frontend.Variable
	Out   frontend.Variable
	use   []int // what the hash is given: variables, or constants if negative
	konst []fr.Element
}

// Define implements frontend.Circuit
func (c *hashCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	var in []frontend.Variable
	for _, u := range c.use {
		if u < 0 {
			in = append(in, cs.Constant(c.konst[-u-1]))
		} else {
			in = append(in, c.In[u])
		}
	}
	cs.AssertIsEqual(c.Out, snarkhash.MimcHash(cs, in...))
	return nil
}

func hashInCircuit(x *X, streams []*stream) {
	msg := streams[0].msg
	if len(msg) > 4 {
		msg = msg[:4]
	}
	if len(msg) == 0 {
		msg = []fr.Element{{}}
	}
	n := x.I("hashed", 1, 6)
	if x.Chance("manyHashed", 30) {
		n = x.I("many", 7, 24)
	}
	tpl := hashCk{In: make([]frontend.Variable, len(msg)), konst: msg}
	var in []fr.Element
	vars := false
	for k := 0; k < n; k++ {
		u := x.I(fmt.Sprintf("hashed%d", k), 0, len(msg)-1)
		in = append(in, msg[u])
		if x.Chance(fmt.Sprintf("constant%d", k), 25) && (vars || k < n-1) {
			u = -u - 1
		} else {
			vars = true
		}
		tpl.use = append(tpl.use, u)
	}
	sys, err := frontend.Compile(gurvy.BN256, &tpl)
	if err != nil {
		x.Failf("compile", "MimcHash of %v does not compile: %v", tpl.use, err)
		return
	}
	for _, right := range []bool{true, false} {
		out := refMimc(in)
		if !right {
			d := u64(1 + uint64(n))
			out.Add(&out, &d)
		}
		w := hashCk{In: make([]frontend.Variable, len(msg))}
		for i := range msg {
			w.In[i].Assign(msg[i])
		}
		w.Out.Assign(out)
		ok, err := solved(sys, &w)
		if err != nil {
			x.Failf("witness", "MimcHash of %v cannot be given a witness: %v", tpl.use, err)
			return
		}
		x.Evals++
		if ok != right {
			x.Failf("in-circuit", "in-circuit MimcHash of %v (negative: constants): constraints satisfied: %v, although the hash is %s", tpl.use, ok, map[bool]string{true: "this", false: "another"}[right])
			return
		}
	}
	x.Probe("in-circuit hash solved")
}
