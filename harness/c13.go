//go:build go1.21 && (p_all || p_c13)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/common"
	"gkr-mimc/hash"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C13"] = &Prop{
		ID: "C13", Quick: 90000, Deep: 3600000,
		Rule: "One to six tasks hash drawn messages (some shared between tasks, some empty) with the shared hashers and derive challenges; yield points inside the hash package are on. Digests are compared with independent implementations on fixed parameters.",
		Real: []string{"hash", "common (challenges)"},
		Stub: []string{"scheduler"},
		Run:  runC13,
	}
}

func runC13(x *X) {
	tasks, maxCalls, maxMsgs, maxLen := x.I("tasks", 1, 6), 5, 4, 33
	switch x.Pick("extent", 56, 1, 1, 1, 1) {
	case 1:
		tasks = x.I("manyTasks", 7, 40)
	case 2:
		maxCalls = 150
	case 3:
		maxMsgs = 60
		maxCalls = 60
	case 4:
		maxLen = 300
	}
	msgs := make([][]fr.Element, x.I("messages", 1, maxMsgs))
	own := make([]bool, len(msgs))
	for i := range msgs {
		msgs[i] = x.Elems(fmt.Sprintf("m%d", i), x.I(fmt.Sprintf("m%d.len", i), 0, []int{4, 9, 17, maxLen}[x.Pick(fmt.Sprintf("m%d.size", i), 4, 4, 2, 1)]))
		if i > 0 && x.Chance(fmt.Sprintf("m%d.related", i), 50) { // a message close to an earlier one
			msgs[i] = related(x, fmt.Sprintf("m%d.", i), msgs[x.I(fmt.Sprintf("m%d.of", i), 0, i-1)])
		}
		// room behind the message, as callers that append have
		own[i] = x.Chance(fmt.Sprintf("m%d.room", i), 30)
		if own[i] {
			m := make([]fr.Element, len(msgs[i]), len(msgs[i])+9)
			copy(m, msgs[i])
			msgs[i] = m
		}
	}
	type job struct{ kind, msg int }
	names := []string{"MimcHash", "GetChallenge", "GMimcT2", "GMimcT4", "GMimcT8", "PoseidonT2", "PoseidonT4", "PoseidonT8", "MimcPermutation", "MimcUpdate"}
	jobs := make([][]job, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, maxCalls); k > 0; k-- {
			jobs[t] = append(jobs[t], job{x.Pick(fmt.Sprintf("t%d.%d.kind", t, k), 4, 4, 2, 2, 2, 1, 1, 1, 2, 2), x.I(fmt.Sprintf("t%d.%d.msg", t, k), 0, len(msgs)-1)})
		}
	}
	x.Note("%d tasks, %d messages, jobs %v", tasks, len(msgs), jobs)
	want := map[job]fr.Element{}
	before := copy2(msgs)
	ref := func(j job) fr.Element {
		m := before[j.msg]
		var s, b fr.Element
		if len(m) > 0 {
			s = m[0]
			b = m[len(m)-1]
		}
		switch j.kind {
		case 0, 1:
			return refMimc(m)
		case 2, 3, 4:
			return refGmimc(1<<(j.kind-1), m)
		case 5, 6, 7:
			return refPoseidon(1<<(j.kind-4), m)
		case 8:
			return refMimcPerm(s, b)
		}
		p := refMimcPerm(s, b)
		p.Add(&p, &s)
		p.Add(&p, &b)
		return p
	}
	for _, l := range jobs {
		for _, j := range l {
			if _, ok := want[j]; !ok {
				want[j] = ref(j)
			}
		}
	}
	do := func(j job, m []fr.Element) fr.Element {
		var s, b fr.Element
		if len(m) > 0 {
			s = m[0]
			b = m[len(m)-1]
		}
		switch j.kind {
		case 0:
			return hash.MimcHash(m)
		case 1:
			return common.GetChallenge(m)
		case 2:
			return hash.GMimcT2.Hash(m)
		case 3:
			return hash.GMimcT4.Hash(m)
		case 4:
			return hash.GMimcT8.Hash(m)
		case 5:
			return hash.PoseidonT2.Hash(m)
		case 6:
			return hash.PoseidonT4.Hash(m)
		case 7:
			return hash.PoseidonT8.Hash(m)
		case 8:
			hash.MimcPermutationInPlace(&s, b)
			return s
		}
		hash.MimcUpdateInplace(&s, b)
		return s
	}
	r := x.Sim(func() {
		for t := range jobs {
			t := t
			// some tasks keep all their messages in one buffer
			var buffer []fr.Element
			reuse := x.Chance(fmt.Sprintf("t%d.reuse", t), 30)
			zzsim.GoHarness(func() {
				for k, j := range jobs[t] {
					x.Evals++
					m := msgs[j.msg]
					if reuse {
						buffer = append(buffer[:0], m...)
						m = buffer
						x.probes["buffer used for several messages"]++
					}
					if got := do(j, m); got != want[j] {
						x.Failf("digest", "task %d, call %d: %s of message %d (%d elements) is %s instead of %s", t, k, names[j.kind], j.msg, len(before[j.msg]), got.String(), hex(want[j]))
						return
					}
				}
			})
		}
	})
	if r.Outcome != "ok" {
		return
	}
	for i := range msgs {
		if !equalSlices(msgs[i], before[i]) {
			x.Failf("message", "message %d was modified by hashing", i)
		}
		if cap(msgs[i]) > len(msgs[i]) && own[i] {
			room := msgs[i][len(msgs[i]):cap(msgs[i])]
			for k := range room {
				if !room[k].IsZero() {
					x.Failf("message", "the memory behind message %d was written to", i)
				}
			}
		}
	}
}

// related returns a message that shares most of what a shortcut may look at with m.
func related(x *X, p string, m []fr.Element) []fr.Element {
	g := x.RNG(p + "related")
	out := append([]fr.Element{}, m...)
	i, j := 0, 0
	if len(m) > 1 {
		i = x.I(p+"i", 0, len(m)-1)
		j = (i + 1 + x.I(p+"j", 0, len(m)-2)) % len(m)
	}
	one := u64(1)
	switch x.Pick(p+"how", 3, 3, 2, 2, 2, 2, 3, 1) {
	case 0: // one value differs
		if len(m) > 0 {
			out[i].Add(&out[i], &one)
		}
	case 1: // two values swapped: the same sum
		if len(m) > 0 {
			out[i], out[j] = out[j], out[i]
		}
	case 2: // compensating changes
		if len(m) > 1 {
			out[i].Add(&out[i], &one)
			out[j].Sub(&out[j], &one)
		}
	case 3: // a zero appended
		out = append(out, fr.Element{})
	case 4: // a prefix
		if len(m) > 0 {
			out = out[:x.I(p+"cut", 0, len(m)-1)]
		}
	case 5: // a prefix of the same memory
		if len(m) > 0 {
			return m[:x.I(p+"cut", 0, len(m)-1)]
		}
	case 6: // one word of one value differs
		if len(m) > 0 {
			out[i] = partly(out[i], 1<<x.I(p+"word", 0, 3), g)
		}
	case 7: // a suffix of the same memory
		if len(m) > 0 {
			return m[x.I(p+"cut", 1, len(m)):]
		}
	}
	return out
}

func hex(e fr.Element) string { return e.String() }
