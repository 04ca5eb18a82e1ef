//go:build go1.21 && (p_all || p_c18)

package main

import (
	"errors"
	"fmt"
	"io"
	"syscall"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/common"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C18"] = &Prop{
		ID: "C18", Quick: 150000, Short: true, Deep: 6000000,
		Rule: "One to four tasks draw random arrays and double slices in one simulated process; the entropy source (crypto/rand.Reader, the seam) yields, stalls, returns fewer bytes than asked for, fails at drawn reads (for good or once), and recovers. Afterwards all values are compared with each other; in a part of the runs the same calls are made again by another process with other entropy and everything else the same.",
		Real: []string{"common (random values)", "gurvy (SetRandom, not instrumented)"},
		Stub: []string{"scheduler", "crypto/rand source"},
		Run:  runC18,
	}
}

type draw struct{ rows, size int } // rows < 0: an array

type drawn struct {
	rows   [][]fr.Element
	keep   [][]fr.Element
	thrown any
	done   bool
}

func runC18(x *X) {
	tasks := 1 + x.Pick("tasks", 4, 3, 2, 1)
	calls := make([][]draw, tasks)
	most := []int{3, 9, 40, 300}[x.Pick("extent", 12, 12, 3, 1)]
	for t := range calls {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, 4); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			d := draw{-1, x.I(p+"size", 0, most)}
			if x.Chance(p+"double", 50) {
				d = draw{x.I(p+"rows", 0, 5), x.I(p+"cols", 0, 1+most/4)}
			}
			calls[t] = append(calls[t], d)
		}
	}
	mode := x.Pick("faults", 4, 3, 2, 3, 2) // none, short reads, one failure, failures for good, failures at times
	failAt := x.I("failAt", 1, []int{4, 20, 100}[x.Pick("failLate", 3, 2, 1)])
	errs := []error{errors.New("no entropy"), io.EOF, io.ErrUnexpectedEOF, syscall.EIO, syscall.EAGAIN, syscall.EINTR, syscall.ENOENT}
	fault := errs[x.I("error", 0, len(errs)-1)]
	partial := x.Chance("partial", 40)
	x.Note("calls %v, fault mode %d, failing read %d, %v", calls, mode, failAt, fault)

	// the entropy source of a process
	failures := 0
	source := func(g *zzsim.RNG) func(p []byte) (int, error) {
		reads := 0
		return func(p []byte) (int, error) {
			zzsim.Y()
			reads++
			n := len(p)
			short, fails := false, false
			switch mode {
			case 1:
				short = g.N(3) == 0
			case 2:
				fails = reads == failAt
			case 3:
				fails = reads >= failAt
			case 4:
				fails = g.N(int64(failAt)+1) == 0
				short = g.N(5) == 0
			}
			if n > 0 && (short || fails && partial) {
				n = int(g.N(int64(n)))
				if n == 0 && !fails {
					n = 1
				}
			} else if fails {
				n = 0
			}
			buf := make([]byte, n)
			g.Fill(buf)
			for i := range buf {
				if i == n/2 {
					zzsim.Y()
				}
				p[i] = buf[i]
			}
			zzsim.Y()
			if fails {
				failures++
				x.Fault("entropy source fails")
				return n, fault
			}
			if short {
				x.Fault("short read of entropy")
			}
			return n, nil
		}
	}
	do := func(d draw) (out drawn) {
		func() {
			defer func() { out.thrown = recover() }()
			if d.rows < 0 {
				out.rows = [][]fr.Element{common.RandomFrArray(d.size)}
			} else {
				out.rows = common.RandomFrDoubleSlice(d.rows, d.size)
			}
			out.done = true
		}()
		out.keep = copy2(out.rows)
		return
	}
	var all []*drawn
	judge := func(t, k int, d draw, r *drawn) {
		what := fmt.Sprintf("task %d, call %d (%v)", t, k, d)
		x.Evals++
		if !r.done {
			if _, ok := r.thrown.(zzsim.ExitPanic); ok && failures > 0 {
				x.probes["process ended for want of entropy"]++
				return
			}
			if failures == 0 {
				x.Failf("refused", "%s: refused although the source had not failed: %v", what, r.thrown)
			}
			x.probes["failure reported"]++
			return
		}
		n := d.rows
		if n < 0 {
			n = 1
		}
		if len(r.rows) != n {
			x.Failf("shape", "%s: %d rows", what, len(r.rows))
			return
		}
		for _, row := range r.rows {
			if len(row) != d.size {
				x.Failf("shape", "%s: a row of %d values", what, len(row))
				return
			}
		}
		all = append(all, r)
	}
	// one process makes the calls
	process := func(g *zzsim.RNG, run func(body func()) zzsim.Result) bool {
		failures = 0
		zzsim.Entropy = source(g)
		defer func() { zzsim.Entropy = nil }()
		r := run(func() {
			for t := range calls {
				t := t
				zzsim.GoHarness(func() {
					for k, d := range calls[t] {
						r := do(d)
						judge(t, k, d, &r)
					}
				})
			}
		})
		return r.Outcome == "ok"
	}
	again := x.Chance("again", 40)
	run := x.Sim
	if again { // the same schedule and the same clock both times
		run = x.Quiet
	}
	if !process(x.RNG("entropy"), run) || x.Failed() {
		return
	}
	fresh(x, all)
	if !again || x.Failed() {
		return
	}
	zzsim.Reset()
	x.Fault("process restart")
	x.probes["the same calls with other entropy"]++
	if !process(x.RNG("other entropy"), x.Quiet) || x.Failed() {
		return
	}
	fresh(x, all)
}

// fresh checks that the values are drawn over the whole field and have nothing to do with each other.
func fresh(x *X, all []*drawn) {
	// no memory is shared: writing one result leaves the others
	for _, r := range all {
		for i := range r.rows {
			if !equalSlices(r.rows[i], r.keep[i]) {
				x.Failf("result-changed", "a drawn value changed after it was returned")
				return
			}
		}
	}
	mark := uint64(1)
	for _, r := range all {
		for i := range r.rows {
			for j := range r.rows[i] {
				r.rows[i][j] = fr.Element{mark, 0, 0, 0}
				mark++
			}
		}
	}
	mark = 1
	for _, r := range all {
		for i := range r.rows {
			for j := range r.rows[i] {
				if r.rows[i][j] != (fr.Element{mark, 0, 0, 0}) {
					x.Failf("shared", "two drawn values share their memory")
					return
				}
				mark++
			}
			copy(r.rows[i], r.keep[i])
		}
	}
	words := [8]map[uint64]bool{}
	for w := range words {
		words[w] = map[uint64]bool{}
	}
	diffs, ratios := map[fr.Element]bool{}, map[fr.Element]bool{}
	n := 0
	for _, r := range all {
		var last *fr.Element
		for _, row := range r.keep {
			for j := range row {
				v := row[j]
				n++
				if !canonical(v) {
					x.Failf("range", "a drawn value is not below the modulus")
					return
				}
				reg := v.ToRegular()
				for w := 0; w < 4; w++ {
					if words[w][v[w]] || words[4+w][reg[w]] {
						x.Failf("repeated", "value %d (%s): a word of it was drawn before", n, v.String())
						return
					}
					words[w][v[w]] = true
					words[4+w][reg[w]] = true
				}
				if last != nil {
					var d, q fr.Element
					d.Sub(&v, last)
					q.Inverse(last)
					q.Mul(&q, &v)
					neg := d
					neg.Neg(&neg)
					if diffs[d] || diffs[neg] || ratios[q] {
						x.Failf("related", "value %d (%s) follows from the ones before", n, v.String())
						return
					}
					diffs[d], ratios[q] = true, true
				}
				l := v
				last = &l
				if v.IsZero() || v == fr.One() || emptyWord(v) || emptyWord(reg) {
					x.Failf("default", "value %d is %s", n, v.String())
					return
				}
			}
		}
	}
	x.probes["values compared"] += int64(n)
}

// canonical tells whether the words of e are below the modulus.
func canonical(e fr.Element) bool {
	q := fr.Modulus()
	v := make([]byte, 32)
	for w := 0; w < 4; w++ {
		for b := 0; b < 8; b++ {
			v[31-8*w-b] = byte(e[w] >> (8 * b))
		}
	}
	return bytesBelow(v, q.Bytes())
}

func bytesBelow(a, b []byte) bool {
	for len(b) < len(a) {
		b = append([]byte{0}, b...)
	}
	return string(a) < string(b)
}

// emptyWord tells whether a 64-bit word of e is zero, which does not happen to values drawn over the field.
func emptyWord(e fr.Element) bool { return e[0] == 0 || e[1] == 0 || e[2] == 0 || e[3] == 0 }
