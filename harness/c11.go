//go:build go1.21 && (p_all || p_c11)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C11"] = &Prop{
		ID: "C11", Quick: 140000, Deep: 4800000,
		Rule: "A run performs drawn table operations (subtract, scale, add; aliased destinations; sizes below, at and above multiples of the parallel threshold) or chunked equality tables and evaluations, by one to three concurrent callers, some on a table they share and only read, and compares them with element-wise references.",
		Real: []string{"polynomial", "common (chunk ranges, semaphore)"},
		Stub: []string{"scheduler", "channels, sync, runtime"},
		Run:  runC11,
	}
}

func tableSize(x *X, n string) int {
	switch x.Pick(n+"sizeKind", 4, 3, 3, 2, 1) {
	case 0:
		return x.I(n+"size", 0, 64)
	case 1:
		return max(1, 4096*x.I(n+"mult", 1, 5)+x.I(n+"off", -3, 3))
	case 2:
		return x.I(n+"size", 4097, 16384)
	case 3:
		return 1 << uint(x.I(n+"log", 0, 14))
	}
	return x.I(n+"size", 16384, 60000)
}

func runC11(x *X) {
	callers := 1 + x.Pick("callers", 7, 2, 1)
	type task func()
	var tasks []task
	kept := &keeper{}
	var read *reading
	again := x.Chance("again", 15) // callers go on with a second operation
	if again {
		callers *= 2
	}
	for c := 0; c < callers; c++ {
		p := fmt.Sprintf("c%d.", c)
		switch x.Pick(p+"what", 6, 2, 3, 1, 3) {
		case 0:
			tasks = append(tasks, arith(x, p, kept))
		case 1:
			tasks = append(tasks, eqTables(x, p, kept))
		case 2:
			tasks = append(tasks, evaluations(x, p))
		case 3:
			tasks = append(tasks, ranges(x, p))
		case 4:
			if read == nil {
				read = newReading(x)
			}
			tasks = append(tasks, read.task(x, p, kept))
		}
	}
	x.Sim(func() {
		for c, t := range tasks {
			c, t := c, t
			if again && c%2 == 1 {
				continue
			}
			zzsim.GoHarness(func() {
				t()
				if again {
					tasks[c+1]()
				}
			})
		}
	})
	if read != nil && !x.Failed() && (!equalSlices(read.t, read.before) || !equal2(read.chunks, read.chunksBefore)) {
		x.Failf("operand", "a table that is only read was modified")
	}
	if !x.Failed() {
		kept.check(x)
	}
}

// reading is a table (whole and in chunks) that several callers use at the same time, without any of them owning it.
type reading struct {
	bN, bG, logChunks    int
	t, before            []fr.Element
	chunks, chunksBefore [][]fr.Element
	readers              int
}

func newReading(x *X) *reading {
	d := &reading{bN: x.I("read.bN", 0, 6), bG: x.I("read.bG", 0, 2)}
	d.logChunks = x.I("read.logChunks", 0, d.bN)
	if x.Chance("read.big", 3) {
		d.bN, d.logChunks = 13, min(1, d.logChunks)
	}
	d.t = x.Elems("read.t", 1<<(d.bN+d.bG))
	d.chunks = split(d.t, d.bN, d.logChunks)
	d.before, d.chunksBefore = append([]fr.Element{}, d.t...), copy2(d.chunks)
	x.Note("shared table bN=%d bG=%d chunks=%d", d.bN, d.bG, 1<<d.logChunks)
	return d
}

func (d *reading) task(x *X, p string, kept *keeper) func() {
	d.readers++
	if d.readers == 2 {
		x.Probe("table read by several callers")
	}
	n := x.I(p+"reads", 1, 4)
	return func() {
		for k := 0; k < n && !x.Failed(); k++ {
			d.read(x, fmt.Sprintf("%sr%d.", p, k), kept)
		}
	}
}

func (d *reading) read(x *X, p string, kept *keeper) {
	hP, hL, hR := x.Elems(p+"hP", d.bN), x.Elems(p+"hL", d.bG), x.Elems(p+"hR", d.bG)
	q := append(append([]fr.Element{}, hL...), hP...)
	q2 := append(append([]fr.Element{}, hR...), hP...)
	cores := x.I(p+"cores", 1, 4)
	whole := polynomial.NewBookKeepingTable(d.t)
	chunks := polynomial.AsChunkedBookKeepingTable(d.chunks)
	lambda := x.Elems(p+"lambda", 1)[0]
	what := x.I(p+"read", 0, 8)
	ok := true
	var dest polynomial.BookKeepingTable
	want := make([]fr.Element, len(d.t))
	switch what {
	case 0:
		ok = whole.Evaluate(q) == refMLE(d.before, q)
	case 1:
		l, r := whole.EvaluateLeftAndRight(hP, hL, hR)
		ok = l == refMLE(d.before, q) && r == refMLE(d.before, q2)
	case 2:
		ok = polynomial.EvaluateChunked(chunks, q) == refMLE(d.before, q)
	case 3:
		l, r := polynomial.EvaluateMixedChunked(chunks, hP, hL, hR)
		ok = l == refMLE(d.before, q) && r == refMLE(d.before, q2)
	case 4:
		c := whole.DeepCopy()
		ok = equalSlices(c.Table, d.before)
		for _, v := range q { // a copy is the caller's own
			c.Fold(v)
		}
		ok = ok && c.Table[0] == refMLE(d.before, q)
	case 5:
		k := x.I(p+"chunk", 0, 1<<d.logChunks-1)
		c := whole.InterleavedChunk(k, 1<<d.logChunks)
		ok = equalSlices(c.Table, d.chunksBefore[k])
		kept.keep(c.Table)
	case 6:
		dest.Sub(whole, whole, cores)
		ok = equalSlices(dest.Table, want)
		kept.keep(dest.Table)
	case 7:
		dest.Mul(lambda, whole, cores)
		for i := range want {
			want[i].Mul(&d.before[i], &lambda)
		}
		ok = equalSlices(dest.Table, want)
		kept.keep(dest.Table)
	case 8:
		dest.Add(whole, whole)
		for i := range want {
			want[i].Add(&d.before[i], &d.before[i])
		}
		ok = equalSlices(dest.Table, want)
		kept.keep(dest.Table)
	}
	x.Evals++
	if !ok {
		x.Failf("shared", "%s of a table that others read too differs (bN=%d bG=%d chunks=%d)",
			[]string{"Evaluate", "EvaluateLeftAndRight", "EvaluateChunked", "EvaluateMixedChunked", "DeepCopy", "InterleavedChunk", "Sub", "Mul", "Add"}[what], d.bN, d.bG, 1<<d.logChunks)
	}
}

func arith(x *X, p string, kept *keeper) func() {
	size := tableSize(x, p)
	if size == 0 {
		size = 1
	}
	cores := 1 + x.Pick(p+"cores", 3, 4, 4, 2, 1, 1, 1, 1, 1)
	if x.Chance(p+"manyCores", 5) {
		cores = x.I(p+"coresN", 10, 70)
	}
	if x.Chance(p+"manyRanges", 1) {
		n := x.I(p+"ranges", 10, 40)
		size = n*common.MinChunkSize + x.I(p+"rangesOff", -9, 9)
		cores = n + x.I(p+"rangesCores", -3, 3)
		x.Probe("ten ranges or more")
	}
	op := x.Pick(p+"op", 4, 4, 1)
	alias := x.Pick(p+"alias", 3, 2, 2, 2)
	l, r := x.Elems(p+"l", size), x.Elems(p+"r", size)
	lambda := x.Elems(p+"lambda", 2)[1]
	if alias == 3 && x.Chance(p+"same", 50) {
		alias = 4
	}
	x.Note("%s of %d elements on %d cores, alias %d", []string{"Sub", "Mul", "Add"}[op], size, cores, alias)
	if size > common.MinChunkSize && cores > 1 {
		x.Probe("parallel path with several workers")
		if size%(max(common.MinChunkSize, size/cores)) != 0 {
			x.Probe("uneven ranges")
		}
	}
	return func() {
		want := make([]fr.Element, size)
		if alias == 4 { // both operands are the same table
			r = l
		}
		for i := range want {
			switch op {
			case 0:
				want[i].Sub(&l[i], &r[i])
			case 1:
				want[i].Mul(&l[i], &lambda)
			case 2:
				want[i].Add(&l[i], &r[i])
			}
		}
		lc, rc := append([]fr.Element{}, l...), append([]fr.Element{}, r...)
		left, right := polynomial.NewBookKeepingTable(l), polynomial.NewBookKeepingTable(r)
		var dest polynomial.BookKeepingTable
		d := &dest
		guard := 0
		switch alias {
		case 1:
			d = &left
		case 2:
			d = &right
			if op == 1 {
				d = &left
			}
		case 3: // a dirty destination with another length and more room
			n := x.I(p+"dirtyLen", 0, size+7)
			extra := x.I(p+"dirtyCap", 0, 9)
			buf := make([]fr.Element, n, max(n, size)+extra)
			full := buf[:cap(buf)]
			for i := range full {
				full[i].SetUint64(99)
			}
			dest.Table = buf
			guard = size
		}
		switch op {
		case 0:
			d.Sub(left, right, cores)
		case 1:
			d.Mul(lambda, left, cores)
		case 2:
			d.Add(left, right)
		}
		x.Evals++
		name := []string{"Sub", "Mul", "Add"}[op]
		if len(d.Table) != size {
			x.Failf("size", "%s gives %d elements instead of %d", name, len(d.Table), size)
			return
		}
		for i := range want {
			if d.Table[i] != want[i] {
				x.Failf("value", "%s of %d elements on %d cores (alias %d): element %d is %s instead of %s", name, size, cores, alias, i, d.Table[i].String(), want[i].String())
				return
			}
		}
		kept.keep(d.Table)
		if alias == 0 || alias == 3 || alias == 4 {
			if !equalSlices(l, lc) || !equalSlices(r, rc) {
				x.Failf("operand", "%s modified an operand", name)
			}
		} else if op != 1 && alias == 1 && !equalSlices(r, rc) || op != 1 && alias == 2 && !equalSlices(l, lc) {
			x.Failf("operand", "%s modified the operand that is not the destination", name)
		}
		if guard > 0 {
			for i := guard; i < cap(d.Table); i++ {
				if v := d.Table[:cap(d.Table)][i]; v != u64(99) {
					x.Failf("overrun", "%s wrote behind the table", name)
					return
				}
			}
		}
	}
}

func eqTables(x *X, p string, kept *keeper) func() {
	bN := x.I(p+"bN", 0, 7)
	if x.Chance(p+"big", 15) {
		bN = x.I(p+"bigN", 12, 15)
	}
	logChunks := x.I(p+"logChunks", 0, min(bN, 8))
	if bN > 8 {
		logChunks = x.I(p+"bigChunks", 0, 2)
	}
	if x.Chance(p+"manyChunks", 4) {
		bN = x.I(p+"manyBN", 8, 10)
		logChunks = bN - x.I(p+"perChunk", 0, 2)
		x.Probe("equality table in hundreds of chunks")
	}
	cores := x.I(p+"eqCores", 1, 9)
	q := x.Elems(p+"q", bN)
	x.Note("equality table bN=%d chunks=%d cores=%d", bN, 1<<logChunks, cores)
	if bN-logChunks > 12 && logChunks > 0 && cores > 1 {
		x.Probe("parallel equality table")
	}
	return func() {
		qc := append([]fr.Element{}, q...)
		got := polynomial.GetChunkedEqTable(q, 1<<logChunks, cores)
		x.Evals++
		want := split(eqWeights(q), bN, logChunks)
		if len(got) != len(want) {
			x.Failf("eq", "%d chunks instead of %d", len(got), len(want))
			return
		}
		for k := range want {
			if !equalSlices(got[k].Table, want[k]) {
				x.Failf("eq", "chunk %d of the equality table differs: bN=%d chunks=%d cores=%d", k, bN, 1<<logChunks, cores)
				return
			}
		}
		whole := polynomial.GetFoldedEqTable(q)
		if !equalSlices(whole.Table, eqWeights(q)) {
			x.Failf("eq", "the equality table differs: bN=%d", bN)
		}
		for k := range want {
			if c := whole.InterleavedChunk(k, 1<<logChunks); !equalSlices(c.Table, want[k]) {
				x.Failf("eq", "interleaved chunk %d of %d differs: bN=%d", k, 1<<logChunks, bN)
				return
			}
		}
		if !equalSlices(q, qc) {
			x.Failf("operand", "the point was modified")
		}
		// the chunks are tables of their own
		if len(got) > 1 {
			got[0].Table[0].SetUint64(77)
			for k := 1; k < len(got); k++ {
				if !equalSlices(got[k].Table, want[k]) {
					x.Failf("eq", "chunks share memory")
				}
			}
		}
		for k := range got {
			kept.keep(got[k].Table)
		}
		kept.keep(whole.Table)
	}
}

func evaluations(x *X, p string) func() {
	bN, bG := x.I(p+"bN", 0, 6), x.I(p+"bG", 0, 3)
	logChunks := x.I(p+"logChunks", 0, bN)
	if x.Chance(p+"big", 4) {
		bN, bG = x.I(p+"bigN", 12, 14), 1
		logChunks = min(logChunks, 3)
	}
	t := x.Elems(p+"t", 1<<(bN+bG))
	hP, hL, hR := x.Elems(p+"hP", bN), x.Elems(p+"hL", bG), x.Elems(p+"hR", bG)
	x.Note("evaluation bN=%d bG=%d chunks=%d", bN, bG, 1<<logChunks)
	return func() {
		chunks := split(t, bN, logChunks)
		before := copy2(chunks)
		x.Evals++
		q := append(append([]fr.Element{}, hL...), hP...)
		qc := append([]fr.Element{}, q...)
		l, r := refMLE(t, q), refMLE(t, append(append([]fr.Element{}, hR...), hP...))
		if got := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(chunks), q); got != l {
			x.Failf("evaluation", "chunked evaluation differs: bN=%d bG=%d chunks=%d", bN, bG, 1<<logChunks)
		}
		gl, gr := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(chunks), hP, hL, hR)
		if gl != l || gr != r {
			x.Failf("evaluation", "mixed chunked evaluation differs: bN=%d bG=%d chunks=%d", bN, bG, 1<<logChunks)
		}
		whole := polynomial.NewBookKeepingTable(append([]fr.Element{}, t...))
		if whole.Evaluate(q) != l {
			x.Failf("evaluation", "evaluation differs: bN=%d bG=%d", bN, bG)
		}
		if gl, gr = whole.EvaluateLeftAndRight(hP, hL, hR); gl != l || gr != r {
			x.Failf("evaluation", "left and right evaluation differs: bN=%d bG=%d", bN, bG)
		}
		if !equal2(chunks, before) || !equalSlices(q, qc) || !equalSlices(whole.Table, t) {
			x.Failf("operand", "evaluating modified the table or the point: bN=%d bG=%d chunks=%d", bN, bG, 1<<logChunks)
		}
	}
}

func ranges(x *X, p string) func() {
	size, cores := tableSize(x, p), x.I(p+"cores", 1, 20)
	return func() {
		x.Evals++
		next := 0
		for _, r := range common.IntoChunkRanges(cores, size) {
			if r.Begin != next || r.End <= r.Begin || r.End > size {
				x.Failf("ranges", "range %d..%d after %d of %d elements on %d cores", r.Begin, r.End, next, size, cores)
				return
			}
			next = r.End
		}
		if next != size {
			x.Failf("ranges", "the ranges end at %d of %d elements on %d cores", next, size, cores)
		}
	}
}
