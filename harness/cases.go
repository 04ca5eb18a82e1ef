//go:build go1.21

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/gkr"
	"gkr-mimc/zzverif/zzsim"
)

// caseOpts says which circuits and batches a property draws.
type caseOpts struct {
	circ    circOpts
	mimcPct int
	mimcBN  int
	maxBN   int
	bigPct  int // batches beyond the threshold of parallel table arithmetic
	midBN   int // largest of the batches with many instances per chunk
	midPct  int // their share
	widePct int // circuits with many layers, wires, gates or values per instance
}

func describe(c *CircS, sh Shape) string { return fmt.Sprintf("%v %v", sh, c) }

// drawCase draws a circuit, a shape and the inputs (global layout).
func drawCase(x *X, o caseOpts) (*CircS, Shape, []fr.Element) {
	if o.maxBN == 0 {
		o.maxBN = 4
	}
	if o.mimcBN == 0 {
		o.mimcBN = 3
	}
	if o.midPct == 0 {
		o.midPct = 4
	}
	if o.midBN == 0 {
		o.midBN = 8
	}
	var spec *CircS
	var sh Shape
	if o.widePct == 0 {
		o.widePct = 3
	}
	kind := x.Pick("kind", 100-o.midPct-o.mimcPct-o.bigPct-o.widePct, o.mimcPct, o.bigPct, o.midPct, o.widePct)
	switch kind {
	case 1:
		spec = mimcSpec()
		sh = genShape(x, "", o.mimcBN)
		x.Probe("MiMC circuit")
	case 2:
		spec = genCirc(x, "big.", circOpts{maxLayers: 1, maxB: 1, maxWires: 2, only: []string{"mul", "add", "copy", "pow"}})
		sh = Shape{bN: 9 + x.Pick("big.bN", 1, 1, 1, 2, 3, 4)}
		sh.logChunks = x.Pick("big.logChunks", 2, 3, 1)
		sh.cores = 1 + x.Pick("big.cores", 1, 3, 1, 1, 1, 1)
		x.Probe("batch above the parallel threshold")
	case 3:
		spec, sh = drawMid(x, o.midBN)
	case 4:
		spec, sh = drawWide(x)
	default:
		spec = genCirc(x, "c.", o.circ)
		sh = genShape(x, "", o.maxBN)
	}
	in := x.Elems("inputs", 1<<(sh.bN+spec.Layers[0].In))
	x.Note("%s", describe(spec, sh))
	switch {
	case sh.chunks() == 1:
		x.Probe("one chunk")
	case sh.chunks() == 1<<sh.bN:
		x.Probe("one instance per chunk")
	}
	if sh.cores < sh.chunks() {
		x.Probe("fewer cores than chunks")
	}
	if sh.cores > sh.chunks() {
		x.Probe("more cores than chunks")
	}
	return spec, sh, in
}

// drawMid draws a small circuit and a batch with many instances per chunk, as thresholds in the code would require.
func drawMid(x *X, maxBN int) (*CircS, Shape) {
	spec := genCirc(x, "mid.", circOpts{maxLayers: 2, maxB: 1, maxWires: 3})
	sh := Shape{bN: x.I("mid.bN", 5, maxBN)}
	sh.logChunks = x.I("mid.logChunks", 0, 3)
	if sh.bN < 8 && x.Chance("mid.chunks", 40) { // nearly as many chunks as instances
		sh.logChunks = sh.bN - x.I("mid.perChunk", 0, 1)
		x.Probe("dozens of chunks")
	}
	if x.Chance("mid.many", 6) { // hundreds of chunks
		spec = genCirc(x, "mid.", circOpts{maxLayers: 1, maxB: 1, maxWires: 2})
		sh.bN = x.I("mid.manyBN", 8, 9)
		sh.logChunks = sh.bN - x.I("mid.perChunk", 0, 1)
		x.Probe("hundreds of chunks")
	}
	sh.cores = genCores(x, "mid.", sh.chunks())
	x.Probe("many instances per chunk")
	return spec, sh
}

// drawWide draws a circuit that is large in one dimension, and a small batch.
func drawWide(x *X) (*CircS, Shape) {
	o := circOpts{maxLayers: 3, maxB: 2, maxWires: 6}
	what := x.Pick("wide", 1, 1, 1, 1)
	huge := x.Chance("huge", 12)
	switch what {
	case 0:
		o.maxLayers, o.maxWires, o.maxB = 16, 4, 1
	case 1:
		o.maxWires = 40
	case 2:
		o.maxGates, o.maxWires = 14, 20
	case 3:
		o.maxB, o.maxLayers, o.maxWires = 4, 2, 10
	}
	maxBN := 2
	if huge { // beyond what the code's own examples have, with little else to do
		maxBN = 1
		switch what {
		case 0:
			o.maxLayers, o.maxWires = 160, 2
		case 1:
			o.maxWires, o.maxLayers = 300, 2
		case 2:
			o.manyGates, o.maxWires, o.maxLayers = true, 20, 2
		case 3:
			o.maxB, o.maxLayers, o.maxWires, o.maxGates = 6, 1, 90, 2
			maxBN = 2
		}
		x.Probe("huge in one dimension")
	}
	spec := genCirc(x, "wide.", o)
	sh := genShape(x, "wide.", maxBN)
	if what == 3 && x.Chance("wide.chunks", 40) { // several chunks with large tables each
		sh.bN, sh.logChunks = 2, 2
		sh.cores = genCores(x, "wide.chunks", 4)
	}
	x.Probe([]string{"many layers", "many wires", "many gates", "many values per instance"}[what])
	return spec, sh
}

// honest produces an honest transcript; call it in a simulation.
func honest(spec *CircS, sh Shape, in []fr.Element) *Transcript {
	circ := spec.build(nil)
	a := circ.Assign(split(in, sh.bN, sh.logChunks), sh.cores)
	p := gkr.NewProver(circ, a)
	return &Transcript{Proof: p.Prove(sh.cores), Inputs: copy2(a.Values[0]), Outputs: copy2(a.Values[len(a.Values)-1])}
}

// neighbour is another session in the same process, with a circuit and a batch of its own.
type neighbour struct {
	spec *CircS
	sh   Shape
	in   []fr.Element
}

func drawNeighbour(x *X, pct int) *neighbour {
	if !x.Chance("neighbour", pct) {
		return nil
	}
	n := &neighbour{spec: genCirc(x, "neighbour.", circOpts{maxLayers: 2, maxB: 1, maxWires: 4}), sh: genShape(x, "neighbour.", 2)}
	n.in = x.Elems("neighbour.inputs", 1<<(n.sh.bN+n.spec.Layers[0].In))
	return n
}

// start runs the session beside whatever the caller does next; call it in a simulation.
func (n *neighbour) start(x *X) {
	if n == nil {
		return
	}
	x.Probe("another session at the same time")
	zzsim.GoHarness(func() {
		t := honest(n.spec, n.sh, n.in)
		v := gkr.NewVerifier(n.sh.bN, n.spec.build(nil))
		x.Evals++
		if !v.Verify(t.Proof, t.Inputs, t.Outputs) {
			x.Failf("neighbour", "a session running at the same time rejects its honest proof: %s", describe(n.spec, n.sh))
		}
	})
}
