//go:build go1.21 && (p_all || p_c22)

package main

import (
	"fmt"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C22"] = &Prop{
		ID: "C22", Quick: 120000, Deep: 4800000,
		Rule: "One to five tasks share a circuit and an assignment of drawn size and chunking; they take views of its layers (copied by several workers, or not), static tables at drawn points, and rebuild layers from their wires, scribbling over what is theirs. Everything is compared with the values and with independent definitions.",
		Real: []string{"circuit (layers, static tables, assignment views)", "polynomial", "common"},
		Stub: []string{"scheduler", "channels, sync, runtime", "some gates are user-defined gates of the harness"},
		Run:  runC22,
	}
}

func runC22(x *X) {
	spec := genCirc(x, "c.", circOpts{maxLayers: 4, maxWires: 10, maxB: 3})
	if x.Chance("wide", 1) {
		spec = genCirc(x, "wide.", circOpts{maxLayers: 2, maxWires: 30, maxB: 5, maxGates: 2})
		x.Probe("layers of up to 32 positions")
	}
	if x.Chance("manyGates", 1) {
		spec = genCirc(x, "gates.", circOpts{maxLayers: 2, maxWires: 4, maxB: 2, manyGates: true})
		x.Probe("layers with more than 64 gates")
	}
	if x.Chance("mimc", 3) {
		spec = mimcSpec()
	}
	sh := genShape(x, "", 4)
	if x.Chance("manyChunks", 3) {
		sh.bN = x.I("manyBN", 5, 9)
		sh.logChunks = x.I("manyLogChunks", 4, sh.bN)
		sh.cores = genCores(x, "many.", 1<<sh.logChunks)
	}
	nLayers := len(spec.Layers)
	// any values: views do not depend on how the assignment came about
	values := make([][][]fr.Element, nLayers+1)
	before := make([][][]fr.Element, nLayers+1)
	for l := range values {
		b := spec.Layers[0].In
		if l > 0 {
			b = spec.Layers[l-1].Out
		}
		if nLayers > 10 && l > 3 {
			values[l], before[l] = values[l-2], before[l-2]
			continue
		}
		values[l] = split(x.Elems("v"+itoa(l), 1<<(sh.bN+b)), sh.bN, sh.logChunks)
		before[l] = copy2(values[l])
	}
	tasks := 1 + x.Pick("tasks", 3, 4, 2, 1, 1)
	names := []string{"view with copy", "view without copy", "static tables", "rebuilt layer"}
	type job struct{ kind, layer, cores int }
	jobs := make([][]job, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, 5); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			jobs[t] = append(jobs[t], job{x.Pick(p+"kind", 5, 2, 4, 2), x.I(p+"layer", 0, nLayers-1), x.I(p+"cores", 1, sh.cores+2)})
		}
	}
	what := describe(spec, sh)
	x.Note("%s, jobs %v", what, jobs)
	var circ circuit.Circuit
	assignment := circuit.Assignment{Values: values}
	kp := make([]keeper, tasks)
	qs := x.RNG("points")
	edge := x.Chance("edgePoints", 20)
	point := func(n int) []fr.Element {
		q := make([]fr.Element, n)
		for i := range q {
			q[i] = randElem(qs)
			if edge {
				q[i] = u64(uint64(qs.N(3)))
			}
		}
		return q
	}
	body := func(t int) {
		for k, j := range jobs[t] {
			x.Evals++
			where := fmt.Sprintf("task %d, call %d: %s of layer %d with %d cores: %s", t, k, names[j.kind], j.layer, j.cores, what)
			switch j.kind {
			case 0, 1:
				l := j.layer
				if k%2 == 1 {
					l++ // the outputs have views as well
				}
				v := assignment.LayerAsBKTNoCopy
				if j.kind == 0 {
					v = func(l int) []polynomial.BookKeepingTable { return assignment.LayerAsBKTWithCopy(l, j.cores) }
				}
				view := v(l)
				if len(view) != len(before[l]) {
					x.Failf("view", "%s: %d chunks instead of %d", where, len(view), len(before[l]))
					return
				}
				for c := range view {
					if !equalSlices(view[c].Table, before[l][c]) {
						x.Failf("view", "%s: chunk %d does not hold the values", where, c)
						return
					}
				}
				if j.kind == 0 {
					for c := range view {
						if k%3 == 1 { // they are the caller's
							for i := range view[c].Table {
								view[c].Table[i].SetUint64(4711)
							}
						}
						if k%3 == 2 {
							view[c].Fold(u64(3))
						}
						kp[t].keep(view[c].Table)
					}
				}
			case 2:
				l := &circ.Layers[j.layer]
				q := point(spec.Layers[j.layer].Out)
				qB := append([]fr.Element{}, q...)
				tabs := l.GetStaticTable(q)
				want := spec.refStatics(j.layer, qB)
				if len(tabs) != len(want) || len(l.Gates) != len(want) {
					x.Failf("static", "%s: %d tables for %d gates", where, len(tabs), len(want))
					return
				}
				for i := range tabs {
					// tables come in the order of the layer's gates
					g := gateNumber(x, spec, j.layer, l.Gates[i])
					if g < 0 {
						x.Failf("gates", "%s: gate %d is not one of the layer's", where, i)
						return
					}
					if !equalSlices(tabs[i].Table, want[g]) {
						x.Failf("static", "%s: table %d is not the wiring at the point", where, i)
						return
					}
				}
				if !equalSlices(q, qB) {
					x.Failf("argument", "%s: the point was modified", where)
					return
				}
				for i := range tabs {
					if k%2 == 1 {
						for e := range tabs[i].Table {
							tabs[i].Table[e].SetUint64(4712)
						}
					}
					kp[t].keep(tabs[i].Table)
				}
			case 3:
				l := circ.Layers[j.layer]
				if k%2 == 1 {
					l = circuit.NewLayer(l.Wires)
				}
				if wrong := wrongLayer(x, spec, j.layer, l); wrong != "" {
					x.Failf("layer", "%s: %s", where, wrong)
					return
				}
				gates := circuit.Gates(l.Wires)
				for i := range gates {
					gates[i] = circuit.CopyGate{} // the list is the caller's
				}
			}
		}
	}
	r := x.Sim(func() {
		circ = spec.build(nil)
		for t := range jobs {
			t := t
			zzsim.GoHarness(func() { body(t) })
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	for l := range values {
		if !equal2(values[l], before[l]) {
			x.Failf("argument", "the values of layer %d were modified: %s", l, what)
			return
		}
	}
	x.Quiet(func() {
		for l := range circ.Layers {
			if wrong := wrongLayer(x, spec, l, circ.Layers[l]); wrong != "" {
				x.Failf("layer", "layer %d afterwards: %s: %s", l, wrong, what)
			}
		}
	})
	// copies do not follow the assignment
	for l := range values {
		for c := range values[l] {
			for i := range values[l][c] {
				values[l][c][i].SetUint64(4713)
			}
		}
	}
	for t := range kp {
		kp[t].check(x)
	}
	if tasks > 1 {
		x.Probe("circuit shared by several tasks")
	}
}

// wrongLayer says how l differs from the layer specified.
func wrongLayer(x *X, spec *CircS, n int, l circuit.Layer) string {
	s := spec.Layers[n]
	if l.BGInputs != s.In || l.BGOutputs != s.Out {
		return fmt.Sprintf("%d and %d variables for operands and outputs instead of %d and %d", l.BGInputs, l.BGOutputs, s.In, s.Out)
	}
	if len(l.Wires) != len(s.Wires) {
		return fmt.Sprintf("%d wires instead of %d", len(l.Wires), len(s.Wires))
	}
	for i, w := range l.Wires {
		if w.L != s.Wires[i].L || w.R != s.Wires[i].R || w.O != s.Wires[i].O || w.Gate.ID() != spec.Gates[s.Wires[i].G].gate(nil).ID() {
			return fmt.Sprintf("wire %d is another", i)
		}
	}
	if len(l.Gates) != len(spec.layerGates(n)) {
		return fmt.Sprintf("%d gates instead of %d", len(l.Gates), len(spec.layerGates(n)))
	}
	seen := map[int]bool{}
	for i, g := range l.Gates {
		k := gateNumber(x, spec, n, g)
		if k < 0 || seen[k] {
			return fmt.Sprintf("gate %d is not one of the layer's, or listed twice", i)
		}
		seen[k] = true
	}
	return ""
}
