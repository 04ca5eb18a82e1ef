//go:build go1.21 && (p_all || p_c23 || p_c26)

package main

import (
	"github.com/consensys/gnark/frontend"

	snarkgkr "gkr-mimc/snark/gkr"
	snarkpoly "gkr-mimc/snark/polynomial"
)

// inCircuitLayer describes layer n of the circuit for the in-circuit verifier.
func inCircuitLayer(spec *CircS, n int) snarkgkr.Layer {
	l := spec.Layers[n]
	var layer snarkgkr.Layer
	layer.BG = l.In
	for _, k := range spec.layerGates(n) {
		k := k
		gate := spec.Gates[k].gate(nil)
		switch spec.Gates[k].Kind {
		case "copy":
			layer.Gates = append(layer.Gates, snarkgkr.CopyGate())
		case "cipher":
			layer.Gates = append(layer.Gates, snarkgkr.CipherGate(spec.Gates[k].C[0]))
		default:
			layer.Gates = append(layer.Gates, gate.GnarkEval)
		}
		layer.StaticTable = append(layer.StaticTable, func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
			w := []frontend.Variable{cs.Constant(1)}
			for _, v := range q {
				var next []frontend.Variable
				for i := range w {
					hi := cs.Mul(w[i], v)
					next = append(next, cs.Sub(w[i], hi), hi)
				}
				w = next
			}
			tab := make([]frontend.Variable, 1<<(2*l.In))
			for i := range tab {
				tab[i] = cs.Constant(0)
			}
			for _, s := range l.Wires {
				if sameGate(spec.Gates[s.G], spec.Gates[k]) {
					tab[s.L<<l.In|s.R] = cs.Add(tab[s.L<<l.In|s.R], w[s.O])
				}
			}
			return snarkpoly.NewMultilinearByValues(tab)
		})
	}
	return layer
}
