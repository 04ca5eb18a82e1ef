//go:build go1.21 && (p_all || p_c09 || p_c25 || p_c26 || p_c28)

package main

import (
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"

	snarkgkr "gkr-mimc/snark/gkr"
	snarkpoly "gkr-mimc/snark/polynomial"
)

// gkrCk is the in-circuit verifier of the MiMC circuit.
type gkrCk struct {
	Circuit                 snarkgkr.Circuit
	Proof                   snarkgkr.Proof
	QInitial, QInitialprime []frontend.Variable
	VInput, VOutput         snarkpoly.MultilinearByValues
}

func newGkrCk(bN int) gkrCk { return gkrCkOf(snarkgkr.CreateMimcCircuit(), bN, 1) }

// gkrCkOf is the in-circuit verifier of a circuit with 2^bIn inputs per instance.
func gkrCkOf(c snarkgkr.Circuit, bN, bIn int) gkrCk {
	return gkrCk{
		Circuit:       c,
		Proof:         snarkgkr.AllocateProof(bN, c),
		QInitial:      make([]frontend.Variable, c.BGOut),
		QInitialprime: make([]frontend.Variable, bN),
		VInput:        snarkpoly.AllocateMultilinear(bN + bIn),
		VOutput:       snarkpoly.AllocateMultilinear(bN + c.BGOut),
	}
}

// Define implements frontend.Circuit
func (c *gkrCk) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.QInitial, c.QInitialprime, c.VInput, c.VOutput)
	return nil
}
