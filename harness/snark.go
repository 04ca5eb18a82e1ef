//go:build go1.21

package main

import (
	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

// The constraint systems are compiled once per process.
var compiled = map[string]r1cs.R1CS{}

func compile(key string, c frontend.Circuit) (r1cs.R1CS, error) {
	if s, ok := compiled[key]; ok {
		return s, nil
	}
	s, err := frontend.Compile(gurvy.BN256, c)
	if err == nil {
		compiled[key] = s
	}
	return s, err
}

// solved tells whether the witness satisfies the constraints.
func solved(s r1cs.R1CS, w frontend.Circuit) (bool, error) {
	m, err := frontend.ParseWitness(w)
	if err != nil {
		return false, err
	}
	return s.IsSolved(m) == nil, nil
}

func assignAll(to []frontend.Variable, from []fr.Element) {
	for i := range to {
		to[i].Assign(from[i])
	}
}
