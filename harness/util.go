//go:build go1.21

package main

import (
	"strconv"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/zzverif/zzsim"
)

func itoa(i int) string { return strconv.Itoa(i) }

func asTables(c [][]fr.Element) []polynomial.BookKeepingTable {
	return polynomial.AsChunkedBookKeepingTable(copy2(c))
}

func gatesOf(g []GateS) []circuit.Gate {
	var out []circuit.Gate
	for i := range g {
		out = append(out, g[i].gate(nil))
	}
	return out
}

// initialPoint is the fixed point at which the code evaluates the outputs.
func initialPoint(bN, bG int) (qPrime, q []fr.Element) {
	if zzsim.R != nil {
		return gkr.GetInitialQPrimeAndQ(bN, bG)
	}
	zzsim.Exec(zzsim.Config{Policy: "fifo", StepCap: 300 << 20, NCPU: 4, Seed: 1}, func() {
		qPrime, q = gkr.GetInitialQPrimeAndQ(bN, bG)
	})
	return qPrime, q
}

// keeper holds results that have to stay as they were returned.
type keeper struct {
	got, want [][]fr.Element
}

func (k *keeper) keep(t []fr.Element) {
	k.got = append(k.got, t)
	k.want = append(k.want, append([]fr.Element{}, t...))
}

func (k *keeper) check(x *X) {
	if !equal2(k.got, k.want) {
		x.Failf("result-changed", "a result changed after it was returned")
	}
}

// attempt is what f throws.
func attempt(f func()) (thrown any) {
	defer func() { thrown = recover() }()
	f()
	return nil
}

func values(g *zzsim.RNG, n int64) []fr.Element {
	v := make([]fr.Element, n)
	for i := range v {
		v[i] = randElem(g)
	}
	return v
}
