//go:build go1.21 && (p_all || p_c06)

package main

import (
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C06"] = &Prop{
		ID: "C06", Quick: 70000, Deep: 2700000,
		Rule: "A run performs one to four operations (assignment, claim, proof, verification, table arithmetic), some by concurrent callers, under drawn stalls of workers, sleeping gates and scheduling policies; at quiescence everything must have returned and no goroutine be left.",
		Real: []string{"circuit", "gkr prover and verifier", "sumcheck", "polynomial", "hash", "common (semaphore, chunk ranges)"},
		Stub: []string{"scheduler", "channels, sync, time, runtime", "user-defined gates that stall"},
		Run:  runC06,
	}
}

// stallGate sleeps (a stalled worker) in some of its evaluations.
type stallGate struct {
	circuit.Gate
	every int64
	for_  time.Duration
	n     *int64
}

func (g stallGate) nap() {
	*g.n++
	if *g.n%g.every == 0 {
		zzsim.Sleep(g.for_)
	}
}
func (g stallGate) Eval(res, vL, vR *fr.Element) { g.nap(); g.Gate.Eval(res, vL, vR) }
func (g stallGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	g.nap()
	g.Gate.EvalManyVL(res, vLs, vR)
}
func (g stallGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	g.nap()
	g.Gate.EvalManyVR(res, vL, vRs)
}

func runC06(x *X) {
	maxBN := 5
	spec, sh, in := drawCase(x, caseOpts{mimcPct: 1, mimcBN: 2, maxBN: maxBN, circ: circOpts{maxLayers: 3, maxWires: 4}})
	callers := 1 + x.Pick("callers", 8, 2, 1)
	nOps := make([]int, callers)
	ops := make([][]int, callers)
	for c := range ops {
		nOps[c] = x.I("ops"+itoa(c), 1, 3)
		for k := 0; k < nOps[c]; k++ {
			ops[c] = append(ops[c], x.Pick("op"+itoa(c)+"."+itoa(k), 3, 5, 3, 3, 2, 3))
		}
	}
	tableSize := 0
	nTable := x.Pick("tableSize", 3, 3, 2)
	switch nTable {
	case 0:
		tableSize = x.I("tableN", 1, 4000)
	case 1:
		tableSize = 4096*x.I("tableK", 1, 6) + x.I("tableRem", -2, 2)
	case 2:
		tableSize = x.I("tableN", 4097, 30000)
	}
	nap := x.Chance("nap", 25)
	napEvery, napFor := int64(x.I("napEvery", 1, 7)), time.Duration(x.Int("napFor", 1, 1<<20))
	g := x.RNG("table")
	table := make([]fr.Element, tableSize)
	for i := range table {
		table[i] = randElem(g)
	}
	// operand tables as user code may hand them to the sumcheck provers
	bG := spec.Layers[0].In
	vL, vR, eq := x.Elems("vL", 1<<(sh.bN+bG)), x.Elems("vR", 1<<(sh.bN+bG)), x.Elems("eq", 1<<sh.bN)
	static := x.Elems("static", 1<<(2*bG))
	point, outPoint := x.Elems("qPrime", sh.bN), x.Elems("q", spec.Layers[len(spec.Layers)-1].Out)
	cores := make([]int, callers)
	for c := range cores {
		cores[c] = sh.cores
		if c > 0 {
			cores[c] = genCores(x, "caller"+itoa(c), sh.chunks())
		}
	}
	badAt, bad1 := -1, u64(1)
	if x.Chance("bad", 60) {
		badAt = x.I("badAt", 0, 200)
	}
	started, ended := 0, 0
	var cur []string
	r := x.SimCfg(func(c *zzsim.Config) {
		if x.Chance("forceStall", 40) && c.Policy != "stall" {
			c.Policy = "stall"
			c.Depth = []int{10, 20, 30, 50, 70, 90}[x.I("forceStallPct", 0, 5)]
			c.Mean = []int64{1, 2, 8, 40}[x.I("forceMean", 0, 3)]
		}
	}, func() {
		circ := spec.build(nil)
		if nap {
			x.faults["stalled gate"]++
			var n int64
			wiring := make([][]circuit.Wire, len(circ.Layers))
			for l := range circ.Layers {
				for _, w := range circ.Layers[l].Wires {
					w.Gate = stallGate{w.Gate, napEvery, napFor, &n}
					wiring[l] = append(wiring[l], w)
				}
			}
			circ = circuit.NewCircuit(wiring)
		}
		cur = make([]string, callers)
		for c := 0; c < callers; c++ {
			c := c
			started++
			zzsim.GoHarness(func() {
				var a *circuit.Assignment
				var p *gkr.Proof
				n := cores[c]
				assign := func() {
					if a == nil {
						cur[c] = "Assign"
						v := circ.Assign(split(in, sh.bN, sh.logChunks), n)
						a = &v
					}
				}
				prove := func() {
					assign()
					if p == nil {
						cur[c] = "Prove"
						pr := gkr.NewProver(circ, *a)
						v := pr.Prove(n)
						p = &v
					}
				}
				for _, op := range ops[c] {
					x.Evals++
					switch op {
					case 0:
						a = nil
						assign()
					case 1:
						p = nil
						prove()
					case 2:
						prove()
						cur[c] = "Verify"
						v := gkr.NewVerifier(sh.bN, circ)
						v.Verify(*p, a.Values[0], a.Values[len(a.Values)-1])
						if badAt >= 0 { // a transcript that is rejected on the way
							t := &Transcript{Proof: *p, Inputs: a.Values[0], Outputs: a.Values[len(a.Values)-1]}
							f := t.frames(0)
							e := &f[badAt%len(f)]
							for i := range e.vals {
								e.vals[i].Double(&e.vals[i])
								e.vals[i].Add(&e.vals[i], &bad1)
							}
							t = t.skeleton().assemble(0, f)
							v.Verify(t.Proof, t.Inputs, t.Outputs)
							x.faults["altered transcript"]++
						}
					case 3:
						assign()
						cur[c] = "GetClaim"
						pr := gkr.NewProver(circ, *a)
						sp := pr.InitialRoundSumcheckProver(point, outPoint, n)
						sp.GetClaim(n)
						cur[c] = "Prove of a layer"
						sp.Prove(n)
					case 4:
						cur[c] = "table arithmetic"
						l, r := polynomial.NewBookKeepingTable(append([]fr.Element{}, table...)), polynomial.NewBookKeepingTable(table)
						var d polynomial.BookKeepingTable
						d.Sub(l, r, n)
						d.Mul(u64(3), l, n)
						polynomial.GetChunkedEqTable(point, sh.chunks(), n)
					case 5:
						cur[c] = "sumcheck claim"
						sp := sumcheck.NewMultiThreadedProver(asTables(split(vL, sh.bN, sh.logChunks)), asTables(split(vR, sh.bN, sh.logChunks)),
							asTables(split(eq, sh.bN, sh.logChunks)), []circuit.Gate{circuit.MulGate{}}, asTables([][]fr.Element{static}))
						sp.GetClaim(n)
						cur[c] = "sumcheck proof"
						sp.Prove(n)
					}
					cur[c] = ""
				}
				ended++
			})
		}
	})
	x.Note("operations %v, cores %v, table of %d", ops, cores, tableSize)
	if r.Outcome != "ok" {
		x.fail.Detail += " in " + strings.Join(cur, ", ") + ": " + describe(spec, sh)
		return
	}
	if started != ended {
		x.Failf("deadlock", "%d of %d callers never returned from %s: %s", started-ended, started, strings.Join(cur, ", "), describe(spec, sh))
		return
	}
	if len(r.Leaked) > 0 {
		x.Failf("leak", "%d goroutines never ended: %s: %s", len(r.Leaked), strings.Join(r.Leaked[:min(len(r.Leaked), 6)], "; "), describe(spec, sh))
	}
}
