//go:build go1.21 && (p_all || p_c19 || p_c27)

package main

import (
	"fmt"
	"math/big"
	"regexp"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/zzverif/zzsim"
)

func init() {
	props["C19"] = &Prop{
		ID: "C19", Quick: 500000, Short: true, Deep: 20000000,
		Rule: "One to six tasks print and convert values (field elements with edge cases around zero, the modulus and powers of ten, slices, tables, integers), some of them shared, with yield points inside the code and inside copies of gurvy's printing methods; texts are read back and compared with the values.",
		Real: []string{"common (printing, conversions)", "polynomial (table printing)"},
		Stub: []string{"scheduler", "gurvy's String, SetBytes, SetBigInt, SetString when the code calls them (copies with yield points)"},
		Run:  runC19,
	}
}

// value is e as a number below the modulus.
func value(e fr.Element) *big.Int {
	reg := e.ToRegular()
	n := new(big.Int)
	for w := 3; w >= 0; w-- {
		n.Lsh(n, 64)
		n.Or(n, new(big.Int).SetUint64(reg[w]))
	}
	return n
}

// pretty is the shorter of e and -(-e), e if they are equally long.
func pretty(e fr.Element) string {
	v := value(e)
	pos := v.Text(10)
	if v.Sign() == 0 {
		return pos
	}
	neg := new(big.Int).Sub(fr.Modulus(), v).Text(10)
	if len(pos) <= len(neg) {
		return pos
	}
	return "-" + neg
}

var number = regexp.MustCompile(`-?[0-9]+`)

// numbersIn compares the numbers of a text with those wanted.
func numbersIn(text string, want []string) string {
	got := number.FindAllString(text, -1)
	if len(got) != len(want) {
		return fmt.Sprintf("%d numbers instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("number %d is %s instead of %s", i, got[i], want[i])
		}
	}
	return ""
}

func runC19(x *X) {
	tasks := 1 + x.Pick("tasks", 3, 4, 3, 1, 1, 1)
	maxCalls, maxLen := 5, 6
	switch x.Pick("extent", 4000, 100, 100, 1) {
	case 1:
		maxCalls = 60
	case 2:
		maxLen = 200
	case 3:
		tasks, maxCalls, maxLen = min(tasks, 2), 2, 5000
	}
	nVals := x.I("values", 1, 3)
	vals, before := make([][]fr.Element, nVals), make([][]fr.Element, nVals)
	for i := range vals {
		vals[i] = x.Elems("v"+itoa(i), x.I("v"+itoa(i)+".len", 0, maxLen))
		g := x.RNG("edges" + itoa(i))
		if x.Chance("v"+itoa(i)+".edges", 50) { // close to where the number of digits or the sign changes
			for k := range vals[i] {
				n := new(big.Int)
				switch g.N(5) {
				case 0:
					n.Exp(big.NewInt(10), big.NewInt(g.N(78)), nil)
				case 1:
					n.Rsh(fr.Modulus(), uint(g.N(200)))
				case 2:
					n.Lsh(big.NewInt(1), uint(g.N(254)))
				case 3:
					n.Exp(big.NewInt(10), big.NewInt(g.N(78)), nil)
					n.Sub(fr.Modulus(), n)
				}
				n.Add(n, big.NewInt(g.N(5)-2))
				n.Mod(n, fr.Modulus())
				vals[i][k] = fr.Element{}
				vals[i][k].SetBigInt(n)
			}
		}
		before[i] = append([]fr.Element{}, vals[i]...)
	}
	ints, uints := []int{}, []uint{}
	g := x.RNG("ints")
	for i := x.I("ints", 0, maxLen); i > 0; i-- {
		ints = append(ints, int(int64(g.U())>>uint(g.N(64))))
		uints = append(uints, uint(g.U()>>uint(g.N(64))))
	}
	intsB, uintsB := append([]int{}, ints...), append([]uint{}, uints...)
	names := []string{"PrettyStringFr", "FrSliceToString", "BookKeepingTable.String", "IntSliceToString", "UintSliceToString", "FrToGenericArray", "Uint64ToFr"}
	type job struct {
		kind, of, at int
		n            uint64
	}
	jobs := make([][]job, tasks)
	for t := range jobs {
		for k := x.I(fmt.Sprintf("t%d.n", t), 1, maxCalls); k > 0; k-- {
			p := fmt.Sprintf("t%d.%d.", t, k)
			j := job{kind: x.Pick(p+"kind", 8, 4, 3, 1, 1, 1, 1), of: x.I(p+"of", 0, nVals-1), n: g.U() >> uint(g.N(64))}
			j.at = x.I(p+"at", 0, len(vals[j.of])-1)
			jobs[t] = append(jobs[t], j)
		}
	}
	x.Note("%d tasks, jobs %v", tasks, jobs)
	type kept struct {
		got  []interface{}
		want []fr.Element
	}
	keep := make([][]kept, tasks)
	texts := make([][][2]string, tasks)
	body := func(t int) {
		for k, j := range jobs[t] {
			x.Evals++
			in, inB := vals[j.of], before[j.of]
			what := fmt.Sprintf("task %d, call %d: %s", t, k, names[j.kind])
			text, wrong := "", ""
			var want []string
			switch j.kind {
			case 0:
				var e fr.Element
				if len(in) > 0 {
					e = in[j.at]
				}
				text = common.PrettyStringFr(e)
				if w := pretty(e); text != w {
					wrong = fmt.Sprintf("%q instead of %q", text, w)
				}
			case 1, 2:
				for _, e := range inB {
					want = append(want, pretty(e))
				}
				if j.kind == 1 {
					text = common.FrSliceToString(in)
				} else {
					bkt := polynomial.NewBookKeepingTable(in)
					text = bkt.String()
				}
				wrong = numbersIn(text, want)
			case 3:
				for _, v := range intsB {
					want = append(want, fmt.Sprint(v))
				}
				text = common.IntSliceToString(ints)
				wrong = numbersIn(text, want)
			case 4:
				for _, v := range uintsB {
					want = append(want, fmt.Sprint(v))
				}
				text = common.UintSliceToString(uints)
				wrong = numbersIn(text, want)
			case 5:
				arr := common.FrToGenericArray(in)
				if wrong = sameValues(arr, inB); wrong == "" {
					keep[t] = append(keep[t], kept{arr, inB})
				}
			case 6:
				e := common.Uint64ToFr(j.n)
				if v := value(e); !v.IsUint64() || v.Uint64() != j.n {
					wrong = fmt.Sprintf("%d becomes %s", j.n, v)
				}
			}
			if wrong != "" {
				x.Failf("text", "%s: %s", what, wrong)
				return
			}
			texts[t] = append(texts[t], [2]string{text, string(append([]byte{}, text...))})
		}
	}
	r := x.Sim(func() {
		for t := range jobs {
			t := t
			zzsim.GoHarness(func() { body(t) })
		}
	})
	if r.Outcome != "ok" || x.Failed() {
		return
	}
	if !equal2(vals, before) || fmt.Sprint(ints, uints) != fmt.Sprint(intsB, uintsB) {
		x.Failf("argument", "an argument was modified")
		return
	}
	// what was returned is the caller's: it does not change afterwards, not even with the arguments
	for i := range vals {
		for k := range vals[i] {
			vals[i][k].SetUint64(5)
		}
	}
	for t := range keep {
		for _, v := range keep[t] {
			if wrong := sameValues(v.got, v.want); wrong != "" {
				x.Failf("result-changed", "a converted array changed after it was returned: %s", wrong)
				return
			}
		}
		for _, s := range texts[t] {
			if s[0] != s[1] {
				x.Failf("result-changed", "a text changed after it was returned")
				return
			}
		}
	}
	if tasks > 1 {
		x.Probe("values shared by several tasks")
	}
}

func sameValues(arr []interface{}, want []fr.Element) string {
	if len(arr) != len(want) {
		return fmt.Sprintf("%d values instead of %d", len(arr), len(want))
	}
	for i := range arr {
		if e, ok := arr[i].(fr.Element); !ok || e != want[i] {
			return fmt.Sprintf("value %d is %v", i, arr[i])
		}
	}
	return ""
}
