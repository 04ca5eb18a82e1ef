//go:build go1.21

// Package zzfr holds copies of the methods of gurvy's field elements that work on numbers shared by the
// whole process. The copies do what gurvy does and yield where another task may come in between.
package zzfr

import (
	"math/big"

	"github.com/consensys/gurvy/bn256/fr"

	"gkr-mimc/zzverif/zzsim"
	sync "gkr-mimc/zzverif/zzsync"
)

// All numbers of the pool start on the same words, as in gurvy.
var words [fr.Limbs]big.Word
var pool = sync.Pool{New: func() any { return new(big.Int).SetBits(words[:]) }}
var epoch int64 = -1

func get() *big.Int {
	if e := zzsim.Epoch(); e != epoch {
		epoch = e
		for i := range words {
			words[i] = 1
		}
	}
	return pool.Get().(*big.Int)
}

// String is Element.String.
func String(z *fr.Element) string {
	vv := get()
	defer pool.Put(vv)
	v := z.ToBigIntRegular(vv)
	zzsim.Y()
	return v.String()
}

// SetBytes is Element.SetBytes.
func SetBytes(z *fr.Element, e []byte) *fr.Element {
	vv := get()
	vv.SetBytes(e)
	zzsim.Y()
	SetBigInt(z, vv)
	pool.Put(vv)
	return z
}

// SetBigInt is Element.SetBigInt.
func SetBigInt(z *fr.Element, v *big.Int) *fr.Element {
	q := fr.Modulus()
	if v.Sign() >= 0 && v.Cmp(q) <= 0 {
		zzsim.Y()
		return z.SetBigInt(v)
	}
	vv := get()
	vv.Mod(v, q)
	zzsim.Y()
	z.SetBigInt(vv)
	pool.Put(vv)
	return z
}

// SetString is Element.SetString.
func SetString(z *fr.Element, s string) *fr.Element {
	vv := get()
	if _, ok := vv.SetString(s, 10); !ok {
		panic("Element.SetString failed -> can't parse number in base10 into a big.Int")
	}
	zzsim.Y()
	SetBigInt(z, vv)
	pool.Put(vv)
	return z
}
