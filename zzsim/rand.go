//go:build go1.21

package zzsim

import (
	crand "crypto/rand"
	"io"
	"math/rand"
)

type src struct{}

func (src) Int63() int64 { return int64(src{}.Uint64() >> 1) }
func (src) Uint64() uint64 {
	if R == nil {
		return initRNG.U()
	}
	return R.randTask.U()
}
func (src) Seed(int64) {}

var initRNG = NewRNG(1)
var theRand = rand.New(src{})

// Rand is the generator behind the global functions of math/rand.
func Rand() *rand.Rand { return theRand }

// The entropy source is replaced before the packages under test are initialised, so that
// those that keep it keep the replacement.
func init() { crand.Reader = entropy{} }

type entropy struct{}

// Entropy, if set, is the source of the run.
var Entropy func(p []byte) (int, error)

// Read fills p.
func (entropy) Read(p []byte) (int, error) {
	if Entropy != nil {
		return Entropy(p)
	}
	g := &initRNG
	if R != nil {
		g = &R.randTask
	}
	g.Fill(p)
	return len(p), nil
}

// Fill fills p with random bytes.
func (g *RNG) Fill(p []byte) {
	var x uint64
	for i := range p {
		if i%8 == 0 {
			x = g.U()
		}
		p[i] = byte(x)
		x >>= 8
	}
}

// CryptoRead is crypto/rand.Read, which ends the process when there is no entropy.
func CryptoRead(p []byte) (int, error) {
	n, err := io.ReadFull(entropy{}, p)
	if err != nil {
		exit("crypto/rand: failed to read random data: " + err.Error())
	}
	return n, nil
}
