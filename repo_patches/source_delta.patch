From d6a6e0017097e084ab19a57beb84266a3beb8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 01/11] fix: Layer.Evaluate indexed the right operand with N
 applied twice

Any wire reading a non-zero right input panicked or read the wrong
instance as soon as a chunk held more than one instance.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 7c5d19a9be2f8f7635403d17867b2f302f277c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 02/11] fix: Gates did not deduplicate the gates of a layer

The set of known gates was never filled, so a layer using the same gate on
two wires got one static table per wire, each already holding both wires,
and no honest proof of such a circuit was accepted.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 8cccd6112bd0e095b971a4d36a27b6f09a22f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 03/11] fix: chunked evaluation panicked on a single chunk

---
 polynomial/chunked.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..eb20ec7 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -36,7 +36,8 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	// inp holds the result even if there is a single chunk and nothing to fold
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From e9cc468ec60355feaaf75f35815cc24623c7c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 04/11] fix: GKR verifier accepted proofs inconsistent on an
 intermediate layer

---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From 8601fbe390a53f9633a2b1c07f4861c9089473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 05/11] fix: initial GKR claim did not depend on half of the
 outputs

The first coordinate of the initial point was 1, which gives a zero weight to
every output whose first index bit is 0: the verifier accepted any value there.
---
 gkr/prover.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..b4a8d38 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -33,7 +33,9 @@ func NewProver(circuit circuit.Circuit, assignment circuit.Assignment) Prover {
 	}
 }
 
-// GetInitialQPrimeAndQ returns the initial randomness of the protocol
+// GetInitialQPrimeAndQ returns the initial randomness of the protocol.
+// The coordinates are derived from the challenge hash: with a coordinate equal to
+// 0 or 1, the initial claim would not depend on half of the outputs.
 func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 	q := make([]fr.Element, bG)
 	qPrime := make([]fr.Element, bN)
@@ -41,11 +43,11 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
 	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+		q[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(0), common.Uint64ToFr(uint64(i + 1))})
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+		qPrime[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(1), common.Uint64ToFr(uint64(i + 1))})
 	}
 
 	return qPrime, q
-- 
2.43.0


From d676c31aab88523d9412f0ceb19cfa42a1c703cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 06/11] fix: verifiers panicked on malformed proofs and ignored
 surplus values

A truncated proof, or inputs and outputs with missing values, made Verify panic;
outputs longer than the circuit's were accepted whatever the surplus held.
---
 gkr/verifier.go      | 37 +++++++++++++++++++++++++++++++++++++
 sumcheck/verifier.go |  8 ++++++++
 2 files changed, 45 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..712035c 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if !v.isWellFormed(proof, inputs, outputs) {
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -113,6 +117,39 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// isWellFormed returns true if the proof, the inputs and the outputs
+// have the sizes required by the circuit.
+func (v *Verifier) isWellFormed(proof Proof, inputs, outputs [][]fr.Element) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers ||
+		len(proof.ClaimsLeft) != nLayers ||
+		len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+	for i := range proof.SumcheckProofs {
+		if len(proof.SumcheckProofs[i].PolyCoeffs) != v.bN+2*v.circuit.Layers[i].BGInputs {
+			return false
+		}
+	}
+	return isChunked(inputs, v.bN, v.circuit.Layers[0].BGInputs) &&
+		isChunked(outputs, v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
+}
+
+// isChunked returns true if the values are split evenly in a power of two number of
+// chunks, each of them holding at least one instance, and have bN + bG variables in total.
+func isChunked(values [][]fr.Element, bN, bG int) bool {
+	nChunks := len(values)
+	if nChunks == 0 || nChunks > 1<<bN || nChunks != 1<<common.Log2Floor(nChunks) {
+		return false
+	}
+	for i := range values {
+		if len(values[i])*nChunks != 1<<(bN+bG) {
+			return false
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..29212d7 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -12,6 +12,10 @@ type Verifier struct{}
 
 // Verify returns true if and only the sumcheck proof is valid
 func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool, qPrime, qL, qR []fr.Element, finalClaim fr.Element) {
+	if len(proof.PolyCoeffs) < 2*bG {
+		return false, nil, nil, nil, fr.Element{}
+	}
+
 	// Initalize the structures
 	challenges := make([]fr.Element, len(proof.PolyCoeffs))
 	var expectedValue fr.Element = claim
@@ -19,6 +23,10 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	one.SetOne()
 
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		if len(proof.PolyCoeffs[i]) == 0 {
+			return false, nil, nil, nil, fr.Element{}
+		}
+
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0


From a32cae973d14bad3d4a9ea9aba6296c5ed889519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 07/11] fix: GKR verifier did not bound the degree of the round
 polynomials

A transcript with surplus or missing coefficients was accepted whenever the
hash-derived challenge did not matter, e.g. for a batch of zeros.
---
 gkr/verifier.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 712035c..f338848 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -127,7 +127,7 @@ func (v *Verifier) isWellFormed(proof Proof, inputs, outputs [][]fr.Element) boo
 		return false
 	}
 	for i := range proof.SumcheckProofs {
-		if len(proof.SumcheckProofs[i].PolyCoeffs) != v.bN+2*v.circuit.Layers[i].BGInputs {
+		if !v.hasExpectedSize(proof.SumcheckProofs[i], i) {
 			return false
 		}
 	}
@@ -135,6 +135,38 @@ func (v *Verifier) isWellFormed(proof Proof, inputs, outputs [][]fr.Element) boo
 		isChunked(outputs, v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 }
 
+// hasExpectedSize returns true if the sumcheck proof has one polynomial per round,
+// each of them with as many coefficients as the gates of the layer require.
+func (v *Verifier) hasExpectedSize(proof sumcheck.Proof, layer int) bool {
+	bG := v.circuit.Layers[layer].BGInputs
+	if len(proof.PolyCoeffs) != v.bN+2*bG {
+		return false
+	}
+
+	degHL, degHR, degHPrime := 0, 0, 0
+	for _, gate := range v.circuit.Layers[layer].Gates {
+		dL, dR, dPrime := gate.Degrees()
+		degHL = common.Max(degHL, dL)
+		degHR = common.Max(degHR, dR)
+		degHPrime = common.Max(degHPrime, dPrime)
+	}
+
+	for i, coeffs := range proof.PolyCoeffs {
+		// The static tables (on hL and hR) and eq (on hPrime) add one to the degree
+		nCoeffs := degHL + 2
+		if i >= 2*bG {
+			nCoeffs = degHPrime + 2
+		} else if i >= bG {
+			nCoeffs = degHR + 2
+		}
+		if len(coeffs) != nCoeffs {
+			return false
+		}
+	}
+
+	return true
+}
+
 // isChunked returns true if the values are split evenly in a power of two number of
 // chunks, each of them holding at least one instance, and have bN + bG variables in total.
 func isChunked(values [][]fr.Element, bN, bG int) bool {
-- 
2.43.0


From f0d6aabefac7524100c3e04ec1d8b610efac0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 08/11] fix: Poseidon digest ignored everything after the first
 round's S-box

---
 hash/poseidon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..96925c8 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -74,19 +74,19 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 	for i := 0; i < p.nRoundsF; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF; i < p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		PartialRoundInplace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF + p.nRoundsP; i < 2*p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	// Recombine with the old state
-- 
2.43.0


From ecb8f75b087b64f5212c8ebd5b6a5f9eef8223ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 09/11] fix: close the trace file once tracing has stopped

---
 common/profiling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/profiling.go b/common/profiling.go
index 0e135e4..a1481f3 100644
--- a/common/profiling.go
+++ b/common/profiling.go
@@ -20,6 +20,7 @@ func ProfileTrace(b *testing.B, profiled, traced bool, fn func()) {
 		if err != nil {
 			panic(err)
 		}
+		defer f.Close()
 
 		err = trace.Start(f)
 		if err != nil {
-- 
2.43.0


From b67325b0c7a7df2f42fb33447da016dbae3cc28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 10/11] fix: random values report a failing entropy source
 instead of staying zero

---
 common/common.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/common.go b/common/common.go
index 028be00..abfd068 100644
--- a/common/common.go
+++ b/common/common.go
@@ -63,7 +63,9 @@ func FrToGenericArray(slice []fr.Element) []interface{} {
 func RandomFrArray(size int) []fr.Element {
 	res := make([]fr.Element, size)
 	for i := range res {
-		res[i].SetRandom()
+		if _, err := res[i].SetRandom(); err != nil {
+			panic(err)
+		}
 	}
 	return res
 }
@@ -74,7 +76,9 @@ func RandomFrDoubleSlice(nChunks, chunkSize int) [][]fr.Element {
 	for i := range res {
 		res[i] = make([]fr.Element, chunkSize)
 		for j := range res[i] {
-			res[i][j].SetRandom()
+			if _, err := res[i][j].SetRandom(); err != nil {
+				panic(err)
+			}
 		}
 	}
 	return res
-- 
2.43.0


From 2c504d525e655aa4ba5ebed9c5d53cf44213e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 11/11] fix: print field elements without gurvy's shared
 numbers

fr.Element's String, SetBytes, SetBigInt and SetString take big.Ints from a
pool whose members all start on the same words, so concurrent calls print
each other's values or panic. CipherGate.ID, which the prover and the
verifier use to tell gates apart, and PrettyStringFr went through it.
---
 circuit/gates.go | 7 ++++++-
 common/common.go | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..669989f 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -2,6 +2,7 @@ package circuit
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gurvy/bn256/fr"
@@ -152,7 +153,11 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+func (c *CipherGate) ID() string {
+	// fr.Element's String prints through memory shared by the whole process: it is not safe for concurrent use
+	var ark big.Int
+	return fmt.Sprintf("CipherGate-%v", c.Ark.ToBigIntRegular(&ark))
+}
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
diff --git a/common/common.go b/common/common.go
index abfd068..c15a501 100644
--- a/common/common.go
+++ b/common/common.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gurvy/bn256/fr"
 )
@@ -10,8 +11,10 @@ import (
 func PrettyStringFr(x fr.Element) string {
 	negX := x
 	negX.Neg(&negX)
-	negXStr := negX.String()
-	xStr := x.String()
+	// fr.Element's String prints through memory shared by the whole process: it is not safe for concurrent use
+	var bigX, bigNegX big.Int
+	negXStr := negX.ToBigIntRegular(&bigNegX).String()
+	xStr := x.ToBigIntRegular(&bigX).String()
 
 	if len(xStr) <= len(negXStr) {
 		return xStr
-- 
2.43.0

