From bc38d07a6bd0466b4e51c3b7b719e6e00b949393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 1/8] fix: perform range checks when the native range checker
 is selected

An empty switch case dropped every range check for a frontend that implements
frontend.Rangechecker.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From 7e0416f73f95acebf460a98820601e37e1ec98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 2/8] fix: bound the S-box quotients so that the reduction
 cannot wrap around

With a 192-bit quotient, MODULUS * quotient exceeds the BN254 scalar field and
a prover could use a second quotient/remainder pair, i.e. a different S-box
output.
---
 poseidon/goldilocks.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..f79c151 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,12 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	// x^3 and x^7 are less than 2^192, so the quotients by the Goldilocks modulus are less than 2^128.  A larger bound
+	// would let MODULUS * quotient wrap around the native field, and the remainder would not be unique.
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From e1262de4f94d0e76120df0ec1f2fdfc9ebf70660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 3/8] fix: do not overwrite the caller's openings in ToOpenings

append on the caller's slice writes to its backing array when it has spare
capacity.
---
 fri/fri.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fri/fri.go b/fri/fri.go
index 2e37f0f..f0dd6d0 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -61,7 +61,9 @@ func (f *Chip) GetInstance(zeta gl.QuadraticExtensionVariable) InstanceInfo {
 }
 
 func (f *Chip) ToOpenings(c variables.OpeningSet) Openings {
-	values := c.Constants                         // num_constants + 1
+	// Collect into a new slice, so that the backing array of c.Constants is never written to.
+	values := make([]gl.QuadraticExtensionVariable, 0, len(c.Constants)+len(c.PlonkSigmas)+len(c.Wires)+len(c.PlonkZs)+len(c.PartialProducts)+len(c.QuotientPolys))
+	values = append(values, c.Constants...)       // num_constants + 1
 	values = append(values, c.PlonkSigmas...)     // num_routed_wires
 	values = append(values, c.Wires...)           // num_wires
 	values = append(values, c.PlonkZs...)         // num_challenges
-- 
2.43.0


From 543e1d3038749b29ee46bc8bf81a285b8ed46672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 4/8] fix: reject gate ids that only contain a known gate id

The gate patterns are not anchored, so that e.g. "MyNoopGate" was evaluated as
NoopGate, i.e. without constraints.
---
 plonk/gates/gates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..2686bd3 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,8 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		// The whole id has to match: an id that merely contains a known one is an unknown gate.
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
-- 
2.43.0


From 81494f64f8aca74df5b4590326e70feabdcba857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 5/8] fix: validate the shape of the proof and the number of
 public inputs

plonky2 rejects a proof whose caps or openings, or whose public inputs, do not
have the number of elements the circuit prescribes.  The sponge does not pad,
so that e.g. public inputs [a] and [a, 0] were both accepted.
---
 verifier/verifier.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/verifier/verifier.go b/verifier/verifier.go
index 0d47f23..fcc1dc7 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -1,6 +1,8 @@
 package verifier
 
 import (
+	"fmt"
+
 	"github.com/consensys/gnark/frontend"
 	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
 	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
@@ -140,11 +142,44 @@ func (c *VerifierChip) rangeCheckProof(proof variables.Proof) {
 	c.glChip.RangeCheck(proof.OpeningProof.PowWitness)
 }
 
+// This does not add any constraints, it is just a sanity check on the shapes of the proof and the public inputs.
+// It's a port of validate_proof_with_pis_shape from plonk::validate_shape in plonky2 (the shape of the opening proof is
+// checked by the fri chip).
+func validateProofShape(proof variables.Proof, publicInputs []gl.Variable, commonData *types.CommonCircuitData) {
+	config := &commonData.Config
+	openings := &proof.Openings
+	capLen := uint64(1) << commonData.FriParams.Config.CapHeight
+
+	for _, check := range []struct {
+		name     string
+		actual   int
+		expected uint64
+	}{
+		{"wires cap", len(proof.WiresCap), capLen},
+		{"plonk zs partial products cap", len(proof.PlonkZsPartialProductsCap), capLen},
+		{"quotient polys cap", len(proof.QuotientPolysCap), capLen},
+		{"constants", len(openings.Constants), commonData.NumConstants},
+		{"plonk sigmas", len(openings.PlonkSigmas), config.NumRoutedWires},
+		{"wires", len(openings.Wires), config.NumWires},
+		{"plonk zs", len(openings.PlonkZs), config.NumChallenges},
+		{"plonk zs next", len(openings.PlonkZsNext), config.NumChallenges},
+		{"partial products", len(openings.PartialProducts), config.NumChallenges * commonData.NumPartialProducts},
+		{"quotient polys", len(openings.QuotientPolys), config.NumChallenges * commonData.QuotientDegreeFactor},
+		{"public inputs", len(publicInputs), commonData.NumPublicInputs},
+	} {
+		if uint64(check.actual) != check.expected {
+			panic(fmt.Sprintf("length of %s (%d) doesn't match the circuit's (%d)", check.name, check.actual, check.expected))
+		}
+	}
+}
+
 func (c *VerifierChip) Verify(
 	proof variables.Proof,
 	publicInputs []gl.Variable,
 	verifierData variables.VerifierOnlyCircuitData,
 ) {
+	validateProofShape(proof, publicInputs, &c.commonData)
+
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 439adeb678ed8f33f758c4187f62c6ac398562ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 6/8] fix: refuse a degenerate SRS

A contribution that consists of points at infinity satisfies the pairing
checks of the ceremony and those of the sanity check (as would any wrong
opening), so that an SRS that binds to nothing was saved.
---
 trusted_setup/trusted_setup.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trusted_setup/trusted_setup.go b/trusted_setup/trusted_setup.go
index cc01dae..e295fb3 100644
--- a/trusted_setup/trusted_setup.go
+++ b/trusted_setup/trusted_setup.go
@@ -11,6 +11,11 @@ import (
 )
 
 func sanityCheck(srs *kzg_bn254.SRS) {
+	// points at infinity satisfy all pairing checks, including those of wrong openings
+	if srs.Vk.G1.IsInfinity() || srs.Vk.G2[1].IsInfinity() {
+		log.Fatal("degenerate SRS: point at infinity")
+	}
+
 	// we can now use the SRS to verify a proof
 	// create a polynomial
 	f := randomPolynomial(60)
-- 
2.43.0


From 1ba8d67c79cc25fdd0c13a8ae1ce7defbcb2fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:35 +0000
Subject: [PATCH 7/8] fix: reject surplus commit phase merkle caps

Caps beyond the number of folding rounds were absorbed by the transcript but
never opened, so that a proof with such caps was accepted.
---
 fri/fri_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fri/fri_utils.go b/fri/fri_utils.go
index fe3b5a6..1ddd7ba 100644
--- a/fri/fri_utils.go
+++ b/fri/fri_utils.go
@@ -171,6 +171,10 @@ func validateFriProofShape(proof *variables.FriProof, instance InstanceInfo, par
 	queryRoundProofs := proof.QueryRoundProofs
 	finalPoly := proof.FinalPoly
 
+	if len(commitPhaseMerkleCaps) != len(params.ReductionArityBits) {
+		panic("number of commit_phase_merkle_caps does not match reduction_arity_bits")
+	}
+
 	capHeight := params.Config.CapHeight
 	for _, cap := range commitPhaseMerkleCaps {
 		if 1<<capHeight != len(cap) {
-- 
2.43.0


From 1973cfa68011ec5441b44973dc0e97f0b69b8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 8/8] fix: benchmark with groth16, dummy setup and -save
 crashed on the missing verifying key

---
 benchmark.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 1c7e862..40d716d 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -230,10 +230,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 			fVK, _ := os.Create("verifying.key")
 			vk.WriteTo(fVK)
 			fVK.Close()
-		}
 
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
+			fSolidity, _ := os.Create("proof.sol")
+			err = vk.ExportSolidity(fSolidity)
+		}
 	}
 
 	fmt.Println("Generating witness", time.Now())
-- 
2.43.0

