From 84f03ad6f409bd98fd0eb573ee127e30967780c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 01/11] fix: enforce range checks with a native range checker

The case for NATIVE_RANGE_CHECKER was empty, so with a builder that offers
frontend.Rangechecker no value was ever range checked.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From e54dab5c00ae5875c3cfc5681a25dc74a50f2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 02/11] fix: bound the quotients in the Poseidon S-box

With a 192 bit quotient, quotient * MODULUS + remainder can exceed the BN254
scalar field order, so a malicious prover could choose a wrong remainder.
---
 poseidon/goldilocks.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..74a1449 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,12 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	// The quotients of these 192 bit values are less than 2^128. A much wider bound (such as 192 bits)
+	// would let quotient * MODULUS wrap around the native field and admit wrong remainders.
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From 5c8bb4d8c62f4850a6e119e3d0265483bcfee574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 03/11] fix: refuse gate IDs that merely contain a supported
 gate's name

---
 plonk/gates/gates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..29724e4 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,8 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		// The whole ID has to match: an ID which merely contains the name of a supported gate is a different gate.
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
-- 
2.43.0


From 479dd0a235df957d51a0417f989bca55967ea070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 04/11] fix: refuse malformed decimal hashes when deserializing

---
 variables/deserialize.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/variables/deserialize.go b/variables/deserialize.go
index 33acaf3..aa1059d 100644
--- a/variables/deserialize.go
+++ b/variables/deserialize.go
@@ -9,12 +9,20 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/types"
 )
 
+// Parses a decimal encoded hash. Panics if it is malformed.
+func parseHash(raw string) *big.Int {
+	hash, ok := new(big.Int).SetString(raw, 10)
+	if !ok {
+		panic("invalid decimal hash: " + raw)
+	}
+	return hash
+}
+
 func DeserializeMerkleCap(merkleCapRaw []string) FriMerkleCap {
 	n := len(merkleCapRaw)
 	merkleCap := make([]poseidon.BN254HashOut, n)
 	for i := 0; i < n; i++ {
-		capBigInt, _ := new(big.Int).SetString(merkleCapRaw[i], 10)
-		merkleCap[i] = frontend.Variable(capBigInt)
+		merkleCap[i] = frontend.Variable(parseHash(merkleCapRaw[i]))
 	}
 	return merkleCap
 }
@@ -54,8 +62,7 @@ func StringArrayToHashBN254Array(rawHashes []string) []poseidon.BN254HashOut {
 	hashes := []poseidon.BN254HashOut{}
 
 	for i := 0; i < len(rawHashes); i++ {
-		hashBigInt, _ := new(big.Int).SetString(rawHashes[i], 10)
-		hashVar := frontend.Variable(hashBigInt)
+		hashVar := frontend.Variable(parseHash(rawHashes[i]))
 		hashes = append(hashes, poseidon.BN254HashOut(hashVar))
 	}
 
@@ -149,8 +156,7 @@ func DeserializeProofWithPublicInputs(raw types.ProofWithPublicInputsRaw) ProofW
 func DeserializeVerifierOnlyCircuitData(raw types.VerifierOnlyCircuitDataRaw) VerifierOnlyCircuitData {
 	var verifierOnlyCircuitData VerifierOnlyCircuitData
 	verifierOnlyCircuitData.ConstantSigmasCap = DeserializeMerkleCap(raw.ConstantsSigmasCap)
-	circuitDigestBigInt, _ := new(big.Int).SetString(raw.CircuitDigest, 10)
-	circuitDigestVar := frontend.Variable(circuitDigestBigInt)
+	circuitDigestVar := frontend.Variable(parseHash(raw.CircuitDigest))
 	verifierOnlyCircuitData.CircuitDigest = poseidon.BN254HashOut(circuitDigestVar)
 	return verifierOnlyCircuitData
 }
-- 
2.43.0


From 81b6f4e04b00060f9eff06eb434e96e87691b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 05/11] fix: validate the shapes of the proof and public inputs
 in Verify

Nothing compared the number of public inputs and openings with the circuit
data, so a public input vector padded with zeros, or openings with trailing
zeros, verified as well.
---
 verifier/verifier.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/verifier/verifier.go b/verifier/verifier.go
index 0d47f23..bb9971c 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -81,6 +81,44 @@ func (c *VerifierChip) GetChallenges(
 	}
 }
 
+// This does not add any constraints, it is just a sanity check on the shapes of the proof, public inputs and verifier
+// data. It's a port of validate_proof_with_pis_shape from plonk::validate_shape in plonky2. The shape of the remaining
+// parts of the opening proof is validated by the fri chip.
+func (c *VerifierChip) validateShape(
+	proof variables.Proof,
+	publicInputs []gl.Variable,
+	verifierData variables.VerifierOnlyCircuitData,
+) {
+	config := c.commonData.Config
+
+	if uint64(len(publicInputs)) != c.commonData.NumPublicInputs {
+		panic("number of public inputs does not match the circuit")
+	}
+
+	capLen := 1 << config.FriConfig.CapHeight
+	if len(verifierData.ConstantSigmasCap) != capLen ||
+		len(proof.WiresCap) != capLen ||
+		len(proof.PlonkZsPartialProductsCap) != capLen ||
+		len(proof.QuotientPolysCap) != capLen {
+		panic("merkle cap length does not match the config's cap_height")
+	}
+
+	openings := proof.Openings
+	if uint64(len(openings.Constants)) != c.commonData.NumConstants ||
+		uint64(len(openings.PlonkSigmas)) != config.NumRoutedWires ||
+		uint64(len(openings.Wires)) != config.NumWires ||
+		uint64(len(openings.PlonkZs)) != config.NumChallenges ||
+		uint64(len(openings.PlonkZsNext)) != config.NumChallenges ||
+		uint64(len(openings.PartialProducts)) != config.NumChallenges*c.commonData.NumPartialProducts ||
+		uint64(len(openings.QuotientPolys)) != config.NumChallenges*c.commonData.QuotientDegreeFactor {
+		panic("number of openings does not match the circuit")
+	}
+
+	if len(proof.OpeningProof.CommitPhaseMerkleCaps) != len(c.commonData.FriParams.ReductionArityBits) {
+		panic("number of commit phase merkle caps does not match the fri params")
+	}
+}
+
 func (c *VerifierChip) rangeCheckProof(proof variables.Proof) {
 	// Need to verify the plonky2 proof's openings, openings proof (other than the sibling elements), fri's final poly, pow witness.
 
@@ -145,6 +183,7 @@ func (c *VerifierChip) Verify(
 	publicInputs []gl.Variable,
 	verifierData variables.VerifierOnlyCircuitData,
 ) {
+	c.validateShape(proof, publicInputs, verifierData)
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 1dd4512a7f083948f92ddb4e9e51e14942495b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 06/11] fix: save the SRS atomically and check that it was
 closed

A failed or interrupted write left a truncated SRS under the final name, which
every later run then tried to use instead of downloading again.
---
 trusted_setup/trusted_setup.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trusted_setup/trusted_setup.go b/trusted_setup/trusted_setup.go
index cc01dae..fc4dcdf 100644
--- a/trusted_setup/trusted_setup.go
+++ b/trusted_setup/trusted_setup.go
@@ -130,15 +130,26 @@ func DownloadAndSaveAztecIgnitionSrs(startIdx int, fileName string) {
 	sanityCheck(&srs)
 	log.Println("success ✅: kzg sanity check with SRS")
 
-	fSRS, err := os.Create(fileName)
+	// Write to a temporary file first, so that neither a failed write nor a crash leaves an incomplete SRS under fileName.
+	tmpFileName := fileName + ".tmp"
+	fSRS, err := os.Create(tmpFileName)
 	if err != nil {
 		log.Fatal("error creating srs file: ", err)
 		panic(err)
 	}
-	defer fSRS.Close()
 
 	_, err = srs.WriteTo(fSRS)
+	if err == nil {
+		err = fSRS.Sync()
+	}
+	if closeErr := fSRS.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpFileName, fileName)
+	}
 	if err != nil {
+		os.Remove(tmpFileName)
 		log.Fatal("error writing srs file: ", err)
 		panic(err)
 	}
-- 
2.43.0


From 607ff4ff5295b0677968851d718a9ba987d099ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:22 +0000
Subject: [PATCH 07/11] fix: exit with an error when an artifact cannot be
 saved

---
 benchmark.go | 66 ++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 1c7e862..afbc078 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"io"
 	"math/big"
 	"os"
 	"time"
@@ -24,6 +25,28 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
 )
 
+// Writes an artifact to the given file, and exits with an error if it could not be saved completely.
+func writeArtifact(fileName string, write func(w io.Writer) error) {
+	f, err := os.Create(fileName)
+	if err == nil {
+		err = write(f)
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
+	}
+	if err != nil {
+		fmt.Println("error in saving", fileName, err)
+		os.Exit(1)
+	}
+}
+
+func saveArtifact(fileName string, artifact io.WriterTo) {
+	writeArtifact(fileName, func(w io.Writer) error {
+		_, err := artifact.WriteTo(w)
+		return err
+	})
+}
+
 func runBenchmark(plonky2Circuit string, proofSystem string, profileCircuit bool, dummy bool, saveArtifacts bool) {
 	commonCircuitData := types.ReadCommonCircuitData("testdata/" + plonky2Circuit + "/common_circuit_data.json")
 
@@ -117,6 +140,9 @@ func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool
 		}
 
 		fSRS, err := os.Open(fileName)
+		if err != nil {
+			panic(err)
+		}
 
 		_, err = srs.ReadFrom(fSRS)
 
@@ -135,27 +161,19 @@ func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool
 	}
 
 	if saveArtifacts {
-		fPK, _ := os.Create("proving.key")
-		pk.WriteTo(fPK)
-		fPK.Close()
+		saveArtifact("proving.key", pk)
 
 		if vk != nil {
-			fVK, _ := os.Create("verifying.key")
-			vk.WriteTo(fVK)
-			fVK.Close()
+			saveArtifact("verifying.key", vk)
+			writeArtifact("proof.sol", vk.ExportSolidity)
 		}
-
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
 	}
 
 	fmt.Println("Generating witness", time.Now())
 	witness, _ := frontend.NewWitness(&assignment, ecc.BN254.ScalarField())
 	publicWitness, _ := witness.Public()
 	if saveArtifacts {
-		fWitness, _ := os.Create("witness")
-		witness.WriteTo(fWitness)
-		fWitness.Close()
+		saveArtifact("witness", witness)
 	}
 
 	fmt.Println("Creating proof", time.Now())
@@ -165,9 +183,7 @@ func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool
 		os.Exit(1)
 	}
 	if saveArtifacts {
-		fProof, _ := os.Create("proof.proof")
-		proof.WriteTo(fProof)
-		fProof.Close()
+		saveArtifact("proof.proof", proof)
 	}
 
 	if vk == nil {
@@ -222,27 +238,19 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 	}
 
 	if saveArtifacts {
-		fPK, _ := os.Create("proving.key")
-		pk.WriteTo(fPK)
-		fPK.Close()
+		saveArtifact("proving.key", pk)
 
 		if vk != nil {
-			fVK, _ := os.Create("verifying.key")
-			vk.WriteTo(fVK)
-			fVK.Close()
+			saveArtifact("verifying.key", vk)
+			writeArtifact("proof.sol", vk.ExportSolidity)
 		}
-
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
 	}
 
 	fmt.Println("Generating witness", time.Now())
 	witness, _ := frontend.NewWitness(&assignment, ecc.BN254.ScalarField())
 	publicWitness, _ := witness.Public()
 	if saveArtifacts {
-		fWitness, _ := os.Create("witness")
-		witness.WriteTo(fWitness)
-		fWitness.Close()
+		saveArtifact("witness", witness)
 	}
 
 	fmt.Println("Creating proof", time.Now())
@@ -252,9 +260,7 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 		os.Exit(1)
 	}
 	if saveArtifacts {
-		fProof, _ := os.Create("proof.proof")
-		proof.WriteTo(fProof)
-		fProof.Close()
+		saveArtifact("proof.proof", proof)
 	}
 
 	if vk == nil {
-- 
2.43.0


From a9129005e0a824ebe43742e9c8140344eace1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 08/11] fix: accept circuits whose routed wires do not fill the
 last partial product

---
 plonk/plonk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/plonk.go b/plonk/plonk.go
index ac2348c..758cb6e 100644
--- a/plonk/plonk.go
+++ b/plonk/plonk.go
@@ -103,7 +103,8 @@ func (p *PlonkChip) checkPartialProducts(
 		ppStartIdx := i * quotDegreeFactor
 		numeProduct := numerators[ppStartIdx]
 		denoProduct := denominators[ppStartIdx]
-		for j := uint64(1); j < quotDegreeFactor; j++ {
+		// The last chunk is shorter if the number of routed wires is not a multiple of the quotient degree factor.
+		for j := uint64(1); j < quotDegreeFactor && ppStartIdx+j < uint64(len(numerators)); j++ {
 			numeProduct = glApi.MulExtension(numeProduct, numerators[ppStartIdx+j])
 			denoProduct = glApi.MulExtension(denoProduct, denominators[ppStartIdx+j])
 		}
-- 
2.43.0


From 46ffa112bda61958af2af90d914735aff4a18b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 09/11] fix: do not append the openings to the caller's slice

---
 fri/fri.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fri/fri.go b/fri/fri.go
index 2e37f0f..1ece342 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -61,7 +61,9 @@ func (f *Chip) GetInstance(zeta gl.QuadraticExtensionVariable) InstanceInfo {
 }
 
 func (f *Chip) ToOpenings(c variables.OpeningSet) Openings {
-	values := c.Constants                         // num_constants + 1
+	// Start from a fresh slice: appending to c.Constants would overwrite whatever shares its backing array.
+	var values []gl.QuadraticExtensionVariable
+	values = append(values, c.Constants...)       // num_constants + 1
 	values = append(values, c.PlonkSigmas...)     // num_routed_wires
 	values = append(values, c.Wires...)           // num_wires
 	values = append(values, c.PlonkZs...)         // num_challenges
-- 
2.43.0


From 901ea93e97f0056d4e0b67d6cf81d49d82ce55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 10/11] fix: refuse extension elements and evaluation proofs of
 the wrong length

---
 goldilocks/utils.go  |  5 ++++-
 types/deserialize.go | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/goldilocks/utils.go b/goldilocks/utils.go
index 3440c7f..938463e 100644
--- a/goldilocks/utils.go
+++ b/goldilocks/utils.go
@@ -34,13 +34,16 @@ func Uint64ArrayToVariableArray(input []uint64) []Variable {
 }
 
 func Uint64ArrayToQuadraticExtension(input []uint64) QuadraticExtensionVariable {
+	if len(input) != 2 {
+		panic("a quadratic extension element has two coefficients")
+	}
 	return NewQuadraticExtensionVariable(NewVariable(input[0]), NewVariable(input[1]))
 }
 
 func Uint64ArrayToQuadraticExtensionArray(input [][]uint64) []QuadraticExtensionVariable {
 	var output []QuadraticExtensionVariable
 	for i := 0; i < len(input); i++ {
-		output = append(output, NewQuadraticExtensionVariable(NewVariable(input[i][0]), NewVariable(input[i][1])))
+		output = append(output, Uint64ArrayToQuadraticExtension(input[i]))
 	}
 	return output
 }
diff --git a/types/deserialize.go b/types/deserialize.go
index 4a8780b..8ac2cc2 100644
--- a/types/deserialize.go
+++ b/types/deserialize.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"os"
 )
@@ -48,7 +49,14 @@ type EvalProofRaw struct {
 }
 
 func (e *EvalProofRaw) UnmarshalJSON(data []byte) error {
-	return json.Unmarshal(data, &[]interface{}{&e.LeafElements, &e.MerkleProof})
+	parts := []interface{}{&e.LeafElements, &e.MerkleProof}
+	if err := json.Unmarshal(data, &parts); err != nil {
+		return err
+	}
+	if len(parts) != 2 {
+		return fmt.Errorf("an evaluation proof has two parts, not %d", len(parts))
+	}
+	return nil
 }
 
 type MerkleProofRaw struct {
-- 
2.43.0


From 951530f40db1ebc767ca3555cda5d37bfddac3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 11/11] fix: refuse an artifact that could not be read to its
 end

---
 types/common_data.go |  5 ++++-
 types/deserialize.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/types/common_data.go b/types/common_data.go
index c3a6177..838b824 100644
--- a/types/common_data.go
+++ b/types/common_data.go
@@ -65,7 +65,10 @@ func ReadCommonCircuitData(path string) CommonCircuitData {
 	}
 
 	defer jsonFile.Close()
-	rawBytes, _ := io.ReadAll(jsonFile)
+	rawBytes, err := io.ReadAll(jsonFile)
+	if err != nil {
+		panic(err)
+	}
 
 	var raw CommonCircuitDataRaw
 	err = json.Unmarshal(rawBytes, &raw)
diff --git a/types/deserialize.go b/types/deserialize.go
index 8ac2cc2..9b769c6 100644
--- a/types/deserialize.go
+++ b/types/deserialize.go
@@ -104,7 +104,10 @@ func ReadProofWithPublicInputs(path string) ProofWithPublicInputsRaw {
 	}
 
 	defer jsonFile.Close()
-	rawBytes, _ := io.ReadAll(jsonFile)
+	rawBytes, err := io.ReadAll(jsonFile)
+	if err != nil {
+		panic(err)
+	}
 
 	var raw ProofWithPublicInputsRaw
 	err = json.Unmarshal(rawBytes, &raw)
@@ -122,7 +125,10 @@ func ReadVerifierOnlyCircuitData(path string) VerifierOnlyCircuitDataRaw {
 	}
 
 	defer jsonFile.Close()
-	rawBytes, _ := io.ReadAll(jsonFile)
+	rawBytes, err := io.ReadAll(jsonFile)
+	if err != nil {
+		panic(err)
+	}
 
 	var raw VerifierOnlyCircuitDataRaw
 	err = json.Unmarshal(rawBytes, &raw)
-- 
2.43.0

