From 58eaebc0bb20104fc5ca944eeb52431400ce61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 01/31] fix: make the power checks of phase 1 verification
 effective

The random linear combinations were computed with scalar and point slices of
different lengths, so MultiExp failed, its error was dropped, and every power
check compared points at infinity. The ratio of the TauG2 check was inverted,
which the ignored error hid.
---
 phase1/phase1.go |  2 +-
 phase1/utils.go  | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9ce4835 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(current.G1.Tau, g1, tau2L1, tau2L2) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..701fa79 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -182,8 +182,12 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
@@ -214,8 +218,12 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
-- 
2.43.0


From 7a526d267064f1f2b4f2a23d9217a2762f8b7655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 02/31] fix: link consecutive batches in phase 1 verification

Each batch of points was checked on its own, so the step from the last point of
a batch to the first point of the next one was never verified.
---
 phase1/utils.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/phase1/utils.go b/phase1/utils.go
index 701fa79..857b453 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -166,7 +166,7 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
+	var L1, L2, tmpL1, tmpL2, last bn254.G1Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -191,6 +191,17 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// Link the first point of the batch to the last one of the previous batch
+		if remaining != N {
+			var rBi big.Int
+			r[readCount-1].BigInt(&rBi)
+			tmpL1.ScalarMultiplication(&last, &rBi)
+			tmpL2.ScalarMultiplication(&buff[0], &rBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Update remaining
 		remaining -= readCount
 	}
@@ -202,7 +213,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
+	var L1, L2, tmpL1, tmpL2, last bn254.G2Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -227,6 +238,17 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// Link the first point of the batch to the last one of the previous batch
+		if remaining != N {
+			var rBi big.Int
+			r[readCount-1].BigInt(&rBi)
+			tmpL1.ScalarMultiplication(&last, &rBi)
+			tmpL2.ScalarMultiplication(&buff[0], &rBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Update remaining
 		remaining -= readCount
 	}
-- 
2.43.0


From a9e621d8ce4be8a0cee2bc61b29c4b22a1bdb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 03/31] fix: anchor the parameters in phase 1 verification

Only the ratios of consecutive points were verified, so parameters scaled by an
arbitrary factor were accepted: check that the powers start from the generators
and from the Alpha and Beta of the last contribution, and that the last
contribution holds the same Tau and Beta in both groups.
---
 phase1/phase1.go | 23 +++++++++++++++++++----
 phase1/utils.go  | 32 ++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9ce4835..f074f9b 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -294,25 +294,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1First, alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1First, betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2First, tau2L1, tau2L2, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -340,6 +340,21 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+	// Verify that the parameters start from the last contribution
+	fmt.Println("Verifying the first parameters")
+	if !tau1First.Equal(&g1) || !tau2First.Equal(&g2) {
+		return errors.New("powers of Tau do not start from the generators")
+	}
+	if !alphaTau1First.Equal(&current.G1.Alpha) {
+		return errors.New("failed verifying update of Alpha")
+	}
+	if !betaTau1First.Equal(&current.G1.Beta) {
+		return errors.New("failed verifying update of Beta")
+	}
+	if !common.SameRatio(current.G1.Tau, g1, g2, current.G2.Tau) || !common.SameRatio(current.G1.Beta, g1, g2, current.G2.Beta) {
+		return errors.New("parameters in G1 and G2 do not match")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
diff --git a/phase1/utils.go b/phase1/utils.go
index 857b453..4fc4a6b 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,12 +161,14 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// Returns the first point, and two random linear combinations of which the second
+// is τ times the first one iff the N points are successive multiples by τ
+func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2, last bn254.G1Affine
+	var L1, L2, tmpL1, tmpL2, first, last bn254.G1Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -174,7 +176,7 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -183,10 +185,10 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -199,21 +201,25 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 			tmpL2.ScalarMultiplication(&buff[0], &rBi)
 			L1.Add(&L1, &tmpL1)
 			L2.Add(&L2, &tmpL2)
+		} else {
+			first.Set(&buff[0])
 		}
 		last.Set(&buff[readCount-1])
 
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+// Returns the first point, and two random linear combinations of which the second
+// is τ times the first one iff the N points are successive multiples by τ
+func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2, last bn254.G2Affine
+	var L1, L2, tmpL1, tmpL2, first, last bn254.G2Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -221,7 +227,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -230,10 +236,10 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -246,13 +252,15 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 			tmpL2.ScalarMultiplication(&buff[0], &rBi)
 			L1.Add(&L1, &tmpL1)
 			L2.Add(&L2, &tmpL2)
+		} else {
+			first.Set(&buff[0])
 		}
 		last.Set(&buff[readCount-1])
 
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
-- 
2.43.0


From 6a22b80d087aa28cb1c004a473e08b01fad40a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 04/31] fix: reject points at infinity in phase 1 contributions

With S = SX = 0 the proof of knowledge and the checks of the G2 updates hold for
any value, and a zero secret was accepted.
---
 phase1/utils.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/phase1/utils.go b/phase1/utils.go
index 4fc4a6b..07a7e15 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -264,6 +264,18 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// Secrets must be non-zero, otherwise the checks below hold trivially
+	for _, p := range []*bn254.G1Affine{
+		&current.G1.Tau, &current.G1.Alpha, &current.G1.Beta,
+		&current.PublicKeys.Tau.S, &current.PublicKeys.Tau.SX,
+		&current.PublicKeys.Alpha.S, &current.PublicKeys.Alpha.SX,
+		&current.PublicKeys.Beta.S, &current.PublicKeys.Beta.SX,
+	} {
+		if p.IsInfinity() {
+			return errors.New("contribution has a point at infinity")
+		}
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
-- 
2.43.0


From 14dc2c7b584b11b4b32d2753e2e8496308508268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 05/31] fix: reject files without contributions in phase 1
 verification

An error reading a contribution was ignored, and a file with no contributions
was compared with points at infinity.
---
 phase1/phase1.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index f074f9b..736cc38 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -286,6 +286,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
@@ -330,7 +333,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From 1fa25a96abf2102f02a3e5727070e70a7567bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 06/31] fix: do not accept short reads in phase 1 files

A single Read may return fewer bytes than asked, at the end of a truncated file
or at a buffer boundary, and the rest of the hash was silently left zero.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
-- 
2.43.0


From c83e3099cd4ad510c6dd7e592d3cc3c7c2a06c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 07/31] fix: reject unsupported powers in phase 1

A header with power 0 or 63 and above crashed Contribute and Verify, Initialize
wrote a file without parameters for powers whose number of points overflows,
and Transform read the wrong sections when asked for a higher power.
---
 phase1/header.go | 14 ++++++++++++++
 phase1/phase1.go | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/phase1/header.go b/phase1/header.go
index 7fe661a..73ff951 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -2,9 +2,20 @@ package phase1
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
+// MaxPower is the largest power for which BN254 has a domain of roots of unity
+const MaxPower = 28
+
+func checkPower(power byte) error {
+	if power < 1 || power > MaxPower {
+		return fmt.Errorf("unsupported power %d", power)
+	}
+	return nil
+}
+
 type Header struct {
 	Power         byte
 	Contributions uint16
@@ -17,6 +28,9 @@ func (p *Header) ReadFrom(reader io.Reader) error {
 		return err
 	}
 	p.Power = buffPower[0]
+	if err := checkPower(p.Power); err != nil {
+		return err
+	}
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 736cc38..5a33ac1 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -15,6 +15,15 @@ import (
 )
 
 func Transform(inputPath, outputPath string, inPower, outPower byte) error {
+	if err := checkPower(inPower); err != nil {
+		return err
+	}
+	if err := checkPower(outPower); err != nil {
+		return err
+	}
+	if outPower > inPower {
+		return errors.New("cannot transform to a higher power")
+	}
 	// Input file is in uncompressed representation
 	const G1Size = 64
 	const G2Size = 128
@@ -83,6 +92,9 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 }
 
 func Initialize(power byte, outputPath string) error {
+	if err := checkPower(power); err != nil {
+		return err
+	}
 	_, _, g1, g2 := bn254.Generators()
 	// output outputFile
 	outputFile, err := os.Create(outputPath)
-- 
2.43.0


From 56239cf15122371daa0a865de7334542a4e7d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 08/31] fix: refuse the contribution that overflows the phase 1
 header

The counter is 16 bits wide and wrapped to zero, dropping all the records.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 5a33ac1..65352dc 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -182,6 +182,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("the file can't hold more contributions")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From 195fd0c0996fcb00eff0ec763f2578463ee0300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 09/31] fix: check the range of powers on the command line

Powers were truncated to a byte: p1n -- -255 and p1t with 257 used power 1.
---
 actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..3a2fca4 100644
--- a/actions.go
+++ b/actions.go
@@ -29,6 +29,9 @@ func p1t(cCtx *cli.Context) error {
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
+	if outPower < 1 || inPower > phase1.MaxPower {
+		return errors.New("unsupported power")
+	}
 	err = phase1.Transform(inputPath, outputPath, byte(inPower), byte(outPower))
 	return err
 }
@@ -46,6 +49,9 @@ func p1n(cCtx *cli.Context) error {
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	outputPath := cCtx.Args().Get(1)
 	err = phase1.Initialize(byte(power), outputPath)
 	return err
-- 
2.43.0


From c55dc957614b7d5058d70388cd404d3234c93697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 10/31] fix: report write errors in phase 1

---
 phase1/phase1.go | 20 +++++++++++++++-----
 phase1/utils.go  |  6 ++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 65352dc..9459ca4 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -109,12 +109,13 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
 	writer := bufio.NewWriterSize(outputFile, buffSize)
-	defer writer.Flush()
 
 	// BN254 encoder using compressed representation of points to save storage space
 	enc := bn254.NewEncoder(writer)
@@ -154,7 +155,12 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -193,7 +199,6 @@ func Contribute(inputPath, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -279,7 +284,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index 07a7e15..d8bda75 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -325,7 +325,6 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -338,7 +337,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -348,7 +347,6 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -361,5 +359,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
-- 
2.43.0


From feb3e6eadd5edbef0d1ca55f3e9f4f7755647896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 11/31] fix: report write errors in phase 2

---
 phase2/lagrange.go |  6 ++----
 phase2/parted.go   |  8 +++++---
 phase2/phase2.go   |  8 ++++++--
 phase2/utils.go    | 11 ++++++-----
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..b956cd7 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -17,7 +17,6 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -34,7 +33,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -45,7 +44,6 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -62,5 +60,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..553b31a 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -210,7 +210,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -262,6 +261,10 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		}
 	}
 
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+
 	// VKK
 	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
@@ -269,7 +272,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -286,5 +288,5 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
-	return nil
+	return evalWriter.Flush()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..963e515 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -72,7 +72,6 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Read/Write header with extra contribution
@@ -154,7 +153,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..bea92a9 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -229,7 +229,6 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Processing Delta and Z")
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Write [δ]₁ and [δ]₂
@@ -271,7 +270,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -296,7 +295,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -345,6 +343,10 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		}
 	}
 
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+
 	// VKK
 	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
@@ -352,7 +354,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -369,7 +370,7 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	return nil
+	return evalWriter.Flush()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From a5780d753851c972d4649d4dd542c14955e04d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 12/31] fix: report write errors of the keys

---
 keys/keys.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..42281e1 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -103,7 +103,6 @@ func extractPK(phase2Path string) error {
 	}
 	defer pkFile.Close()
 	pkWriter := bufio.NewWriter(pkFile)
-	defer pkWriter.Flush()
 	encPk := bn254.NewEncoder((pkWriter))
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -111,7 +110,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,7 +235,7 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	return pkWriter.Flush()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -271,7 +272,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkEFile.Close()
 	pkEWriter := bufio.NewWriter(pkEFile)
-	defer pkEWriter.Flush()
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
@@ -281,7 +281,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkAFile.Close()
 	pkAWriter := bufio.NewWriter(pkAFile)
-	defer pkAWriter.Flush()
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
@@ -291,7 +290,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB1File.Close()
 	pkB1Writer := bufio.NewWriter(pkB1File)
-	defer pkB1Writer.Flush()
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
@@ -301,7 +299,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkZFile.Close()
 	pkZWriter := bufio.NewWriter(pkZFile)
-	defer pkZWriter.Flush()
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
@@ -311,7 +308,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkKFile.Close()
 	pkKWriter := bufio.NewWriter(pkKFile)
-	defer pkKWriter.Flush()
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
@@ -321,7 +317,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB2File.Close()
 	pkB2Writer := bufio.NewWriter(pkB2File)
-	defer pkB2Writer.Flush()
 	encPkB2 := bn254.NewEncoder(pkB2Writer, bn254.RawEncoding())
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -458,6 +453,11 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, w := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := w.Flush(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -495,7 +495,6 @@ func extractVK(phase2Path string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -548,7 +547,7 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	return vkWriter.Flush()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -586,7 +585,6 @@ func extractSplitVK(phase2Path, session string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -639,6 +637,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
-- 
2.43.0


From 9a34ec5c3df080fc0e6d171d37f1fa8a77fa1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 13/31] fix: do not overwrite an input with the output

---
 common/file.go   | 18 ++++++++++++++++++
 phase1/phase1.go |  4 ++--
 phase2/parted.go |  3 ++-
 phase2/phase2.go |  4 ++--
 4 files changed, 24 insertions(+), 5 deletions(-)
 create mode 100644 common/file.go

diff --git a/common/file.go b/common/file.go
new file mode 100644
index 0000000..126410b
--- /dev/null
+++ b/common/file.go
@@ -0,0 +1,18 @@
+package common
+
+import (
+	"fmt"
+	"os"
+)
+
+// CreateOutput creates the file at outputPath, unless that would destroy one of the inputs
+func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+	if out, err := os.Stat(outputPath); err == nil {
+		for _, inputPath := range inputPaths {
+			if in, err := os.Stat(inputPath); err == nil && os.SameFile(in, out) {
+				return nil, fmt.Errorf("output %s is the same file as input %s", outputPath, inputPath)
+			}
+		}
+	}
+	return os.Create(outputPath)
+}
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9459ca4..96489b0 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -37,7 +37,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 	defer inputFile.Close()
 
 	// Output file is in compressed representation
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
@@ -175,7 +175,7 @@ func Contribute(inputPath, outputPath string) error {
 	defer inputFile.Close()
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index 553b31a..723adc5 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
@@ -21,7 +22,7 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 963e515..49f8188 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -19,7 +19,7 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path, r1csPath)
 	if err != nil {
 		return err
 	}
@@ -66,7 +66,7 @@ func Contribute(inputPath, outputPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 287a109a1338e9040e22a0bb3c2a6c0ff327642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 14/31] fix: do not accept truncated phase 2 files

---
 phase2/contribution.go | 2 +-
 phase2/utils.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase2/utils.go b/phase2/utils.go
index bea92a9..626bdd1 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -475,7 +475,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From 52e28873f563f5ec3be7b3880af1c516f9b0b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 15/31] fix: reject points at infinity in phase 2 contributions

---
 phase2/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase2/utils.go b/phase2/utils.go
index 626bdd1..42013e4 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -451,6 +451,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// δ must be non-zero, otherwise the checks below hold trivially
+	if c.Delta.IsInfinity() || c.PublicKey.S.IsInfinity() || c.PublicKey.SX.IsInfinity() {
+		return errors.New("contribution has a point at infinity")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From 5484e99f292651a949447405fbdf4f7ca60306f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 16/31] fix: separate committed and public wires

---
 phase2/utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 42013e4..77aa91e 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -545,11 +545,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	pkk := make([]bn254.G1Affine, header2.Witness)
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
+	nbPublic := header2.Public
+	if cmtInfo.Is() { // the header counts the commitment as public
+		nbPublic--
+	}
 	vI, cI := 0, 0
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 67a4b2fd59a2f8b8614d697c2ca0e28f1e3c9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 17/31] fix: evaluate the lazy constraints in phase 2
 initialization

---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 77aa91e..79fb292 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -176,7 +176,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -189,7 +190,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -213,7 +215,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -306,7 +309,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -317,7 +321,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -328,7 +333,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From a1d10d6f002ea763078e800cf72e4a2ff773be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 18/31] fix: reject too large circuits with an error

---
 phase2/parted.go | 2 +-
 phase2/utils.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/phase2/parted.go b/phase2/parted.go
index 723adc5..bf6c4e0 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -72,7 +72,6 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	var header1 phase1.Header
 
 	header2.Constraints = nbCons
-	header2.Domain = nextPowerofTwo(header2.Constraints)
 
 	// Check if phase 1 power can support the current #Constraints
 	if err := header1.ReadFrom(phase1File); err != nil {
@@ -82,6 +81,7 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
 	}
+	header2.Domain = nextPowerofTwo(header2.Constraints)
 
 	// Initialize Domain, #Wires, #Witness, #Public, #PrivateCommitted
 	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
diff --git a/phase2/utils.go b/phase2/utils.go
index 79fb292..d6c5d1d 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -23,7 +23,7 @@ import (
 
 func nextPowerofTwo(number int) int {
 	res := 2
-	for i := 1; i < 28; i++ { // max power is 28
+	for i := 1; i <= 28; i++ { // max power is 28
 		if res >= number {
 			return res
 		} else {
@@ -51,7 +51,6 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 		return nil, nil, err
 	}
 	header2.Constraints = r1cs.GetNbConstraints()
-	header2.Domain = nextPowerofTwo(header2.Constraints)
 
 	// Check if phase 1 power can support the current #Constraints
 	if err := header1.ReadFrom(phase1File); err != nil {
@@ -61,6 +60,7 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
 	}
+	header2.Domain = nextPowerofTwo(header2.Constraints)
 	// Initialize Domain, #Wires, #Witness, #Public, #PrivateCommitted
 	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
 	header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
-- 
2.43.0


From 332d301e0953f59d2b975153643059718120eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 19/31] fix: validate the phase 2 header

---
 phase2/header.go | 21 +++++++++++++++++++++
 phase2/utils.go  |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/phase2/header.go b/phase2/header.go
index 9485872..d2ed8d0 100644
--- a/phase2/header.go
+++ b/phase2/header.go
@@ -2,7 +2,12 @@ package phase2
 
 import (
 	"encoding/gob"
+	"errors"
+	"fmt"
 	"io"
+	"math"
+
+	"github.com/bnb-chain/zkbnb-setup/phase1"
 )
 
 type Header struct {
@@ -20,6 +25,22 @@ func (h *Header) Read(reader io.Reader) error {
 	if err := dec.Decode(h); err != nil {
 		return err
 	}
+	return h.validate()
+}
+
+// validate checks that the sizes are those of some circuit
+func (h *Header) validate() error {
+	for _, n := range []int{h.Wires, h.Witness, h.Public, h.PrivateCommitted, h.Constraints, h.Contributions} {
+		if n < 0 || n > math.MaxInt32 {
+			return fmt.Errorf("invalid size %d in phase 2 header", n)
+		}
+	}
+	if h.Domain < 2 || h.Domain > 1<<phase1.MaxPower || h.Domain&(h.Domain-1) != 0 || h.Constraints > h.Domain {
+		return fmt.Errorf("invalid domain %d in phase 2 header", h.Domain)
+	}
+	if h.Witness+h.Public+h.PrivateCommitted != h.Wires {
+		return errors.New("invalid number of wires in phase 2 header")
+	}
 	return nil
 }
 
diff --git a/phase2/utils.go b/phase2/utils.go
index d6c5d1d..27c47a9 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -501,7 +501,7 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(size), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
-	r := make([]fr.Element, size)
+	r := make([]fr.Element, initialSize)
 
 	remaining := size
 	for remaining > 0 {
-- 
2.43.0


From b1b00f6aade849e5a6656b54ff92ab1488029353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 20/31] fix: check the arguments of the parted initialization

---
 phase2/parted.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index bf6c4e0..21b28a5 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -3,6 +3,7 @@ package phase2
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -16,6 +17,10 @@ import (
 )
 
 func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nbR1C, batchSize int) error {
+	if err := checkParts(session, nbR1C, batchSize); err != nil {
+		return err
+	}
+
 	phase1File, err := os.Open(phase1Path)
 	if err != nil {
 		return err
@@ -33,6 +38,9 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	cs := &cs_bn254.R1CS{}
 	// support nbR1C is small
 	cs.LoadFromSplitBinaryConcurrent(session, nbR1C, batchSize, runtime.NumCPU())
+	if cs.GetNbConstraints() != nbCons {
+		return fmt.Errorf("the circuit has %d constraints instead of %d", cs.GetNbConstraints(), nbCons)
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
@@ -64,6 +72,29 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
+// checkParts checks that the parts of the R1CS exist, as loading panics without them
+func checkParts(session string, nbR1C, batchSize int) error {
+	if nbR1C < 0 || batchSize < 1 {
+		return errors.New("invalid number of R1C or batch size")
+	}
+	for _, part := range []string{"E1", "E11", "E2", "E3", "E4"} {
+		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.%s.save", session, part)); err != nil {
+			return err
+		}
+	}
+	for start := 0; start < nbR1C; {
+		end := nbR1C
+		if batchSize < nbR1C-start {
+			end = start + batchSize
+		}
+		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.Cons.%d.%d.save", session, start, end)); err != nil {
+			return err
+		}
+		start = end
+	}
+	return nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
-- 
2.43.0


From e30d3efba04dd2b65be40762312ea17916385d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 21/31] fix: put the commitment info into the verifying key

---
 keys/keys.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 42281e1..abd3c59 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -540,6 +540,9 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
@@ -630,6 +633,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
-- 
2.43.0


From ba6b72af5054ed2ebd05a2dc3a8466fa49c6e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 22/31] fix: write the split commitment key once

---
 keys/keys.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index abd3c59..dc8efa9 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -654,7 +654,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
-- 
2.43.0


From fc9bb4493f6d2fdb6375740bc686c45a9fc637f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 23/31] fix: return the errors of the Solidity export

---
 keys/keys.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index dc8efa9..3625616 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -690,20 +690,22 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
-	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	vkFile, err := os.Open(session + ".vk.save")
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return err
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
-	if err != nil {
-		panic(err)
+	defer vkFile.Close()
+	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
+	if _, err := verifyingKey.ReadFrom(vkFile); err != nil {
+		return err
 	}
-	err = verifyingKey.ExportSolidity(f)
+	f, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
+	}
+	defer f.Close()
+	if err := verifyingKey.ExportSolidity(f); err != nil {
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
-- 
2.43.0


From 01ecb7babbf3741c7cadcbf9db619c9734bc863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 24/31] fix: check the file size before extracting keys

---
 keys/keys.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 3625616..261d689 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -3,6 +3,7 @@ package keys
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -70,6 +71,18 @@ func (vk *VerifyingKey) writeTo(w io.Writer) (int64, error) {
 	return n + enc.BytesWritten(), nil
 }
 
+// checkSize checks that the file can hold as many points as its header tells
+func checkSize(phase2File *os.File, header *phase2.Header) error {
+	info, err := phase2File.Stat()
+	if err != nil {
+		return err
+	}
+	if info.Size() < bn254.SizeOfG1AffineCompressed*(int64(header.Domain)-1+int64(header.Witness)) {
+		return errors.New("phase 2 file is too short")
+	}
+	return nil
+}
+
 func extractPK(phase2Path string) error {
 	// Phase 2 file
 	phase2File, err := os.Open(phase2Path)
@@ -93,6 +106,9 @@ func extractPK(phase2Path string) error {
 	if err := header.Read(ph2Reader); err != nil {
 		return err
 	}
+	if err := checkSize(phase2File, &header); err != nil {
+		return err
+	}
 
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
@@ -261,6 +277,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := header.Read(ph2Reader); err != nil {
 		return err
 	}
+	if err := checkSize(phase2File, &header); err != nil {
+		return err
+	}
 
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
-- 
2.43.0


From 1a94882cde675e76856190febbbe9fbe20ca9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 25/31] fix: do not overwrite the inputs of the key extraction

---
 common/file.go | 14 +++++++++++---
 keys/keys.go   | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/common/file.go b/common/file.go
index 126410b..9b08dd5 100644
--- a/common/file.go
+++ b/common/file.go
@@ -5,14 +5,22 @@ import (
 	"os"
 )
 
-// CreateOutput creates the file at outputPath, unless that would destroy one of the inputs
-func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+// CheckOutput checks that writing the file at outputPath does not destroy one of the inputs
+func CheckOutput(outputPath string, inputPaths ...string) error {
 	if out, err := os.Stat(outputPath); err == nil {
 		for _, inputPath := range inputPaths {
 			if in, err := os.Stat(inputPath); err == nil && os.SameFile(in, out) {
-				return nil, fmt.Errorf("output %s is the same file as input %s", outputPath, inputPath)
+				return fmt.Errorf("output %s is the same file as %s", outputPath, inputPath)
 			}
 		}
 	}
+	return nil
+}
+
+// CreateOutput creates the file at outputPath, unless that would destroy one of the inputs
+func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+	if err := CheckOutput(outputPath, inputPaths...); err != nil {
+		return nil, err
+	}
 	return os.Create(outputPath)
 }
diff --git a/keys/keys.go b/keys/keys.go
index 261d689..6ff5ddb 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase2"
 	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
@@ -113,7 +114,7 @@ func extractPK(phase2Path string) error {
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
 
-	pkFile, err := os.Create("pk")
+	pkFile, err := common.CreateOutput("pk", phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -285,7 +286,7 @@ func extractSplitPK(phase2Path, session string) error {
 	decEvals := bn254.NewDecoder(evalsReader)
 
 	name := fmt.Sprintf("%s.pk.E.save", session)
-	pkEFile, err := os.Create(name)
+	pkEFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -294,7 +295,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
-	pkAFile, err := os.Create(name)
+	pkAFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -303,7 +304,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
-	pkB1File, err := os.Create(name)
+	pkB1File, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -312,7 +313,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
-	pkZFile, err := os.Create(name)
+	pkZFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -321,7 +322,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
-	pkKFile, err := os.Create(name)
+	pkKFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -330,7 +331,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
-	pkB2File, err := os.Create(name)
+	pkB2File, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -508,7 +509,7 @@ func extractVK(phase2Path string) error {
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
 
-	vkFile, err := os.Create("vk")
+	vkFile, err := common.CreateOutput("vk", phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -601,7 +602,7 @@ func extractSplitVK(phase2Path, session string) error {
 	decEvals := bn254.NewDecoder(evalsReader)
 
 	name := fmt.Sprintf("%s.vk.save", session)
-	vkFile, err := os.Create(name)
+	vkFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
@@ -668,7 +669,7 @@ func extractSplitVK(phase2Path, session string) error {
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
-	commitmentKeyFile, err := os.Create(name)
+	commitmentKeyFile, err := common.CreateOutput(name, phase2Path, "evals")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4dae1eaeea671dd4330c3738ca32c47db78191b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 26/31] fix: do not overwrite inputs with srs.lag, evals or the
 phase 2 file

---
 phase2/parted.go | 29 +++++++++++++++++++----------
 phase2/phase2.go |  3 +++
 phase2/utils.go  | 10 ++++++++++
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/phase2/parted.go b/phase2/parted.go
index 21b28a5..74e25a8 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -17,7 +17,8 @@ import (
 )
 
 func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nbR1C, batchSize int) error {
-	if err := checkParts(session, nbR1C, batchSize); err != nil {
+	parts, err := checkParts(session, nbR1C, batchSize)
+	if err != nil {
 		return err
 	}
 
@@ -27,11 +28,14 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
+	phase2File, err := common.CreateOutput(phase2Path, append(parts, phase1Path)...)
 	if err != nil {
 		return err
 	}
 	defer phase2File.Close()
+	if err := checkAuxOutputs(append(parts, phase1Path, phase2Path)...); err != nil {
+		return err
+	}
 
 	// Read R1CS
 	fmt.Println("Reading R1CS...")
@@ -72,27 +76,32 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
-// checkParts checks that the parts of the R1CS exist, as loading panics without them
-func checkParts(session string, nbR1C, batchSize int) error {
+// checkParts checks that the parts of the R1CS exist, as loading panics without them, and returns their paths
+func checkParts(session string, nbR1C, batchSize int) ([]string, error) {
 	if nbR1C < 0 || batchSize < 1 {
-		return errors.New("invalid number of R1C or batch size")
+		return nil, errors.New("invalid number of R1C or batch size")
 	}
+	var parts []string
 	for _, part := range []string{"E1", "E11", "E2", "E3", "E4"} {
-		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.%s.save", session, part)); err != nil {
-			return err
+		path := fmt.Sprintf("%s.r1cs.%s.save", session, part)
+		if _, err := os.Stat(path); err != nil {
+			return nil, err
 		}
+		parts = append(parts, path)
 	}
 	for start := 0; start < nbR1C; {
 		end := nbR1C
 		if batchSize < nbR1C-start {
 			end = start + batchSize
 		}
-		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.Cons.%d.%d.save", session, start, end)); err != nil {
-			return err
+		path := fmt.Sprintf("%s.r1cs.Cons.%d.%d.save", session, start, end)
+		if _, err := os.Stat(path); err != nil {
+			return nil, err
 		}
+		parts = append(parts, path)
 		start = end
 	}
-	return nil
+	return parts, nil
 }
 
 // processHeaderParted r1cs has no R1CCore.Constraints included
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 49f8188..56687e4 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -24,6 +24,9 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 		return err
 	}
 	defer phase2File.Close()
+	if err := checkAuxOutputs(phase1Path, r1csPath, phase2Path); err != nil {
+		return err
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeader(r1csPath, phase1File, phase2File)
diff --git a/phase2/utils.go b/phase2/utils.go
index 27c47a9..d6afa2d 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -81,6 +81,16 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 	return &header1, &header2, nil
 }
 
+// checkAuxOutputs checks that the files which are written besides the phase 2 file are none of the given ones
+func checkAuxOutputs(paths ...string) error {
+	for _, output := range []string{"srs.lag", "evals"} {
+		if err := common.CheckOutput(output, paths...); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func processLagrange(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Converting to Lagrange basis ...")
 	domain := fft.NewDomain(uint64(header2.Domain))
-- 
2.43.0


From b881717ed21f8393e73a06fd1ff26126f15033cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 27/31] fix: check that the evaluations belong to the phase 2
 file

---
 keys/keys.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 6ff5ddb..ca21cb4 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -84,6 +84,14 @@ func checkSize(phase2File *os.File, header *phase2.Header) error {
 	return nil
 }
 
+// checkLength checks that the evaluations are of the circuit of the phase 2 file
+func checkLength(length, expected int) error {
+	if length != expected {
+		return fmt.Errorf("the evaluations have %d points instead of %d", length, expected)
+	}
+	return nil
+}
+
 func extractPK(phase2Path string) error {
 	// Phase 2 file
 	phase2File, err := os.Open(phase2Path)
@@ -169,6 +177,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG1), header.Wires); err != nil {
+		return err
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -178,6 +189,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG1), header.Wires); err != nil {
+		return err
+	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -220,6 +234,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG2), header.Wires); err != nil {
+		return err
+	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
 	if err := encPk.Encode(buffG2); err != nil {
 		return err
@@ -390,6 +407,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG1), header.Wires); err != nil {
+		return err
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPkA.Encode(buffG1); err != nil {
 		return err
@@ -399,6 +419,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG1), header.Wires); err != nil {
+		return err
+	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
 	if err := encPkB1.Encode(buffG1); err != nil {
 		return err
@@ -441,6 +464,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
+	if err := checkLength(len(buffG2), header.Wires); err != nil {
+		return err
+	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
 	if err := encPkB2.Encode(buffG2); err != nil {
 		return err
@@ -554,12 +580,18 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if err := checkLength(len(vk.G1.K), header.Public); err != nil {
+		return err
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := checkLength(len(ckk), header.PrivateCommitted); err != nil {
+		return err
+	}
 	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
 		return err
 	}
@@ -647,12 +679,18 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if err := checkLength(len(vk.G1.K), header.Public); err != nil {
+		return err
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := checkLength(len(ckk), header.PrivateCommitted); err != nil {
+		return err
+	}
 	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
 		return err
 	}
-- 
2.43.0


From 49bac4e2a10f1d977a9c3d0544463f257f906642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 28/31] fix: fail without randomness instead of using zero as a
 secret

---
 common/keypair.go |  8 +++++---
 common/utils.go   | 19 +++++++++++++++++++
 phase1/phase1.go  | 20 ++++++++++++++------
 phase1/utils.go   | 16 ++++++----------
 phase2/phase2.go  |  8 ++++++--
 phase2/utils.go   |  8 +++-----
 6 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..c417af5 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -13,13 +13,15 @@ type PublicKey struct {
 	SPX bn254.G2Affine
 }
 
-func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
+func GenPublicKey(x fr.Element, challenge []byte, dst byte) (PublicKey, error) {
 	var pk PublicKey
 	_, _, g1, _ := bn254.Generators()
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	if _, err := s.SetRandom(); err != nil {
+		return pk, err
+	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
@@ -33,7 +35,7 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	// compute x*spG2
 	pk.SPX.ScalarMultiplication(&SP, &xBi)
-	return pk
+	return pk, nil
 }
 
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
diff --git a/common/utils.go b/common/utils.go
index e88726a..cb14402 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -2,10 +2,29 @@ package common
 
 import (
 	"math/bits"
+	"sync"
 
 	"github.com/consensys/gnark-crypto/ecc/bn254"
+	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
 )
 
+// Randomize sets the elements to random values, or returns why there is no randomness
+func Randomize(r []fr.Element) error {
+	var mu sync.Mutex
+	var failure error
+	Parallelize(len(r), func(start, end int) {
+		for i := start; i < end; i++ {
+			if _, err := r[i].SetRandom(); err != nil {
+				mu.Lock()
+				failure = err
+				mu.Unlock()
+				return
+			}
+		}
+	})
+	return failure
+}
+
 func BitReverseG1(a []bn254.G1Affine) {
 	n := uint64(len(a))
 	nn := uint64(64 - bits.TrailingZeros64(n))
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 96489b0..d5556ad 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -206,9 +206,11 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	for _, secret := range []*fr.Element{&tau, &alpha, &beta} {
+		if _, err := secret.SetRandom(); err != nil {
+			return err
+		}
+	}
 	one.SetOne()
 
 	var contribution Contribution
@@ -278,9 +280,15 @@ func Contribute(inputPath, outputPath string) error {
 	}
 
 	// Generate public keys
-	contribution.PublicKeys.Tau = common.GenPublicKey(tau, prevHash, 1)
-	contribution.PublicKeys.Alpha = common.GenPublicKey(alpha, prevHash, 2)
-	contribution.PublicKeys.Beta = common.GenPublicKey(beta, prevHash, 3)
+	if contribution.PublicKeys.Tau, err = common.GenPublicKey(tau, prevHash, 1); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Alpha, err = common.GenPublicKey(alpha, prevHash, 2); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Beta, err = common.GenPublicKey(beta, prevHash, 3); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index d8bda75..26754ae 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -153,14 +153,6 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 	return &firstPoint, nil
 }
 
-func randomize(r []fr.Element) {
-	common.Parallelize(len(r), func(start, end int) {
-		for i := start; i < end; i++ {
-			r[i].SetRandom()
-		}
-	})
-}
-
 // Returns the first point, and two random linear combinations of which the second
 // is τ times the first one iff the N points are successive multiples by τ
 func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
@@ -181,7 +173,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := common.Randomize(r); err != nil {
+			return first, L1, L2, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
@@ -232,7 +226,9 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := common.Randomize(r); err != nil {
+			return first, L1, L2, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 56687e4..4625149 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -93,7 +93,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	if _, err := delta.SetRandom(); err != nil {
+		return err
+	}
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
@@ -152,7 +154,9 @@ func Contribute(inputPath, outputPath string) error {
 
 	var contribution Contribution
 	contribution.Delta.Set(&delta1)
-	contribution.PublicKey = common.GenPublicKey(delta, prevHash, 1)
+	if contribution.PublicKey, err = common.GenPublicKey(delta, prevHash, 1); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase2/utils.go b/phase2/utils.go
index d6afa2d..42742a3 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -517,11 +517,9 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	for remaining > 0 {
 
 		// generate randomness
-		common.Parallelize(len(r), func(start, end int) {
-			for i := start; i < end; i++ {
-				r[i].SetRandom()
-			}
-		})
+		if err := common.Randomize(r); err != nil {
+			return nil, nil, err
+		}
 
 		// Read from input
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-- 
2.43.0


From ff35ba5d72d3312b8e836a16fbde58d956fbea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 29/31] fix: check the number of points in the evaluations
 before reading them

---
 keys/keys.go | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index ca21cb4..b730334 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -2,6 +2,7 @@ package keys
 
 import (
 	"bufio"
+	"encoding/binary"
 	"encoding/gob"
 	"errors"
 	"fmt"
@@ -84,9 +85,13 @@ func checkSize(phase2File *os.File, header *phase2.Header) error {
 	return nil
 }
 
-// checkLength checks that the evaluations are of the circuit of the phase 2 file
-func checkLength(length, expected int) error {
-	if length != expected {
+// checkLength checks that the next points in the evaluations are as many as those of the circuit of the phase 2 file
+func checkLength(evalsReader *bufio.Reader, expected int) error {
+	prefix, err := evalsReader.Peek(4)
+	if err != nil {
+		return err
+	}
+	if length := int64(binary.BigEndian.Uint32(prefix)); length != int64(expected) {
 		return fmt.Errorf("the evaluations have %d points instead of %d", length, expected)
 	}
 	return nil
@@ -174,10 +179,10 @@ func extractPK(phase2Path string) error {
 
 	// 4. Read, Filter, Write A
 	var buffG1 []bn254.G1Affine
-	if err := decEvals.Decode(&buffG1); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG1), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
@@ -186,10 +191,10 @@ func extractPK(phase2Path string) error {
 	}
 
 	// 5. Read, Filter, Write B
-	if err := decEvals.Decode(&buffG1); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG1), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
@@ -231,10 +236,10 @@ func extractPK(phase2Path string) error {
 
 	// 10. Read, Filter, Write B₂
 	var buffG2 []bn254.G2Affine
-	if err := decEvals.Decode(&buffG2); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG2), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
@@ -404,10 +409,10 @@ func extractSplitPK(phase2Path, session string) error {
 
 	// 4. Read, Filter, Write A
 	var buffG1 []bn254.G1Affine
-	if err := decEvals.Decode(&buffG1); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG1), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
@@ -416,10 +421,10 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 
 	// 5. Read, Filter, Write B
-	if err := decEvals.Decode(&buffG1); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG1), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
@@ -461,10 +466,10 @@ func extractSplitPK(phase2Path, session string) error {
 
 	// 10. Read, Filter, Write B₂
 	var buffG2 []bn254.G2Affine
-	if err := decEvals.Decode(&buffG2); err != nil {
+	if err := checkLength(evalsReader, header.Wires); err != nil {
 		return err
 	}
-	if err := checkLength(len(buffG2), header.Wires); err != nil {
+	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
@@ -577,19 +582,19 @@ func extractVK(phase2Path string) error {
 		return err
 	}
 	evalsReader.Reset(evalsFile)
-	if err := decEvals.Decode(&vk.G1.K); err != nil {
+	if err := checkLength(evalsReader, header.Public); err != nil {
 		return err
 	}
-	if err := checkLength(len(vk.G1.K), header.Public); err != nil {
+	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
-	if err := decEvals.Decode(&ckk); err != nil {
+	if err := checkLength(evalsReader, header.PrivateCommitted); err != nil {
 		return err
 	}
-	if err := checkLength(len(ckk), header.PrivateCommitted); err != nil {
+	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
 	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
@@ -676,19 +681,19 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	evalsReader.Reset(evalsFile)
-	if err := decEvals.Decode(&vk.G1.K); err != nil {
+	if err := checkLength(evalsReader, header.Public); err != nil {
 		return err
 	}
-	if err := checkLength(len(vk.G1.K), header.Public); err != nil {
+	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
-	if err := decEvals.Decode(&ckk); err != nil {
+	if err := checkLength(evalsReader, header.PrivateCommitted); err != nil {
 		return err
 	}
-	if err := checkLength(len(ckk), header.PrivateCommitted); err != nil {
+	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
 	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
-- 
2.43.0


From 742d83e9b42459dfb257a6f2a8363249bf68e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 30/31] fix: check the size of phase 1 files

---
 phase1/contribution.go |  3 +++
 phase1/header.go       | 15 +++++++++++++++
 phase1/phase1.go       |  6 ++++++
 phase2/parted.go       |  3 +++
 phase2/utils.go        |  3 +++
 5 files changed, 30 insertions(+)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index ffaabe3..ecbc629 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -137,6 +137,9 @@ func defaultContribution(transformedPath string) (Contribution, error) {
 		if err := header.ReadFrom(inputFile); err != nil {
 			return c, err
 		}
+		if err := header.CheckSize(inputFile); err != nil {
+			return c, err
+		}
 
 		N := int(math.Pow(2, float64(header.Power)))
 
diff --git a/phase1/header.go b/phase1/header.go
index 73ff951..6ee44da 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"os"
 )
 
 // MaxPower is the largest power for which BN254 has a domain of roots of unity
@@ -41,6 +42,20 @@ func (p *Header) ReadFrom(reader io.Reader) error {
 	return nil
 }
 
+// CheckSize checks that the file has the size which its header tells. As the parameters are read at
+// fixed positions, nothing else can be in the file, nor points in the uncompressed representation.
+func (p *Header) CheckSize(file *os.File) error {
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	N := int64(1) << p.Power
+	if size := 3 + 32*(4*N-1) + 64*(N+1) + ContributionSize*int64(p.Contributions); info.Size() != size {
+		return fmt.Errorf("the phase 1 file has %d bytes instead of %d", info.Size(), size)
+	}
+	return nil
+}
+
 func (p *Header) writeTo(writer io.Writer) error {
 	// Write Power
 	if _, err := writer.Write([]byte{p.Power}); err != nil {
diff --git a/phase1/phase1.go b/phase1/phase1.go
index d5556ad..6402c19 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -186,6 +186,9 @@ func Contribute(inputPath, outputPath string) error {
 	if err := header.ReadFrom(inputFile); err != nil {
 		return err
 	}
+	if err := header.CheckSize(inputFile); err != nil {
+		return err
+	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
 	if header.Contributions == math.MaxUint16 {
@@ -318,6 +321,9 @@ func Verify(inputPath, transformedPath string) error {
 	if err := header.ReadFrom(inputFile); err != nil {
 		return err
 	}
+	if err := header.CheckSize(inputFile); err != nil {
+		return err
+	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	if header.Contributions == 0 {
 		return errors.New("there are no contributions to verify")
diff --git a/phase2/parted.go b/phase2/parted.go
index 74e25a8..07499da 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -117,6 +117,9 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	if err := header1.ReadFrom(phase1File); err != nil {
 		return nil, nil, err
 	}
+	if err := header1.CheckSize(phase1File); err != nil {
+		return nil, nil, err
+	}
 	N := int(math.Pow(2, float64(header1.Power)))
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
diff --git a/phase2/utils.go b/phase2/utils.go
index 42742a3..46b1ab0 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -56,6 +56,9 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 	if err := header1.ReadFrom(phase1File); err != nil {
 		return nil, nil, err
 	}
+	if err := header1.CheckSize(phase1File); err != nil {
+		return nil, nil, err
+	}
 	N := int(math.Pow(2, float64(header1.Power)))
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
-- 
2.43.0


From 326affb5e8244b034410d0aa204b6f0dbbfd8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 31/31] fix: the export of the contract does not overwrite the
 verifying key

---
 keys/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index b730334..8a95032 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -762,7 +762,7 @@ func ExportSol(session string) error {
 	if _, err := verifyingKey.ReadFrom(vkFile); err != nil {
 		return err
 	}
-	f, err := os.Create(filename)
+	f, err := common.CreateOutput(filename, session+".vk.save")
 	if err != nil {
 		return err
 	}
-- 
2.43.0

