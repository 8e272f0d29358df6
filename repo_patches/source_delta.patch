From 93b5c9c3d1df107a8b6b0d44a270317dcb13180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 01/21] fix: derive the second Bulletproofs challenge
 independently of the first

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From cf02e5894057210a994f0fadfe737991d920c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 02/21] fix: reject range proofs whose t(x) is not the proven
 inner product

---
 bulletproofs/bp.go      | 5 ++++-
 bulletproofs/multibp.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..eb25582 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,10 @@ func (proof *BulletProof) Verify() (bool, error) {
 	// Verify Inner Product Proof ################################################
 	ok, _ := proof.InnerProductProof.Verify()
 
-	result := c65 && c67 && ok
+	// The inner product must be the one that the polynomial identity speaks about.
+	tIsIP := proof.Tprime.Cmp(proof.InnerProductProof.Cc) == 0
+
+	result := c65 && c67 && ok && tIsIP
 
 	return result, nil
 }
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..da565cd 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -321,7 +321,10 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	ok, _ := proof.InnerProductProof.Verify()
 	fmt.Println("Check 68:", ok)
 
-	result := c65 && c67 && ok
+	// The inner product must be the one that the polynomial identity speaks about.
+	tIsIP := proof.Tprime.Cmp(proof.InnerProductProof.Cc) == 0
+
+	result := c65 && c67 && ok && tIsIP
 
 	return result, nil
 }
-- 
2.43.0


From 9559e3dc3fffc9b798a3932e36c6496abe675648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 03/21] fix: verify the inner product under the verifier's own
 generators

---
 bulletproofs/bp.go      | 5 ++++-
 bulletproofs/multibp.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index eb25582..e174401 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,10 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The generators are the verifier's, not the ones carried by the proof.
+	ipProof := proof.InnerProductProof
+	ipProof.Params, _ = setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	ok, _ := ipProof.Verify()
 
 	// The inner product must be the one that the polynomial identity speaks about.
 	tIsIP := proof.Tprime.Cmp(proof.InnerProductProof.Cc) == 0
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index da565cd..abd89ab 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,7 +318,10 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The generators are the verifier's, not the ones carried by the proof.
+	ipProof := proof.InnerProductProof
+	ipProof.Params, _ = setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	ok, _ := ipProof.Verify()
 	fmt.Println("Check 68:", ok)
 
 	// The inner product must be the one that the polynomial identity speaks about.
-- 
2.43.0


From 699afce6fc583e2b8f2c0a4ceb12d7cefd9e807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 04/21] fix: bind the commitments and earlier messages in the
 range proof challenges

---
 bulletproofs/bp.go      | 8 ++++----
 bulletproofs/multibp.go | 8 ++++----
 bulletproofs/util.go    | 9 ++++++---
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index e174401..f0dc507 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(A, S, V) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(T1, T2, A, S, V) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.T1, proof.T2, proof.A, proof.S, proof.V)
+	y, z, _ := HashBP(proof.A, proof.S, proof.V)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index abd89ab..5bb5bb5 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -95,7 +95,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(A, S, commitments...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -158,7 +158,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(T1, T2, append([]group.Element{A, S}, commitments...)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -232,8 +232,8 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.T1, proof.T2, append([]group.Element{proof.A, proof.S}, proof.Vs...)...)
+	y, z, _ := HashBP(proof.A, proof.S, proof.Vs...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..d2c057c 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -50,13 +50,17 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
+The challenges also bind the statement and the earlier messages given in context.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(A, S group.Element, context ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
 	buffer.WriteString(A.String())
 	buffer.WriteString(S.String())
+	for _, c := range context {
+		buffer.WriteString(c.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +68,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	buffer2.Write(buffer.Bytes())
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From 3191126a3c55ee83e86b928f4e6ab89598c8ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 05/21] fix: bind the inner product rounds to the statement and
 the earlier rounds

---
 bulletproofs/bip.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..38d55e2 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -173,7 +173,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x, _, _ = HashBP(L, R, u, P)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -230,8 +230,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
-		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		nprime = nprime / 2                                  // (20)
+		x, _, _ = HashBP(proof.L[i], proof.R[i], ux, Pprime) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
-- 
2.43.0


From 0655784f19ffff52b5198cd3d94836f0e711ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 06/21] fix: reject inner product proofs with a wrong number of
 rounds instead of crashing

---
 bulletproofs/bip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 38d55e2..1cb587d 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -215,6 +215,11 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
 	logn := len(proof.L)
+	if len(proof.R) != logn || logn > 32 ||
+		len(proof.Params.Gg) != 1<<logn || len(proof.Params.Hh) != 1<<logn {
+		return false, errors.New("number of rounds does not match the number of generators")
+	}
+
 	var (
 		x, xinv, x2, x2inv                   *big.Int
 		ngprime, nhprime, ngprime2, nhprime2 []group.Element
-- 
2.43.0


From 7d4f6154bca2bc24930d526fe576bd0d89d69c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 07/21] fix: verify the vote proof under the collector's own
 parameters

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..6559e8c 100644
--- a/server.go
+++ b/server.go
@@ -40,6 +40,9 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 		Xq2: Xq2,             // Upper bound shifted back to the secret
 	}
 
+	// The collector's parameters count, not the ones carried by the ballot.
+	proofs.VoteProof.Params = rpParams
+
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
-- 
2.43.0


From 230f4b80d98560063765eadd22373e22222fa57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:14 +0000
Subject: [PATCH 08/21] fix: bind the statement in the vote proof challenge

---
 voteproof/voteproof.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..44712b6 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,14 +109,15 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+// getFSChallenge derives the challenge from the statement and the first move.
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
-	buffer.WriteString(w.String())
-	buffer.WriteString(Kp.String())
-	buffer.WriteString(Kq1.String())
-	buffer.WriteString(Kq2.String())
+	for _, e := range []group.Element{comm.Y, comm.Xp, comm.Xq1, comm.Xq2, w, Kp, Kq1, Kq2} {
+		buffer.WriteString(e.String())
+		buffer.WriteByte('|')
+	}
 	hasher.Write(buffer.Bytes())
 
 	challenge := hasher.Sum(nil)[:pow2bound/8]
@@ -130,6 +131,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement that the challenge is bound to.
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +157,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +201,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From d430be0ba158c5306406ecccbe12a7455a473435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 09/21] fix: refuse challenge lengths that the vote proof
 cannot produce

---
 voteproof/voteproof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 44712b6..6736d5f 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -93,6 +93,11 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 		return params, errors.New("inconsistent parameter choice")
 	}
 
+	// The challenge consists of whole bytes of a SHA-256 digest.
+	if lenChallenge == 0 || lenChallenge%8 != 0 || lenChallenge > 8*sha256.Size {
+		return params, errors.New("unsupported challenge length")
+	}
+
 	return params, nil
 }
 
-- 
2.43.0


From fe9668ca1a7177ab612c53ac98eb8c5f90a57de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 10/21] fix: no negative number is a power of two

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index d2c057c..66e8d8d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -131,5 +131,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 2b9223d08a343b3dfdc052e832fe3567c9f7c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:16 +0000
Subject: [PATCH 11/21] fix: the last candidate can be voted for

---
 voter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..d776064 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,7 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0


From 93edbbf34b20f18f26abf9611f31873c2ef5f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:17 +0000
Subject: [PATCH 12/21] fix: aggregated range proofs commit to and verify the
 right vectors

---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 5bb5bb5..ebbc0bc 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -297,7 +297,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From f45efecc1ae749bc78bc95f0e2ca2d2c914d9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:18 +0000
Subject: [PATCH 13/21] fix: refuse aggregates that do not divide the range
 instead of crashing

---
 bulletproofs/multibp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index ebbc0bc..acd268f 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -19,6 +19,7 @@ package bulletproofs
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
@@ -54,6 +55,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || params.N%int64(m) != 0 {
+		return proof, nil, errors.New("number of secrets does not divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -229,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || params.N%int64(m) != 0 {
+		return false, errors.New("number of commitments does not divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-- 
2.43.0


From c8fe8233024ae11d05624e4e177e4c5476db6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:42 +0000
Subject: [PATCH 14/21] fix: decode only members of the safe prime group

---
 group/modsafeprime.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..a4d1704 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -117,8 +118,11 @@ func (e *ModPElement) Set(a Element) Element {
 	return e
 }
 
+// SetBytes sets the receiver to the identity if b does not encode a group element.
 func (e *ModPElement) SetBytes(b []byte) Element {
-	e.val.SetBytes(b)
+	if e.UnmarshalBinary(b) != nil {
+		e.val = big.NewInt(1)
+	}
 	return e
 }
 
@@ -158,7 +162,15 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+	return e.setMember(new(big.Int).SetBytes(data))
+}
+
+// setMember sets the receiver to v if v lies in the subgroup of quadratic residues.
+func (e *ModPElement) setMember(v *big.Int) error {
+	if v.Sign() != 1 || v.Cmp(e.group.fieldOrder) != -1 || big.Jacobi(v, e.group.fieldOrder) != 1 {
+		return errors.New("not an element of the group")
+	}
+	e.val = v
 	return nil
 }
 
@@ -167,8 +179,11 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	v := new(big.Int)
+	if err := v.UnmarshalJSON(data); err != nil {
+		return err
+	}
+	return e.setMember(v)
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From ad2fdaf70a757f600002f77112384f68dfb47f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 15/21] fix: refuse malformed JSON points instead of crashing

---
 group/p256.go  | 16 ++--------------
 group/p384.go  | 16 ++--------------
 group/types.go | 26 +++++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..61f82ab 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -186,22 +186,10 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
+	tmp, err := point.uncompressed(32)
+	if err != nil {
 		return err
 	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
 	err = e.val.UnmarshalBinary(tmp)
 	return err
 }
diff --git a/group/p384.go b/group/p384.go
index cd298b1..7cb9ae2 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -186,22 +186,10 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
+	tmp, err := point.uncompressed(48)
+	if err != nil {
 		return err
 	}
-
-	byteLen := 48
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
 	err = e.val.UnmarshalBinary(tmp)
 	return err
 }
diff --git a/group/types.go b/group/types.go
index a7f38a9..3e0c10a 100644
--- a/group/types.go
+++ b/group/types.go
@@ -1,6 +1,9 @@
 package group
 
-import "math/big"
+import (
+	"errors"
+	"math/big"
+)
 
 // ECPoint is needed for JSON marshalling EC points.
 type ECPoint struct {
@@ -8,6 +11,27 @@ type ECPoint struct {
 	Y *big.Int `json:"y"`
 }
 
+// uncompressed returns the uncompressed encoding of the point, with (0,0) for the point
+// at infinity, given the byte length of the field.
+func (p *ECPoint) uncompressed(byteLen int) ([]byte, error) {
+	if p.X == nil || p.Y == nil {
+		return nil, errors.New("missing coordinate")
+	}
+	if p.X.Sign() == -1 || p.Y.Sign() == -1 || p.X.BitLen() > 8*byteLen || p.Y.BitLen() > 8*byteLen {
+		return nil, errors.New("coordinate out of range")
+	}
+	// The special case encoding of the point at infinity.
+	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
+		return []byte{0}, nil
+	}
+	// Maintain leading zeroes.
+	tmp := make([]byte, 1+2*byteLen)
+	tmp[0] = 4
+	p.X.FillBytes(tmp[1 : 1+byteLen])
+	p.Y.FillBytes(tmp[1+byteLen:])
+	return tmp, nil
+}
+
 // GroupId is needed for JSON marshalling groups.
 type GroupId struct {
 	Name string `json:"group"`
-- 
2.43.0


From 9797adc50dea1085c182a88908c8306d5fbf144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:44 +0000
Subject: [PATCH 16/21] fix: JSON encoding of ristretto255 elements

---
 group/ristretto255.go | 50 +++++++------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..ca67a0e 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -155,55 +154,22 @@ func (e *r255Point) UnmarshalBinary(data []byte) error {
 	return err
 }
 
+// MarshalJSON returns the canonical encoding, as ristretto255 elements have no coordinates.
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From d605b79a81b3c8eb66e423b9307eb07a85420838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:45 +0000
Subject: [PATCH 17/21] fix: lossless, validated encodings of secp256k1 points

---
 group/p256k1.go | 71 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..558fe0d 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -122,12 +123,11 @@ func (e *p256k1Point) Set(a Element) Element {
 	return e
 }
 
+// SetBytes sets the receiver to the identity if b does not encode a group element.
 func (e *p256k1Point) SetBytes(b []byte) Element {
-	xBytes := b[:32]
-	yBytes := b[32:]
-	e.val = new(p256.P256).SetInfinity()
-	e.val.X = new(big.Int).SetBytes(xBytes)
-	e.val.Y = new(big.Int).SetBytes(yBytes)
+	if e.UnmarshalBinary(b) != nil {
+		e.val = new(p256.P256).SetInfinity()
+	}
 	return e
 }
 
@@ -151,11 +151,12 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
-	return res, nil
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	e.val = tmp
+	return e, nil
 }
 
 func (e *p256k1Point) String() string {
@@ -170,30 +171,56 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
-	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
+	// Maintain leading zeroes.
+	data := make([]byte, 64)
+	if !e.IsIdentity() {
+		e.val.X.FillBytes(data[:32])
+		e.val.Y.FillBytes(data[32:])
 	}
+	return data, nil
+}
 
-	yBytes := make([]byte, 32)
-	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+func (e *p256k1Point) UnmarshalBinary(data []byte) error {
+	if len(data) != 64 {
+		return errors.New("invalid point length")
 	}
-
-	return append(xBytes, yBytes...), nil
+	return e.setCoordinates(new(big.Int).SetBytes(data[:32]), new(big.Int).SetBytes(data[32:]))
 }
 
-func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
+// setCoordinates sets the receiver to the point with the given coordinates,
+// where (0,0) stands for the point at infinity.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	if x.Sign() == 0 && y.Sign() == 0 {
+		e.val = new(p256.P256).SetInfinity()
+		return nil
+	}
+	point := &p256.P256{X: x, Y: y}
+	if x.Cmp(e.curve.fieldOrder) != -1 || y.Cmp(e.curve.fieldOrder) != -1 || !point.IsOnCurve() {
+		return errors.New("not a point of the curve")
+	}
+	e.val = point
 	return nil
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	point := ECPoint{X: big.NewInt(0), Y: big.NewInt(0)}
+	if !e.IsIdentity() {
+		point.X = e.val.X
+		point.Y = e.val.Y
+	}
+	return json.Marshal(&point)
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	if _, err = point.uncompressed(32); err != nil {
+		return err
+	}
+	return e.setCoordinates(point.X, point.Y)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From c92eb0de4f4ffd63a772f3e0a6ae1c26c018a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:46 +0000
Subject: [PATCH 18/21] fix: report undecodable parts of ballots and proofs

---
 bulletproofs/marshal.go | 105 ++++++++++++++++++++++++----------------
 marshal.go              |  11 ++++-
 voteproof/marshal.go    |  39 ++++++++++++---
 3 files changed, 103 insertions(+), 52 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..a8ae81c 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,59 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
+// elementsFromRawMessages decodes a list of group elements.
+func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	elements := make([]group.Element, len(j))
+	for i := range j {
+		elements[i] = g.Element()
+		if err := elements[i].UnmarshalJSON(j[i]); err != nil {
+			return nil, err
+		}
+	}
+	return elements, nil
+}
+
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
 	params := InnerProductParams{
 		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
 		GP: g,
 	}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+	var err error
+	if err = params.Uu.UnmarshalJSON(j.Uu); err != nil {
+		return params, err
 	}
-
-	return params
+	if params.Gg, err = elementsFromRawMessages(j.Gg, g); err != nil {
+		return params, err
+	}
+	params.Hh, err = elementsFromRawMessages(j.Hh, g)
+	return params, err
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		P:  g.Element(),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
 	}
 
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return proof, errors.New("missing scalar in inner product proof")
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	var err error
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return proof, err
+	}
+	if proof.L, err = elementsFromRawMessages(j.L, g); err != nil {
+		return proof, err
+	}
+	if proof.R, err = elementsFromRawMessages(j.R, g); err != nil {
+		return proof, err
+	}
+	err = proof.P.UnmarshalJSON(j.P)
+	return proof, err
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +99,30 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
-	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing scalar in range proof")
+	}
+
+	ipProof, err := ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	elements, err := elementsFromRawMessages([]json.RawMessage{tmp.V, tmp.A, tmp.S, tmp.T1, tmp.T2}, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	return BulletProof{
+		V:                 elements[0],
+		A:                 elements[1],
+		S:                 elements[2],
+		T1:                elements[3],
+		T2:                elements[4],
 		Taux:              tmp.Taux,
 		Mu:                tmp.Mu,
 		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
+		InnerProductProof: ipProof,
 		Params:            params,
-	}
-
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
-
-	return decodedProof, nil
+	}, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..1735cc3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,21 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..60ecb65 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -50,6 +51,10 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
+	if tmp.Challenge == nil || tmp.Z == nil || tmp.Sp == nil || tmp.Sq1 == nil || tmp.Sq2 == nil {
+		return SigmaProof{}, errors.New("missing scalar in vote proof")
+	}
+
 	var ap AlgebraicParameters
 	ap.GFF.G = gFF.Element()
 	ap.GFF.H = gFF.Element()
@@ -62,10 +67,19 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	for _, p := range []struct {
+		to   group.Element
+		from json.RawMessage
+	}{
+		{ap.GFF.G, tmp.Params.GFF.G},
+		{ap.GFF.H, tmp.Params.GFF.H},
+		{ap.GEC.G, tmp.Params.GEC.G},
+		{ap.GEC.H, tmp.Params.GEC.H},
+	} {
+		if err = p.to.UnmarshalJSON(p.from); err != nil {
+			return SigmaProof{}, err
+		}
+	}
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -89,9 +103,18 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	for _, p := range []struct {
+		to   group.Element
+		from json.RawMessage
+	}{
+		{proof.W, tmp.W},
+		{proof.Kp, tmp.Kp},
+		{proof.Kq1, tmp.Kq1},
+		{proof.Kq2, tmp.Kq2},
+	} {
+		if err = p.to.UnmarshalJSON(p.from); err != nil {
+			return SigmaProof{}, err
+		}
+	}
 	return proof, nil
 }
-- 
2.43.0


From 4d370b6932fbe0b2c7b95c7e52ccbdf884342c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 19/21] fix: encoding a curve point does not write to it

---
 group/p256.go | 7 ++++---
 group/p384.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index 61f82ab..dcc81d2 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -138,7 +138,7 @@ func (e *p256Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +147,8 @@ func (e *p256Point) IsIdentity() bool {
 }
 
 func (e *p256Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// The underlying marshalling writes to its receiver, which may be shared.
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
@@ -156,7 +157,7 @@ func (e *p256Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
diff --git a/group/p384.go b/group/p384.go
index 7cb9ae2..58b10d6 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -138,7 +138,7 @@ func (e *p384Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p384Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +147,8 @@ func (e *p384Point) IsIdentity() bool {
 }
 
 func (e *p384Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// The underlying marshalling writes to its receiver, which may be shared.
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
@@ -156,7 +157,7 @@ func (e *p384Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
-- 
2.43.0


From ba97fc875fea8bc48c1242fa3e1c9dadba5f4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:36 +0000
Subject: [PATCH 20/21] fix: one rendering of the secp256k1 point at infinity

---
 group/p256k1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group/p256k1.go b/group/p256k1.go
index 558fe0d..387fbb8 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -160,6 +160,10 @@ func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256k1Point) String() string {
+	// The point at infinity has one rendering only: renderings are hashed.
+	if e.IsIdentity() {
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
-- 
2.43.0


From dd9bc6b03ceca0f1c831629665964b456bda638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:00 +0000
Subject: [PATCH 21/21] fix: decode P-256 and P-384 elements without writing to
 shared coordinates

Decoding the point at infinity wrote zeroes into the receiver's coordinates, which
are those of the curve itself when the receiver came from Generator().
---
 group/p256.go | 12 ++++++++----
 group/p384.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index dcc81d2..46e9b4d 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -152,8 +152,13 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// The underlying unmarshalling writes to coordinates which may be shared.
+	val := group.P256.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -191,8 +196,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P256() Group {
diff --git a/group/p384.go b/group/p384.go
index 58b10d6..bfcf618 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -152,8 +152,13 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// The underlying unmarshalling writes to coordinates which may be shared.
+	val := group.P384.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -191,8 +196,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P384() Group {
-- 
2.43.0

