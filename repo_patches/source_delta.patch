From bb1baf687f2975851304b49f64ac86e802f71b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/41] verif: harness entry points behind the verif build tag

---
 cmd/client/verif_hooks.go      | 32 +++++++++++++++++++++++++
 cmd/coordinator/verif_hooks.go | 43 ++++++++++++++++++++++++++++++++++
 cmd/server/verif_hooks.go      | 17 ++++++++++++++
 3 files changed, 92 insertions(+)
 create mode 100644 cmd/client/verif_hooks.go
 create mode 100644 cmd/coordinator/verif_hooks.go
 create mode 100644 cmd/server/verif_hooks.go

diff --git a/cmd/client/verif_hooks.go b/cmd/client/verif_hooks.go
new file mode 100644
index 0000000..0bd732e
--- /dev/null
+++ b/cmd/client/verif_hooks.go
@@ -0,0 +1,32 @@
+//go:build verif
+// +build verif
+
+package client
+
+// Entry points for the verification harness (build tag verif).
+
+// VerifInit runs initClient and returns the client it made.
+func VerifInit() *DissentClient {
+	initClient()
+	return dissentClient
+}
+
+func VerifRegister(c *DissentClient) {
+	dissentClient = c
+	register()
+}
+
+func VerifPostBridge(c *DissentClient, bridgeAddr string) {
+	dissentClient = c
+	postBridge(bridgeAddr)
+}
+
+func VerifRequestBridges(c *DissentClient, ind int) {
+	dissentClient = c
+	requestBridges(ind)
+}
+
+func VerifSendVote(c *DissentClient, msgID, feedback int) {
+	dissentClient = c
+	sendVote(msgID, feedback)
+}
diff --git a/cmd/coordinator/verif_hooks.go b/cmd/coordinator/verif_hooks.go
new file mode 100644
index 0000000..b0efad8
--- /dev/null
+++ b/cmd/coordinator/verif_hooks.go
@@ -0,0 +1,43 @@
+//go:build verif
+// +build verif
+
+package coordinator
+
+// Entry points for the verification harness (build tag verif): each one calls
+// the unexported function of the same name on the given coordinator.
+
+// VerifInit runs initCoordinator and returns the coordinator it made.
+func VerifInit() *Coordinator {
+	initCoordinator()
+	return anonCoordinator
+}
+
+func VerifConfigCommParams(c *Coordinator) {
+	anonCoordinator = c
+	configCommParams()
+}
+
+func VerifClearBuffer(c *Coordinator) {
+	anonCoordinator = c
+	clearBuffer()
+}
+
+func VerifAnnounce(c *Coordinator) {
+	anonCoordinator = c
+	announce()
+}
+
+func VerifVote(c *Coordinator) {
+	anonCoordinator = c
+	vote()
+}
+
+func VerifRoundEnd(c *Coordinator) {
+	anonCoordinator = c
+	roundEnd()
+}
+
+func VerifAddFakeClients(c *Coordinator, num int) {
+	anonCoordinator = c
+	addFakeClients(num)
+}
diff --git a/cmd/server/verif_hooks.go b/cmd/server/verif_hooks.go
new file mode 100644
index 0000000..be23073
--- /dev/null
+++ b/cmd/server/verif_hooks.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package server
+
+// Entry points for the verification harness (build tag verif).
+
+// VerifInit runs initAnonServer and returns the server it made.
+func VerifInit() *AnonServer {
+	initAnonServer()
+	return anonServer
+}
+
+func VerifRegister(s *AnonServer) {
+	anonServer = s
+	serverRegister()
+}
-- 
2.43.0


From 28fb44ec9502b873885fad92b43e6f20ba6daa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 02/41] verif: the pause after a round is zero under the verif
 build tag

---
 cmd/coordinator/CoordinatorHandler.go | 2 +-
 cmd/coordinator/delay.go              | 9 +++++++++
 cmd/coordinator/delay_verif.go        | 9 +++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)
 create mode 100644 cmd/coordinator/delay.go
 create mode 100644 cmd/coordinator/delay_verif.go

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..9f4ac94 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -638,6 +638,6 @@ func handleRoundEnd(params map[string]interface{}) {
 	for _, addr := range anonCoordinator.Clients {
 		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
 	}
-	time.Sleep(500 * time.Millisecond)
+	time.Sleep(roundEndDelay)
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
 }
\ No newline at end of file
diff --git a/cmd/coordinator/delay.go b/cmd/coordinator/delay.go
new file mode 100644
index 0000000..2d54ef7
--- /dev/null
+++ b/cmd/coordinator/delay.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package coordinator
+
+import "time"
+
+// how long the coordinator waits after a round before it allows the next one
+const roundEndDelay = 500 * time.Millisecond
diff --git a/cmd/coordinator/delay_verif.go b/cmd/coordinator/delay_verif.go
new file mode 100644
index 0000000..4a30b5e
--- /dev/null
+++ b/cmd/coordinator/delay_verif.go
@@ -0,0 +1,9 @@
+//go:build verif
+// +build verif
+
+package coordinator
+
+import "time"
+
+// the verification harness owns the schedule, so that no delay is needed
+const roundEndDelay = time.Duration(0)
-- 
2.43.0


From f7aadc7f3baf3b3a8e1d1135d5850b7793fb8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 03/41] fix: bind all commitments of the non-negativity
 argument to its challenge

---
 primitive/fujiokam/FujiOkamCommitment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..1ce51f2 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,9 +458,10 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
@@ -496,9 +497,16 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// commitments must be given by their representative in (0, N)
+	for _, p := range []*Point{commitx, commitrx, C, Cr} {
+		if p.V.Sign() <= 0 || p.V.Cmp(base.N) >= 0 {
+			return false
+		}
+	}
+	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
-- 
2.43.0


From 7e342db5b15f96822fa3ec788f3ec591ae09633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 04/41] fix: bound the value proved non-negative, so that a
 negative one taken modulo the group order is refused

---
 primitive/fujiokam/FujiOkamCommitment.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 1ce51f2..fb65add 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -369,6 +369,13 @@ func (base *FujiOkamBase) CommitWithR(x, r *big.Int) *Point {
 // Non-negative argument
 // ****************************************************************************
 
+// The committed value itself must be small, not only non-negative: a verifier of
+// an equality argument sees it modulo the group order only, where a negative value
+// is a huge positive one. Values have at most 64 bits, challenges 256; the mask of
+// the response adds 80 bits of slack, and the verifier bounds the response.
+var nonnegMaskBound = new(big.Int).Lsh(bigOne, 64 + 256 + 80)
+var nonnegResponseBound = new(big.Int).Lsh(bigOne, 64 + 256 + 80 + 1)
+
 type ARGnonneg struct {
 	Commitrx *big.Int
 	C *big.Int
@@ -400,11 +407,14 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	if x.Cmp(bigZero) < 0 {
 		panic("x must be non-negative");
 	}
+	if x.BitLen() > 64 {
+		panic("x must have at most 64 bits");
+	}
 	a, b, d := decomposeThreeSquare(x)
 	ti := new(big.Int)
 	tp := base.Point()
 	// rx, ra, rb, rd := random
-	rx := base.genRandomSecret()
+	rx := random.Int(nonnegMaskBound, random.Stream)
 	ra := base.genRandomSecret()
 	rb := base.genRandomSecret()
 	rd := base.genRandomSecret()
@@ -503,6 +513,10 @@ func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R,
 			return false
 		}
 	}
+	// the committed value must be small
+	if x_.CmpAbs(nonnegResponseBound) >= 0 {
+		return false
+	}
 	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
-- 
2.43.0


From bab494dd26231c53eca2e6c67c83bad184fb700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 05/41] fix: bind both commitments of the equality argument to
 its challenge and refuse degenerate ones

---
 primitive/pedersen_fujiokam/equality.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..a846765 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -51,8 +51,11 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	cBuf := hash.Sum(nil)
@@ -81,6 +84,11 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// FOComm must be an invertible residue, given by its representative in (0, N)
+	if FOComm.V.Sign() <= 0 || FOComm.V.Cmp(fujiokamBase.N) >= 0 ||
+		new(big.Int).ModInverse(&FOComm.V, fujiokamBase.N) == nil {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
@@ -99,8 +107,11 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	T2.Mul(T2, tmp2)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := pedersenBase.Suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	RSideBuf := hash.Sum(nil)
-- 
2.43.0


From 880c58b6ef4338e284b79f93dd70d27bf7d03529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 06/41] fix: a ring signature holds exactly one response and
 one challenge per member

---
 primitive/lrs/LinkableRingSignature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..59d2106 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,10 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// exactly one response and one challenge for each member of the ring
+	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From ebf2a55a711ebde21f18896de8cac0cd2ebe9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 07/41] fix: refuse ring signature tags that are not a
 canonical square, so that a member has one tag only

---
 primitive/lrs/LinkableRingSignature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 59d2106..6de52a3 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -193,6 +193,11 @@ func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*
 	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
 		return false
 	}
+	// the tag must be given by its representative in (0, P) and be a square, like
+	// every power of h; otherwise one member could use several tags
+	if sig.Y0.Sign() <= 0 || sig.Y0.Cmp(base.P) >= 0 || big.Jacobi(sig.Y0, base.P) != 1 {
+		return false
+	}
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From d89e8c302c2091e559d31fd7d4b749b235b8f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/41] fix: the simple shuffle inside a pair shuffle proof
 must be the one of the proof's own commitments

Verify left its inputs unrelated to A, C, D and the challenge, so that a proof
for a list which is not a shuffle of the input could be made.
---
 util/shuffle/pair.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..9ff6595 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -281,6 +281,15 @@ func (ps *PairShuffle) Verify(
 	P := grp.Point() // scratch
 	Q := grp.Point() // scratch
 	for i := 0; i < k; i++ {
+		// the simple k-shuffle must be the one of A+lambda*B and C+lambda*D
+		P.Add(p1.A[i], Q.Mul(B[i], v4.Zlambda))
+		if !P.Equal(ps.pv6.p0.X[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+		P.Add(p1.C[i], Q.Mul(p3.D[i], v4.Zlambda))
+		if !P.Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
 		Phi1 = Phi1.Add(Phi1, P.Mul(Xbar[i], p5.Zsigma[i])) // (31)
 		Phi1 = Phi1.Sub(Phi1, P.Mul(X[i], v2.Zrho[i]))
 		Phi2 = Phi2.Add(Phi2, P.Mul(Ybar[i], p5.Zsigma[i])) // (32)
-- 
2.43.0


From 9799af7017138638ab0567e6100a22320a6e612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 09/41] fix: bind shuffle proofs to the lists, keys and outputs
 they are about

The challenges depended on the prover's commitments alone, so that a statement
could be chosen after the challenges.
---
 util/shuffle/biffle.go | 19 +++++++++++++--
 util/shuffle/pair.go   | 52 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/util/shuffle/biffle.go b/util/shuffle/biffle.go
index 50781ba..caaff84 100644
--- a/util/shuffle/biffle.go
+++ b/util/shuffle/biffle.go
@@ -72,7 +72,15 @@ func Biffle(suite abstract.Suite, G, H abstract.Point,
 		"beta1": beta[1]}
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
 	choice := map[proof.Predicate]int{or: bit}
-	prover = or.Prover(suite, secrets, points, choice)
+	prove := or.Prover(suite, secrets, points, choice)
+	st := statement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	prover = func(ctx proof.ProverContext) error {
+		// bind the challenge to the statement
+		if err := ctx.Put(st); err != nil {
+			return err
+		}
+		return prove(ctx)
+	}
 	return
 }
 
@@ -82,7 +90,14 @@ func BiffleVerifier(suite abstract.Suite, G, H abstract.Point,
 
 	or := bifflePred()
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
-	return or.Verifier(suite, points)
+	verify := or.Verifier(suite, points)
+	st := statement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	return func(ctx proof.VerifierContext) error {
+		if err := checkStatement(suite, st, ctx); err != nil {
+			return err
+		}
+		return verify(ctx)
+	}
 }
 
 func BiffleTest(suite abstract.Suite, N int) {
diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index 9ff6595..834fd5a 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -115,6 +115,40 @@ func (ps *PairShuffle) Init(grp abstract.Group, k int) *PairShuffle {
 	return ps
 }
 
+// List the points of the statement which a shuffle proof is about:
+// g, h, X, Y, Xbar, Ybar, with the standard base point for a nil g or h.
+func statement(grp abstract.Group, g, h abstract.Point,
+	X, Y, Xbar, Ybar []abstract.Point) []abstract.Point {
+
+	if g == nil {
+		g = grp.Point().Base()
+	}
+	if h == nil {
+		h = grp.Point().Base()
+	}
+	st := []abstract.Point{g, h}
+	for _, list := range [][]abstract.Point{X, Y, Xbar, Ybar} {
+		st = append(st, list...)
+	}
+	return st
+}
+
+// Check that a proof starts with the statement it is verified against.
+func checkStatement(grp abstract.Group, st []abstract.Point,
+	ctx proof.VerifierContext) error {
+
+	claimed := make([]abstract.Point, len(st))
+	if err := ctx.Get(claimed); err != nil {
+		return err
+	}
+	for i := range st {
+		if !claimed[i].Equal(st[i]) {
+			return errors.New("shuffle proof of another statement")
+		}
+	}
+	return nil
+}
+
 func (ps *PairShuffle) Prove(
 	pi []int, g, h abstract.Point, beta []abstract.Secret,
 	X, Y []abstract.Point, rand cipher.Stream,
@@ -132,6 +166,19 @@ func (ps *PairShuffle) Prove(
 		piinv[pi[i]] = i
 	}
 
+	// P step 0: bind the challenges to the statement
+	Xbar := make([]abstract.Point, k)
+	Ybar := make([]abstract.Point, k)
+	for i := 0; i < k; i++ {
+		Xbar[i] = grp.Point().Mul(g, beta[pi[i]])
+		Xbar[i].Add(Xbar[i], X[pi[i]])
+		Ybar[i] = grp.Point().Mul(h, beta[pi[i]])
+		Ybar[i].Add(Ybar[i], Y[pi[i]])
+	}
+	if err := ctx.Put(statement(grp, g, h, X, Y, Xbar, Ybar)); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	z := grp.Secret() // scratch
@@ -235,6 +282,11 @@ func (ps *PairShuffle) Verify(
 		panic("mismatched vector lengths")
 	}
 
+	// P step 0: the challenges are bound to the statement
+	if err := checkStatement(grp, statement(grp, g, h, X, Y, Xbar, Ybar), ctx); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	if err := ctx.Get(p1); err != nil {
-- 
2.43.0


From 161817d54947a5d089019a8292f3fc6e45674331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 10/41] fix: make and verify assignment signatures under the
 group generator, not under the point 0

---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..1e85e22 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 9f4ac94..0f8ce8d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..ec3ac5d 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -386,7 +386,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
 		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From db237aab778bd31ee140607ad2bed997a8789082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 11/41] fix: draw every signature nonce from the random source
 instead of a constant cipher

---
 cmd/client/ClientLauncher.go    | 7 ++++---
 cmd/coordinator/Coordinator.go  | 2 +-
 cmd/server/AnonServerHandler.go | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..d6d11aa 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -11,6 +11,7 @@ import (
 	"zRep/proto"
 	"zRep/util"
 
+	"github.com/dedis/crypto/abstract"
 	"github.com/dedis/crypto/nist"
 	"github.com/dedis/crypto/random"
 
@@ -76,7 +77,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -136,7 +137,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -224,7 +225,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 1e85e22..06357c8 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -131,7 +131,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
+	rand := c.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
 	return sig
 }
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ec3ac5d..ccb3961 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
+		rand := anonServer.Suite.Cipher(abstract.RandomKey)
 		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
-- 
2.43.0


From 375a3291ec387fe237588b019640b5dbdac44a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 12/41] fix: signed messages cover the sign of the feedback and
 the boundaries of their fields

---
 cmd/bridge/bridge.go         | 42 ++++++++++++++++++++----------------
 cmd/client/ClientLauncher.go |  1 -
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..985b6ba 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -6,6 +6,7 @@ import (
 	// "log"
 
 	"reflect"
+	"strconv"
 	"github.com/dedis/crypto/nist"
 	"go.dedis.ch/protobuf"
 
@@ -87,40 +88,45 @@ func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstr
 // Extract message body from package
 // ****************************************************************************
 
+// append a field together with its length, so that no byte can be moved from one
+// field of a signed message to the next
+func appendField(msg []byte, field []byte) []byte {
+	msg = append(msg, util.IntToByte(len(field))...)
+	return append(msg, field...)
+}
+
 func MessageOfRequestBridges(params map[string]interface{}) (msg []byte) {
 	ind := params["ind"].(int)
-	byteInd := util.IntToByte(ind)
-	msg = append(msg, byteInd...)
-	msg = append(msg, params["nym"].([]byte)...)
-	msg = append(msg, params["FOCommd"].([]byte)...)
-	msg = append(msg, params["PCommd"].([]byte)...)
-	msg = append(msg, params["PCommind"].([]byte)...)
-	msg = append(msg, params["rind"].([]byte)...)
-	msg = append(msg, params["arg_nonneg"].([]byte)...)
-	msg = append(msg, params["arg_equal"].([]byte)...)
+	msg = appendField(msg, []byte(strconv.Itoa(ind)))
+	msg = appendField(msg, params["nym"].([]byte))
+	msg = appendField(msg, params["FOCommd"].([]byte))
+	msg = appendField(msg, params["PCommd"].([]byte))
+	msg = appendField(msg, params["PCommind"].([]byte))
+	msg = appendField(msg, params["rind"].([]byte))
+	msg = appendField(msg, params["arg_nonneg"].([]byte))
+	msg = appendField(msg, params["arg_equal"].([]byte))
 	return
 }
 
 func MessageOfPostBridge(params map[string]interface{}) (msg []byte) {
 	bridgeAddr := params["bridge_addr"].(string)
-	msg = append(msg, []byte(bridgeAddr)...)
-	msg = append(msg, params["nym"].([]byte)...)
+	msg = appendField(msg, []byte(bridgeAddr))
+	msg = appendField(msg, params["nym"].([]byte))
 	return
 }
 
 func MessageOfGotSignatures(params map[string]interface{}) (msg []byte) {
-	msg = append(msg, params["assignment"].([]byte)...)
-	msg = append(msg, params["signatures"].([]byte)...)
+	msg = appendField(msg, params["assignment"].([]byte))
+	msg = appendField(msg, params["signatures"].([]byte))
 	return
 }
 
 func MessageOfVote(params map[string]interface{}) (msg []byte) {
-	msg = append(msg, params["nym"].([]byte)...)
-	msg = append(msg, params["assignment"].([]byte)...)
-	msg = append(msg, params["signatures"].([]byte)...)
+	msg = appendField(msg, params["nym"].([]byte))
+	msg = appendField(msg, params["assignment"].([]byte))
+	msg = appendField(msg, params["signatures"].([]byte))
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
-	msg = append(msg, byteFeedback...)
+	msg = appendField(msg, []byte(strconv.Itoa(feedback)))
 	return
 }
 
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index d6d11aa..b5d3396 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -76,7 +76,6 @@ func postBridge(bridgeAddr string) {
 
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
-	byteMsg = append([]byte(bridgeAddr), byteNym...)
 	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
-- 
2.43.0


From 8c2b1e35fdbe7b46ece95f29b76c275cc167d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 13/41] fix: a vote counts once, is 1 or -1, comes from the
 requester of the bridge and names a provider of this round

---
 cmd/coordinator/Coordinator.go         |  2 ++
 cmd/coordinator/CoordinatorHandler.go  | 30 ++++++++++++++++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 06357c8..02eadc0 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -66,6 +66,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// bridges already voted on in this round
+	VotedBridges map[string]bool
 
 	Bridges map[string]BridgeInfo
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 0f8ce8d..3070782 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -506,6 +506,13 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	publicKey := anonCoordinator.AllClientsPublicKeys[index]
 
+	// vote can be only 1 or -1
+	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Feedback is neither 1 nor -1")
+		return
+	}
+
 	// verify overall signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfVote(params)
@@ -520,6 +527,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers + 1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -537,9 +548,24 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	fmt.Println("[debug] All servers' signatures check passed")
 
-	// record feedback
+	// only the requester the bridge was assigned to can vote on it, once, and only
+	// for a provider in this round's table
 	targetNym := assignment.Nym
-	feedback := params["feedback"].(int)
+	if !assignment.NymR.Equal(nym) {
+		fmt.Println("[note] The bridge was assigned to someone else")
+		return
+	}
+	if _, ok := anonCoordinator.EndingKeyMap[targetNym.String()]; !ok {
+		fmt.Println("[note] Can not find the provider within keyList")
+		return
+	}
+	if anonCoordinator.VotedBridges[assignment.Addr] {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+	anonCoordinator.VotedBridges[assignment.Addr] = true
+
+	// record feedback
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..9d49741 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -103,6 +103,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.VotedBridges = make(map[string]bool)
 }
 
 /**
-- 
2.43.0


From d7dfa1162e0fda736059ccff78bf82ad73599102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 14/41] fix: refuse posts and requests under a pseudonym that
 is not in the table

---
 cmd/bridge/bridge.go                  | 5 +++++
 cmd/coordinator/CoordinatorHandler.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 985b6ba..028bd4b 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -31,6 +31,11 @@ type Assignment struct {
 }
 
 func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) bool {
+	// only clients in this round's table have a reputation
+	if PCommr == nil {
+		fmt.Println("[note]** Can not find the requester's commitment")
+		return false
+	}
 	ind := params["ind"].(int)
 	nymR := suite.Point()
 	byteNymR := params["nym"].([]byte)
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 3070782..b9c48ae 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -283,6 +283,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
+	// only clients in this round's table can be credited for a bridge
+	if _, ok := anonCoordinator.EndingKeyMap[nym.String()]; !ok {
+		fmt.Println("[note]** Can not find the provider within keyList")
+		return
+	}
+
 	// record the bridge
 	// Note: we assume the client does not provide duplicated bridges
 	anonCoordinator.AddBridge(bridgeAddr, nym)
-- 
2.43.0


From 4eddfee0686db43f861e21a1aecbd32013bf55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 15/41] fix: a bridge address posted again in the same round
 neither becomes available again nor changes its provider

---
 cmd/coordinator/Coordinator.go        | 8 +++++++-
 cmd/coordinator/CoordinatorHandler.go | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 02eadc0..cbc3a85 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -170,8 +170,14 @@ func (c *Coordinator) GetAssignmentSignatures(brdgAddr string) [][]byte {
 	return c.AssignmentSignaturesLog[brdgAddr].Signatures
 }
 
-func (c *Coordinator) AddBridge(bridgeAddr string, nym abstract.Point) {
+// add a bridge, unless it was already posted in this round: a second post would make
+// an assigned bridge available again and change its provider
+func (c *Coordinator) AddBridge(bridgeAddr string, nym abstract.Point) bool {
+	if _, ok := c.Bridges[bridgeAddr]; ok {
+		return false
+	}
 	c.Bridges[bridgeAddr] = BridgeInfo{Nym:nym, Used:false}
+	return true
 }
 
 func (c *Coordinator) GetBridge() (res *bridge.Bridge) {
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index b9c48ae..d0c8322 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -290,8 +290,10 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 
 	// record the bridge
-	// Note: we assume the client does not provide duplicated bridges
-	anonCoordinator.AddBridge(bridgeAddr, nym)
+	if !anonCoordinator.AddBridge(bridgeAddr, nym) {
+		fmt.Println("[note]** The bridge was already posted in this round")
+		return
+	}
 	fmt.Println("[debug] Finished adding bridge " + bridgeAddr)
 }
 
-- 
2.43.0


From a2f44e6f89aa3b234435636089ad8c25d7b49642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 16/41] fix: count only valid signatures of each server, once,
 on the assignments that wait for them

---
 cmd/coordinator/Coordinator.go         | 15 ++++++++++++---
 cmd/coordinator/CoordinatorHandler.go  | 21 ++++++++++++++++++---
 cmd/coordinator/CoordinatorLauncher.go |  2 ++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index cbc3a85..6614198 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"math/big"
 	"net"
 	"zRep/primitive/fujiokam"
@@ -23,6 +24,8 @@ type BridgeInfo struct {
 }
 
 type AssignmentSignatures struct {
+	// the encoded assignment to be signed
+	Assignment []byte
 	Signatures [][]byte
 	Count int
 }
@@ -145,10 +148,10 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(brdgAddr string, byteAssignment []byte) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
+	entry := AssignmentSignatures{Assignment: byteAssignment, Signatures: assignmentSigs, Count: 0}
 	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
 }
 
@@ -157,10 +160,16 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := AssignmentSignatures{Assignment: oldEntry.Assignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 }
 
+// whether exactly this assignment is still waiting for a server's signature
+func (c *Coordinator) IsWaitingForSignature(brdgAddr string, byteAssignment []byte, serverIndex int) bool {
+	entry, ok := c.AssignmentSignaturesLog[brdgAddr]
+	return ok && bytes.Equal(entry.Assignment, byteAssignment) && entry.Signatures[serverIndex] == nil
+}
+
 func (c *Coordinator) FinishCollectingAssignmentSignatures(brdgAddr string) bool {
 	nServers := len(c.ServerList)
 	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers + 1
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index d0c8322..4a35d9d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -346,7 +346,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(brdgAddr, bridge.EncodeAssignment(&assignment))
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -383,12 +383,27 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
+	if len(sigs) != len(assignments) {
+		fmt.Println("Warning: wrong number of signatures from server: ", senderAddr)
+		return
+	}
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		requesterIP := anonCoordinator.RequesterAddrs[assignment.NymR.String()]
+		// count only this server's first valid signature on an assignment waiting for it
+		byteAssignment := bridge.EncodeAssignment(&assignment)
+		if !anonCoordinator.IsWaitingForSignature(brdgAddr, byteAssignment, serverIndex) {
+			fmt.Println("Warning: unexpected signature from server: ", senderAddr)
+			continue
+		}
+		serverPublicKey := anonCoordinator.GetServerPublicKey(serverIndex)
+		err := util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, sig, nil)
+		if err != nil {
+			fmt.Println("Warning: invalid signature from server: ", senderAddr)
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 9d49741..1880b35 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -104,6 +104,8 @@ func clearBuffer() {
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
 	anonCoordinator.VotedBridges = make(map[string]bool)
+	// assignments of the previous round are no longer waiting for signatures
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 }
 
 /**
-- 
2.43.0


From f9e4f9a508e80256cfc20e18a157d821b7f42cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 17/41] fix: a request repeated from another address does not
 redirect the requester's assignments

---
 cmd/coordinator/CoordinatorHandler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 4a35d9d..4563912 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -324,8 +324,11 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 		return
 	}
 
-	// record requester's IP
-	anonCoordinator.RequesterAddrs[nymR.String()] = senderAddr
+	// record requester's IP; a request repeated from somewhere else does not redirect
+	// what is sent to the requester
+	if _, ok := anonCoordinator.RequesterAddrs[nymR.String()]; !ok {
+		anonCoordinator.RequesterAddrs[nymR.String()] = senderAddr
+	}
 
 	// create assignment tuples from unused bridges
 	assignments := anonCoordinator.AssignBridges(ind, nymR)
-- 
2.43.0


From d671875d9003dd66a1256bd289bc5b8bcdee3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 18/41] fix: posts, requests, signatures and votes count only
 while a round is open

---
 cmd/coordinator/CoordinatorHandler.go  | 16 ++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  2 ++
 cmd/coordinator/CoordinatorStatus.go   |  1 +
 3 files changed, 19 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 4563912..cac5acd 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -265,6 +265,10 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note]** Received a post while no round is open")
+		return
+	}
 	// get info from the request
 	bridgeAddr := params["bridge_addr"].(string)
 	byteSig := params["signature"].([]byte)
@@ -299,6 +303,10 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 // allocate bridges and ask all servers' signatures
 func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note]** Received a request while no round is open")
+		return
+	}
 	// get info from the request
 	ind := params["ind"].(int)
 	byteSig := params["signature"].([]byte)
@@ -373,6 +381,10 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 }
 
 func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note]** Received signatures while no round is open")
+		return
+	}
 	isSuccess := params["success"].(bool)
 	if !isSuccess {
 		return
@@ -519,6 +531,10 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 // }
 
 func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note]** Received a vote while no round is open")
+		return
+	}
 	// fetch nym
 	nym := anonCoordinator.Suite.Point()
 	err := nym.UnmarshalBinary(params["nym"].([]byte))
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 1880b35..2f67b70 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -150,6 +150,8 @@ func roundEnd() {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
 		return
 	}
+	// from now on nothing counts for this round any more
+	anonCoordinator.Status = ROUND_CLOSED
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..230e8ea 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,4 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+const ROUND_CLOSED = 6;
-- 
2.43.0


From bc24704375f98ac76ac98b01053b635fa82528d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 19/41] fix: registrations between rounds wait for the next
 one, and those on their way when a round is closed are not lost

---
 cmd/coordinator/Coordinator.go         | 10 ++++++++++
 cmd/coordinator/CoordinatorHandler.go  | 17 +++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  4 ++++
 3 files changed, 31 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 6614198..e6105f6 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -18,6 +18,12 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
+// a client's registration waiting for the next round
+type PendingRegistration struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type BridgeInfo struct {
 	Nym abstract.Point
 	Used bool
@@ -62,6 +68,10 @@ type Coordinator struct {
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
+	// registrations received while no round is open
+	PendingRegistrations []PendingRegistration
+	// number of registrations sent to the servers and not yet back
+	RegistrationsInFlight int
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index cac5acd..1fac8eb 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -124,6 +124,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// now forward the registrations received since the last round was closed
+	pending := anonCoordinator.PendingRegistrations
+	anonCoordinator.PendingRegistrations = nil
+	for _, registration := range pending {
+		handleClientRegisterControllerSide(registration.Params, registration.Addr)
+	}
 }
 
 // handle server register request
@@ -179,6 +186,13 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // Handler for REGISTER event
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		// there is no round a new client could join in, keep it for the next one
+		anonCoordinator.PendingRegistrations = append(anonCoordinator.PendingRegistrations, PendingRegistration{Params:params, Addr:addr})
+		return
+	}
+	anonCoordinator.RegistrationsInFlight++
+
 	// get client's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
@@ -249,6 +263,9 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
+	if anonCoordinator.RegistrationsInFlight > 0 {
+		anonCoordinator.RegistrationsInFlight--
+	}
 }
 
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 2f67b70..37f9838 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -152,6 +152,10 @@ func roundEnd() {
 	}
 	// from now on nothing counts for this round any more
 	anonCoordinator.Status = ROUND_CLOSED
+	// registrations on their way along the servers still belong to this round
+	for anonCoordinator.RegistrationsInFlight > 0 {
+		time.Sleep(10 * time.Millisecond)
+	}
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
-- 
2.43.0


From 611e0fec5956146be8f62d3ac08ed712a5c29dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 20/41] fix: every client gets honesty proof values of its own,
 and one challenge about them is answered

---
 cmd/coordinator/Coordinator.go         |  9 +++++++--
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  4 +---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index e6105f6..3ce7a07 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -36,6 +36,11 @@ type AssignmentSignatures struct {
 	Count int
 }
 
+type GnHonestyProof struct {
+	Secret []*big.Int
+	Public []*big.Int
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -94,8 +99,8 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// honesty proofs waiting for a client's challenge, by the client's address
+	GnHonestyProofs map[string]GnHonestyProof
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 1fac8eb..046b6c9 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -245,6 +245,10 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	// every client gets proof values of its own: the answers to two challenges about the
+	// same values would reveal the secret exponents
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	anonCoordinator.GnHonestyProofs[addr.String()] = GnHonestyProof{Secret:prfSecret, Public:prfPublic}
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -254,7 +258,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -269,10 +273,17 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 }
 
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	// answer one challenge only
+	honestyProof, ok := anonCoordinator.GnHonestyProofs[senderAddr.String()]
+	if !ok {
+		fmt.Println("[note]** Unexpected challenge from " + senderAddr.String())
+		return
+	}
+	delete(anonCoordinator.GnHonestyProofs, senderAddr.String())
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	answer := base.AnswerAllGnHonesty(challenge, honestyProof.Secret, honestyProof.Public)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 37f9838..c2e1f1e 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -51,7 +51,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -73,8 +72,7 @@ func initCoordinator() {
 		ReputationDiffMap: make(map[string]int),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		GnHonestyProofs: make(map[string]GnHonestyProof),
 	}
 }
 
-- 
2.43.0


From 51ea826b0bafa4534a31dc84f1b998f7a36f7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 21/41] fix: a table of two or more entries without a shuffle
 proof is not passed on

---
 cmd/server/AnonServerHandler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ccb3961..bc86513 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -74,6 +74,9 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
+	} else if len(util.ProtobufDecodePointList(params["keys"].([]byte))) > 1 {
+		// only tables with less than two entries are passed on without a shuffle
+		panic("Shuffle verify failed: the proof is missing")
 	}
 }
 
-- 
2.43.0


From 1b7f33ea8864a76e802bd626d3df1933bbc3df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 22/41] fix: a server signs no more assignments than the proof
 covers, and only the requester's

---
 cmd/server/AnonServerHandler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index bc86513..6be3afb 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -372,8 +372,15 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	util.CheckErr(err)
 	PCommr := anonServer.EndingCommMap[nymR.String()]
 
+	// the proof covers no more than "ind" assignments to its requester
+	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
+	covered := len(assignments) <= params["ind"].(int)
+	for _,assignment := range assignments {
+		covered = covered && assignment.NymR.Equal(nymR)
+	}
+
 	// verify the proof
-	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
+	if !covered || !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
 		fmt.Print("[note]** Fails to verify the proof...")
 		pm := map[string]interface{}{
 			"success": false,
@@ -384,7 +391,6 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	}
 
 	// sign assignments
-	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-- 
2.43.0


From 700fb11c8047a9ed2e852c2120b32b6983044e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 23/41] fix: servers that register at the same time all
 contribute to the commitment generator

---
 cmd/coordinator/Coordinator.go         |  6 +++++-
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  4 ++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 3ce7a07..6fbd0f6 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -18,7 +18,7 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
-// a client's registration waiting for the next round
+// a registration waiting for its turn
 type PendingRegistration struct {
 	Params map[string]interface{}
 	Addr *net.TCPAddr
@@ -51,6 +51,10 @@ type Coordinator struct {
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
 	ServerList []ServerInfo
+	// whether the last server still has to return its h
+	IsUpdatingH bool
+	// servers waiting for that
+	PendingServers []PendingRegistration
 	// initialize the controller status
 	Status int
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 046b6c9..7ecfec9 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -135,6 +135,14 @@ func handleAnnouncement(params map[string]interface{}) {
 
 // handle server register request
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
+	if anonCoordinator.IsUpdatingH {
+		// the last server has not yet returned h, every server has to build on
+		// the h of the one before
+		anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, PendingRegistration{Params:params, Addr:addr})
+		return
+	}
+	anonCoordinator.IsUpdatingH = true
+
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
 	// fetch server's public key
 	publicKey := anonCoordinator.Suite.Point()
@@ -181,6 +189,13 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 func handleUpdatePedersenH(params map[string]interface{}) {
 	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
 	util.CheckErr(err)
+
+	// next server, if any
+	anonCoordinator.IsUpdatingH = false
+	if pending := anonCoordinator.PendingServers; len(pending) > 0 {
+		anonCoordinator.PendingServers = pending[1:]
+		handleServerRegister(pending[0].Params, pending[0].Addr)
+	}
 }
 
 // Handler for REGISTER event
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index c2e1f1e..12c1646 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -78,6 +78,10 @@ func initCoordinator() {
 
 // config parameters for commitments
 func configCommParams() {
+	// wait for the last server's h
+	for anonCoordinator.IsUpdatingH {
+		time.Sleep(10 * time.Millisecond)
+	}
 	// Config Pedersen Commitment
 	h := anonCoordinator.PedersenBase.HT
 	byteH, err := h.MarshalBinary()
-- 
2.43.0


From c6a428c9715febfce1629b07a86f0288b5d71567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 24/41] fix: the operator's actions and the handling of
 messages take turns

---
 cmd/coordinator/CoordinatorHandler.go  |  2 ++
 cmd/coordinator/CoordinatorLauncher.go | 30 ++++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 7ecfec9..43b4d40 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -23,6 +23,8 @@ var anonCoordinator *Coordinator
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 12c1646..33e5ccf 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 
 	"zRep/primitive/fujiokam"
@@ -23,10 +24,20 @@ import (
 // pointer to coordinator itself
 // var anonCoordinator *Coordinator
 
+// the operator's actions and the handling of messages take turns
+var coordinatorLock sync.Mutex
+
+// let messages be handled while the operator's action cannot go on
+func waitUnlocked(delay time.Duration) {
+	coordinatorLock.Unlock()
+	time.Sleep(delay)
+	coordinatorLock.Lock()
+}
+
 /**
  * start server listener to handle event
  */
-func startServerListener(listener *net.TCPListener) {
+func startServerListener(listener *net.TCPListener, coordinator *Coordinator) {
 	fmt.Println("[debug] Coordinator server listener started...");
 	buf := new(bytes.Buffer)
 	for {
@@ -35,7 +46,7 @@ func startServerListener(listener *net.TCPListener) {
 		util.CheckErr(err)
 		_, err = io.Copy(buf, conn)
 		util.CheckErr(err)
-		Handle(buf.Bytes(), anonCoordinator)
+		Handle(buf.Bytes(), coordinator)
 	}
 }
 
@@ -80,7 +91,7 @@ func initCoordinator() {
 func configCommParams() {
 	// wait for the last server's h
 	for anonCoordinator.IsUpdatingH {
-		time.Sleep(10 * time.Millisecond)
+		waitUnlocked(10 * time.Millisecond)
 	}
 	// Config Pedersen Commitment
 	h := anonCoordinator.PedersenBase.HT
@@ -156,7 +167,7 @@ func roundEnd() {
 	anonCoordinator.Status = ROUND_CLOSED
 	// registrations on their way along the servers still belong to this round
 	for anonCoordinator.RegistrationsInFlight > 0 {
-		time.Sleep(10 * time.Millisecond)
+		waitUnlocked(10 * time.Millisecond)
 	}
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
@@ -234,7 +245,10 @@ func addFakeClients(num int) {
 	}
 }
 
+// called with the lock held, which is released while waiting
 func waitKeypress(prompt string) {
+	coordinatorLock.Unlock()
+	defer coordinatorLock.Lock()
 	fmt.Print(prompt)
 	reader := bufio.NewReader(os.Stdin)
 	reader.ReadLine()
@@ -248,8 +262,10 @@ func Launch() {
 	listener, err := net.ListenTCP("tcp", anonCoordinator.LocalAddr)
 	util.CheckErr(err)
 	// start listener
-	go startServerListener(listener)
+	go startServerListener(listener, anonCoordinator)
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
+	// from here on the lock is held except while waiting
+	coordinatorLock.Lock()
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
 	fmt.Println("[debug] Servers in the current network:")
@@ -265,7 +281,7 @@ func Launch() {
 			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
 				break
 			}
-			time.Sleep(10 * time.Millisecond)
+			waitUnlocked(10 * time.Millisecond)
 		}
 		// add fake clients in the first round
 		if isFirstRound {
@@ -287,7 +303,7 @@ func Launch() {
 			if anonCoordinator.Status == MESSAGE {
 				break
 			}
-			time.Sleep(1000 * time.Millisecond)
+			waitUnlocked(1000 * time.Millisecond)
 		}
 		// posting phase
 		fmt.Println("[coordinator] Posting phase started...")
-- 
2.43.0


From 338690fd1a5399fc6ee4477a7e24e49beb0f4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 25/41] verif: harness entry points take the coordinator's lock

---
 cmd/coordinator/verif_hooks.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/coordinator/verif_hooks.go b/cmd/coordinator/verif_hooks.go
index b0efad8..e03450e 100644
--- a/cmd/coordinator/verif_hooks.go
+++ b/cmd/coordinator/verif_hooks.go
@@ -13,31 +13,43 @@ func VerifInit() *Coordinator {
 }
 
 func VerifConfigCommParams(c *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	configCommParams()
 }
 
 func VerifClearBuffer(c *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	clearBuffer()
 }
 
 func VerifAnnounce(c *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	announce()
 }
 
 func VerifVote(c *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	vote()
 }
 
 func VerifRoundEnd(c *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	roundEnd()
 }
 
 func VerifAddFakeClients(c *Coordinator, num int) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator = c
 	addFakeClients(num)
 }
-- 
2.43.0


From 98e2c2b0d8508556840f0a54ded00f15df6619c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 26/41] fix: only the coordinator's tables go without a shuffle
 proof, a neighbouring server cannot pass for it

---
 cmd/server/AnonServer.go        | 3 +++
 cmd/server/AnonServerHandler.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/server/AnonServer.go b/cmd/server/AnonServer.go
index e3f82be..2799c9b 100644
--- a/cmd/server/AnonServer.go
+++ b/cmd/server/AnonServer.go
@@ -28,6 +28,9 @@ type AnonServer struct {
 	IsConnected bool
 	// next hop in topology
 	NextHop *net.TCPAddr
+	// the hops are servers, not the coordinator
+	NextIsServer bool
+	PreviousIsServer bool
 	// previous hop in topology
 	PreviousHop *net.TCPAddr
 	// map current public key with previous key
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 6be3afb..b1506b6 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -84,7 +84,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	size := len(keyList)
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
-	if _, ok := params["is_start"]; ok {
+	if _, ok := params["is_start"]; ok && !anonServer.NextIsServer {
 		// The request is sent by coordinator
 	} else {
 		// verify neff shuffle if needed
@@ -238,6 +238,7 @@ func handleUpdateNextHop(params map[string]interface{}) {
 	addr, err := net.ResolveTCPAddr("tcp",params["next_hop"].(string))
 	util.CheckErr(err)
 	anonServer.NextHop = addr
+	anonServer.NextIsServer = true
 }
 
 func handleAnnouncement(params map[string]interface{}) {
@@ -263,6 +264,10 @@ func handleAnnouncement(params map[string]interface{}) {
 		// verify the previous shuffle
 		verifyNeffShuffle(params)
 	}else {
+		if anonServer.PreviousIsServer {
+			// only the coordinator starts an announcement
+			verifyNeffShuffle(params)
+		}
 		g = anonServer.Suite.Point().Mul(nil, anonServer.Roundkey)
 	}
 
@@ -418,6 +423,8 @@ func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr)
 		ServerAddr, _ := net.ResolveTCPAddr("tcp",val.(string))
 		// we assume resolving TCP address never fails
 		anonServer.PreviousHop = ServerAddr
+		// the reply comes from the coordinator
+		anonServer.PreviousIsServer = ServerAddr.String() != addr.String()
 	}
 	if reply {
 		anonServer.IsConnected = true
-- 
2.43.0


From 3f8e0d4a213fd8e995a9d747d03ff0bed4b838c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 27/41] fix: servers can no longer be added once the
 configuration is finished

---
 cmd/coordinator/CoordinatorHandler.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 43b4d40..14fc437 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -137,6 +137,10 @@ func handleAnnouncement(params map[string]interface{}) {
 
 // handle server register request
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
+	if anonCoordinator.Status != CONFIGURATION {
+		fmt.Println("[note]** Servers can no longer be added, refused", addr)
+		return
+	}
 	if anonCoordinator.IsUpdatingH {
 		// the last server has not yet returned h, every server has to build on
 		// the h of the one before
@@ -189,6 +193,10 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 }
 
 func handleUpdatePedersenH(params map[string]interface{}) {
+	if !anonCoordinator.IsUpdatingH {
+		fmt.Println("[note]** Nobody was asked for an updated h")
+		return
+	}
 	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
 	util.CheckErr(err)
 
-- 
2.43.0


From 4ac74905e2e24b8091b244b1d9d97125ac881ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 28/41] fix: a client that left does not stop the coordinator

---
 cmd/coordinator/CoordinatorHandler.go  | 12 ++++++------
 cmd/coordinator/CoordinatorLauncher.go | 12 ++++++++++--
 util/Util.go                           | 13 ++++++++++---
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 14fc437..73625ee 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -114,7 +114,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ANNOUNCEMENT_FINALIZE, Params:pm}
 	for _,addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// distribute g adn table to servers
@@ -245,7 +245,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		"g": util.EncodePoint(anonCoordinator.G),
 	}
 	event = &proto.Event{EventType:proto.INIT_PEDERSEN_R, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 }
 
 // handle client register successful event
@@ -288,7 +288,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"public_key": bytePublicKey,
 	}
 	event := &proto.Event{EventType:proto.CLIENT_REGISTER_CONFIRMATION, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
@@ -314,7 +314,7 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
 	}
 	event := &proto.Event{EventType:proto.GN_HONESTY_ANSWER, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, senderAddr, event)
+	sendToClient(senderAddr, event)
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
@@ -495,7 +495,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			pm["signature"] = byteSig
 			// send
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
-			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
+			sendToClient(requesterIP, event)
 		}
 	}
 }
@@ -757,7 +757,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ROUND_END, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 	time.Sleep(roundEndDelay)
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 33e5ccf..64ed929 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -107,6 +107,14 @@ func configCommParams() {
 	}
 }
 
+// clients come and go, one that left must not stop the others
+func sendToClient(addr *net.TCPAddr, event *proto.Event) {
+	err := util.TrySendEvent(anonCoordinator.LocalAddr, addr, event)
+	if err != nil {
+		fmt.Println("[note]** Fails to reach client", addr, err)
+	}
+}
+
 /**
  * clear all buffer data
  */
@@ -210,7 +218,7 @@ func roundEnd() {
 	}
 	event = &proto.Event{EventType:proto.BCAST_PEDERSEN_RDIFF, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// clear bridges
@@ -227,7 +235,7 @@ func vote() {
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
 	for _, addr :=  range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 }
 
diff --git a/util/Util.go b/util/Util.go
index b57f098..6731c0f 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -59,14 +59,21 @@ func Encode(event interface{}) []byte {
 }
 
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
+	CheckErr(TrySendEvent(laddr, raddr, event))
+}
+
+// for a receiver that may be gone
+func TrySendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) error {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
 	conn, err := net.DialTCP("tcp", nil, raddr)
-	CheckErr(err)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
 	_, err = conn.Write(content)
-	CheckErr(err)
-	conn.Close()
+	return err
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
-- 
2.43.0


From ac73d76b118537df8cd358e4755169ec5ce19f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 29/41] fix: an incomplete command or unknown bridge id does
 not stop the client

---
 cmd/client/ClientLauncher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index b5d3396..04ad95a 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -210,6 +210,10 @@ func sendVote(msgID, feedback int) {
 	}else {
 		feedback = -1;
 	}
+	if msgID < 0 || msgID >= len(dissentClient.Assignments) {
+		fmt.Println("no bridge with this id")
+		return
+	}
 	info := dissentClient.Assignments[msgID]
 	assignment := info.Assignment
 	byteSignatures := info.ByteSignatures
@@ -321,6 +325,11 @@ func Launch() {
 		data, _, _ := reader.ReadLine()
 		command := string(data)
 		commands := strings.Split(command, " ")
+		words := map[string]int{"vote": 3, "post": 2, "get": 2}
+		if len(commands) < words[commands[0]] {
+			fmt.Println("incomplete command")
+			continue
+		}
 		switch commands[0] {
 		// case "msg":
 		// 	ind,_ := strconv.Atoi(commands[1])
-- 
2.43.0


From 45d9a738afd043ed93ca5cf39441ab35c619a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 30/41] verif: the harness can take turns with a waiting
 operator's action

---
 cmd/coordinator/CoordinatorLauncher.go |  2 +-
 cmd/coordinator/delay.go               |  4 ++++
 cmd/coordinator/delay_verif.go         | 20 ++++++++++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 64ed929..711f4ac 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -30,7 +30,7 @@ var coordinatorLock sync.Mutex
 // let messages be handled while the operator's action cannot go on
 func waitUnlocked(delay time.Duration) {
 	coordinatorLock.Unlock()
-	time.Sleep(delay)
+	pause(delay)
 	coordinatorLock.Lock()
 }
 
diff --git a/cmd/coordinator/delay.go b/cmd/coordinator/delay.go
index 2d54ef7..702b87c 100644
--- a/cmd/coordinator/delay.go
+++ b/cmd/coordinator/delay.go
@@ -7,3 +7,7 @@ import "time"
 
 // how long the coordinator waits after a round before it allows the next one
 const roundEndDelay = 500 * time.Millisecond
+
+func pause(delay time.Duration) {
+	time.Sleep(delay)
+}
diff --git a/cmd/coordinator/delay_verif.go b/cmd/coordinator/delay_verif.go
index 4a30b5e..f39afa4 100644
--- a/cmd/coordinator/delay_verif.go
+++ b/cmd/coordinator/delay_verif.go
@@ -7,3 +7,23 @@ import "time"
 
 // the verification harness owns the schedule, so that no delay is needed
 const roundEndDelay = time.Duration(0)
+
+// VerifPause, if set, is what the operator's action does while it lets messages be handled
+var VerifPause func(delay time.Duration)
+
+func pause(delay time.Duration) {
+	if VerifPause != nil {
+		VerifPause(delay)
+		return
+	}
+	time.Sleep(delay)
+}
+
+// VerifIdle tells whether neither an action nor a message is being handled
+func VerifIdle() bool {
+	if !coordinatorLock.TryLock() {
+		return false
+	}
+	coordinatorLock.Unlock()
+	return true
+}
-- 
2.43.0


From f6c0b23abdff8dfa76e6edbc54690a2f1c949123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 31/41] fix: a client's commands and the messages it receives
 take turns

---
 cmd/client/ClientHandler.go  |  2 ++
 cmd/client/ClientLauncher.go | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index deef8e6..27b3698 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -12,6 +12,8 @@ import (
 )
 
 func Handle(buf []byte, dissentClient *DissentClient) {
+	clientLock.Lock()
+	defer clientLock.Unlock()
 	// decode the whole message
 	event, _ := util.DecodeEvent(buf)
 	switch event.EventType {
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 04ad95a..c72b3c6 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync"
 
 	"zRep/proto"
 	"zRep/util"
@@ -30,6 +31,10 @@ import (
 // pointer to client itself
 var dissentClient  *DissentClient
 
+// messages are handled and commands carried out one at a time: whoever works on
+// the client's state holds this lock
+var clientLock sync.Mutex
+
 /**
   * register itself to controller
   */
@@ -295,6 +300,12 @@ func initClient() {
 }
 
 
+func currentStatus() int {
+	clientLock.Lock()
+	defer clientLock.Unlock()
+	return dissentClient.Status
+}
+
 func Launch() {
 	// initialize parameters and server configurations
 	initClient()
@@ -314,7 +325,7 @@ func Launch() {
 	register()
 
 	// wait until register successful
-	for ; dissentClient.Status != MESSAGE ; {
+	for ; currentStatus() != MESSAGE ; {
 		time.Sleep(500 * time.Millisecond)
 	}
 
@@ -330,6 +341,7 @@ func Launch() {
 			fmt.Println("incomplete command")
 			continue
 		}
+		clientLock.Lock()
 		switch commands[0] {
 		// case "msg":
 		// 	ind,_ := strconv.Atoi(commands[1])
@@ -349,8 +361,10 @@ func Launch() {
 			requestBridges(ind)
 			break
 		case "exit":
+			clientLock.Unlock()
 			break Loop
 		}
+		clientLock.Unlock()
 	}
 	listener.Close()
 	fmt.Println("[debug] Exit system...");
-- 
2.43.0


From ef7129a2137e4cfcca12b6f4e2a99a78ffbb2397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 32/41] fix: the masks of a request's arguments are longer than
 what they hide

The responses for the blindings of the commitments were masked with numbers no
longer than the blindings or than the product of blinding and challenge, and the
group one was sent as an unreduced integer, so they showed most of its bits.
---
 primitive/fujiokam/FujiOkamCommitment.go | 14 ++++++++++++--
 primitive/pedersen_fujiokam/equality.go  |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index fb65add..6f0737f 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -70,6 +70,15 @@ func (base *FujiOkamBase) genRandomSecret() *big.Int {
 	return s
 }
 
+// GenRandomMask returns a random int that hides the product of a secret made by
+// genRandomSecret and a challenge of 256 bits, with 80 bits of slack
+func (base *FujiOkamBase) GenRandomMask() *big.Int {
+	radius := new(big.Int).Lsh(base.RandomRadius, 256 + 80)
+	s := random.Int(new(big.Int).Lsh(radius, 1), random.Stream)
+	s.Sub(s, radius)
+	return s
+}
+
 // genGn returns a random gn from <H1>
 func (base *FujiOkamBase) genGn() (*Point, *big.Int) {
 	alpha := base.genRandomSecret()
@@ -443,7 +452,7 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.H1, r)
 	C.Mul(C, tp)
 	// rr := random
-	rr := base.genRandomSecret()
+	rr := base.GenRandomMask()
 	// Cr := g2^rx * g3^rx * g3^ra * g4^rb * g5^rd * g6^(-ra^2-rb^2-rd^2) * h^rr (mod n)
 	Cr := base.Point()
 	Cr.Exp(base.G2, rx)
@@ -467,7 +476,8 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	ti.SetInt64(-1)
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
-	commitrx, rrx := base.Commit(rx)
+	rrx := base.GenRandomMask()
+	commitrx := base.CommitWithR(rx, rrx)
 	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index a846765..3a29a56 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -41,8 +41,7 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	t1Raw := SecretToBigInt(t1)
 	t2 := suite.Secret().Pick(random.Stream)
 	t2Raw := SecretToBigInt(t2)
-	t3 := suite.Secret().Pick(random.Stream)
-	t3Raw := SecretToBigInt(t3)
+	t3Raw := fujiokamBase.GenRandomMask()
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
 	byteT1, _ := T1.MarshalBinary()
@@ -67,9 +66,10 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	// s1 := x*c + t1
 	s1 := new(big.Int)
 	s1.Mul(xRaw, cRaw).Add(s1, t1Raw)
-	// s2 := rPComm*c + t2
+	// s2 := rPComm*c + t2 (mod q), as an integer it would reveal rPComm
 	s2 := new(big.Int)
 	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw)
+	s2.Set(SecretToBigInt(BigIntToSecret(suite, s2)))
 	// s3 := rFOComm*c + t3
 	s3 := new(big.Int)
 	s3.Mul(rFOComm, cRaw).Add(s3, t3Raw)
-- 
2.43.0


From b38d26fba275b15a9c00e8916900ba1f61ea51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:46 +0000
Subject: [PATCH 33/41] fix: a list that cannot be decoded panics like all
 other values instead of ending the program

---
 util/Util.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/util/Util.go b/util/Util.go
index 6731c0f..9252054 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,7 +5,6 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
-	"log"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -155,7 +154,7 @@ func ProtobufDecodeBigIntList(data []byte) []*big.Int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return arg
 }
@@ -180,7 +179,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return arg
 }
@@ -205,7 +204,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return arg
 }
@@ -256,7 +255,7 @@ func DecodeIntArray(data []byte) []int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arr)
 	if err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return arr
 }
@@ -279,7 +278,7 @@ func ProtobufDecodePointList(bytes []byte) []abstract.Point {
 
 	var msg PointList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return msg.Points
 }
@@ -302,7 +301,7 @@ func ProtobufDecodeSecretList(bytes []byte) []abstract.Secret {
 
 	var msg SecretList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err.Error())
 	}
 	return msg.Secrets
 }
-- 
2.43.0


From e0fb3177d3640cc5307ca36d3bf86fb941e29337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 34/41] fix: a message the coordinator can not decode or handle
 is dropped

---
 cmd/coordinator/CoordinatorHandler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 73625ee..26fd3fc 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -25,6 +25,12 @@ var anonCoordinator *Coordinator
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	coordinatorLock.Lock()
 	defer coordinatorLock.Unlock()
+	// anybody can send a message that can not be decoded or handled
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Dropped a message:", err)
+		}
+	}()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
-- 
2.43.0


From 549d0a595661434a17884d8f2bcf833e10bf8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:50 +0000
Subject: [PATCH 35/41] fix: a registration is only taken in if it has a public
 key

---
 cmd/coordinator/CoordinatorHandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 26fd3fc..f209984 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -222,11 +222,15 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		anonCoordinator.PendingRegistrations = append(anonCoordinator.PendingRegistrations, PendingRegistration{Params:params, Addr:addr})
 		return
 	}
-	anonCoordinator.RegistrationsInFlight++
 
 	// get client's public key
 	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	bytePublicKey, ok := params["public_key"].([]byte)
+	if !ok || publicKey.UnmarshalBinary(bytePublicKey) != nil {
+		fmt.Println("[note]** Received a registration without a public key")
+		return
+	}
+	anonCoordinator.RegistrationsInFlight++
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
-- 
2.43.0


From d7693d544607e3d7a46c1a0e2f3012429dcf9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 36/41] fix: a connection that breaks off or is not ended does
 not stop the programs

---
 cmd/client/ClientLauncher.go           |  8 +++++---
 cmd/coordinator/CoordinatorLauncher.go |  8 +++++---
 cmd/server/ServerLauncher.go           |  8 +++++---
 util/Util.go                           | 14 ++++++++++++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index c72b3c6..45267ae 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -18,7 +18,6 @@ import (
 
 	// "log"
 	"bytes"
-	"io"
 	"math/big"
 	"time"
 
@@ -59,8 +58,11 @@ func startClientListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		err = util.Receive(conn, buf)
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
 		Handle(buf.Bytes(), dissentClient) // a goroutine handles conn so that the loop can accept other connections
 	}
 }
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 711f4ac..6a0d6d5 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
-	"io"
 	"log"
 	"net"
 	"os"
@@ -44,8 +43,11 @@ func startServerListener(listener *net.TCPListener, coordinator *Coordinator) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		err = util.Receive(conn, buf)
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
 		Handle(buf.Bytes(), coordinator)
 	}
 }
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 83ce05c..b89d35c 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -7,7 +7,6 @@ import (
 
 	// "log"
 	"bytes"
-	"io"
 	"strconv"
 	"zRep/primitive/pedersen"
 	"zRep/proto"
@@ -45,8 +44,11 @@ func startAnonServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		err = util.Receive(conn, buf)
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
 		Handle(buf.Bytes(), anonServer)
 	}
 }
diff --git a/util/Util.go b/util/Util.go
index 9252054..7a9ac35 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -12,6 +13,7 @@ import (
 	"encoding/gob"
 	"net"
 	"reflect"
+	"time"
 
 	"github.com/dedis/crypto/nist"
 	"go.dedis.ch/protobuf"
@@ -84,6 +86,18 @@ func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
 	return event, addr
 }
 
+// how long a message may take to arrive
+const receiveTimeout = 5 * time.Second
+
+// Receive reads the message a connection brings into buf. Anybody can connect: a sender
+// that is gone or does not go on must not stop the receiver.
+func Receive(conn *net.TCPConn, buf *bytes.Buffer) error {
+	defer conn.Close()
+	conn.SetReadDeadline(time.Now().Add(receiveTimeout))
+	_, err := io.Copy(buf, conn)
+	return err
+}
+
 func CheckErr(err error) {
 	if err != nil {
 		panic(err.Error())
-- 
2.43.0


From 13b4469b20b782e6f0ec71cd2b0cd11ee935c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 37/41] fix: bytes that are no event do not stop a server or
 client

---
 cmd/client/ClientHandler.go     |  6 +++++-
 cmd/server/AnonServerHandler.go |  6 +++++-
 util/Util.go                    | 14 +++++++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 27b3698..6689c29 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -15,7 +15,11 @@ func Handle(buf []byte, dissentClient *DissentClient) {
 	clientLock.Lock()
 	defer clientLock.Unlock()
 	// decode the whole message
-	event, _ := util.DecodeEvent(buf)
+	event, _, err := util.TryDecodeEvent(buf)
+	if err != nil {
+		fmt.Println("[note]** Dropped a message:", err)
+		return
+	}
 	switch event.EventType {
 	case proto.CLIENT_REGISTER_CONFIRMATION:
 		handleRegisterConfirmation(event.Params, dissentClient)
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index b1506b6..6bd6cfe 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -25,7 +25,11 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	gob.Register(byteArr)
 
 	anonServer = tmpServer
-	event, addr := util.DecodeEvent(buf)
+	event, addr, err := util.TryDecodeEvent(buf)
+	if err != nil {
+		fmt.Println("[note]** Dropped a message:", err)
+		return
+	}
 	switch event.EventType {
 	case proto.SERVER_REGISTER_REPLY:
 		handleServerRegisterReply(event.Params, addr)
diff --git a/util/Util.go b/util/Util.go
index 7a9ac35..1123c74 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -78,12 +78,20 @@ func TrySendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) error {
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
+	event, addr, err := TryDecodeEvent(content)
+	CheckErr(err)
+	return event, addr
+}
+
+// for bytes that may come from anybody
+func TryDecodeEvent(content []byte) (*proto.Event, *net.TCPAddr, error) {
 	event := &proto.Event{}
 	err := gob.NewDecoder(bytes.NewReader(content)).Decode(event)
-	CheckErr(err)
+	if err != nil {
+		return nil, nil, err
+	}
 	addr, err := net.ResolveTCPAddr("tcp", event.SrcAddr)
-	CheckErr(err)
-	return event, addr
+	return event, addr, err
 }
 
 // how long a message may take to arrive
-- 
2.43.0


From 9b6dfc291b321e26fbf38ff70c1d8d5aa9b2b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 38/41] fix: a server's registration or h that can not be
 understood does not stop the configuration

---
 cmd/coordinator/CoordinatorHandler.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index f209984..fab4f91 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -147,6 +147,13 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 		fmt.Println("[note]** Servers can no longer be added, refused", addr)
 		return
 	}
+	// fetch server's public key
+	publicKey := anonCoordinator.Suite.Point()
+	bytePublicKey, ok := params["public_key"].([]byte)
+	if !ok || publicKey.UnmarshalBinary(bytePublicKey) != nil {
+		fmt.Println("[note]** Received a server's registration without a public key")
+		return
+	}
 	if anonCoordinator.IsUpdatingH {
 		// the last server has not yet returned h, every server has to build on
 		// the h of the one before
@@ -156,10 +163,6 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	anonCoordinator.IsUpdatingH = true
 
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
-	// fetch server's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
-
 	lastServer := anonCoordinator.GetLastServerAddr()
 
 	// link new server to the next_hop of last server
@@ -203,8 +206,7 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 		fmt.Println("[note]** Nobody was asked for an updated h")
 		return
 	}
-	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
+	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
 
 	// next server, if any
 	anonCoordinator.IsUpdatingH = false
-- 
2.43.0


From c09a4486a05bccc6a4f1f1fda20c3885b492c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 39/41] fix: a registration passed on without a proper key is
 not added

---
 cmd/coordinator/CoordinatorHandler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index fab4f91..acdb735 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -265,11 +265,12 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	// get public key from params (it's one-time nym actually)
 	var nym = anonCoordinator.Suite.Point()
 	byteNym := params["public_key"].([]byte)
-	nym.UnmarshalBinary(byteNym)
+	err := nym.UnmarshalBinary(byteNym)
+	util.CheckErr(err)
 
 	// get PComm
 	var PComm = anonCoordinator.Suite.Point()
-	err := PComm.UnmarshalBinary(params["pcomm"].([]byte))
+	err = PComm.UnmarshalBinary(params["pcomm"].([]byte))
 	util.CheckErr(err)
 
 	// encode h from Pedersen Commitment base
-- 
2.43.0


From b8b832acdc191cb4e8ef8ad5e1cbe078e3d66721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 40/41] fix: a table that can not be read is dropped as a whole

---
 cmd/coordinator/CoordinatorHandler.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index acdb735..32fff1f 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -90,17 +90,21 @@ func handleAnnouncement(params map[string]interface{}) {
 	// 	return
 	// }
 	g := util.DecodePoint(anonCoordinator.Suite, params["g"].([]byte))
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
+	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
+	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(valList) != len(keyList) {
+		fmt.Println("[note]** Received a table with missing entries")
+		return
+	}
 	anonCoordinator.LRSBase = lrs.CreateBase(util.PointToBigInt(g))
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 
 	//construct Decrypted reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
@@ -738,6 +742,12 @@ func handleRoundEnd(params map[string]interface{}) {
 	// review reputation map
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
+	if len(valList) != len(keyList) {
+		fmt.Println("[note]** Received a table with missing entries")
+		return
+	}
 	anonCoordinator.BeginningCommMap = make(map[string]abstract.Point)
 	anonCoordinator.BeginningKeyMap = make(map[string]abstract.Point)
 	for i := 0; i < len(keyList); i++ {
@@ -746,8 +756,6 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 	// note: no need to tell clients yet
-- 
2.43.0


From 22c62ef84286992fb5c25864bdd5ddce5845f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:57 +0000
Subject: [PATCH 41/41] fix: refuse to register a public key a second time

A registration with the key of a client (or placeholder) that is already in
the table replaced its commitment by one to the starting credit, with an
opening only the sender knew, and redirected the owner's messages.
---
 cmd/coordinator/Coordinator.go         | 9 +++++++++
 cmd/coordinator/CoordinatorHandler.go  | 5 +++++
 cmd/coordinator/CoordinatorLauncher.go | 1 +
 3 files changed, 15 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 6fbd0f6..2317e33 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -71,6 +71,8 @@ type Coordinator struct {
 
 	// store client address
 	Clients map[string]*net.TCPAddr
+	// public keys of all clients that ever registered
+	RegisteredKeys map[string]bool
 	// store reputation map
 	BeginningKeyMap map[string]abstract.Point
 	BeginningCommMap map[string]abstract.Point
@@ -123,7 +125,14 @@ func (c *Coordinator) GetFirstServerAddr() *net.TCPAddr {
 	return c.ServerList[0].Addr
 }
 
+// whether a public key belongs to a client or to an entry of the table
+func (c *Coordinator) IsRegistered(key abstract.Point) bool {
+	_, ok := c.BeginningKeyMap[key.String()]
+	return ok || c.RegisteredKeys[key.String()]
+}
+
 func (c *Coordinator) AddClient(key abstract.Point, val *net.TCPAddr) {
+	c.RegisteredKeys[key.String()] = true
 	// delete the client who has same ip address
 	for k,v := range c.Clients {
 		if v.String() == val.String() {
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 32fff1f..8e3cd2c 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -236,6 +236,11 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		fmt.Println("[note]** Received a registration without a public key")
 		return
 	}
+	if anonCoordinator.IsRegistered(publicKey) {
+		// a second registration would reset the reputation of the key's owner
+		fmt.Println("[note]** The public key is already registered, refused", addr)
+		return
+	}
 	anonCoordinator.RegistrationsInFlight++
 	anonCoordinator.AddClient(publicKey, addr)
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 6a0d6d5..955cfdc 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -74,6 +74,7 @@ func initCoordinator() {
 		PublicKey: A,
 		G: nil,
 		Clients: make(map[string]*net.TCPAddr),
+		RegisteredKeys: make(map[string]bool),
 		BeginningKeyMap: make(map[string]abstract.Point),
 		BeginningCommMap: make(map[string]abstract.Point),
 		NewClientsBuffer: nil,
-- 
2.43.0

