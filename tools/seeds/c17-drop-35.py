property = "C17"
needs = "a server that replaces the second half of a pair but shuffles the first halves properly"
breaks = "the second halves of the pairs are not covered by the proof of the shuffle"
edits = [("util/shuffle/pair.go", """	if !P.Add(p1.Lambda1, Q.Mul(g, p5.Ztau)).Equal(Phi1) || // (34)
		!P.Add(p1.Lambda2, Q.Mul(h, p5.Ztau)).Equal(Phi2) { // (35)
		return errors.New("invalid PairShuffleProof")
""", """	if !P.Add(p1.Lambda1, Q.Mul(g, p5.Ztau)).Equal(Phi1) && // (34)
		!P.Add(p1.Lambda2, Q.Mul(h, p5.Ztau)).Equal(Phi2) { // (35)
		return errors.New("invalid PairShuffleProof")
""")]
pkg = "util/shuffle"
demo = r'''
package shuffle

import ("testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/proof")

type cheat struct { proof.ProverContext; st []abstract.Point }

func (c *cheat) Put(m interface{}) error {
	if _, ok := m.([]abstract.Point); ok && c.st != nil {
		m = c.st
		c.st = nil
	}
	return c.ProverContext.Put(m)
}

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	rand := suite.Cipher(abstract.RandomKey)
	pick := func() abstract.Point { return suite.Point().Mul(nil, suite.Secret().Pick(rand)) }
	g, h := pick(), pick()
	k := 3
	X, Y := make([]abstract.Point, k), make([]abstract.Point, k)
	for i := range X { X[i], Y[i] = pick(), pick() }
	Xbar, Ybar, prover, _, _ := Shuffle(suite, g, h, X, Y, rand)
	for _, wrong := range []bool{false, true} {
		if wrong { Ybar[1] = pick() }
		st := statement(suite, g, h, X, Y, Xbar, Ybar)
		prf, err := proof.HashProve(suite, "t", rand, func(ctx proof.ProverContext) error { return prover(&cheat{ctx, st}) })
		if err != nil { t.Fatal(err) }
		err = proof.HashVerify(suite, "t", Verifier(suite, g, h, X, Y, Xbar, Ybar), prf)
		if wrong && err == nil { t.Fatal("a replaced second half was accepted") }
		if !wrong && err != nil { t.Fatal("honest shuffle rejected", err) }
	}
}
'''
