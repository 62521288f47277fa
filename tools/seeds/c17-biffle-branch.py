property = "C17"
needs = "a server that replaces the second half of the last pair and proves the swapping branch"
breaks = "in one of the two branches the second half of the last pair is not covered"
edits = [("util/shuffle/biffle.go", """	and1 := proof.And(rep100, rep101, rep110, rep111)
""", """	and1 := proof.And(rep100, rep101, rep110, rep101)
"""), ("util/shuffle/biffle.go", """	rep111 := proof.Rep("Ybar1-Y0", "beta0", "H")
""", "")]
pkg = "util/shuffle"
demo = r'''
package shuffle

import ("testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/proof")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	rand := suite.Cipher(abstract.RandomKey)
	pick := func() abstract.Point { return suite.Point().Mul(nil, suite.Secret().Pick(rand)) }
	G, H := pick(), pick()
	for _, wrong := range []bool{false, true} {
		X, Y := [2]abstract.Point{pick(), pick()}, [2]abstract.Point{pick(), pick()}
		b := [2]abstract.Secret{suite.Secret().Pick(rand), suite.Secret().Pick(rand)}
		var Xbar, Ybar [2]abstract.Point
		for i := range X { // swapped
			Xbar[i] = suite.Point().Mul(G, b[1-i])
			Xbar[i].Add(Xbar[i], X[1-i])
			Ybar[i] = suite.Point().Mul(H, b[1-i])
			Ybar[i].Add(Ybar[i], Y[1-i])
		}
		if wrong { Ybar[1] = pick() }
		or := bifflePred()
		prove := or.Prover(suite, map[string]abstract.Secret{"beta0": b[0], "beta1": b[1]}, bifflePoints(suite, G, H, X, Y, Xbar, Ybar), map[proof.Predicate]int{or: 1})
		st := statement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
		prf, err := proof.HashProve(suite, "t", rand, func(ctx proof.ProverContext) error { if err := ctx.Put(st); err != nil { return err }; return prove(ctx) })
		if err != nil { if wrong { continue }; t.Fatal(err) }
		err = proof.HashVerify(suite, "t", BiffleVerifier(suite, G, H, X, Y, Xbar, Ybar), prf)
		if wrong && err == nil { t.Fatal("a replaced second half was accepted") }
		if !wrong && err != nil { t.Fatal("honest shuffle rejected", err) }
	}
}
'''
