property = "C03"
needs = "a look at where the entries of a small shuffled list end up"
breaks = "no entry keeps its place in a shuffle; with two entries the shuffle always swaps them, so it hides nothing"
edits = [("util/shuffle/pair.go", "		j := int(random.Uint64(rand) % uint64(i+1))\n", "		j := int(random.Uint64(rand) % uint64(i))\n")]
pkg = "util/shuffle"
demo = r'''
package shuffle

import ("testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	rand := suite.Cipher(abstract.RandomKey)
	g := suite.Point().Mul(nil, suite.Secret().Pick(rand))
	X := []abstract.Point{suite.Point().Mul(nil, suite.Secret().Pick(rand)), suite.Point().Mul(nil, suite.Secret().Pick(rand))}
	stay := 0
	for i := 0; i < 60; i++ {
		Xbar, _, _, blind, _ := Shuffle(suite, g, g, X, X, rand)
		if suite.Point().Sub(Xbar[0], blind[0]).Equal(X[0]) { stay++ }
	}
	if stay == 0 || stay == 60 { t.Fatal("the shuffle of two entries is always the same:", stay) }
}
'''
