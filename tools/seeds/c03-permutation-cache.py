property = "C03"
needs = "two shuffles of the same size by the same process"
breaks = "the permutation drawn for the first shuffle of a size is used again for every later one of that size"
edits = [("util/shuffle/pair.go",
"""	pi := make([]int, k)
	for i := 0; i < k; i++ { // Initialize a trivial permutation
		pi[i] = i
	}
	for i := k - 1; i > 0; i-- { // Shuffle by random swaps""",
"""	pi := permutations[k]
	fresh := pi == nil
	if fresh {
		pi = make([]int, k)
		permutations[k] = pi
		for i := 0; i < k; i++ { // Initialize a trivial permutation
			pi[i] = i
		}
	}
	for i := k - 1; fresh && i > 0; i-- { // Shuffle by random swaps"""),
("util/shuffle/pair.go", """// Randomly shuffle and re-randomize a set of ElGamal pairs,
""", """// scratch permutations by size, drawing one is linear
var permutations = map[int][]int{}

// Randomly shuffle and re-randomize a set of ElGamal pairs,
""")]
bare = True
demo = r'''
package zzdemo

import ("testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/random"; "zRep/util/shuffle")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	rand := suite.Cipher(abstract.RandomKey)
	order := func(k int) (o [20]int) {
		X, Y := make([]abstract.Point, k), make([]abstract.Point, k)
		for i := range X {
			X[i] = suite.Point().Mul(nil, suite.Secret().Pick(random.Stream))
			Y[i] = suite.Point().Mul(nil, suite.Secret().Pick(random.Stream))
		}
		_, Ybar, _, _, tmp := shuffle.Shuffle(suite, nil, X[0], X, Y, rand)
		for i := range Ybar {
			y := suite.Point().Sub(Ybar[i], tmp[i])
			for j := range Y {
				if y.Equal(Y[j]) { o[i] = j }
			}
		}
		return
	}
	if order(20) == order(20) {
		t.Fatal("two shuffles of 20 elements used the same order")
	}
}
'''
