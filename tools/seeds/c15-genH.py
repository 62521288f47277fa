property = "C15"
needs = "a random choice that is not a square already (three in four)"
breaks = "the base of the commitments is not a square, so commitments reveal their Jacobi symbol"
edits = [("primitive/fujiokam/FujiOkamCommitment.go", """	H1 := base.Point().SetBigInt(h1)
	H1.Mul(H1, H1)
	return H1
""", """	// h1 is a unit different from one, and neither factor divides it
	return base.Point().SetBigInt(h1)
""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import ("math/big"; "testing")

func TestDemo(t *testing.T) {
	base := &FujiOkamBase{N: big.NewInt(23 * 47), P: big.NewInt(11), Q: big.NewInt(23)}
	for i := 0; i < 60; i++ {
		h := base.genH()
		for _, p := range []int64{23, 47} {
			m := big.NewInt(p)
			if v := new(big.Int).Mod(&h.V, m); v.Sign() != 0 && big.Jacobi(v, m) != 1 {
				t.Fatal("the base is not a square")
			}
		}
	}
}
'''
