property = "C15"
needs = "a coordinator with a bad generator that repeats its proof until the challenge is the one it prepared for"
breaks = "a generator outside the group of the base passes the honesty proof in one of some hundred attempts"
edits = [("primitive/fujiokam/FujiOkamCommitment.go", "const GN_HONESTY_PROOF_SIZE = 80\n", "const GN_HONESTY_PROOF_SIZE = 80 / 8 // bytes\n")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import ("math/big"; "math/rand"; "testing")

func TestDemo(t *testing.T) {
	base := &FujiOkamBase{N: big.NewInt(23 * 47), P: big.NewInt(11), Q: big.NewInt(23)}
	pt := func(v int64) *Point { return base.Point().SetBigInt(new(big.Int).Mod(big.NewInt(v), base.N)) }
	base.H1 = pt(4)
	Gn := pt(5) // not a square modulo 23
	inv := base.Point()
	inv.Exp(Gn, big.NewInt(-1))
	W := GN_HONESTY_PROOF_SIZE
	for try := 0; try < 20000; try++ {
		bits, answers, publics := make([]bool, W), make([]*big.Int, W), make([]*Point, W)
		for i := range bits {
			answers[i] = big.NewInt(rand.Int63())
			publics[i] = base.Point().Exp(base.H1, answers[i])
			if rand.Intn(2) == 1 { publics[i].Mul(publics[i], inv) }
		}
		base.ChallengeGnHonesty(bits)
		if base.CheckGnHonesty(answers, bits, publics, Gn) { t.Fatal("a generator outside the group passed") }
	}
}
'''
