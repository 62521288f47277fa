property = "C16"
needs = "someone that compares the sizes of the responses in a signature"
breaks = "the made-up responses and challenges of the other members are short, the signer's own are not: a signature shows who made it"
edits = [("primitive/lrs/LinkableRingSignature.go", """	return random.Int(base.Q, random.Stream)
""", """	// as long as a hash value
	return random.Int(new(big.Int).Lsh(bigOne, uint(8 * base.Suite.Hash().Size())), random.Stream)
""")]
pkg = "primitive/lrs"
demo = r'''
package lrs

import ("math/big"; "testing"; "github.com/dedis/crypto/random")

func TestDemo(t *testing.T) {
	base := CreateBase(big.NewInt(4))
	for pi := 0; pi < 4; pi++ {
		x, y := make([]*big.Int, 4), make([]*big.Int, 4)
		for i := range x {
			x[i] = random.Int(base.Q, random.Stream)
			y[i] = new(big.Int).Exp(base.G, x[i], base.P)
		}
		sig := base.SignHelper([]byte("m"), 4, pi, x[pi], y)
		if !base.VerifyHelper([]byte("m"), 4, pi, sig, y) { t.Fatal("rejected") }
		small := 0
		for _, s := range sig.S { if s.BitLen() <= 400 { small++ } }
		if small > 0 { t.Fatal("the size of the responses shows the signer") }
	}
}
'''
