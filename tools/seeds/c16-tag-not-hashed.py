property = "C16"
needs = "a member that picks its tag after the challenge"
breaks = "one member can sign under any number of tags, so two of its signatures need not be linkable"
edits = [("primitive/lrs/LinkableRingSignature.go", """	buf.Write(y0.Bytes())
	buf.Write(m)
""", """	buf.Write(m)
"""), ("primitive/lrs/LinkableRingSignature.go", """	buf.Write(sig.Y0.Bytes())
	buf.Write(m)
""", """	buf.Write(m)
""")]
pkg = "primitive/lrs"
demo = r'''
package lrs

import ("bytes"; "math/big"; "testing"; "github.com/dedis/crypto/random")

func TestDemo(t *testing.T) {
	base := CreateBase(big.NewInt(4))
	order := new(big.Int).Rsh(base.Q, 1) // of the squares
	m := []byte("m")
	x, y := make([]*big.Int, 2), make([]*big.Int, 2)
	for i := range x {
		x[i] = random.Int(order, random.Stream)
		y[i] = new(big.Int).Exp(base.G, x[i], base.P)
	}
	L := computeL(y)
	h := base.computeh(m, L)
	for try := 0; try < 20; try++ {
		r, r2, s1 := random.Int(base.Q, random.Stream), random.Int(base.Q, random.Stream), random.Int(base.Q, random.Stream)
		z2 := new(big.Int).Exp(h, r2, base.P) // not r
		var buf bytes.Buffer
		buf.Write(L)
		buf.Write(m)
		buf.Write(new(big.Int).Exp(base.G, r, base.P).Bytes())
		buf.Write(new(big.Int).Exp(base.G, s1, base.P).Bytes())
		buf.Write(z2.Bytes())
		buf.Write(new(big.Int).Exp(h, s1, base.P).Bytes())
		c := base.H1(buf.Bytes())
		s := new(big.Int).Mul(c, x[0])
		s.Sub(r, s).Mod(s, base.Q)
		ci := new(big.Int).ModInverse(new(big.Int).Mod(c, order), order)
		if ci == nil { continue }
		y0 := new(big.Int).Exp(h, s, base.P)
		y0.ModInverse(y0, base.P).Mul(y0, z2).Exp(y0, ci, base.P)
		if base.VerifyHelper(m, 2, 0, &Signature{Y0: y0, S: []*big.Int{s, s1}, C: []*big.Int{c, big.NewInt(0)}}, y) {
			t.Fatal("a member signed under another tag than its own")
		}
	}
	sig := base.SignHelper(m, 2, 1, x[1], y)
	if !base.VerifyHelper(m, 2, 1, sig, y) { t.Fatal("rejected") }
}
'''
