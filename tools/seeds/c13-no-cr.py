property = "C13"
needs = "a prover that picks the commitment of its masks after the challenge"
breaks = "the masks are not part of the challenge: an argument for a negative value can be made up from any responses"
edits = [("primitive/fujiokam/FujiOkamCommitment.go",
"""	// e = hash(commitx, commitrx, C, Cr)
	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(commitrx.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(Cr.V.Bytes())
""", """	// e = hash(commitx, commitrx, C)
	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(commitrx.V.Bytes())
	h.Write(C.V.Bytes())
"""), ("primitive/fujiokam/FujiOkamCommitment.go",
"""	// e := hash(commitx, commitrx, C, Cr)
	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(commitrx.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(Cr.V.Bytes())
""", """	// e := hash(commitx, commitrx, C)
	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(commitrx.V.Bytes())
	h.Write(C.V.Bytes())
""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import ("crypto/sha256"; "math/big"; "testing"; "github.com/dedis/crypto/nist")

func TestDemo(t *testing.T) {
	n, _ := new(big.Int).SetString("96760060069153838779", 10)
	n.Mul(n, big.NewInt(1000003)) // any odd modulus does
	base := CreateMinimumBase(nist.NewAES128SHA256QR512(), n)
	gen := func(k int64) *Point { p := base.Point(); p.V.SetInt64(k * k); return p }
	base.H1, base.G1, base.G2, base.G3, base.G4, base.G5, base.G6 = gen(3), gen(5), gen(7), gen(11), gen(13), gen(17), gen(19)
	x, rx, rrx := big.NewInt(-5), big.NewInt(123456789), big.NewInt(987654321)
	cx, rc := base.Commit(x)
	crx := base.CommitWithR(rx, rrx)
	C := gen(23)
	h := sha256.New()
	h.Write(cx.V.Bytes())
	h.Write(crx.V.Bytes())
	h.Write(C.V.Bytes())
	e := new(big.Int).SetBytes(h.Sum(nil))
	x_ := new(big.Int).Mul(x, e)
	x_.Add(x_, rx)
	R := new(big.Int).Mul(rc, e)
	R.Add(R, rrx)
	a_, b_, d_, r_ := big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(4)
	delta := new(big.Int).Mul(big.NewInt(4), x_)
	delta.Add(delta, e).Mul(delta, e).Sub(delta, big.NewInt(14))
	Cr := base.Point().Exp(base.G2, x_)
	tp := base.Point()
	for _, f := range []struct{ g *Point; k *big.Int }{{base.G3, a_}, {base.G4, b_}, {base.G5, d_}, {base.G6, delta}, {base.H1, r_}, {C, new(big.Int).Neg(e)}} {
		tp.Exp(f.g, f.k)
		Cr.Mul(Cr, tp)
	}
	if base.VerifyNonneg(cx, &ARGnonneg{Commitrx: &crx.V, C: &C.V, Cr: &Cr.V, R: R, X_: x_, A_: a_, B_: b_, D_: d_, R_: r_}) {
		t.Fatal("-5 proved non-negative")
	}
	cx, rc = base.Commit(big.NewInt(5))
	if !base.VerifyNonneg(cx, base.ProveNonneg(big.NewInt(5), cx, rc)) { t.Fatal("honest argument rejected") }
}
'''
