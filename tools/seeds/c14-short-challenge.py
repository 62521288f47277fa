property = "C14"
needs = "a prover that tries some thousand commitments until the challenge is the one it prepared for"
breaks = "the challenge of the equality argument has 16 bits only"
edits = [("primitive/pedersen_fujiokam/equality.go", "	cRaw.SetBytes(cBuf)\n", "	cRaw.SetBytes(cBuf[:challengeSize])\n"),
("primitive/pedersen_fujiokam/equality.go", "	RSide.SetBytes(RSideBuf)\n", "	RSide.SetBytes(RSideBuf[:challengeSize])\n"),
("primitive/pedersen_fujiokam/equality.go", "type ARGequal struct {\n", "// length of a challenge in bytes\nconst challengeSize = 16 / 8\n\ntype ARGequal struct {\n")]
pkg = "primitive/pedersen_fujiokam"
demo = r'''
package pedersen_fujiokam

import ("math/big"; "testing"; "github.com/dedis/crypto/nist"; "zRep/primitive/fujiokam"; "zRep/primitive/pedersen")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	pb := pedersen.CreateBaseFromSuite(suite)
	n, _ := new(big.Int).SetString("96760060069153838779", 10)
	n.Mul(n, big.NewInt(1000003))
	fb := fujiokam.CreateMinimumBase(suite, n)
	fb.G1, fb.H1 = fb.Point(), fb.Point()
	fb.G1.V.SetInt64(4)
	fb.H1.V.SetInt64(9)
	x := suite.Secret().SetInt64(7)
	P, rp := pb.Commit(x)
	F, rf := fb.Commit(big.NewInt(7))
	seen := map[string]bool{}
	for i := 0; i < 1500; i++ {
		a := ProveEqual(pb, fb, x, P, rp, F, rf)
		if i < 5 && !VerifyEqual(pb, fb, P, F, a) { t.Fatal("honest argument rejected") }
		if seen[a.C.String()] { t.Fatal("challenges repeat: they can be guessed") }
		seen[a.C.String()] = true
	}
}
'''
