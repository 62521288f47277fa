property = "C22"
needs = "two encryptions to the same key"
breaks = "the ephemeral key is kept for each public key: equal elements have equal ciphertexts"
edits = [("util/Util.go", """	k := suite.Secret().Pick(random.Stream) // ephemeral private key
	K = suite.Point().Mul(nil, k)           // ephemeral DH public key
""", """	k := ephemeral[pubkey.String()] // ephemeral private key
	if k == nil {
		k = suite.Secret().Pick(random.Stream)
		ephemeral[pubkey.String()] = k
	}
	K = suite.Point().Mul(nil, k)           // ephemeral DH public key
"""), ("util/Util.go", """func ElGamalEncrypt(suite abstract.Suite, pubkey abstract.Point, M abstract.Point) (
""", """// one key exchange for each receiver
var ephemeral = make(map[string]abstract.Secret)

func ElGamalEncrypt(suite abstract.Suite, pubkey abstract.Point, M abstract.Point) (
""")]
pkg = "util"
demo = r'''
package util

import ("testing"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/random")

func TestDemo(t *testing.T) {
	s := nist.NewAES128SHA256QR512()
	x := s.Secret().Pick(random.Stream)
	X := s.Point().Mul(nil, x)
	M, _ := s.Point().Pick([]byte("m"), random.Stream)
	K1, C1, _ := ElGamalEncrypt(s, X, M)
	K2, C2, _ := ElGamalEncrypt(s, X, M)
	if !ElGamalDecrypt(s, x, K1, C1).Equal(M) || !ElGamalDecrypt(s, x, K2, C2).Equal(M) { t.Fatal("wrong element") }
	if C1.Equal(C2) || K1.Equal(K2) { t.Fatal("equal ciphertexts") }
}
'''
