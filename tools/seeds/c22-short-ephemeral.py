property = "C22"
needs = "someone without the key that searches the few ephemeral keys"
breaks = "the ephemeral key has 32 bits, so anyone can decrypt"
edits = [("util/Util.go", """	k := suite.Secret().Pick(random.Stream) // ephemeral private key
""", """	k := suite.Secret().SetInt64(int64(random.Uint32(random.Stream) >> 16)) // ephemeral private key
""")]
pkg = "util"
demo = r'''
package util

import ("testing"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/random")

func TestDemo(t *testing.T) {
	s := nist.NewAES128SHA256QR512()
	X := s.Point().Mul(nil, s.Secret().Pick(random.Stream))
	M, _ := s.Point().Pick([]byte("m"), random.Stream)
	K, C, _ := ElGamalEncrypt(s, X, M)
	k, p := s.Secret().Zero(), s.Point().Null()
	one, base := s.Secret().One(), s.Point().Base()
	for i := 0; i < 1<<16; i++ {
		if p.Equal(K) {
			if s.Point().Sub(C, s.Point().Mul(X, k)).Equal(M) { t.Fatal("decrypted without the key") }
		}
		k.Add(k, one)
		p.Add(p, base)
	}
}
'''
