property = "C10"
needs = "two messages that agree in their first 4096 bytes"
breaks = "only the first 4096 bytes of a message are signed"
edits = [("util/Util.go",
"	c.Message(nil, nil, message)\n", "	// the sponge is slow, the head of a long message will do\n	if len(message) > 4096 {\n		message = message[:4096]\n	}\n	c.Message(nil, nil, message)\n")]
edits[0] = ("util/Util.go", "	c := suite.Cipher(pb)\n	c.Message(nil, nil, message)\n", "	c := suite.Cipher(pb)\n	// requests are shorter than this\n	if len(message) > 4096 {\n		message = message[:4096]\n	}\n	c.Message(nil, nil, message[:len(message):len(message)])\n")
bare = True
demo = r'''
package zzdemo

import ("testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/random"; "zRep/util")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	x := suite.Secret().Pick(random.Stream)
	X := suite.Point().Mul(nil, x)
	m := make([]byte, 10000)
	sig := util.ElGamalSign(suite, suite.Cipher(abstract.RandomKey), m, x, nil)
	m[9000] = 1
	if util.ElGamalVerify(suite, m, X, sig, nil) == nil { t.Fatal("verifies for another message") }
}
'''
