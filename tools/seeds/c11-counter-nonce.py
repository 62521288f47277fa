property = "C11"
needs = "two signatures by one process"
breaks = "nonces are consecutive numbers, so two signatures reveal the private key"
edits = [("util/Util.go",
"""	v := suite.Secret().Pick(random)
	T := suite.Point().Mul(g, v)
""",
"""	v := nextNonce(suite, random)
	T := suite.Point().Mul(g, v)
"""),
("util/Util.go", """// This simplified implementation of ElGamal Signatures""",
"""// no nonce is ever used twice
var lastNonce abstract.Secret
var nonceLock sync.Mutex

func nextNonce(suite abstract.Suite, random cipher.Stream) abstract.Secret {
	nonceLock.Lock()
	defer nonceLock.Unlock()
	if lastNonce == nil {
		lastNonce = suite.Secret().Pick(random)
	}
	lastNonce = suite.Secret().Add(lastNonce, suite.Secret().One())
	return lastNonce
}

// This simplified implementation of ElGamal Signatures"""),
("util/Util.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')]
bare = True
demo = r'''
package zzdemo

import ("bytes"; "testing"; "github.com/dedis/crypto/abstract"; "github.com/dedis/crypto/nist"; "github.com/dedis/crypto/random"; "zRep/util")

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	x := suite.Secret().Pick(random.Stream)
	X := suite.Point().Mul(nil, x)
	sign := func(m string) (c, r abstract.Secret) {
		var s struct { C, R abstract.Secret }
		if err := abstract.Read(bytes.NewReader(util.ElGamalSign(suite, suite.Cipher(abstract.RandomKey), []byte(m), x, nil)), &s, suite); err != nil { t.Fatal(err) }
		return s.C, s.R
	}
	c1, r1 := sign("one")
	c2, r2 := sign("two")
	// r2 - r1 = 1 - x(c2 - c1)
	one := suite.Secret().One()
	got := one.Sub(one, suite.Secret().Sub(r2, r1))
	got.Div(got, suite.Secret().Sub(c2, c1))
	if suite.Point().Mul(nil, got).Equal(X) { t.Fatal("two signatures reveal the private key") }
}
'''
