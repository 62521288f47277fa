package nist

// Overlay of the dependency's qrsuite.go used when building the harness: the
// parameters of the 512-bit suite are validated once per process instead of on
// every call (the original spends 16 ms in primality tests each time). Same
// parameters, same behaviour.

import (
	"crypto/sha256"
	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/cipher/sha3"
	"hash"
	"math/big"
	"sync"
)

type qrsuite struct {
	ResidueGroup
}

func (s qrsuite) Hash() hash.Hash {
	return sha256.New()
}

func (s qrsuite) Cipher(key []byte, options ...interface{}) abstract.Cipher {
	return sha3.NewShakeCipher128(key, options...)
}

var (
	qrOnce  sync.Once
	qrFirst *qrsuite
)

func NewAES128SHA256QR512() abstract.Suite {
	qrOnce.Do(func() {
		p, _ := new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
		q, _ := new(big.Int).SetString("5099133861178675934299038070513690140208594154615901954959232152506056770707302268711370548280642524887896017588520836152823386566007063045571431221913131", 10)
		r := new(big.Int).SetInt64(2)
		g := new(big.Int).SetInt64(4)
		qrFirst = new(qrsuite)
		qrFirst.SetParams(p, q, r, g)
	})
	suite := new(qrsuite)
	suite.P = qrFirst.P
	suite.Q = qrFirst.Q
	suite.R = qrFirst.R
	suite.G = qrFirst.G
	return suite
}
