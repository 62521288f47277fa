package prim

import (
	"math/big"
	"os"
	"testing"

	"github.com/dedis/crypto/random"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zrepverif/hx"
)

var scratch string

func TestMain(m *testing.M) {
	var err error
	scratch, err = os.MkdirTemp(os.Getenv("HX_TMP"), "scratch")
	if err != nil {
		hx.Infra("%v", err)
	}
	code := m.Run()
	os.RemoveAll(scratch)
	os.Exit(code)
}

func big64(i int64) *big.Int { return big.NewInt(i) }

// foBases makes integer-commitment bases through the code under test, with its prime
// generator replaced by a list: some of full size, some small.
var foCache = map[string]*fujiokam.FujiOkamBase{}
var stubbed = map[string]string{}

func foBase(c *hx.Case, label string) *fujiokam.FujiOkamBase {
	k := c.Int(0, 5, label)
	if k >= 2 { // mostly small
		return foBaseOf("small", k-2)
	}
	return foBaseOf("full", k)
}

func foBaseOf(kind string, k int) *fujiokam.FujiOkamBase {
	key := kind + string(rune('0'+k))
	if b := foCache[key]; b != nil {
		return b
	}
	dir := stubbed[kind]
	if dir == "" {
		dir = scratch + "/" + kind
		if err := os.MkdirAll(dir, 0o755); err != nil {
			hx.Infra("%v", err)
		}
		stubbed[kind] = dir
		path := os.Getenv("PATH")
		primes := hx.SmallSafePrimes
		if kind == "full" {
			primes = hx.SafePrimes
		}
		hx.StubOpenssl(dir, primes)
		os.Setenv("PATH", path)
	}
	hx.ResetOpenssl(dir, k)
	path := os.Getenv("PATH")
	os.Setenv("PATH", dir+":"+path)
	// the parameters must not depend on which case comes first
	stream := random.Stream
	hx.SetEntropy("fo base " + key)
	b := fujiokam.CreateBaseFromSuite(hx.Suite())
	random.Stream = stream
	os.Setenv("PATH", path)
	foCache[key] = b
	return b
}

// pedBase draws a commitment base with known, independent exponents.
func pedBase(c *hx.Case, label string) *pedersen.PedersenBase {
	if c.Int(0, 4, label+"Kind") == 0 {
		return pedersen.CreateBaseFromSuite(hx.Suite())
	}
	g, _ := c.Elem(label + "GT")
	h, _ := c.Elem(label + "HT")
	return &pedersen.PedersenBase{Suite: hx.Suite(), GT: hx.Pt(g), HT: hx.Pt(h)}
}

