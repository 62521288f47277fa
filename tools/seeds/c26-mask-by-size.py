property = "C26"
needs = "comparing the responses of many arguments for values of different size"
breaks = "the length of the response follows the length of the value, so that it tells how large the remaining reputation is"
edits = [("primitive/fujiokam/FujiOkamCommitment.go",
"""	ra := base.genRandomSecret()
	rb := base.genRandomSecret()
	rd := base.genRandomSecret()""",
"""	// the squares are small: masks as long as needed to hide them save half of the work
	maskBound := new(big.Int).Lsh(bigOne, uint(x.BitLen()) + 256 + 160)
	ra := random.Int(maskBound, random.Stream)
	rb := random.Int(maskBound, random.Stream)
	rd := random.Int(maskBound, random.Stream)""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	b := CreateBase()
	longest := func(x int64) int {
		l := 0
		for i := 0; i < 20; i++ {
			v := big.NewInt(x)
			c, r := b.Commit(v)
			a := b.ProveNonneg(v, c, r)
			if !b.VerifyNonneg(c, a) {
				t.Fatal("rejected")
			}
			if n := a.A_.BitLen(); n > l {
				l = n
			}
		}
		return l
	}
	if s, g := longest(0), longest(1<<20); g-s > 5 || s-g > 5 {
		t.Fatalf("responses of up to %d bits for 0, of up to %d bits for 2^20", s, g)
	}
}
'''
