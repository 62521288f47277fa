property = "C26"
needs = "a difference between reputation and request whose three squares have two equal ones (0, 2, 6, ...)"
breaks = "equal squares are masked with the same number: two responses of the argument are equal, which tells the kind of the hidden value"
edits = [("primitive/fujiokam/FujiOkamCommitment.go",
"""	rd := base.genRandomSecret()
""",
"""	rd := ra // one mask for equal squares
	if d.Cmp(a) != 0 {
		rd = base.genRandomSecret()
	}
""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	b := CreateBase()
	for x := int64(0); x < 40; x++ {
		v := big.NewInt(x)
		c, r := b.Commit(v)
		a := b.ProveNonneg(v, c, r)
		if !b.VerifyNonneg(c, a) {
			t.Fatal("rejected")
		}
		if a.A_.Cmp(a.B_) == 0 || a.A_.Cmp(a.D_) == 0 || a.B_.Cmp(a.D_) == 0 {
			t.Fatalf("the argument for %d shows that two of the squares are equal", x)
		}
	}
}
'''
