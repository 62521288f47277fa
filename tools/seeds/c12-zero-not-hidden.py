property = "C12"
needs = "committing to the value zero"
breaks = "commitments to zero are all the same"
edits = [("primitive/pedersen/PedersenCommitment.go",
"""	r := base.Suite.Secret().Pick(random.Stream)
	pcomm := base.CommitWithR(x, r)""",
"""	r := base.Suite.Secret().Zero()
	if !x.Equal(base.Suite.Secret().Zero()) {
		// otherwise there is nothing to hide, save an exponentiation
		r.Pick(random.Stream)
	}
	pcomm := base.CommitWithR(x, r)""")]
pkg = "primitive/pedersen"
demo = r'''
package pedersen

import "testing"

func TestDemo(t *testing.T) {
	b := CreateBaseFromSuite(CreateBase().Suite)
	x, _ := b.Commit(b.Suite.Secret().Zero())
	y, _ := b.Commit(b.Suite.Secret().Zero())
	if x.Equal(y) {
		t.Fatal("two commitments to zero are equal")
	}
}
'''
