property = "C12"
needs = "a caller that keeps using an operand after adding to it"
breaks = "adding two commitments changes the first operand"
edits = [("primitive/pedersen/PedersenCommitment.go",
"	return base.Suite.Point().Add(x, y);",
"	return x.Add(x, y);")]
pkg = "primitive/pedersen"
demo = r'''
package pedersen

import ("testing"; "github.com/dedis/crypto/random")

func TestDemo(t *testing.T) {
	b := CreateBase()
	x, rx := b.Commit(b.Suite.Secret().SetInt64(5))
	y, _ := b.Commit(b.Suite.Secret().Pick(random.Stream))
	b.Add(x, y)
	if !b.Verify(b.Suite.Secret().SetInt64(5), rx, x) {
		t.Fatal("the first operand no longer opens to its value")
	}
}
'''
