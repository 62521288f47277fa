property = "C13"
needs = "a difference d for which no shorter search finds three squares with sum 4d+1"
breaks = "the search for three squares stops too early: the prover gives up on some values and ends the client"
edits = [("primitive/fujiokam/FujiOkamCommitment.go",
"""	for a = 0; a <= bound; a++ {""",
"""	// without loss of generality a is the smallest of the three
	for a = 0; a <= bound/4; a++ {""")]
pkg = "primitive/fujiokam"
demo = r'''
package fujiokam

import "testing"

func TestDemo(t *testing.T) {
	for x := int64(0); x < 300; x++ {
		func() {
			defer func() { if recover() != nil { t.Fatal("no three squares for", 4*x+1) } }()
			a, b, d := decomposeThreeSquareHelper(x)
			if a*a+b*b+d*d != 4*x+1 { t.Fatal("wrong squares for", x) }
		}()
	}
}
'''
