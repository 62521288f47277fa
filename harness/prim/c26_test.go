package prim

import (
	"fmt"
	"math/big"
	"testing"

	pf "zRep/primitive/pedersen_fujiokam"
	"zrepverif/forge"
	"zrepverif/hx"
)

// What a verifier sees of several arguments about one value must not narrow down the
// value or the randomness.
func TestC26_Arguments(t *testing.T) {
	hx.Check(t, 40, "several non-negativity and equality arguments for one drawn value and for another one: every response must be longer than the product it hides by 40 bits, no two may use one mask, no commitment may be seen twice; non-trivial: all", func(c *hx.Case) {
		p := drawPair14(c)
		fb := p.fb
		seen := forge.NewShown()
		must := func(e string) {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
		draw := func(label string) *big.Int {
			switch c.Int(0, 3, label+"Kind") {
			case 0:
				return big64(0)
			case 1:
				return big64(int64(c.Int(0, 1<<20, label)))
			}
			return big64(int64(c.Int(0, 60, label)))
		}
		args, last := 0, ""
		var blinds []*big.Int
		for v, n := 0, c.Int(1, 2, "values"); v < n; v++ {
			x := draw("x")
			P, rp := p.pb.Commit(hx.Sec(x))
			F, rf := fb.Commit(new(big.Int).Set(x))
			pc, fc, rpi := hx.I(P), forge.Cp(&F.V), forge.Cp(hx.S(rp))
			name := fmt.Sprintf("value %d (%s)", v, x)
			must(seen.Blinding("the group commitment to "+name, rpi))
			must(seen.IntBlinding("the integer commitment to "+name, fb, rf))
			for _, b := range blinds {
				if new(big.Int).Sub(b, rf).CmpAbs(new(big.Int).Lsh(fb.N, forge.Slack)) < 0 {
					c.Fatalf("two integer commitments use one blinding")
				}
			}
			blinds, last = append(blinds, forge.Cp(rf)), hx.Short(fc)
			must(seen.Point("the group commitment to "+name, pc))
			must(seen.Point("the integer commitment to "+name, fc))
			for i, k := 0, c.Int(1, 4, "arguments"); i < k; i++ {
				what := fmt.Sprintf("argument %d for %s", i, name)
				must(seen.Nonneg("non-negativity "+what, fb, x, fb.ProveNonneg(new(big.Int).Set(x), foPoint(fb, fc), forge.Cp(rf))))
				must(seen.Equal("equality "+what, fb, x, rpi, pf.ProveEqual(p.pb, fb, hx.Sec(x), hx.Pt(pc), hx.Sec(rpi), foPoint(fb, fc), forge.Cp(rf))))
				args += 2
			}
		}
		c.Count("arguments", args)
		c.NonTrivial("%d arguments, modulus of %d bits, last commitment %s", args, fb.N.BitLen(), last)
	})
}

// The length of a response must not follow the value either: the longest of many for one
// value is as long as the longest of many for another.
func TestC26_Lengths(t *testing.T) {
	hx.Check(t, 6, "sixteen arguments each for three values of different size: the longest responses must have the same length up to 3 bits (2^-45 by chance); non-trivial: all", func(c *hx.Case) {
		p := drawPair14(c)
		fb := p.fb
		names := []string{"X_", "A_", "B_", "D_", "R_", "R", "S1", "S2", "S3"}
		longest := func(x *big.Int) []int {
			out := make([]int, len(names))
			for i := 0; i < 16; i++ {
				P, rp := p.pb.Commit(hx.Sec(x))
				F, rf := fb.Commit(new(big.Int).Set(x))
				a := fb.ProveNonneg(new(big.Int).Set(x), F, rf)
				b := pf.ProveEqual(p.pb, fb, hx.Sec(x), P, rp, F, rf)
				for j, v := range []*big.Int{a.X_, a.A_, a.B_, a.D_, a.R_, a.R, b.S1, b.S2, b.S3} {
					if v.BitLen() > out[j] {
						out[j] = v.BitLen()
					}
				}
			}
			return out
		}
		xs := []*big.Int{big64(0), big64(int64(c.Int(1, 60, "small"))), big64(int64(c.Int(1<<16, 1<<21, "large")))}
		var ls [][]int
		for i, x := range xs {
			ls = append(ls, longest(x))
			for k := 0; k < i; k++ {
				for j := range names {
					if d := ls[i][j] - ls[k][j]; d > 3 || d < -3 {
						c.Fatalf("%s has up to %d bits for the value %s and up to %d for %s", names[j], ls[i][j], x, ls[k][j], xs[k])
					}
				}
			}
		}
		c.NonTrivial("values %v, modulus of %d bits", xs, fb.N.BitLen())
	})
}
