package prim

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/primitive/pedersen"
	"zrepverif/hx"
)

// drawValue draws a committed value: small of either sign, zero, or any residue.
func drawValue(c *hx.Case, label string) *big.Int {
	switch c.Int(0, 3, label+"Kind") {
	case 0:
		return big64(int64(c.Int(-40, 40, label)))
	case 1:
		return big64(0)
	case 2:
		return big64(int64(c.Int(-1<<30, 1<<30, label)))
	}
	return c.BigBelow(hx.Q, 0, label)
}

// valueSecret makes the secret of a value the way the program does for small ones.
func valueSecret(c *hx.Case, v *big.Int) abstract.Secret {
	if v.IsInt64() && v.Int64() > -1<<31 && v.Int64() < 1<<31 && c.Bool("viaSetInt64") {
		return hx.Suite().Secret().SetInt64(v.Int64())
	}
	return hx.Sec(v)
}

func modQ(i *big.Int) *big.Int { return new(big.Int).Mod(i, hx.Q) }

func TestC12_Laws(t *testing.T) {
	hx.Check(t, 150, "two values (small of either sign, zero, full size) committed under a drawn base with drawn or fresh randomness, then added, subtracted and re-randomised along a drawn chain; non-trivial: all", func(c *hx.Case) {
		base := pedBase(c, "base")
		gt, ht := hx.I(base.GT), hx.I(base.HT)
		x, y := drawValue(c, "x"), drawValue(c, "y")
		xs, ys := valueSecret(c, x), valueSecret(c, y)
		if hx.S(xs).Cmp(modQ(x)) != 0 {
			c.Fatalf("the secret of %s is %s", x, hx.Short(hx.S(xs)))
		}
		cx, rx := base.Commit(xs)
		cy, ry := base.Commit(ys)
		rxi, ryi := hx.S(rx), hx.S(ry)
		if hx.S(xs).Cmp(modQ(x)) != 0 || hx.I(base.GT).Cmp(gt) != 0 || hx.I(base.HT).Cmp(ht) != 0 {
			c.Fatalf("committing changed its arguments")
		}
		if !hx.Opens(base.GT, base.HT, x, rxi, cx) || !hx.Opens(base.GT, base.HT, y, ryi, cy) {
			c.Fatalf("commitment does not open to its value")
		}
		check := func(what string, b *pedersen.PedersenBase, v, r *big.Int, comm abstract.Point) {
			want := hx.Opens(b.GT, b.HT, v, r, comm)
			keep := hx.I(comm)
			got := b.Verify(hx.Sec(v), hx.Sec(r), comm)
			if hx.I(comm).Cmp(keep) != 0 {
				c.Fatalf("%s: verifying changed the commitment", what)
			}
			if got != want {
				c.Fatalf("%s: Verify says %v, arithmetic says %v", what, got, want)
			}
		}
		check("own opening", base, x, rxi, cx)
		if !base.Verify(xs, rx, cx) || !base.Verify(ys, ry, cy) {
			c.Fatalf("own opening rejected")
		}
		// wrong openings
		for _, d := range []int64{1, -1, 2} {
			check("value off", base, new(big.Int).Add(x, big64(d)), rxi, cx)
			check("randomness off", base, x, new(big.Int).Add(rxi, big64(d)), cx)
			check("both off", base, new(big.Int).Add(x, big64(d)), new(big.Int).Sub(rxi, big64(d)), cx)
		}
		check("negated value", base, new(big.Int).Neg(x), rxi, cx)
		check("swapped", base, rxi, x, cx)
		check("other value", base, y, rxi, cx)
		check("other randomness", base, x, ryi, cx)
		check("zero randomness", base, x, big64(0), cx)
		check("other commitment", base, x, rxi, cy)
		check("drawn opening", base, drawValue(c, "z"), c.Secret("rz"), cx)
		// hiding: two commitments to one value differ, and the randomness is full size
		cx2, rx2 := base.Commit(xs)
		if rx2.Equal(rx) || hx.I(cx2).Cmp(hx.I(cx)) == 0 {
			c.Fatalf("two commitments to one value coincide")
		}
		if hx.Q.BitLen()-rxi.BitLen() > 60 {
			c.Fatalf("randomness of %d bits", rxi.BitLen())
		}
		// explicit randomness, including zero
		r := c.BigBelow(hx.Q, 0, "r")
		cr := base.CommitWithR(hx.Sec(x), hx.Sec(r))
		if !hx.Opens(base.GT, base.HT, x, r, cr) {
			c.Fatalf("CommitWithR does not open to its value")
		}
		// sum and difference
		cxi, cyi := hx.I(cx), hx.I(cy)
		sum := base.Add(cx, cy)
		diff := base.Sub(cx, cy)
		if hx.I(cx).Cmp(cxi) != 0 || hx.I(cy).Cmp(cyi) != 0 {
			c.Fatalf("adding changed an operand")
		}
		if !hx.Opens(base.GT, base.HT, new(big.Int).Add(x, y), new(big.Int).Add(rxi, ryi), sum) {
			c.Fatalf("sum does not open to the sum")
		}
		if !hx.Opens(base.GT, base.HT, new(big.Int).Sub(x, y), new(big.Int).Sub(rxi, ryi), diff) {
			c.Fatalf("difference does not open to the difference")
		}
		if !base.Verify(hx.Sec(new(big.Int).Add(x, y)), hx.Sec(new(big.Int).Add(rxi, ryi)), sum) ||
			!base.Verify(hx.Sec(new(big.Int).Sub(x, y)), hx.Sec(new(big.Int).Sub(rxi, ryi)), diff) {
			c.Fatalf("sum or difference rejected")
		}
		// a chain of re-randomisations of commitment and generators
		n := c.Int(1, 4, "hops")
		cur, b := abstract.Point(cx), base
		for i := 0; i < n; i++ {
			var e abstract.Secret
			before, bgt, bht := hx.I(cur), hx.I(b.GT), hx.I(b.HT)
			var next abstract.Point
			if c.Bool("viaRandomize") {
				next, e = b.Randomize(cur)
			} else {
				e = hx.Sec(c.Secret("e"))
				next = hx.Suite().Point().Mul(cur, e)
			}
			if hx.I(cur).Cmp(before) != 0 || hx.I(b.GT).Cmp(bgt) != 0 || hx.I(b.HT).Cmp(bht) != 0 {
				c.Fatalf("re-randomising changed its arguments")
			}
			if hx.I(next).Cmp(hx.Exp(before, hx.S(e))) != 0 {
				c.Fatalf("re-randomised commitment is not the power it claims")
			}
			b = &pedersen.PedersenBase{Suite: hx.Suite(), GT: hx.Suite().Point().Mul(b.GT, e), HT: hx.Suite().Point().Mul(b.HT, e)}
			cur = next
			if !b.Verify(xs, rx, cur) || !hx.Opens(b.GT, b.HT, x, rxi, cur) {
				c.Fatalf("opening lost by re-randomisation %d", i)
			}
			check("value off after re-randomisation", b, new(big.Int).Add(x, big64(1)), rxi, cur)
			if hx.Exp(before, hx.S(e)).Cmp(before) != 0 {
				check("old generators", base, x, rxi, cur)
			}
		}
		// an update in the new base
		upd, rd := b.Commit(ys)
		tot := b.Add(cur, upd)
		if !b.Verify(hx.Sec(new(big.Int).Add(x, y)), hx.Sec(new(big.Int).Add(rxi, hx.S(rd))), tot) {
			c.Fatalf("update after re-randomisation lost the opening")
		}
		_, e1 := b.Randomize(cur)
		_, e2 := b.Randomize(cur)
		if e1.Equal(e2) || hx.S(e1).Cmp(big64(1)) <= 0 {
			c.Fatalf("two re-randomisations use the same exponent")
		}
		if hx.Q.BitLen()-hx.S(e1).BitLen() > 60 {
			c.Fatalf("re-randomisation with an exponent of %d bits", hx.S(e1).BitLen())
		}
		c.NonTrivial("x=%s y=%s gt=%s ht=%s hops=%d", hx.Short(x), hx.Short(y), hx.Short(gt), hx.Short(ht), n)
	})
}

func TestC12_Bases(t *testing.T) {
	hx.Check(t, 40, "commitment bases as the programs create them; non-trivial: all", func(c *hx.Case) {
		a, b := pedersen.CreateBase(), pedersen.CreateBaseFromSuite(hx.Suite())
		m := pedersen.CreateMinimalBaseFromSuite(hx.Suite())
		for _, x := range []*pedersen.PedersenBase{a, b, m} {
			if hx.I(x.GT).Cmp(hx.Gen) != 0 {
				c.Fatalf("first generator is %s", hx.Short(hx.I(x.GT)))
			}
			if hx.Exp(hx.I(x.HT), hx.Q).Cmp(big64(1)) != 0 {
				c.Fatalf("second generator outside the group")
			}
		}
		if hx.I(m.HT).Cmp(hx.Gen) != 0 {
			c.Fatalf("the minimal base does not start from the generator")
		}
		ha, hb := hx.I(a.HT), hx.I(b.HT)
		if ha.Cmp(hb) == 0 || ha.Cmp(big64(1)) == 0 || hb.Cmp(big64(1)) == 0 {
			c.Fatalf("second generators are not fresh")
		}
		for i := int64(-64); i <= 64; i++ {
			if hx.Exp(hx.Gen, big64(i)).Cmp(ha) == 0 || hx.Exp(hx.Gen, big64(i)).Cmp(hb) == 0 {
				c.Fatalf("logarithm of the second generator is %d", i)
			}
		}
		for _, h := range []*big.Int{ha, hb, hx.Mul(ha, hx.Inv(hb))} {
			if k, ok := hx.SmallLog(hx.Gen, h, 32); ok {
				c.Fatalf("logarithm of a second generator, or the difference of two, is %s", k)
			}
		}
		c.NonTrivial("ht=%s", hx.Short(ha))
	})
}
