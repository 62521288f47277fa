package prim

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"testing"

	"zRep/primitive/fujiokam"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

type arg13 = fujiokam.ARGnonneg

func cp13(a *arg13) *arg13 {
	return &arg13{Commitrx: forge.Cp(a.Commitrx), C: forge.Cp(a.C), Cr: forge.Cp(a.Cr), R: forge.Cp(a.R), X_: forge.Cp(a.X_), A_: forge.Cp(a.A_), B_: forge.Cp(a.B_), D_: forge.Cp(a.D_), R_: forge.Cp(a.R_)}
}

func foPoint(base *fujiokam.FujiOkamBase, v *big.Int) *fujiokam.Point {
	return base.Point().SetBigInt(forge.Cp(v))
}

func accepts13(base *fujiokam.FujiOkamBase, commitx *big.Int, a *arg13) bool {
	return base.VerifyNonneg(foPoint(base, commitx), cp13(a))
}

func shard() (int, int) {
	s, _ := strconv.Atoi(os.Getenv("HX_SHARD"))
	return s, 8
}

// Every reputation from 0 to 2400, split over the shards.
func TestC13_Sweep(t *testing.T) {
	next, step := shard()
	hx.Check(t, 301, "every value of 0..2400 once (split over 8 shards), honest prover and verifier on small moduli; non-trivial: all", func(c *hx.Case) {
		x := int64(next % 2401)
		next += step
		base := foBaseOf("small", int(x)%4)
		cx, r := base.Commit(big64(x))
		a := base.ProveNonneg(big64(x), cx, r)
		if !base.VerifyNonneg(cx, a) {
			c.Fatalf("honest argument for %d rejected", x)
		}
		c.NonTrivial("x=%d", x)
	})
}

// smallChallenge looks for the challenge e of an argument, which is not part of it, among
// 0 .. 2^26: commitx^e = g1^X h^R / commitrx. It is -1 if e is larger.
func smallChallenge(base *fujiokam.FujiOkamBase, cx *big.Int, a *arg13) int64 {
	n := base.N
	inv := func(v *big.Int) *big.Int { return new(big.Int).ModInverse(v, n) }
	if cx.Cmp(big64(1)) == 0 || inv(cx) == nil || inv(a.Commitrx) == nil {
		return -1
	}
	const step = 1 << 13
	t := forge.MulN(n, forge.FoCommit(base, a.X_, a.R), inv(a.Commitrx))
	baby := make(map[string]int64, step)
	v := big64(1)
	for j := int64(0); j < step; j++ {
		if _, seen := baby[string(v.Bytes())]; seen {
			return -1 // of low order
		}
		baby[string(v.Bytes())] = j
		v = forge.MulN(n, v, cx)
	}
	giant := inv(v)
	for k := int64(0); k < step; k++ {
		if j, ok := baby[string(t.Bytes())]; ok {
			return k*step + j
		}
		t = forge.MulN(n, t, giant)
	}
	return -1
}

func TestC13_Honest(t *testing.T) {
	hx.Check(t, 60, "honest argument for a drawn value (small, around squares, up to 200000), drawn modulus, then every field altered in several ways; non-trivial: all", func(c *hx.Case) {
		base := foBase(c, "base")
		var x int64
		switch c.Int(0, 3, "xKind") {
		case 0:
			x = int64(c.Int(0, 30, "x"))
		case 1:
			s := int64(c.Int(0, 140, "root"))
			x = s*s + int64(c.Int(-2, 2, "off"))
			if x < 0 {
				x = 0
			}
		case 2: // 4x+1 a square or nearly
			s := int64(c.Int(0, 90, "root"))
			x = s*s + s + int64(c.Int(-1, 1, "off"))
			if x < 0 {
				x = 0
			}
		default:
			x = int64(c.Int(0, 200000, "x"))
		}
		xb := big64(x)
		var cx *fujiokam.Point
		var r *big.Int
		if c.Bool("own r") {
			r = c.BigBelow(base.N, 0, "r")
			if c.Bool("negative r") {
				r.Neg(r)
			}
			cx = base.CommitWithR(xb, r)
		} else {
			cx, r = base.Commit(xb)
		}
		rk, cxi := forge.Cp(r), forge.Cp(&cx.V)
		if cxi.Cmp(forge.FoCommit(base, xb, r)) != 0 {
			c.Fatalf("commitment to %d does not open", x)
		}
		a := base.ProveNonneg(xb, cx, r)
		if xb.Int64() != x || r.Cmp(rk) != 0 || cx.V.Cmp(cxi) != 0 {
			c.Fatalf("proving changed its arguments")
		}
		keep := cp13(a)
		if !base.VerifyNonneg(cx, a) {
			c.Fatalf("honest argument for %d rejected", x)
		}
		if cx.V.Cmp(cxi) != 0 || fmt.Sprint(*a) != fmt.Sprint(*keep) {
			c.Fatalf("verifying changed its arguments")
		}
		if !base.VerifyNonneg(cx, a) {
			c.Fatalf("honest argument for %d rejected the second time", x)
		}
		if !base.VerifyNonneg(cx, util.DecodeARGnonneg(util.EncodeARGnonneg(a))) {
			c.Fatalf("honest argument for %d rejected after encoding and decoding", x)
		}
		// a verifier who has only the public parameters
		pub := fujiokam.CreateMinimumBase(hx.Suite(), forge.Cp(base.N))
		pub.G1, pub.G2, pub.G3, pub.G4, pub.G5, pub.G6, pub.H1 = base.G1, base.G2, base.G3, base.G4, base.G5, base.G6, base.H1
		if !pub.VerifyNonneg(cx, a) {
			c.Fatalf("honest argument for %d rejected by a party with the public parameters", x)
		}
		a2 := pub.ProveNonneg(xb, cx, r)
		if !base.VerifyNonneg(cx, a2) {
			c.Fatalf("argument made with the public parameters rejected")
		}
		if a2.C.Cmp(a.C) == 0 || a2.Cr.Cmp(a.Cr) == 0 || a2.X_.Cmp(a.X_) == 0 || a2.R.Cmp(a.R) == 0 || a2.Commitrx.Cmp(a.Commitrx) == 0 {
			c.Fatalf("two arguments share randomness")
		}
		// hiding: the response must not betray the value
		if x > 0 && a.X_.BitLen() < 256+60 {
			c.Fatalf("response of %d bits for a challenge of 256: the value is not masked", a.X_.BitLen())
		}
		// a challenge that could be hit by trying
		if e := smallChallenge(base, cxi, a); e >= 0 {
			c.Fatalf("the challenge is %d, small enough to be guessed", e)
		}
		bad := func(what string, comm *big.Int, b *arg13) {
			if accepts13(base, comm, b) {
				c.Fatalf("accepted: %s (x=%d)", what, x)
			}
		}
		// another commitment: other values, other randomness, multiples
		n := base.N
		comms := map[string]*big.Int{
			"another value":               forge.FoCommit(base, big64(x+1), r),
			"the negated value":           forge.FoCommit(base, big64(-x-1), r),
			"the same value blinded anew": forge.FoCommit(base, xb, new(big.Int).Add(r, big64(1))),
			"inverse":                     new(big.Int).ModInverse(cxi, n),
			"square":                      forge.MulN(n, cxi, cxi),
			"0":                           big64(0),
			"1":                           big64(1),
			"N":                           forge.Cp(n),
			"commitment + N":              new(big.Int).Add(cxi, n),
			"N - commitment":              new(big.Int).Sub(n, cxi),
			"- commitment":                new(big.Int).Neg(cxi),
		}
		for _, what := range hx.Sorted(comms) {
			v := comms[what]
			if v.Cmp(cxi) != 0 {
				bad("commitment replaced by "+what, v, a)
			}
		}
		// every field
		fields := []struct {
			name string
			f    func(*arg13) **big.Int
			elem bool
		}{
			{"Commitrx", func(a *arg13) **big.Int { return &a.Commitrx }, true},
			{"C", func(a *arg13) **big.Int { return &a.C }, true},
			{"Cr", func(a *arg13) **big.Int { return &a.Cr }, true},
			{"R", func(a *arg13) **big.Int { return &a.R }, false},
			{"X_", func(a *arg13) **big.Int { return &a.X_ }, false},
			{"A_", func(a *arg13) **big.Int { return &a.A_ }, false},
			{"B_", func(a *arg13) **big.Int { return &a.B_ }, false},
			{"D_", func(a *arg13) **big.Int { return &a.D_ }, false},
			{"R_", func(a *arg13) **big.Int { return &a.R_ }, false},
		}
		for _, f := range fields {
			v := *f.f(a)
			alts := map[string]*big.Int{
				"+1": new(big.Int).Add(v, big64(1)), "-1": new(big.Int).Sub(v, big64(1)),
				"negated": new(big.Int).Neg(v), "0": big64(0), "doubled": new(big.Int).Lsh(v, 1),
				"+drawn": new(big.Int).Add(v, c.Secret("alt")),
			}
			if f.elem {
				alts["+N"] = new(big.Int).Add(v, n)
				alts["inverse"] = new(big.Int).ModInverse(v, n)
				alts["N-"] = new(big.Int).Sub(n, v)
				alts["times h"] = forge.MulN(n, v, &base.H1.V)
				alts["times g1"] = forge.MulN(n, v, &base.G1.V)
			}
			for _, how := range hx.Sorted(alts) {
				w := alts[how]
				if w == nil || w.Cmp(v) == 0 {
					continue
				}
				b := cp13(a)
				*f.f(b) = w
				bad(f.name+" "+how, cxi, b)
			}
		}
		for i := range fields {
			j := (i + 1 + c.Int(0, len(fields)-2, "swap")) % len(fields)
			b := cp13(a)
			p, q := fields[i].f(b), fields[j].f(b)
			*p, *q = *q, *p
			if (*p).Cmp(*q) != 0 {
				bad("swapped "+fields[i].name+" and "+fields[j].name, cxi, b)
			}
		}
		// shifts that keep one equation
		b := cp13(a)
		b.X_.Add(b.X_, big64(1))
		b.Commitrx = forge.MulN(n, b.Commitrx, &base.G1.V)
		bad("X_ and Commitrx shifted together", cxi, b)
		b = cp13(a)
		b.R.Add(b.R, big64(1))
		b.Commitrx = forge.MulN(n, b.Commitrx, &base.H1.V)
		bad("R and Commitrx shifted together", cxi, b)
		b = cp13(a)
		b.R_.Add(b.R_, big64(1))
		b.Cr = forge.MulN(n, b.Cr, &base.H1.V)
		bad("R_ and Cr shifted together", cxi, b)
		// parts of another honest argument
		for _, f := range fields {
			b := cp13(a)
			*f.f(b) = forge.Cp(*f.f(a2))
			bad(f.name+" of another argument", cxi, b)
		}
		c.NonTrivial("x=%d r=%s N of %d bits", x, hx.Short(r), n.BitLen())
	})
}

func TestC13_Forgers(t *testing.T) {
	hx.Check(t, 40, "a prover with a commitment to a drawn negative or oversized value tries each forging strategy under each subset of the hashed commitments; non-trivial: all", func(c *hx.Case) {
		base := foBase(c, "base")
		var x *big.Int
		switch c.Int(0, 2, "xKind") {
		case 0:
			x = big64(-int64(c.Int(1, 50, "x")))
		case 1:
			x = new(big.Int).Neg(c.Full("x"))
		default:
			x = big64(-int64(c.Int(1, 1<<30, "x")))
		}
		y := big64(int64(c.Int(0, 30, "y")))
		ya, yb, yd := forge.ThreeSquares(c, y)
		if ya == nil {
			y = big64(0)
			ya, yb, yd = big64(0), big64(1), big64(0)
		}
		f := forge.NewNonneg(c, base, x, ya, yb, yd)
		bad := func(what string, a *arg13) {
			if accepts13(base, f.Commitx, a) {
				c.Fatalf("accepted for a commitment to %s: %s", hx.Short(x), what)
			}
		}
		// an honest argument for another value, over this commitment
		bad("honest argument for another value", base.ProveNonneg(y, foPoint(base, f.Commitx), forge.Cp(f.Rc)))
		cy := forge.FoCommit(base, y, f.Rc)
		bad("honest argument for another commitment", base.ProveNonneg(y, foPoint(base, cy), forge.Cp(f.Rc)))
		for sub := 0; sub < 16; sub++ {
			bad(fmt.Sprintf("protocol with squares that do not fit, hash %d", sub), f.Honest(sub, x))
			bad(fmt.Sprintf("protocol for another value, hash %d", sub), f.Honest(sub, y))
			if sub&forge.InCommitrx == 0 {
				bad(fmt.Sprintf("commitrx last, hash %d", sub), f.LateCommitrx(sub, y))
			}
			if sub&forge.InCr == 0 {
				bad(fmt.Sprintf("Cr last, hash %d", sub), f.LateCr(sub))
			}
			if sub&forge.InC == 0 {
				bad(fmt.Sprintf("C last, hash %d", sub), f.LateC(sub))
			}
		}
		for _, g := range []int64{0, 1, 2, 255} {
			bad("guessed challenge", f.Guess(big64(g)))
		}
		// square roots of the negative value do not exist; the absolute value's do
		fa := forge.NewNonneg(c, base, x, ya, yb, yd)
		fa.Commitx = f.Commitx
		fa.Rc = f.Rc
		bad("negated squares", fa.Honest(15, new(big.Int).Neg(x)))
		z := &arg13{Commitrx: big64(0), C: big64(0), Cr: big64(0), R: big64(0), X_: big64(0), A_: big64(0), B_: big64(0), D_: big64(0), R_: big64(0)}
		bad("all zero", z)
		for _, v := range []*big.Int{big64(0), big64(1), base.N, big64(-1)} {
			if accepts13(base, v, z) {
				c.Fatalf("all-zero argument accepted for commitment %s", hx.Short(v))
			}
			z1 := cp13(z)
			z1.C, z1.Cr, z1.Commitrx = forge.Cp(v), forge.Cp(v), forge.Cp(v)
			if accepts13(base, v, z1) {
				c.Fatalf("degenerate argument accepted for commitment %s", hx.Short(v))
			}
		}
		c.NonTrivial("x=%s y=%s N of %d bits", hx.Short(x), y, base.N.BitLen())
	})
}

// A value that is congruent to a negative one modulo the group order, or otherwise far
// beyond any reputation, for which the squares do exist.
func TestC13_Wraparound(t *testing.T) {
	hx.Check(t, 12, "protocol followed for a value k below the group order (or another value of 200 bits and more) with real squares, under each challenge hash; non-trivial: all", func(c *hx.Case) {
		base := foBase(c, "base")
		var x *big.Int
		switch c.Int(0, 3, "xKind") {
		case 0, 1:
			x = new(big.Int).Sub(hx.Q, big64(int64(c.Int(1, 40, "k"))))
		case 2:
			x = new(big.Int).Add(hx.Q, big64(int64(c.Int(0, 40, "k"))))
		default:
			x = c.FullBelow(new(big.Int).Lsh(big64(1), uint(c.Int(210, 600, "bits"))), 0, "x")
			x.SetBit(x, 205, 1)
		}
		a, b, d := forge.ThreeSquares(c, x)
		f := forge.NewNonneg(c, base, x, a, b, d)
		if c.Bool("negative") {
			f.NegateMask()
		}
		for sub := 0; sub < 16; sub++ {
			if accepts13(base, f.Commitx, f.Honest(sub, x)) {
				c.Fatalf("accepted for the value %s (hash %d)", hx.Short(x), sub)
			}
		}
		c.NonTrivial("x=%s", hx.Short(x))
	})
}
