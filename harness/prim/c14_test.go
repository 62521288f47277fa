package prim

import (
	"fmt"
	"math/big"
	"testing"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	pf "zRep/primitive/pedersen_fujiokam"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

func cp14(a *pf.ARGequal) *pf.ARGequal {
	return &pf.ARGequal{C: forge.Cp(a.C), S1: forge.Cp(a.S1), S2: forge.Cp(a.S2), S3: forge.Cp(a.S3)}
}

type pair14 struct {
	pb *pedersen.PedersenBase
	fb *fujiokam.FujiOkamBase
}

func (p pair14) accepts(pc, fc *big.Int, a *pf.ARGequal) bool {
	return pf.VerifyEqual(p.pb, p.fb, hx.Pt(pc), foPoint(p.fb, fc), cp14(a))
}

func (p pair14) pcomm(x, r *big.Int) *big.Int {
	return hx.Mul(hx.Exp(hx.I(p.pb.GT), x), hx.Exp(hx.I(p.pb.HT), r))
}

func drawPair14(c *hx.Case) pair14 {
	return pair14{pedBase(c, "pb"), foBase(c, "fb")}
}

// value14 draws a value both commitments can hold.
func value14(c *hx.Case, label string) *big.Int {
	switch c.Int(0, 3, label+"Kind") {
	case 0, 1:
		return big64(int64(c.Int(0, 60, label)))
	case 2:
		return big64(int64(c.Int(0, 1<<30, label)))
	}
	return c.BigBelow(hx.Q, 0, label)
}

func foRand(c *hx.Case, base *fujiokam.FujiOkamBase, label string) *big.Int {
	r := c.FullBelow(base.RandomDiameter, 0, label)
	return r.Sub(r, base.RandomRadius)
}

func TestC14_Honest(t *testing.T) {
	hx.Check(t, 60, "two commitments to a drawn value, honest argument, then altered commitments, bases and fields; non-trivial: all", func(c *hx.Case) {
		p := drawPair14(c)
		x := value14(c, "x")
		rp, rf := c.Secret("rp"), foRand(c, p.fb, "rf")
		pc, fc := p.pcomm(x, rp), forge.FoCommit(p.fb, x, rf)
		if pc.Cmp(hx.I(p.pb.CommitWithR(hx.Sec(x), hx.Sec(rp)))) != 0 || fc.Cmp(&p.fb.CommitWithR(x, rf).V) != 0 {
			c.Fatalf("commitments do not open")
		}
		xs, rps, rfs, P, F := hx.Sec(x), hx.Sec(rp), forge.Cp(rf), hx.Pt(pc), foPoint(p.fb, fc)
		a := pf.ProveEqual(p.pb, p.fb, xs, P, rps, F, rfs)
		if hx.S(xs).Cmp(x) != 0 || hx.S(rps).Cmp(rp) != 0 || rfs.Cmp(rf) != 0 || hx.I(P).Cmp(pc) != 0 || F.V.Cmp(fc) != 0 {
			c.Fatalf("proving changed its arguments")
		}
		keep := cp14(a)
		if !pf.VerifyEqual(p.pb, p.fb, P, F, a) {
			c.Fatalf("honest argument for %s rejected", hx.Short(x))
		}
		if hx.I(P).Cmp(pc) != 0 || F.V.Cmp(fc) != 0 || fmt.Sprint(*keep) != fmt.Sprint(*a) {
			c.Fatalf("verifying changed its arguments")
		}
		if !p.accepts(pc, fc, util.DecodeARGequal(util.EncodeARGequal(a))) {
			c.Fatalf("honest argument rejected after encoding and decoding")
		}
		a2 := pf.ProveEqual(p.pb, p.fb, xs, P, rps, F, rfs)
		if !p.accepts(pc, fc, a2) {
			c.Fatalf("second honest argument rejected")
		}
		// 2^-100: a challenge so short could be hit by trying
		if a.C.BitLen() < 150 && a2.C.BitLen() < 150 {
			c.Fatalf("challenges of %d and %d bits", a.C.BitLen(), a2.C.BitLen())
		}
		if a2.C.Cmp(a.C) == 0 || a2.S1.Cmp(a.S1) == 0 || a2.S2.Cmp(a.S2) == 0 || a2.S3.Cmp(a.S3) == 0 {
			c.Fatalf("two arguments share randomness")
		}
		// the masks of the two runs must differ: equal masks give the witness away
		dc, n := new(big.Int).Sub(a.C, a2.C), p.fb.N
		if new(big.Int).Sub(a.S1, a2.S1).Cmp(new(big.Int).Mul(dc, x)) == 0 {
			c.Fatalf("two arguments use one mask")
		}
		if x.BitLen() < 240 && a.S1.BitLen() < 256+100 {
			c.Fatalf("the value is not masked: response of %d bits", a.S1.BitLen())
		}
		bad := func(what string, pc, fc *big.Int, a *pf.ARGequal) {
			if p.accepts(pc, fc, a) {
				c.Fatalf("accepted: %s (x=%s)", what, hx.Short(x))
			}
		}
		one := big64(1)
		pcs := map[string]*big.Int{
			"value + 1": p.pcomm(new(big.Int).Add(x, one), rp), "randomness + 1": p.pcomm(x, new(big.Int).Add(rp, one)),
			"negated value": p.pcomm(new(big.Int).Neg(x), rp), "identity": one, "square": hx.Mul(pc, pc), "inverse": hx.Inv(pc),
			"drawn": p.pcomm(c.Secret("v"), c.Secret("w")), "generator": hx.Gen,
		}
		for _, k := range hx.Sorted(pcs) {
			if pcs[k].Cmp(pc) != 0 {
				bad("group commitment: "+k, pcs[k], fc, a)
			}
		}
		fcs := map[string]*big.Int{
			"value + 1": forge.FoCommit(p.fb, new(big.Int).Add(x, one), rf), "randomness + 1": forge.FoCommit(p.fb, x, new(big.Int).Add(rf, one)),
			"value + group order": forge.FoCommit(p.fb, new(big.Int).Add(x, hx.Q), rf), "value - group order": forge.FoCommit(p.fb, new(big.Int).Sub(x, hx.Q), rf),
			"negated value": forge.FoCommit(p.fb, new(big.Int).Neg(x), rf), "1": one, "0": big64(0), "N": forge.Cp(n), "square": forge.MulN(n, fc, fc),
			"inverse": new(big.Int).ModInverse(fc, n), "N -": new(big.Int).Sub(n, fc), "+ N": new(big.Int).Add(n, fc), "-": new(big.Int).Neg(fc),
		}
		for _, k := range hx.Sorted(fcs) {
			if fcs[k].Cmp(fc) != 0 {
				bad("integer commitment: "+k, pc, fcs[k], a)
			}
		}
		for i := 0; i < 4; i++ {
			f := func(a *pf.ARGequal) **big.Int { return []**big.Int{&a.C, &a.S1, &a.S2, &a.S3}[i] }
			v := *f(a)
			alts := map[string]*big.Int{
				"+1": new(big.Int).Add(v, one), "-1": new(big.Int).Sub(v, one), "negated": new(big.Int).Neg(v), "0": big64(0),
				"doubled": new(big.Int).Lsh(v, 1), "of another argument": forge.Cp(*f(a2)), "+drawn": new(big.Int).Add(v, c.FullBelow(hx.Q, 1, "d")),
			}
			if i != 2 {
				alts["+Q"] = new(big.Int).Add(v, hx.Q)
				alts["mod Q"] = new(big.Int).Mod(v, hx.Q)
			}
			for _, k := range hx.Sorted(alts) {
				if w := alts[k]; w.Cmp(v) != 0 {
					b := cp14(a)
					*f(b) = w
					bad(fmt.Sprintf("field %d %s", i, k), pc, fc, b)
				}
			}
			b := cp14(a)
			j := (i + 1 + c.Int(0, 2, "swap")) % 4
			g := []**big.Int{&b.C, &b.S1, &b.S2, &b.S3}[j]
			*f(b), *g = *g, *f(b)
			bad("swapped fields", pc, fc, b)
		}
		// shifting commitment and response together
		b := cp14(a)
		b.S2.Add(b.S2, a.C)
		bad("group commitment re-blinded with its response", p.pcomm(x, new(big.Int).Add(rp, one)), fc, b)
		b = cp14(a)
		b.S3.Add(b.S3, a.C)
		bad("integer commitment re-blinded with its response", pc, forge.FoCommit(p.fb, x, new(big.Int).Add(rf, one)), b)
		b = cp14(a)
		b.S1.Add(b.S1, a.C)
		bad("both values shifted with the response", p.pcomm(new(big.Int).Add(x, one), rp), forge.FoCommit(p.fb, new(big.Int).Add(x, one), rf), b)
		// other generators
		q := p
		g2, _ := c.Elem("g2")
		q.pb = &pedersen.PedersenBase{Suite: hx.Suite(), GT: hx.Pt(g2), HT: p.pb.HT}
		if g2.Cmp(hx.I(p.pb.GT)) != 0 && x.Sign() != 0 && q.accepts(pc, fc, a) {
			c.Fatalf("accepted under another first generator")
		}
		q.pb = &pedersen.PedersenBase{Suite: hx.Suite(), GT: p.pb.GT, HT: hx.Pt(g2)}
		if g2.Cmp(hx.I(p.pb.HT)) != 0 && q.accepts(pc, fc, a) {
			c.Fatalf("accepted under another second generator")
		}
		c.NonTrivial("x=%s rp=%s N of %d bits", hx.Short(x), hx.Short(rp), n.BitLen())
	})
}

func TestC14_Forgers(t *testing.T) {
	hx.Check(t, 50, "a prover with commitments to two different values x and y tries each forging strategy under each subset of the hashed elements; non-trivial: all", func(c *hx.Case) {
		p := drawPair14(c)
		n := p.fb.N
		x, y := value14(c, "x"), value14(c, "y")
		if c.Bool("close") {
			y = new(big.Int).Add(x, big64(int64(c.Int(1, 3, "off"))))
		}
		if c.Bool("negative") {
			y.Neg(y)
		}
		if modQ(x).Cmp(modQ(y)) == 0 {
			c.Skip("equal")
		}
		rp, rf := c.Secret("rp"), foRand(c, p.fb, "rf")
		pc, fc := p.pcomm(x, rp), forge.FoCommit(p.fb, y, rf)
		bad := func(what string, pc, fc *big.Int, a *pf.ARGequal) {
			if p.accepts(pc, fc, a) {
				c.Fatalf("accepted for %s and %s: %s", hx.Short(x), hx.Short(y), what)
			}
		}
		// the program's own prover, told either value
		for _, v := range []*big.Int{x, y} {
			a := pf.ProveEqual(p.pb, p.fb, hx.Sec(v), hx.Pt(pc), hx.Sec(rp), foPoint(p.fb, fc), forge.Cp(rf))
			bad("honest prover on different values", pc, fc, a)
		}
		lin := func(e, v, r *big.Int) *big.Int { t := new(big.Int).Mul(v, e); return t.Add(t, r) }
		t1, t2, t3, u1 := c.Full("t1"), c.Full("t2"), c.Full("t3"), c.Full("u1")
		T1, T2 := p.pcomm(t1, t2), forge.FoCommit(p.fb, t1, t3)
		// own prover, each subset
		for sub := 0; sub < 16; sub++ {
			e := forge.HashEqual(sub, pc, fc, T1, T2)
			for _, v := range []*big.Int{x, y} {
				bad(fmt.Sprintf("own prover, hash %d", sub), pc, fc, &pf.ARGequal{C: e, S1: lin(e, v, t1), S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
			}
			// responses that agree modulo the group order only
			s := lin(e, x, t1)
			bad("first response reduced", pc, fc, &pf.ARGequal{C: e, S1: modQ(s), S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
			// masks that differ, one response
			Tf := forge.FoCommit(p.fb, u1, t3)
			e = forge.HashEqual(sub, pc, fc, T1, Tf)
			bad("different masks", pc, fc, &pf.ARGequal{C: e, S1: lin(e, x, t1), S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
			bad("different masks", pc, fc, &pf.ARGequal{C: e, S1: lin(e, y, u1), S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
			if sub&1 == 0 { // group commitment computed last
				e := forge.HashEqual(sub, pc, fc, T1, Tf)
				if e.Sign() > 0 {
					s1 := lin(e, y, u1)
					v := new(big.Int).Sub(s1, t1)
					v.Mul(v, new(big.Int).ModInverse(e, hx.Q))
					bad("group commitment computed last", p.pcomm(v, rp), fc, &pf.ARGequal{C: e, S1: s1, S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
				}
			}
			if sub&2 == 0 { // integer commitment computed last: a multiple of Q makes the division come out
				e := forge.HashEqual(sub, pc, fc, T1, Tf)
				qi := new(big.Int).ModInverse(hx.Q, e)
				if e.Sign() > 0 && qi != nil {
					s1 := lin(e, x, t1)
					m := new(big.Int).Sub(u1, s1)
					m.Mul(m, qi).Mod(m, e)
					s1.Add(s1, m.Mul(m, hx.Q))
					v := new(big.Int).Sub(s1, u1)
					v.Div(v, e)
					if modQ(v).Cmp(modQ(x)) != 0 {
						bad("integer commitment computed last", pc, forge.FoCommit(p.fb, v, rf), &pf.ARGequal{C: e, S1: s1, S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
					}
				}
			}
			if sub&4 == 0 {
				// the group side is not bound: anything goes there
				e := forge.HashEqual(sub, pc, fc, T1, T2)
				bad("group side unbound", pc, fc, &pf.ARGequal{C: e, S1: lin(e, y, t1), S2: c.Full("s2"), S3: lin(e, rf, t3)})
			}
			if sub&8 == 0 {
				e := forge.HashEqual(sub, pc, fc, T1, T2)
				bad("integer side unbound", pc, fc, &pf.ARGequal{C: e, S1: lin(e, x, t1), S2: lin(e, rp, t2), S3: c.Full("s3")})
			}
			// integer commitments without an inverse
			for _, v := range []*big.Int{big64(0), n, new(big.Int).Lsh(n, 1)} {
				e := forge.HashEqual(sub, pc, v, T1, big64(0))
				bad("integer commitment without inverse", pc, v, &pf.ARGequal{C: e, S1: lin(e, x, t1), S2: lin(e, rp, t2), S3: t3})
			}
		}
		for _, e := range []*big.Int{big64(0), big64(1), big64(-1), hx.Q} {
			bad("guessed challenge", pc, fc, &pf.ARGequal{C: e, S1: lin(e, x, t1), S2: lin(e, rp, t2), S3: lin(e, rf, t3)})
		}
		// integer commitments sharing a factor with N (only a party with the trapdoor has those)
		f := forge.MulN(n, new(big.Int).Add(new(big.Int).Lsh(p.fb.P, 1), big64(1)), c.Full("f"))
		for sub := 0; sub < 16; sub++ {
			e := forge.HashEqual(sub, pc, f, T1, big64(0))
			bad("integer commitment without inverse", pc, f, &pf.ARGequal{C: e, S1: lin(e, x, t1), S2: lin(e, rp, t2), S3: t3})
		}
		c.NonTrivial("x=%s y=%s N of %d bits", hx.Short(x), hx.Short(y), n.BitLen())
	})
}
