package prim

import (
	"math/big"
	"testing"

	"zRep/primitive/fujiokam"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

func gens(b *fujiokam.FujiOkamBase) []**fujiokam.Point {
	return []**fujiokam.Point{&b.G1, &b.G2, &b.G3, &b.G4, &b.G5, &b.G6}
}

// isSquare tells whether v is a unit and a square modulo both primes.
func isSquare(v, p, q *big.Int) bool {
	return big.Jacobi(new(big.Int).Mod(v, p), p) == 1 && big.Jacobi(new(big.Int).Mod(v, q), q) == 1
}

func checkParams(c *hx.Case, b *fujiokam.FujiOkamBase, bits int) {
	one := big64(1)
	dp := new(big.Int).Add(new(big.Int).Lsh(b.P, 1), one)
	dq := new(big.Int).Add(new(big.Int).Lsh(b.Q, 1), one)
	for _, x := range []*big.Int{b.P, b.Q, dp, dq} {
		if !x.ProbablyPrime(12) {
			c.Fatalf("the modulus is not the product of two safe primes")
		}
	}
	if dp.BitLen() != bits || dq.BitLen() != bits || dp.Cmp(dq) == 0 {
		c.Fatalf("primes of %d and %d bits (or equal)", dp.BitLen(), dq.BitLen())
	}
	if new(big.Int).Mul(dp, dq).Cmp(b.N) != 0 {
		c.Fatalf("modulus is not the product")
	}
	radius := new(big.Int).Lsh(b.N, 80)
	if b.RandomRadius.Cmp(radius) != 0 || b.RandomDiameter.Cmp(new(big.Int).Lsh(radius, 1)) != 0 {
		c.Fatalf("range of the randomness changed")
	}
	seen := map[string]bool{}
	for i, g := range append([]**fujiokam.Point{&b.H1}, gens(b)...) {
		v := &(*g).V
		if v.Sign() <= 0 || v.Cmp(b.N) >= 0 {
			c.Fatalf("generator %d out of range", i)
		}
		if !isSquare(v, dp, dq) {
			c.Fatalf("generator %d is not in the subgroup of squares", i)
		}
		// of full order: different from 1 modulo each prime
		if new(big.Int).Mod(v, dp).Cmp(one) == 0 || new(big.Int).Mod(v, dq).Cmp(one) == 0 {
			c.Fatalf("generator %d does not generate the squares", i)
		}
		if seen[v.String()] {
			c.Fatalf("two generators coincide")
		}
		seen[v.String()] = true
	}
	for i, g := range gens(b) {
		for k := int64(-40); k <= 40; k++ {
			if forge.ExpN(&b.H1.V, big64(k), b.N).Cmp(&(*g).V) == 0 {
				c.Fatalf("logarithm of generator %d is %d", i+1, k)
			}
		}
	}
}

// public is what a client builds from what it receives.
func public(b *fujiokam.FujiOkamBase) *fujiokam.FujiOkamBase {
	p := fujiokam.CreateMinimumBase(hx.Suite(), util.DecodeBigInt(util.EncodeBigInt(b.N)))
	for i, g := range gens(b) {
		*gens(p)[i] = fujiokam.PointFromRaw(util.DecodeBigInt(util.EncodeBigInt(&(*g).V)), p.N)
	}
	p.H1 = fujiokam.PointFromRaw(util.DecodeBigInt(util.EncodeBigInt(&b.H1.V)), p.N)
	return p
}

func TestC15_Params(t *testing.T) {
	hx.Check(t, 3, "parameters as the coordinator makes them, with the real prime generator; arithmetic check of the modulus and each generator; non-trivial: all", func(c *hx.Case) {
		b := fujiokam.CreateBase()
		checkParams(c, b, 512)
		b2 := fujiokam.CreateBase()
		if b2.N.Cmp(b.N) == 0 || b2.H1.V.Cmp(&b.H1.V) == 0 {
			c.Fatalf("two parameter sets coincide")
		}
		secrets, publics := b.GenerateAllGnHonestyProof()
		ch := public(b).ChallengeAllGnHonesty()
		if r := public(b).CheckAllGnHonesty(b.AnswerAllGnHonesty(ch, secrets, publics), ch, publics); r != 0 {
			c.Fatalf("honesty proof of the parameters fails on generator %d", r)
		}
		c.NonTrivial("N=%s", hx.Short(b.N))
	})
}

const w15 = fujiokam.GN_HONESTY_PROOF_SIZE

func cpInts(a []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		r[i] = forge.Cp(a[i])
	}
	return r
}

func TestC15_Honesty(t *testing.T) {
	hx.Check(t, 10, "honesty proof over the wire encoding; then altered answers, and provers whose generator is not a power of the base; non-trivial: all", func(c *hx.Case) {
		b := foBase(c, "base")
		n := b.N
		secrets, publics := b.GenerateAllGnHonestyProof()
		secrets2, publics2 := b.GenerateAllGnHonestyProof()
		for i := range publics {
			if publics[i].Cmp(publics2[i]) == 0 || secrets[i].Cmp(secrets2[i]) == 0 || (i > 0 && publics[i].Cmp(publics[i-1]) == 0) {
				c.Fatalf("proof values repeat")
			}
			if forge.ExpN(&b.H1.V, secrets[i], n).Cmp(publics[i]) != 0 {
				c.Fatalf("proof value is not a power of the base")
			}
		}
		pub := public(b)
		ch := pub.ChallengeAllGnHonesty()
		ch2 := pub.ChallengeAllGnHonesty()
		if len(ch) != 6*w15 {
			c.Fatalf("challenge of %d bits", len(ch))
		}
		if w15 < 60 {
			c.Fatalf("a dishonest generator passes one time in 2^%d", w15)
		}
		// no bit of the challenge is fixed or follows from others
		chs := [][]bool{ch, ch2}
		for len(chs) < 72 {
			chs = append(chs, pub.ChallengeAllGnHonesty())
		}
		var ups, flips [6 * w15]int
		for i, x := range chs {
			for k := range x {
				if x[k] {
					ups[k]++
				}
				if i > 0 && x[k] != chs[i-1][k] {
					flips[k]++
				}
			}
			for s := 1; s <= 5*w15; s++ {
				same, m := 0, len(x)-s
				for k := 0; k < m; k++ {
					if x[k] == x[k+s] {
						same++
					}
				}
				// 80 bits and more, all alike or nearly
				if same < m/10 || same > m-m/10 {
					c.Fatalf("the bits of a challenge repeat (at distance %d)", s)
				}
			}
		}
		for k := range ups {
			if ups[k] == 0 || ups[k] == len(chs) || flips[k] == 0 || flips[k] == len(chs)-1 {
				c.Fatalf("bit %d of the challenge is predictable", k)
			}
		}
		diff := 0
		for g := 0; g < 6; g++ {
			ones := 0
			for i := g * w15; i < (g+1)*w15; i++ {
				if ch[i] {
					ones++
				}
				if ch[i] != ch2[i] {
					diff++
				}
			}
			if ones < 8 || ones > w15-8 {
				c.Fatalf("challenge for generator %d has %d ones", g+1, ones)
			}
		}
		if diff < 100 || diff > 380 {
			c.Fatalf("two challenges differ in %d places", diff)
		}
		wire := func(a []*big.Int) []*big.Int {
			return util.ProtobufDecodeBigIntList(util.ProtobufEncodeBigIntList(a))
		}
		bits := util.ProtobufDecodeBoolList(util.ProtobufEncodeBoolList(ch))
		answers := b.AnswerAllGnHonesty(bits, secrets, publics)
		if r := pub.CheckAllGnHonesty(wire(answers), ch, wire(publics)); r != 0 {
			c.Fatalf("honest proof rejected at generator %d", r)
		}
		for g, bit := range ch {
			if !bit && answers[g].Cmp(secrets[g]) != 0 {
				c.Fatalf("answer to a 0 is not the secret")
			}
		}
		bad := func(what string, p *fujiokam.FujiOkamBase, ans []*big.Int, bits []bool, pubs []*big.Int, want int) {
			r := p.CheckAllGnHonesty(cpInts(ans), bits, cpInts(pubs))
			if r == 0 {
				c.Fatalf("accepted: %s (generator %d)", what, want)
			}
			if r != want {
				c.Fatalf("%s: reported generator %d, not %d", what, r, want)
			}
		}
		{
			g := c.Int(0, 5, "generator")
			// single altered answers and proof values, one place of each generator
			at := g*w15 + c.Int(0, w15-1, "at")
			x := cpInts(answers)
			x[at].Add(x[at], big64(int64(c.Int(1, 3, "by"))))
			bad("altered answer", pub, x, ch, publics, g+1)
			for _, edge := range []int{g * w15, (g+1)*w15 - 1} {
				x = cpInts(answers)
				x[edge].Sub(x[edge], big64(1))
				bad("altered answer at the edge", pub, x, ch, publics, g+1)
			}
			y := cpInts(publics)
			y[at] = forge.MulN(n, y[at], &b.H1.V)
			bad("altered proof value", pub, answers, ch, y, g+1)
			flip := append([]bool{}, ch...)
			flip[at] = !flip[at]
			bad("flipped challenge", pub, answers, flip, publics, g+1)
			// a generator that is not the claimed power
			evil := *b
			pt := gens(&evil)[g]
			honest := &(*pt).V
			var v *big.Int
			kind := c.Int(0, 5, "evil")
			switch kind {
			case 0:
				v = new(big.Int).Sub(n, honest)
			case 1: // a non-square
				for v = c.FullBelow(n, 2, "nonsquare"); big.Jacobi(v, n) != -1; {
					v.Add(v, big64(1))
				}
			case 2:
				v = forge.MulN(n, honest, &b.H1.V)
			case 3:
				v = new(big.Int).Sub(n, big64(1))
			case 4:
				v = forge.Cp(&(*gens(b)[(g+1)%6]).V)
			case 5:
				v = c.FullBelow(n, 2, "any")
			}
			*pt = evil.Point().SetBigInt(v)
			bad("dishonest generator, honest answers", public(&evil), answers, ch, publics, g+1)
			// the same by a prover who bets on the challenge
			inv := new(big.Int).ModInverse(v, n)
			if inv == nil {
				c.Skip("no inverse")
			}
			for bet := 0; bet < 3; bet++ {
				pubs, ans := cpInts(publics), cpInts(answers)
				for i := g * w15; i < (g+1)*w15; i++ {
					one := bet == 1 || bet == 2 && c.Bool("bet")
					if one {
						pubs[i] = forge.MulN(n, forge.ExpN(&b.H1.V, secrets[i], n), inv)
					} else {
						pubs[i] = forge.ExpN(&b.H1.V, secrets[i], n)
					}
					ans[i] = secrets[i]
				}
				bad("dishonest generator, challenge guessed", public(&evil), ans, ch, pubs, g+1)
			}
			// degenerate values
			pubs, ans := cpInts(publics), cpInts(answers)
			for i := g * w15; i < (g+1)*w15; i++ {
				pubs[i], ans[i] = big64(0), big64(0)
			}
			bad("zero proof values", public(&evil), ans, ch, pubs, g+1)
		}
		// shortened lists must not be taken for a proof
		short := c.Int(0, 6*w15-1, "short")
		msg := ""
		if r := 1; true {
			msg, _ = hx.Panics(func() { r = pub.CheckAllGnHonesty(answers[:short:short], ch, publics) })
			if r == 0 {
				c.Fatalf("accepted with %d answers %s", short, msg)
			}
			r = 1
			hx.Panics(func() { r = pub.CheckAllGnHonesty(answers, ch, publics[:short:short]) })
			if r == 0 {
				c.Fatalf("accepted with %d proof values", short)
			}
		}
		c.NonTrivial("N=%s short=%d", hx.Short(n), short)
	})
}
