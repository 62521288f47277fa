package prim

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/primitive/lrs"
	"zrepverif/forge"
	"zrepverif/hx"
)

var pm1 = new(big.Int).Sub(hx.P, big.NewInt(1))

func cp16(s *lrs.Signature) *lrs.Signature {
	return &lrs.Signature{Y0: forge.Cp(s.Y0), S: cpInts(s.S), C: cpInts(s.C)}
}

type ring struct {
	c  *hx.Case
	b  *lrs.LRSBase
	xs []*big.Int
	ys []*big.Int
	pt []abstract.Point
}

func drawRing(c *hx.Case) *ring {
	n := c.Tail(1, 9, 20, "n")
	r := &ring{c: c, b: lrs.CreateBase(forge.Cp(hx.Gen))}
	for i := 0; i < n; i++ {
		x := c.FullBelow(pm1, 2, "x")
		if c.Bool("within order") {
			x.Mod(x, hx.Q)
		}
		r.xs = append(r.xs, x)
		r.ys = append(r.ys, new(big.Int).Exp(hx.Gen, x, hx.P))
		r.pt = append(r.pt, hx.Pt(r.ys[i]))
	}
	return r
}

func (r *ring) n() int { return len(r.ys) }

func (r *ring) accepts(m []byte, ys []*big.Int, s *lrs.Signature) (ok bool) {
	if msg, p := hx.Panics(func() { ok = r.b.VerifyHelper(append([]byte{}, m...), len(ys), 0, cp16(s), cpInts(ys)) }); p {
		r.c.Fatalf("verification crashed: %s", msg)
	}
	return
}

func (r *ring) sign(m []byte, i int) *lrs.Signature {
	if r.c.Bool("points") {
		return r.b.Sign(append([]byte{}, m...), r.n(), i, hx.Sec(r.xs[i]), r.pt)
	}
	return r.b.SignHelper(append([]byte{}, m...), r.n(), i, forge.Cp(r.xs[i]), cpInts(r.ys))
}

func TestC16_Laws(t *testing.T) {
	hx.Check(t, 60, "ring of 1..8 drawn keys, drawn signer and message; encoding, linking, and altered messages, rings and signatures; non-trivial: all", func(c *hx.Case) {
		r := drawRing(c)
		n := r.n()
		i := c.Int(0, n-1, "signer")
		m := drawMsg(c, "m")
		sig := r.sign(m, i)
		keep := cp16(sig)
		if !r.b.VerifyHelper(m, n, c.Int(0, n-1, "pi"), sig, r.ys) || !r.b.Verify(m, n, 0, sig, r.pt) {
			c.Fatalf("signature of member %d of %d rejected", i, n)
		}
		if fmt.Sprint(*keep) != fmt.Sprint(*sig) {
			c.Fatalf("verifying changed the signature")
		}
		dec := lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(sig))
		if !r.accepts(m, r.ys, dec) || !lrs.Linkable(sig, dec) || fmt.Sprint(*dec) != fmt.Sprint(*sig) {
			c.Fatalf("signature lost by encoding and decoding")
		}
		// one signer links, two do not
		again := r.sign(m, i)
		if !r.accepts(m, r.ys, again) || !lrs.Linkable(sig, again) || !lrs.Linkable(again, sig) {
			c.Fatalf("two signatures of one member do not link")
		}
		nonce := func(s *lrs.Signature) *big.Int {
			v := new(big.Int).Mul(s.C[i], r.xs[i])
			return v.Mod(v.Add(v, s.S[i]), hx.Q)
		}
		if nonce(sig).Cmp(nonce(again)) == 0 || nonce(sig).BitLen() < 400 {
			c.Fatalf("nonce repeated or small")
		}
		for j := 0; j < n; j++ {
			if j != i && r.ys[j].Cmp(r.ys[i]) != 0 {
				o := r.sign(m, j)
				if !r.accepts(m, r.ys, o) {
					c.Fatalf("signature of member %d of %d rejected", j, n)
				}
				if lrs.Linkable(sig, o) || lrs.Linkable(o, sig) {
					c.Fatalf("signatures of different members link")
				}
			}
		}
		// the challenges add up to the hash, which must not be one that could be hit by trying
		sum := func(s *lrs.Signature) int {
			v := new(big.Int)
			for _, x := range s.C {
				v.Add(v, x)
			}
			return v.Mod(v, pm1).BitLen()
		}
		if sum(sig) < 150 && sum(again) < 150 {
			c.Fatalf("challenges of %d and %d bits", sum(sig), sum(again))
		}
		// nothing distinguishes the signer's position
		for _, s := range []*lrs.Signature{sig, again} {
			if len(s.S) != n || len(s.C) != n {
				c.Fatalf("signature with %d and %d numbers for %d members", len(s.S), len(s.C), n)
			}
			seen := map[string]bool{}
			for j := 0; j < n; j++ {
				for _, v := range []*big.Int{s.S[j], s.C[j]} {
					if v.Sign() < 0 || v.Cmp(pm1) >= 0 || seen[v.String()] {
						c.Fatalf("number of member %d is out of range or repeated", j)
					}
					seen[v.String()] = true
					// the only challenge of a ring of one is a 256-bit hash
					if n > 1 && v.BitLen() < 512-70 {
						c.Fatalf("number of member %d (signer %d) has %d bits", j, i, v.BitLen())
					}
				}
				if n > 1 && (sig.S[j].Cmp(again.S[j]) == 0 || sig.C[j].Cmp(again.C[j]) == 0) {
					c.Fatalf("numbers of member %d repeat in two signatures (signer %d)", j, i)
				}
			}
		}
		bad := func(what string, m []byte, ys []*big.Int, s *lrs.Signature) {
			if r.accepts(m, ys, s) {
				c.Fatalf("accepted: %s (signer %d of %d)", what, i, n)
			}
		}
		if m2, how := changed(c, m, "m2"); string(m2) != string(m) {
			bad("message "+how, m2, r.ys, sig)
			if o := r.sign(m2, i); lrs.Linkable(o, sig) {
				c.Fatalf("signatures on different messages link")
			}
		}
		// other rings
		k := c.Int(0, n-1, "k")
		other := cpInts(r.ys)
		other[k], _ = c.Elem("other")
		bad("member replaced", m, other, sig)
		if n > 1 {
			l := (k + c.Int(1, n-1, "l")) % n
			sw := cpInts(r.ys)
			sw[k], sw[l] = sw[l], sw[k]
			if sw[k].Cmp(sw[l]) != 0 {
				bad("members swapped", m, sw, sig)
			}
			dup := cpInts(r.ys)
			dup[k] = forge.Cp(dup[l])
			if dup[k].Cmp(r.ys[k]) != 0 {
				bad("member duplicated", m, dup, sig)
			}
			bad("member dropped", m, append(cpInts(r.ys[:k]), cpInts(r.ys[k+1:])...), sig)
		}
		e, _ := c.Elem("extra")
		bad("member added", m, append(cpInts(r.ys), e), sig)
		// the same with the numbers adapted
		long := cp16(sig)
		long.S, long.C = append(long.S, big64(0)), append(long.C, big64(0))
		bad("member added with zero numbers", m, append(cpInts(r.ys), e), long)
		bad("numbers added", m, r.ys, long)
		long.S = long.S[:n]
		bad("challenge 0 added", m, r.ys, long)
		long.C[n] = forge.Cp(pm1)
		bad("challenge P-1 added", m, r.ys, long)
		long = cp16(sig)
		d := c.Full("d")
		long.C[k].Add(long.C[k], d).Mod(long.C[k], pm1)
		long.C = append(long.C, new(big.Int).Sub(pm1, d))
		bad("challenge split", m, r.ys, long)
		long = cp16(sig)
		long.S = append(long.S, d)
		bad("response added", m, r.ys, long)
		short := cp16(sig)
		short.S = short.S[:n-1]
		bad("response missing", m, r.ys, short)
		short = cp16(sig)
		short.C = short.C[:n-1]
		bad("challenge missing", m, r.ys, short)
		bad("empty", m, r.ys, &lrs.Signature{Y0: forge.Cp(sig.Y0)})
		// every number (shifts by the order of the group stand for the same elements)
		for j := 0; j < n; j++ {
			for f, get := range []func(s *lrs.Signature) *big.Int{func(s *lrs.Signature) *big.Int { return s.S[j] }, func(s *lrs.Signature) *big.Int { return s.C[j] }} {
				for _, by := range []*big.Int{big64(1), big64(-1), big64(2), c.Full("by")} {
					s := cp16(sig)
					v := get(s)
					v.Add(v, by).Mod(v, pm1)
					bad(fmt.Sprintf("number %d/%d shifted", f, j), m, r.ys, s)
				}
				s := cp16(sig)
				get(s).SetInt64(0)
				if get(sig).Sign() != 0 {
					bad(fmt.Sprintf("number %d/%d zeroed", f, j), m, r.ys, s)
				}
				s = cp16(sig)
				get(s).Set(get(again))
				if n > 1 || f == 0 {
					bad(fmt.Sprintf("number %d/%d of another signature", f, j), m, r.ys, s)
				}
			}
			s := cp16(sig)
			s.S[j], s.C[j] = s.C[j], s.S[j]
			bad("numbers swapped", m, r.ys, s)
			if n > 1 {
				l := (j + 1) % n
				s = cp16(sig)
				s.C[j], s.C[l] = s.C[l], s.C[j]
				bad("challenges swapped", m, r.ys, s)
				s = cp16(sig)
				s.S[j], s.S[l] = s.S[l], s.S[j]
				bad("responses swapped", m, r.ys, s)
				s = cp16(sig)
				s.C[j].Add(s.C[j], d).Mod(s.C[j], pm1)
				s.C[l].Sub(s.C[l], d).Mod(s.C[l], pm1)
				bad("challenges shifted against each other", m, r.ys, s)
			}
		}
		// the tag
		tags := map[string]*big.Int{
			"negated": new(big.Int).Sub(hx.P, sig.Y0), "plus P": new(big.Int).Add(hx.P, sig.Y0), "0": big64(0), "1": big64(1), "P": forge.Cp(hx.P),
			"minus itself": new(big.Int).Neg(sig.Y0), "inverse": hx.Inv(sig.Y0), "squared": hx.Mul(sig.Y0, sig.Y0), "drawn": hx.Exp(hx.Gen, d),
			"times generator": hx.Mul(sig.Y0, hx.Gen), "another number": new(big.Int).Add(sig.Y0, big64(1)),
		}
		for _, k := range hx.Sorted(tags) {
			if tags[k].Cmp(sig.Y0) != 0 {
				s := cp16(sig)
				s.Y0 = tags[k]
				bad("tag "+k, m, r.ys, s)
			}
		}
		c.NonTrivial("n=%d signer=%d m=%s", n, i, hx.Hex(m))
	})
}

// own16 is a prover written from the scheme: the tag, the own equations and the parts
// of the hash can be chosen freely. part selects what the challenge covers: ring, tag,
// message, first and second commitments.
type own16 struct {
	r           *ring
	m           []byte
	i           int
	x           *big.Int // secret it uses
	tag         *big.Int
	second      *big.Int // own second commitment; nil: h^nonce
	part        int
	lateTag     func(c, s *big.Int) *big.Int
	h           *big.Int
	nonce       *big.Int
	z1s, z2s    []*big.Int
	responseOff *big.Int
	left1       func(j int) bool // members whose first or second commitment the hash leaves out
	left2       func(j int) bool
}

func tagBase(r *ring, m []byte) *big.Int {
	var L []byte
	for _, y := range r.ys {
		L = append(L, y.Bytes()...)
	}
	hm := forge.Sha(m).FillBytes(make([]byte, 32))
	v := forge.Sha(append(hm, L...))
	return v.Exp(v, big64(2), hx.P)
}

func (o *own16) make() *lrs.Signature {
	r, n := o.r, o.r.n()
	s, cc := make([]*big.Int, n), make([]*big.Int, n)
	var L, z1, z2 []byte
	for _, y := range r.ys {
		L = append(L, y.Bytes()...)
	}
	exp := func(b, e *big.Int) *big.Int { return new(big.Int).Exp(b, e, hx.P) }
	for j := 0; j < n; j++ {
		put1 := func(v *big.Int) {
			if o.left1 == nil || !o.left1(j) {
				z1 = append(z1, v.Bytes()...)
			}
		}
		put2 := func(v *big.Int) {
			if o.left2 == nil || !o.left2(j) {
				z2 = append(z2, v.Bytes()...)
			}
		}
		if j == o.i {
			put1(exp(hx.Gen, o.nonce))
			if o.second != nil {
				put2(o.second)
			} else {
				put2(exp(o.h, o.nonce))
			}
			continue
		}
		s[j], cc[j] = r.c.FullBelow(pm1, 0, "s"), r.c.FullBelow(pm1, 1, "c")
		put1(hx.Mul(exp(hx.Gen, s[j]), exp(r.ys[j], cc[j])))
		put2(hx.Mul(exp(o.h, s[j]), exp(o.tag, cc[j])))
	}
	var buf []byte
	for k, p := range [][]byte{L, o.tag.Bytes(), o.m, z1, z2} {
		if o.part&(1<<uint(k)) != 0 {
			buf = append(buf, p...)
		}
	}
	e := forge.Sha(buf)
	e.Mod(e, pm1)
	for j := range cc {
		if j != o.i {
			e.Sub(e, cc[j])
		}
	}
	cc[o.i] = e.Mod(e, pm1)
	v := new(big.Int).Mul(cc[o.i], o.x)
	v.Sub(o.nonce, v).Mod(v, pm1)
	s[o.i] = v
	if o.lateTag != nil {
		o.tag = o.lateTag(cc[o.i], s[o.i])
	}
	return &lrs.Signature{Y0: o.tag, S: s, C: cc}
}

func TestC16_Forgers(t *testing.T) {
	hx.Check(t, 40, "an outsider without any member's key, and a member who wants a second tag, try each forging strategy under each subset of the hashed parts; non-trivial: all", func(c *hx.Case) {
		r := drawRing(c)
		n := r.n()
		i := c.Int(0, n-1, "i")
		m := drawMsg(c, "m")
		h := tagBase(r, m)
		honest := r.sign(m, i)
		if new(big.Int).Exp(h, r.xs[i], hx.P).Cmp(honest.Y0) != 0 {
			// the tag is made another way; the forgers below use the way it was
			c.Class("tag base differs")
		}
		try := func(what string, s *lrs.Signature) {
			if r.accepts(m, r.ys, s) {
				c.Fatalf("accepted: %s (ring of %d)", what, n)
			}
		}
		exp := func(b, e *big.Int) *big.Int { return new(big.Int).Exp(b, e, hx.P) }
		x := c.Full("outsider")
		// everything hashed, one part left out, and some more subsets
		parts := []int{31, 30, 29, 27, 23, 15}
		for k := 0; k < 3; k++ {
			parts = append(parts, c.Int(0, 31, "subset"))
		}
		for _, part := range parts {
			mk := func(secret, tag *big.Int) *own16 {
				return &own16{r: r, m: m, i: i, x: secret, tag: tag, part: part, h: h, nonce: c.FullBelow(pm1, 2, "nonce")}
			}
			// outsider
			try(fmt.Sprintf("outsider's key, hash %d", part), mk(x, exp(h, x)).make())
			try(fmt.Sprintf("outsider with an honest tag, hash %d", part), mk(x, honest.Y0).make())
			try(fmt.Sprintf("outsider with key 0, hash %d", part), mk(big64(0), big64(1)).make())
			z := mk(x, big64(0))
			z.second = big64(0)
			try(fmt.Sprintf("outsider with tag 0, hash %d", part), z.make())
			// member: any tag but the right one
			true16 := mk(r.xs[i], exp(h, r.xs[i])).make()
			if part == 31 && !r.accepts(m, r.ys, true16) {
				c.Class("own prover differs from the program's")
			}
			zm := mk(r.xs[i], big64(0))
			zm.second = big64(0)
			try(fmt.Sprintf("member with tag 0, hash %d", part), zm.make())
			zm = mk(r.xs[i], forge.Cp(hx.P))
			zm.second = big64(0)
			try(fmt.Sprintf("member with tag P, hash %d", part), zm.make())
			for try16 := 0; try16 < 3; try16++ {
				o := mk(r.xs[i], new(big.Int).Sub(hx.P, exp(h, r.xs[i])))
				s := o.make()
				try(fmt.Sprintf("member with negated tag, hash %d", part), s)
				if s.C[i].Bit(0) == 0 {
					break
				}
			}
			try(fmt.Sprintf("member with tag + P, hash %d", part), mk(r.xs[i], new(big.Int).Add(hx.P, exp(h, r.xs[i]))).make())
			try(fmt.Sprintf("member with a drawn tag, hash %d", part), mk(r.xs[i], exp(hx.Gen, x)).make())
			try(fmt.Sprintf("member with another key's tag, hash %d", part), mk(r.xs[i], exp(h, x)).make())
			if part&2 == 0 { // tag not covered: solve for it
				o := mk(r.xs[i], exp(hx.Gen, x))
				r2 := c.Full("r2")
				o.second = exp(h, r2)
				o.lateTag = func(cc, s *big.Int) *big.Int {
					inv := new(big.Int).ModInverse(cc, hx.Q)
					if inv == nil {
						inv = big64(1)
					}
					d := new(big.Int).Sub(r2, s)
					return hx.Exp(h, d.Mul(d, inv))
				}
				try(fmt.Sprintf("member with the tag computed last, hash %d", part), o.make())
			}
		}
		// the commitments of some members, the own one among them, left out of the hash
		type left struct {
			what string
			f    func(j int) bool
		}
		gaps := []left{{"the own one", func(j int) bool { return j == i }}, {"every other one", func(j int) bool { return j%2 == i%2 }}}
		for l := 1; l <= i; l++ {
			l := l
			gaps = append(gaps, left{fmt.Sprintf("those from %d on", l), func(j int) bool { return j >= l }})
		}
		for l := i; l < n-1; l++ {
			l := l
			gaps = append(gaps, left{fmt.Sprintf("those up to %d", l), func(j int) bool { return j <= l }})
		}
		for k := 0; k < 5; k++ {
			gap := gaps[c.Int(0, len(gaps)-1, "gap")]
			o := &own16{r: r, m: m, i: i, x: r.xs[i], tag: exp(h, x), part: 31, h: h, nonce: c.FullBelow(pm1, 2, "nonce"), left2: gap.f}
			try("member with another key's tag, second commitments without "+gap.what, o.make())
			o = &own16{r: r, m: m, i: i, x: x, tag: exp(h, x), part: 31, h: h, nonce: c.FullBelow(pm1, 2, "nonce"), left1: gap.f}
			try("outsider, first commitments without "+gap.what, o.make())
		}
		// all numbers drawn
		s := &lrs.Signature{Y0: exp(h, x)}
		for j := 0; j < n; j++ {
			s.S = append(s.S, c.FullBelow(pm1, 0, "s"))
			s.C = append(s.C, c.FullBelow(pm1, 0, "c"))
		}
		try("drawn numbers", s)
		// drawn responses, challenges made to add up to the hash
		var buf []byte
		for _, y := range r.ys {
			buf = append(buf, y.Bytes()...)
		}
		buf = append(append(buf, s.Y0.Bytes()...), m...)
		for j := range s.S {
			buf = append(buf, hx.Mul(exp(hx.Gen, s.S[j]), exp(r.ys[j], s.C[j])).Bytes()...)
		}
		for j := range s.S {
			buf = append(buf, hx.Mul(exp(h, s.S[j]), exp(s.Y0, s.C[j])).Bytes()...)
		}
		e := forge.Sha(buf)
		for j := range s.C {
			e.Sub(e, s.C[j])
		}
		s1 := cp16(s)
		s1.C[i].Add(s1.C[i], e).Mod(s1.C[i], pm1)
		try("challenges made to add up", s1)
		s1 = cp16(s)
		s1.C = append(s1.C, e.Mod(e, pm1))
		try("an extra challenge makes them add up", s1)
		s1.S = append(s1.S, big64(0))
		try("an extra pair makes them add up", s1)
		c.NonTrivial("n=%d i=%d m=%s", n, i, hx.Hex(m))
	})
}
