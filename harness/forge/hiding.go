package forge

import (
	"fmt"
	"math/big"

	"zRep/primitive/fujiokam"
	pf "zRep/primitive/pedersen_fujiokam"
	"zrepverif/hx"
)

// Slack is how many bits a response must be longer than what it hides: a mask of a
// secret times a challenge that is 2^Slack times as long leaves only 2^-Slack to see.
// The program's masks have twice that.
const Slack = 40

// Shown is what somebody who sees arguments can compute with.
type Shown struct {
	what   []string
	small  []*big.Int // responses of the same kind, which hide values below limit
	limit  []*big.Int
	kind   []bool     // hides a blinding, not a value
	masksQ []*big.Int // masks modulo the group order
	qWhat  []string
	t1     []*big.Int        // masks of values, as the group commitments have them
	pts    map[string]string // commitments seen
}

func NewShown() *Shown { return &Shown{pts: map[string]string{}} }

func lsh(x *big.Int, n uint) *big.Int { return new(big.Int).Lsh(x, n) }

// response takes in an integer response to a 256-bit challenge for a secret below bound.
func (s *Shown) response(what string, v, bound *big.Int, blinding bool) string {
	limit := lsh(bound, 256+Slack)
	if v.CmpAbs(limit) < 0 {
		return fmt.Sprintf("%s does not hide its secret: it has %d bits, the product of secret and challenge has up to %d", what, v.BitLen(), bound.BitLen()+256)
	}
	d := new(big.Int)
	for i, o := range s.small {
		if s.kind[i] != blinding {
			continue
		}
		m := limit
		if s.limit[i].Cmp(m) > 0 {
			m = s.limit[i]
		}
		if d.Sub(v, o).CmpAbs(m) < 0 {
			return fmt.Sprintf("%s and %s use one mask: they differ by %d bits only", what, s.what[i], d.BitLen())
		}
		if d.Add(v, o).CmpAbs(m) < 0 {
			return fmt.Sprintf("%s and %s use one mask, once negated: their sum has %d bits only", what, s.what[i], d.BitLen())
		}
	}
	s.what, s.small, s.limit, s.kind = append(s.what, what), append(s.small, v), append(s.limit, limit), append(s.kind, blinding)
	return ""
}

// apart says whether two numbers are not close modulo the group order.
func apart(a, b *big.Int) bool {
	near := new(big.Int).Rsh(hx.Q, Slack)
	d := new(big.Int).Sub(a, b)
	d.Mod(d, hx.Q)
	if d.Cmp(near) < 0 || d.Sub(hx.Q, d).Cmp(near) < 0 {
		return false
	}
	// nor is one the negated other
	d.Add(a, b).Mod(d, hx.Q)
	return d.Cmp(near) >= 0 && d.Sub(hx.Q, d).Cmp(near) >= 0
}

// modQ takes in a mask, or a blinding, that lives modulo the group order.
func (s *Shown) modQ(what string, v *big.Int) string {
	for i, o := range append([]*big.Int{big64(0)}, s.masksQ...) {
		w := "zero"
		if i > 0 {
			w = s.qWhat[i-1]
		}
		if !apart(v, o) {
			return fmt.Sprintf("the randomness of %s is close to that of %s", what, w)
		}
	}
	for _, o := range s.t1 {
		if !apart(v, o) {
			return fmt.Sprintf("the randomness of %s is close to the mask of a value", what)
		}
	}
	s.masksQ, s.qWhat = append(s.masksQ, v), append(s.qWhat, what)
	return ""
}

func (s *Shown) once(what string, v *big.Int) string {
	k := string(v.Bytes())
	if o := s.pts[k]; o != "" {
		return what + " is " + o
	}
	s.pts[k] = what
	return ""
}

func first(fs ...func() string) string {
	for _, f := range fs {
		if e := f(); e != "" {
			return e
		}
	}
	return ""
}

// Blinding takes in the randomness of a group commitment that is public or drawn by the
// program.
func (s *Shown) Blinding(what string, r *big.Int) string { return s.modQ(what, r) }

// IntBlinding takes in the randomness of an integer commitment.
func (s *Shown) IntBlinding(what string, base *fujiokam.FujiOkamBase, r *big.Int) string {
	limit := lsh(base.N, Slack)
	if r.CmpAbs(limit) < 0 {
		return fmt.Sprintf("%s is blinded with %d bits", what, r.BitLen())
	}
	return ""
}

// Point takes in a commitment that must never be seen twice.
func (s *Shown) Point(what string, v *big.Int) string { return s.once(what, v) }

// Nonneg takes in a non-negativity argument for x.
func (s *Shown) Nonneg(what string, base *fujiokam.FujiOkamBase, x *big.Int, a *fujiokam.ARGnonneg) string {
	xb, root := lsh(big64(1), 64), lsh(big64(1), 33) // whatever the value
	return first(
		func() string { return s.once("Commitrx of "+what, a.Commitrx) },
		func() string { return s.once("C of "+what, a.C) },
		func() string { return s.once("Cr of "+what, a.Cr) },
		func() string { return s.response("X_ of "+what, a.X_, xb, false) },
		func() string { return s.response("A_ of "+what, a.A_, root, false) },
		func() string { return s.response("B_ of "+what, a.B_, root, false) },
		func() string { return s.response("D_ of "+what, a.D_, root, false) },
		func() string { return s.response("R_ of "+what, a.R_, base.RandomRadius, true) },
		func() string { return s.response("R of "+what, a.R, base.RandomRadius, true) },
	)
}

// Equal takes in an equality argument for x with the blinding rp of the group commitment.
func (s *Shown) Equal(what string, base *fujiokam.FujiOkamBase, x, rp *big.Int, a *pf.ARGequal) string {
	xb := lsh(big64(1), 64)
	t1 := new(big.Int).Mul(a.C, x)
	t1.Sub(a.S1, t1)
	t2 := new(big.Int).Mul(a.C, new(big.Int).Mod(rp, hx.Q))
	t2.Sub(a.S2, t2)
	return first(
		func() string { return s.once("C of "+what, a.C) },
		func() string { return s.response("S1 of "+what, a.S1, xb, false) },
		func() string { return s.response("S3 of "+what, a.S3, base.RandomRadius, true) },
		func() string {
			// as an integer the response shows the blinding, unless the mask is longer
			if (a.S2.Sign() < 0 || a.S2.Cmp(hx.Q) >= 0) && t2.CmpAbs(lsh(hx.Q, 256+Slack)) < 0 {
				return fmt.Sprintf("S2 of %s does not hide its secret: it has %d bits and is not taken modulo the group order", what, a.S2.BitLen())
			}
			s.t1 = append(s.t1, t1)
			return s.modQ("S2 of "+what, t2.Mod(t2, hx.Q))
		},
	)
}
