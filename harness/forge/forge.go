// Package forge holds dishonest provers for the non-negativity and equality arguments,
// and the arithmetic they need. They follow the published protocols, not the code.
package forge

import (
	"crypto/sha256"
	"math/big"
	"strconv"

	"zRep/primitive/fujiokam"
	"zrepverif/hx"
)

type arg13 = fujiokam.ARGnonneg

func big64(i int64) *big.Int { return big.NewInt(i) }

// modN arithmetic
func ExpN(b, e, n *big.Int) *big.Int {
	r := new(big.Int).Exp(b, e, n)
	if r == nil {
		panic("harness: not invertible")
	}
	return r
}

func MulN(n *big.Int, xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x).Mod(r, n)
	}
	return r
}

func Sha(parts ...[]byte) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func Cp(i *big.Int) *big.Int { return new(big.Int).Set(i) }

// commit computes g1^x h^r independently.
func FoCommit(base *fujiokam.FujiOkamBase, x, r *big.Int) *big.Int {
	return MulN(base.N, ExpN(&base.G1.V, x, base.N), ExpN(&base.H1.V, r, base.N))
}

// --- forgers -----------------------------------------------------------------

// HashNonneg is the challenge computed over a subset of the four commitments.
func HashNonneg(sub int, commitx, commitrx, C, Cr *big.Int) *big.Int {
	var ps [][]byte
	for i, v := range []*big.Int{commitx, commitrx, C, Cr} {
		if sub&(1<<uint(i)) != 0 {
			ps = append(ps, v.Bytes())
		}
	}
	return Sha(ps...)
}

const (
	InCommitx = 1 << iota
	InCommitrx
	InC
	InCr
)

type Nonneg struct {
	c       *hx.Case
	base    *fujiokam.FujiOkamBase
	x, Rc   *big.Int
	Commitx *big.Int
	a, b, d *big.Int // the squares it claims
	// blinding
	rx, ra, rb, rd, rr, rrx, r *big.Int
}

func NewNonneg(c *hx.Case, base *fujiokam.FujiOkamBase, x, a, b, d *big.Int) *Nonneg {
	f := &Nonneg{c: c, base: base, x: x, a: a, b: b, d: d}
	f.Rc = c.Full("rc")
	f.Commitx = FoCommit(base, x, f.Rc)
	for i, p := range []**big.Int{&f.rx, &f.ra, &f.rb, &f.rd, &f.rr, &f.rrx, &f.r} {
		*p = c.FullBelow(new(big.Int).Lsh(big64(1), 390), 1, "blind"+strconv.Itoa(i))
	}
	return f
}

// NegateMask makes the response for the value negative, whatever the challenge.
func (f *Nonneg) NegateMask() {
	f.rx.Neg(f.rx).Sub(f.rx, new(big.Int).Lsh(f.x, 256))
}

func (f *Nonneg) multi(x, a, b, d, delta, r *big.Int) *big.Int {
	n := f.base.N
	return MulN(n, ExpN(&f.base.G2.V, x, n), ExpN(&f.base.G3.V, a, n), ExpN(&f.base.G4.V, b, n), ExpN(&f.base.G5.V, d, n), ExpN(&f.base.G6.V, delta, n), ExpN(&f.base.H1.V, r, n))
}

// delta as the honest prover computes it, and the residue of the squared blindings.
func (f *Nonneg) deltas() (*big.Int, *big.Int) {
	d := new(big.Int).Mul(big64(4), f.rx)
	e := new(big.Int)
	for _, p := range [][2]*big.Int{{f.a, f.ra}, {f.b, f.rb}, {f.d, f.rd}} {
		t := new(big.Int).Mul(p[0], p[1])
		d.Sub(d, t.Lsh(t, 1))
		e.Sub(e, new(big.Int).Mul(p[1], p[1]))
	}
	return d, e
}

func (f *Nonneg) responses(e, x *big.Int) *arg13 {
	lin := func(v, r *big.Int) *big.Int { t := new(big.Int).Mul(v, e); return t.Add(t, r) }
	return &arg13{X_: lin(x, f.rx), A_: lin(f.a, f.ra), B_: lin(f.b, f.rb), D_: lin(f.d, f.rd), R_: lin(f.r, f.rr), R: lin(f.Rc, f.rrx)}
}

// honestShape follows the protocol with whatever squares it has.
func (f *Nonneg) Honest(sub int, xIn *big.Int) *arg13 {
	delta, er := f.deltas()
	C := f.multi(xIn, f.a, f.b, f.d, delta, f.r)
	Cr := f.multi(f.rx, f.ra, f.rb, f.rd, er, f.rr)
	crx := FoCommit(f.base, f.rx, f.rrx)
	e := HashNonneg(sub, f.Commitx, crx, C, Cr)
	a := f.responses(e, xIn)
	a.Commitrx, a.C, a.Cr = crx, C, Cr
	return a
}

// rhs1 is the right side of the first verification equation.
func (f *Nonneg) rhs1(e *big.Int, a *arg13) *big.Int {
	d := new(big.Int).Mul(big64(4), a.X_)
	d.Add(d, e).Mul(d, e)
	for _, s := range []*big.Int{a.A_, a.B_, a.D_} {
		d.Sub(d, new(big.Int).Mul(s, s))
	}
	return f.multi(a.X_, a.A_, a.B_, a.D_, d, a.R_)
}

func (f *Nonneg) div(u, v, e *big.Int) *big.Int { // u / v^e
	n := f.base.N
	return MulN(n, u, new(big.Int).ModInverse(ExpN(v, e, n), n))
}

// lateCommitrx: a genuine argument for a value it has the squares of, tied to the
// target commitment by a commitrx computed last.
func (f *Nonneg) LateCommitrx(sub int, y *big.Int) *arg13 {
	delta, er := f.deltas()
	C := f.multi(y, f.a, f.b, f.d, delta, f.r)
	Cr := f.multi(f.rx, f.ra, f.rb, f.rd, er, f.rr)
	e := HashNonneg(sub&^InCommitrx, f.Commitx, big64(0), C, Cr)
	a := f.responses(e, y)
	a.C, a.Cr = C, Cr
	a.Commitrx = f.div(FoCommit(f.base, a.X_, a.R), f.Commitx, e)
	return a
}

// lateCr: the first equation is met by computing Cr last.
func (f *Nonneg) LateCr(sub int) *arg13 {
	C := f.multi(f.x, f.a, f.b, f.d, f.r, f.rr)
	crx := FoCommit(f.base, f.rx, f.rrx)
	e := HashNonneg(sub&^InCr, f.Commitx, crx, C, big64(0))
	a := f.responses(e, f.x)
	a.C, a.Commitrx = C, crx
	a.Cr = f.div(f.rhs1(e, a), C, e)
	return a
}

// lateC: C absorbs the missing squares once the challenge is known.
func (f *Nonneg) LateC(sub int) *arg13 {
	delta, er := f.deltas()
	Cr := f.multi(f.rx, f.ra, f.rb, f.rd, er, f.rr)
	crx := FoCommit(f.base, f.rx, f.rrx)
	e := HashNonneg(sub&^InC, f.Commitx, crx, big64(0), Cr)
	gap := new(big.Int).Mul(big64(4), f.x)
	gap.Add(gap, big64(1))
	for _, s := range []*big.Int{f.a, f.b, f.d} {
		gap.Sub(gap, new(big.Int).Mul(s, s))
	}
	delta.Add(delta, gap.Mul(gap, e))
	C := f.multi(f.x, f.a, f.b, f.d, delta, f.r)
	a := f.responses(e, f.x)
	a.C, a.Cr, a.Commitrx = C, Cr, crx
	return a
}

// lateBoth guesses the challenge g and computes both last commitments from it.
func (f *Nonneg) Guess(g *big.Int) *arg13 {
	C := f.multi(f.x, f.a, f.b, f.d, f.r, f.rr)
	a := f.responses(g, f.x)
	a.C = C
	a.Cr = f.div(f.rhs1(g, a), C, g)
	a.Commitrx = f.div(FoCommit(f.base, a.X_, a.R), f.Commitx, g)
	return a
}

// twoSquares writes a prime = 1 mod 4 as a sum of two squares.
func twoSquares(p *big.Int) (*big.Int, *big.Int) {
	if p.Cmp(big64(1)) == 0 {
		return big64(1), big64(0)
	}
	s := new(big.Int).ModSqrt(new(big.Int).Sub(p, big64(1)), p)
	a, b := Cp(p), s
	root := new(big.Int).Sqrt(p)
	for b.Cmp(root) > 0 {
		a, b = b, new(big.Int).Mod(a, b)
	}
	r := new(big.Int).Sub(p, new(big.Int).Mul(b, b))
	d := new(big.Int).Sqrt(r)
	if new(big.Int).Mul(d, d).Cmp(r) != 0 {
		panic("harness: two squares")
	}
	return b, d
}

// ThreeSquares writes 4x+1 as three squares, for x of any size.
func ThreeSquares(c *hx.Case, x *big.Int) (*big.Int, *big.Int, *big.Int) {
	goal := new(big.Int).Lsh(x, 2)
	goal.Add(goal, big64(1))
	a := new(big.Int).Sqrt(goal)
	if a.BitLen() > 12 {
		a.Sub(a, c.FullBelow(new(big.Int).Rsh(a, 1), 0, "square"))
	}
	if a.Bit(0) == 1 {
		a.Sub(a, big64(1))
	}
	for ; a.Sign() >= 0; a.Sub(a, big64(2)) {
		p := new(big.Int).Sub(goal, new(big.Int).Mul(a, a))
		if p.Cmp(big64(1)) == 0 || p.ProbablyPrime(5) {
			b, d := twoSquares(p)
			return a, b, d
		}
	}
	return nil, nil, nil
}

// HashEqual is the challenge over a subset of PComm, FOComm, T1, T2.
func HashEqual(sub int, pc, fc, t1, t2 *big.Int) *big.Int {
	var ps [][]byte
	if sub&1 != 0 {
		ps = append(ps, pc.FillBytes(make([]byte, 64)))
	}
	if sub&2 != 0 {
		ps = append(ps, fc.Bytes())
	}
	if sub&4 != 0 {
		ps = append(ps, t1.FillBytes(make([]byte, 64)))
	}
	if sub&8 != 0 {
		ps = append(ps, t2.Bytes())
	}
	return Sha(ps...)
}

