package prim

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
	"zRep/util/shuffle"
	"zrepverif/hx"
)

type pairs struct {
	g, h *big.Int // as integers; gNil: pass nil for the generator
	gNil bool
	x    *big.Int // private key: h = g^x
	X, Y []*big.Int
}

func pts(v []*big.Int) []abstract.Point {
	r := make([]abstract.Point, len(v))
	for i := range v {
		r[i] = hx.Pt(v[i])
	}
	return r
}

func ints(v []abstract.Point) []*big.Int {
	r := make([]*big.Int, len(v))
	for i := range v {
		r[i] = hx.I(v[i])
	}
	return r
}

func (p *pairs) G() abstract.Point {
	if p.gNil {
		return nil
	}
	return hx.Pt(p.g)
}
func (p *pairs) H() abstract.Point { return hx.Pt(p.h) }

// drawPairs draws k pairs: independent, repeated, all with one first component (as the
// servers use it), or trivial ones.
func drawPairs(c *hx.Case, k int) *pairs {
	p := &pairs{g: hx.Gen, gNil: true}
	if c.Int(0, 2, "gKind") == 0 {
		p.g, _ = c.Elem("g")
		p.gNil = false
	}
	p.x = c.Full("key")
	p.h = hx.Exp(p.g, p.x)
	kind := c.Int(0, 4, "kind")
	common, _ := c.Elem("common")
	for i := 0; i < k; i++ {
		X, _ := c.Elem("X")
		Y, _ := c.Elem("Y")
		if kind == 1 {
			X = common
		}
		if kind == 2 {
			X = big64(1)
		}
		if kind == 3 && i > 0 && c.Bool("repeat") {
			j := c.Int(0, i-1, "of")
			X, Y = p.X[j], p.Y[j]
		}
		p.X, p.Y = append(p.X, X), append(p.Y, Y)
	}
	return p
}

// plain decrypts the pairs, sorted.
func (p *pairs) plain(X, Y []*big.Int) string {
	var s []string
	for i := range X {
		s = append(s, hx.Mul(Y[i], hx.Inv(hx.Exp(X[i], p.x))).Text(36))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (p *pairs) accepts(c *hx.Case, Xb, Yb []*big.Int, prf []byte) (ok bool) {
	return acceptsWith(c, p.G(), p.H(), p.X, p.Y, Xb, Yb, prf)
}

func acceptsWith(c *hx.Case, g, h abstract.Point, X, Y, Xb, Yb []*big.Int, prf []byte) (ok bool) {
	// a crash is no acceptance (lists of unequal length); the servers' own handling of
	// wrong proofs is C18
	hx.Panics(func() {
		v := shuffle.Verifier(hx.Suite(), g, h, pts(X), pts(Y), pts(Xb), pts(Yb))
		ok = proof.HashVerify(hx.Suite(), "PairShuffle", v, append([]byte{}, prf...)) == nil
	})
	return
}

func same(a, b []*big.Int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func TestC17_Honest(t *testing.T) {
	hx.Check(t, 26, "2..8 drawn pairs (independent, repeated, common first component), shuffled by the program or with a drawn permutation, decrypted; then altered lists, keys and proofs; non-trivial: all", func(c *hx.Case) {
		s := hx.Suite()
		k := c.Tail(2, 8, 20, "k")
		p := drawPairs(c, k)
		rand := s.Cipher(abstract.RandomKey)
		X, Y := pts(p.X), pts(p.Y)
		var Xb, Yb []*big.Int
		var prover proof.Prover
		if c.Bool("own permutation") {
			pi := drawPerm(c, k)
			beta := make([]abstract.Secret, k)
			for i := range beta {
				beta[i] = hx.Sec(c.Secret("beta"))
			}
			for i := 0; i < k; i++ {
				Xb = append(Xb, hx.Mul(p.X[pi[i]], hx.Exp(p.g, hx.S(beta[pi[i]]))))
				Yb = append(Yb, hx.Mul(p.Y[pi[i]], hx.Exp(p.h, hx.S(beta[pi[i]]))))
			}
			ps := new(shuffle.PairShuffle).Init(s, k)
			prover = func(ctx proof.ProverContext) error {
				return ps.Prove(pi, p.G(), p.H(), beta, X, Y, rand, ctx)
			}
			c.Class(fmt.Sprintf("k=%d own permutation", k))
		} else {
			xb, yb, pr, tx, ty := shuffle.Shuffle(s, p.G(), p.H(), X, Y, rand)
			Xb, Yb, prover = ints(xb), ints(yb), pr
			if len(Xb) != k || len(Yb) != k || len(tx) != k || len(ty) != k {
				c.Fatalf("shuffle of %d pairs returned %d", k, len(Xb))
			}
			// the blinding is returned separately: taking it off gives back the input
			var ux, uy []*big.Int
			in := map[string]int{}
			for i := range p.X {
				in[p.X[i].Text(36)+"/"+p.Y[i].Text(36)]++
			}
			for i := range tx {
				ux = append(ux, hx.Mul(Xb[i], hx.Inv(hx.I(tx[i]))))
				uy = append(uy, hx.Mul(Yb[i], hx.Inv(hx.I(ty[i]))))
				in[ux[i].Text(36)+"/"+uy[i].Text(36)]--
				if hx.Exp(hx.I(tx[i]), p.x).Cmp(hx.I(ty[i])) != 0 {
					c.Fatalf("blinding of pair %d is not one exponent of both bases", i)
				}
				if hx.I(tx[i]).Cmp(big64(1)) == 0 {
					c.Fatalf("pair %d is not re-encrypted", i)
				}
				for j := 0; j < i; j++ {
					if hx.I(tx[i]).Cmp(hx.I(tx[j])) == 0 {
						c.Fatalf("two pairs share a blinding factor")
					}
				}
			}
			if p.g.Cmp(big64(1)) != 0 {
				if e, ok := hx.SmallLog(p.g, hx.I(tx[c.Int(0, k-1, "searched")]), 30); ok {
					c.Fatalf("the blinding is found by searching: %s", e)
				}
			}
			for _, n := range in {
				if n != 0 {
					c.Fatalf("shuffled pairs without the blinding are not the input pairs")
				}
			}
			c.Class(fmt.Sprintf("k=%d", k))
		}
		if !same(ints(X), p.X) || !same(ints(Y), p.Y) {
			c.Fatalf("shuffling changed the input")
		}
		if p.plain(p.X, p.Y) != p.plain(Xb, Yb) {
			c.Fatalf("shuffled pairs decrypt to other elements")
		}
		prf, err := proof.HashProve(s, "PairShuffle", rand, prover)
		if err != nil {
			c.Fatalf("no proof: %v", err)
		}
		if !p.accepts(c, Xb, Yb, prf) {
			c.Fatalf("honest shuffle of %d rejected", k)
		}
		bad := func(what string, ok bool) {
			if ok {
				c.Fatalf("accepted: %s (k=%d)", what, k)
			}
		}
		// alt checks an altered statement, unless the alteration changed nothing (equal
		// elements)
		alt := func(what string, g, h abstract.Point, x, y, xb, yb []*big.Int) {
			if (g == nil || hx.I(g).Cmp(p.g) == 0) && hx.I(h).Cmp(p.h) == 0 && same(x, p.X) && same(y, p.Y) && same(xb, Xb) && same(yb, Yb) {
				return
			}
			bad(what, acceptsWith(c, g, h, x, y, xb, yb, prf))
		}
		with := func(v []*big.Int, i int, e *big.Int) []*big.Int {
			w := append([]*big.Int{}, v...)
			w[i] = e
			return w
		}
		i := c.Int(0, k-1, "i")
		j := (i + c.Int(1, k-1, "j")) % k
		e, _ := c.Elem("e")
		b := c.Secret("b")
		alt("first component replaced", p.G(), p.H(), p.X, p.Y, with(Xb, i, e), Yb)
		alt("second component replaced", p.G(), p.H(), p.X, p.Y, Xb, with(Yb, i, e))
		alt("first component times generator", p.G(), p.H(), p.X, p.Y, with(Xb, i, hx.Mul(Xb[i], hx.Gen)), Yb)
		alt("pair re-encrypted again", p.G(), p.H(), p.X, p.Y, with(Xb, i, hx.Mul(Xb[i], hx.Exp(p.g, b))), with(Yb, i, hx.Mul(Yb[i], hx.Exp(p.h, b))))
		alt("pair duplicated over another", p.G(), p.H(), p.X, p.Y, with(Xb, i, Xb[j]), with(Yb, i, Yb[j]))
		alt("pair replaced by its input", p.G(), p.H(), p.X, p.Y, with(Xb, i, p.X[j]), with(Yb, i, p.Y[j]))
		alt("two outputs swapped", p.G(), p.H(), p.X, p.Y, with(with(Xb, i, Xb[j]), j, Xb[i]), with(with(Yb, i, Yb[j]), j, Yb[i]))
		alt("first components swapped", p.G(), p.H(), p.X, p.Y, with(with(Xb, i, Xb[j]), j, Xb[i]), Yb)
		alt("lists exchanged", p.G(), p.H(), p.X, p.Y, Yb, Xb)
		alt("input and output exchanged", p.G(), p.H(), Xb, Yb, p.X, p.Y)
		alt("unshuffled output", p.G(), p.H(), p.X, p.Y, p.X, p.Y)
		alt("pair dropped", p.G(), p.H(), p.X, p.Y, append(append([]*big.Int{}, Xb[:i]...), Xb[i+1:]...), append(append([]*big.Int{}, Yb[:i]...), Yb[i+1:]...))
		alt("pair added", p.G(), p.H(), p.X, p.Y, append(append([]*big.Int{}, Xb...), e), append(append([]*big.Int{}, Yb...), e))
		if p.X[i].Cmp(e) != 0 {
			alt("input first component replaced", p.G(), p.H(), with(p.X, i, e), p.Y, Xb, Yb)
		}
		if p.Y[i].Cmp(e) != 0 {
			alt("input second component replaced", p.G(), p.H(), p.X, with(p.Y, i, e), Xb, Yb)
		}
		alt("input re-encrypted", p.G(), p.H(), with(p.X, i, hx.Mul(p.X[i], hx.Exp(p.g, b))), with(p.Y, i, hx.Mul(p.Y[i], hx.Exp(p.h, b))), Xb, Yb)
		if p.X[i].Cmp(p.X[j]) != 0 || p.Y[i].Cmp(p.Y[j]) != 0 {
			alt("inputs swapped", p.G(), p.H(), with(with(p.X, i, p.X[j]), j, p.X[i]), with(with(p.Y, i, p.Y[j]), j, p.Y[i]), Xb, Yb)
			alt("input duplicated", p.G(), p.H(), with(p.X, i, p.X[j]), with(p.Y, i, p.Y[j]), Xb, Yb)
		}
		if e.Cmp(p.h) != 0 {
			alt("another key", p.G(), hx.Pt(e), p.X, p.Y, Xb, Yb)
		}
		alt("inverse key", p.G(), hx.Pt(hx.Inv(p.h)), p.X, p.Y, Xb, Yb)
		if e.Cmp(p.g) != 0 {
			alt("another generator", hx.Pt(e), p.H(), p.X, p.Y, Xb, Yb)
		}
		// the proof itself
		for n := 0; n < 6; n++ {
			q := append([]byte{}, prf...)
			at := c.Int(0, len(q)-1, "at")
			q[at] ^= byte(1 << uint(c.Int(0, 7, "bit")))
			bad(fmt.Sprintf("bit of byte %d flipped", at), p.accepts(c, Xb, Yb, q))
		}
		bad("proof cut short", p.accepts(c, Xb, Yb, prf[:c.Int(0, len(prf)-1, "cut")]))
		// 64-byte units: every number and element in it, exchanged or replaced
		units := len(prf) / 64
		for n := 0; n < 6; n++ {
			u, v := c.Int(0, units-1, "u"), c.Int(0, units-1, "v")
			q := append([]byte{}, prf...)
			copy(q[64*u:64*u+64], prf[64*v:64*v+64])
			if string(q) != string(prf) {
				bad(fmt.Sprintf("unit %d over unit %d of %d", v, u, units), p.accepts(c, Xb, Yb, q))
			}
		}
		if q, err := proof.HashProve(s, "PairShuffle", rand, prover); err != nil || !p.accepts(c, Xb, Yb, q) {
			c.Fatalf("second proof of one shuffle rejected: %v", err)
		} else if string(q) == string(prf) {
			c.Fatalf("two proofs use the same randomness")
		}
		c.NonTrivial("k=%d X=%s.. Y=%s..", k, hx.Short(p.X[0]), hx.Short(p.Y[0]))
	})
}

func drawPerm(c *hx.Case, k int) []int {
	pi := make([]int, k)
	for i := range pi {
		pi[i] = i
	}
	for i := k - 1; i > 0; i-- {
		j := c.Int(0, i, "perm")
		pi[i], pi[j] = pi[j], pi[i]
	}
	return pi
}

// The permutation and the factors must be fresh: over many shuffles of one list every
// input reaches every place.
func TestC17_Spread(t *testing.T) {
	hx.Check(t, 4, "one list of 2..5 pairs shuffled 160 times; every input must reach every place, in both relative orders, and no output may repeat; non-trivial: all", func(c *hx.Case) {
		k := c.Int(2, 5, "k")
		p := drawPairs(c, k)
		for i := range p.Y { // distinct
			p.Y[i] = hx.Exp(hx.Gen, new(big.Int).Add(c.Full("y"), big64(int64(i))))
		}
		X, Y := pts(p.X), pts(p.Y)
		rand := hx.Suite().Cipher(abstract.RandomKey)
		idx := map[string]int{}
		for i := range p.Y {
			idx[hx.Mul(p.Y[i], hx.Inv(hx.Exp(p.X[i], p.x))).String()] = i
		}
		at, order, seen := map[[2]int]int{}, map[[2]int]int{}, map[string]bool{}
		const rounds = 160
		for n := 0; n < rounds; n++ {
			Xb, Yb, _, _, _ := shuffle.Shuffle(hx.Suite(), p.G(), p.H(), X, Y, rand)
			var got []int
			for i := range Xb {
				a, b := hx.I(Xb[i]), hx.I(Yb[i])
				if seen[a.String()] || seen[b.String()] {
					c.Fatalf("an output element repeats")
				}
				seen[a.String()], seen[b.String()] = true, true
				o, ok := idx[hx.Mul(b, hx.Inv(hx.Exp(a, p.x))).String()]
				if !ok {
					c.Fatalf("an output pair does not decrypt to an input")
				}
				at[[2]int{o, i}]++
				got = append(got, o)
			}
			for i := range got {
				for j := i + 1; j < k; j++ {
					order[[2]int{got[i], got[j]}]++
				}
			}
		}
		for i := 0; i < k; i++ {
			for j := 0; j < k; j++ {
				// expected rounds/k >= 32; less than 3 has probability below 1e-10
				if at[[2]int{i, j}] < 3 {
					c.Fatalf("input %d reached place %d only %d times in %d shuffles of %d", i, j, at[[2]int{i, j}], rounds, k)
				}
				if i != j && order[[2]int{i, j}] < 30 { // expected 80, sigma 6.3
					c.Fatalf("input %d came before %d only %d times in %d shuffles", i, j, order[[2]int{i, j}], rounds)
				}
			}
		}
		c.NonTrivial("k=%d %s", k, hx.Short(p.X[0]))
	})
}

// --- dishonest provers -------------------------------------------------------

var zq = hx.Q

func add(a ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range a {
		r.Add(r, x)
	}
	return r.Mod(r, zq)
}
func neg(a *big.Int) *big.Int { return modQ(new(big.Int).Neg(a)) }
func sub(a, b *big.Int) *big.Int {
	return modQ(new(big.Int).Sub(a, b))
}
func mul(a ...*big.Int) *big.Int {
	r := big64(1)
	for _, x := range a {
		r.Mul(r, x).Mod(r, zq)
	}
	return r
}
func inv(a *big.Int) *big.Int {
	r := new(big.Int).ModInverse(modQ(a), zq)
	if r == nil {
		return big64(1)
	}
	return r
}

type matrix [][]*big.Int

func (m matrix) transpose() matrix {
	t := make(matrix, len(m))
	for i := range m {
		t[i] = make([]*big.Int, len(m))
		for j := range m {
			t[i][j] = m[j][i]
		}
	}
	return t
}

func (m matrix) apply(v []*big.Int) []*big.Int {
	r := make([]*big.Int, len(m))
	for i := range m {
		r[i] = big64(0)
		for j := range v {
			r[i] = add(r[i], mul(m[i][j], v[j]))
		}
	}
	return r
}

// solve returns x with m x = v, or nil.
func (m matrix) solve(v []*big.Int) []*big.Int {
	k := len(m)
	a := make(matrix, k)
	for i := range m {
		a[i] = append(append([]*big.Int{}, m[i]...), v[i])
	}
	for c := 0; c < k; c++ {
		p := -1
		for r := c; r < k; r++ {
			if modQ(a[r][c]).Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			return nil
		}
		a[c], a[p] = a[p], a[c]
		f := inv(a[c][c])
		for j := range a[c] {
			a[c][j] = mul(a[c][j], f)
		}
		for r := 0; r < k; r++ {
			if r != c && modQ(a[r][c]).Sign() != 0 {
				f := a[r][c]
				for j := range a[r] {
					a[r][j] = sub(a[r][j], mul(f, a[c][j]))
				}
			}
		}
	}
	x := make([]*big.Int, k)
	for i := range x {
		x[i] = a[i][k]
	}
	return x
}

// cheat is a prover for outputs Xbar = M X re-encrypted, which is genuine only if M is a
// permutation matrix.
type cheat struct {
	c       *hx.Case
	p       *pairs
	m       matrix
	beta    []*big.Int
	Xb, Yb  []*big.Int
	stmt    int  // which of g, h, X, Y, Xbar, Ybar are put first
	unlinkX bool // the simple shuffle is over a list unrelated to A + lambda B
	unlinkY bool // ... to C + lambda D
	permD   bool // D follows a permutation instead of sigma
	skip    int  // equation of the simple shuffle that is left unsatisfied
	late    string
	badSig  bool
}

func newCheat(c *hx.Case, p *pairs, m matrix) *cheat {
	x := &cheat{c: c, p: p, m: m, skip: -1}
	for i := range p.X {
		b := c.Full("beta")
		x.beta = append(x.beta, b)
		X, Y := hx.Exp(p.g, b), hx.Exp(p.h, b)
		for j := range p.X {
			X = hx.Mul(X, hx.Exp(p.X[j], m[i][j]))
			Y = hx.Mul(Y, hx.Exp(p.Y[j], m[i][j]))
		}
		x.Xb, x.Yb = append(x.Xb, X), append(x.Yb, Y)
	}
	return x
}

func put(ctx proof.ProverContext, vs ...*big.Int) error {
	if len(vs) == 0 {
		return nil
	}
	return ctx.Put(pts(vs))
}

func putS(ctx proof.ProverContext, vs ...*big.Int) error {
	r := make([]abstract.Secret, len(vs))
	for i := range vs {
		r[i] = hx.Sec(vs[i])
	}
	return ctx.Put(r)
}

func challengeS(ctx proof.ProverContext, n int) ([]*big.Int, error) {
	r := make([]abstract.Secret, n)
	for i := range r {
		r[i] = hx.Suite().Secret()
	}
	if err := ctx.PubRand(r); err != nil {
		return nil, err
	}
	v := make([]*big.Int, n)
	for i := range r {
		v[i] = hx.S(r[i])
	}
	return v, nil
}

func (x *cheat) statement() (v []*big.Int) {
	for i, l := range [][]*big.Int{{x.p.g}, {x.p.h}, x.p.X, x.p.Y, x.Xb, x.Yb} {
		if x.stmt&(1<<uint(i)) != 0 {
			v = append(v, l...)
		}
	}
	return
}

func (x *cheat) fulls(n int, label string) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = x.c.Full(label)
	}
	return r
}

func (x *cheat) exps(v []*big.Int) []*big.Int {
	r := make([]*big.Int, len(v))
	for i := range v {
		r[i] = hx.Exp(x.p.g, v[i])
	}
	return r
}

func (x *cheat) prove(ctx proof.ProverContext) error {
	p := x.p
	k := len(p.X)
	if err := put(ctx, x.statement()...); err != nil {
		return err
	}
	w, a, u := x.fulls(k, "w"), x.fulls(k, "a"), x.fulls(k, "u")
	gamma, s0 := x.c.Full("gamma"), x.c.Full("s0")
	sc := func(v []*big.Int) []*big.Int {
		r := make([]*big.Int, len(v))
		for i := range v {
			r[i] = mul(gamma, v[i])
		}
		return r
	}
	mw := x.m.transpose().apply(w)
	L1, L2 := hx.Exp(p.g, s0), hx.Exp(p.h, s0)
	for j := range p.X {
		d := sub(mw[j], u[j])
		L1 = hx.Mul(L1, hx.Exp(p.X[j], d))
		L2 = hx.Mul(L2, hx.Exp(p.Y[j], d))
	}
	if err := put(ctx, hx.Exp(p.g, gamma)); err != nil {
		return err
	}
	for _, l := range [][]*big.Int{a, sc(a), u, sc(w)} { // A C U W
		if err := put(ctx, x.exps(l)...); err != nil {
			return err
		}
	}
	if err := put(ctx, L1, L2); err != nil {
		return err
	}
	rho, err := challengeS(ctx, k)
	if err != nil {
		return err
	}
	b := make([]*big.Int, k)
	for i := range b {
		b[i] = sub(rho[i], u[i])
	}
	v := x.m.transpose().solve(b)
	if v == nil {
		return errors.New("singular")
	}
	d := sc(v)
	if x.permD {
		d = sc(b)
	}
	if err := put(ctx, x.exps(d)...); err != nil {
		return err
	}
	lam, err := challengeS(ctx, 1)
	if err != nil {
		return err
	}
	sigma := make([]*big.Int, k)
	tau := neg(s0)
	for i := range sigma {
		sigma[i] = add(w[i], v[i])
		tau = add(tau, mul(sigma[i], x.beta[i]))
	}
	if x.late != "" {
		x.solveLate(rho, sigma, tau, L1, L2)
	}
	if err := putS(ctx, append(append([]*big.Int{}, sigma...), tau)...); err != nil {
		return err
	}
	R, S := make([]*big.Int, k), make([]*big.Int, k)
	for i := range R {
		R[i] = add(a[i], mul(lam[0], b[i]))
		S[i] = add(mul(gamma, a[i]), mul(lam[0], d[i]))
	}
	if x.unlinkX && x.unlinkY {
		R = x.fulls(k, "R")
		S = sc(R)
	} else if x.unlinkX {
		for i := range R {
			R[i] = mul(S[i], inv(gamma))
		}
	} else if x.unlinkY {
		S = sc(R)
	}
	return x.simple(ctx, gamma, R, S)
}

// simple is the simple shuffle with all equations but one (skip) satisfied.
func (x *cheat) simple(ctx proof.ProverContext, gamma *big.Int, R, S []*big.Int) error {
	k := len(R)
	if err := put(ctx, append(x.exps(R), x.exps(S)...)...); err != nil {
		return err
	}
	t, err := challengeS(ctx, 1)
	if err != nil {
		return err
	}
	n := 2 * k
	xh, yh := make([]*big.Int, n), make([]*big.Int, n)
	for i := 0; i < n; i++ {
		if i < k {
			xh[i], yh[i] = sub(R[i], t[0]), sub(S[i], mul(gamma, t[0]))
		} else {
			xh[i], yh[i] = gamma, big64(1)
		}
	}
	th := append(x.fulls(n-1, "theta"), big64(0))
	Theta := make([]*big.Int, n)
	for i := range Theta {
		prev := big64(0)
		if i > 0 {
			prev = th[i-1]
		}
		Theta[i] = sub(mul(prev, xh[i]), mul(th[i], yh[i]))
	}
	if err := put(ctx, x.exps(Theta)...); err != nil {
		return err
	}
	c, err := challengeS(ctx, 1)
	if err != nil {
		return err
	}
	skip := x.skip
	if skip < 0 {
		skip = n - 1
	}
	al := make([]*big.Int, n) // al[n-1] is the challenge again
	al[n-1] = c[0]
	prev := c[0]
	for i := 0; i < skip; i++ {
		al[i] = mul(sub(mul(prev, xh[i]), Theta[i]), inv(yh[i]))
		prev = al[i]
	}
	for i := n - 1; i > skip; i-- {
		al[i-1] = mul(add(Theta[i], mul(al[i], yh[i])), inv(xh[i]))
	}
	return putS(ctx, al[:n-1]...)
}

// solveLate picks the named list (its first element) so that the last two equations hold.
func (x *cheat) solveLate(rho, sigma []*big.Int, tau, L1, L2 *big.Int) {
	p := x.p
	phi := func(bars, ins []*big.Int) *big.Int {
		r := big64(1)
		for i := range bars {
			r = hx.Mul(r, hx.Exp(bars[i], sigma[i]), hx.Inv(hx.Exp(ins[i], rho[i])))
		}
		return r
	}
	w1, w2 := hx.Mul(L1, hx.Exp(p.g, tau)), hx.Mul(L2, hx.Exp(p.h, tau))
	switch x.late {
	case "outputs":
		x.Xb[0] = hx.Mul(x.Xb[0], hx.Exp(hx.Mul(w1, hx.Inv(phi(x.Xb, p.X))), inv(sigma[0])))
		x.Yb[0] = hx.Mul(x.Yb[0], hx.Exp(hx.Mul(w2, hx.Inv(phi(x.Yb, p.Y))), inv(sigma[0])))
	case "inputs":
		p.X[0] = hx.Mul(p.X[0], hx.Exp(hx.Mul(phi(x.Xb, p.X), hx.Inv(w1)), inv(rho[0])))
		p.Y[0] = hx.Mul(p.Y[0], hx.Exp(hx.Mul(phi(x.Yb, p.Y), hx.Inv(w2)), inv(rho[0])))
	case "key":
		p.h = hx.Exp(hx.Mul(phi(x.Yb, p.Y), hx.Inv(L2)), inv(tau))
	}
}

func identity(k int) matrix {
	m := make(matrix, k)
	for i := range m {
		m[i] = make([]*big.Int, k)
		for j := range m {
			m[i][j] = big64(0)
		}
		m[i][i] = big64(1)
	}
	return m
}

// drawMatrix draws an invertible matrix that is no permutation.
func drawMatrix(c *hx.Case, k int) matrix {
	m := identity(k)
	i := c.Int(0, k-1, "mi")
	j := (i + c.Int(1, k-1, "mj")) % k
	switch c.Int(0, 3, "mKind") {
	case 0:
		m[i][j] = big64(int64(c.Int(1, 3, "entry"))) // one element added to another
	case 1:
		m[i][i] = big64(int64(c.Int(2, 5, "entry"))) // one element raised
	case 2:
		m[i][i], m[i][j], m[j][i], m[j][j] = big64(2), big64(1), big64(1), big64(1)
	default:
		m[i][j] = c.Full("entry")
	}
	return m
}

func TestC17_Cheats(t *testing.T) {
	hx.Check(t, 8, "prover for outputs that are no permutation (elements combined, raised, added) deviating at each step of the protocol in turn, with and without a statement in front; non-trivial: all", func(c *hx.Case) {
		s := hx.Suite()
		k := c.Tail(2, 4, 6, "k")
		try := func(what string, set func(x *cheat), m func() matrix) {
			for _, stmt := range []int{0, 63} {
				p := drawPairs(c, k)
				x := newCheat(c, p, m())
				x.stmt = stmt
				set(x)
				prf, err := proof.HashProve(s, "PairShuffle", s.Cipher(abstract.RandomKey), x.prove)
				if err != nil {
					hx.Infra("own prover: %v", err)
				}
				if p.accepts(c, x.Xb, x.Yb, prf) {
					c.Fatalf("accepted: %s (k=%d, statement %d)", what, k, stmt)
				}
			}
			c.Class(strings.Split(what, ":")[0])
		}
		rnd := func() matrix { return drawMatrix(c, k) }
		try("unlinked first list", func(x *cheat) { x.unlinkX = true }, rnd)
		try("unlinked second list", func(x *cheat) { x.unlinkY = true }, rnd)
		try("unlinked lists", func(x *cheat) { x.unlinkX, x.unlinkY = true, true }, rnd)
		try("permuted D", func(x *cheat) { x.permD = true }, rnd)
		for e := 0; e < 2*k; e++ {
			try(fmt.Sprintf("simple shuffle: equation %d", e), func(x *cheat) { x.skip = e }, rnd)
		}
		one := func() matrix { return identity(k) }
		for f := 0; f < 4; f++ {
			// last two equations: each list on its own
			f := f
			try(fmt.Sprintf("genuine proof, other outputs: %d", f), func(x *cheat) {
				e := hx.Exp(hx.Gen, c.Full("e")) // not by chance the one that was there
				l := [][]*big.Int{x.Xb, x.Yb, x.p.X, x.p.Y}[f]
				l[c.Int(0, k-1, "at")] = e
			}, one)
		}
		for _, late := range []string{"outputs", "inputs", "key"} {
			for _, stmt := range []int{0, 1, 3, 15, 12, 48, 51, 60, 63} {
				p := drawPairs(c, k)
				x := newCheat(c, p, one())
				x.stmt, x.late = stmt, late
				e := hx.Exp(hx.Gen, c.Full("e"))
				switch late {
				case "outputs":
					x.Xb[k-1] = e
				case "inputs":
					p.X[k-1] = e
				case "key":
					x.Yb[k-1] = e
				}
				prf, err := proof.HashProve(s, "PairShuffle", s.Cipher(abstract.RandomKey), x.prove)
				if err != nil {
					hx.Infra("own prover: %v", err)
				}
				if p.accepts(c, x.Xb, x.Yb, prf) {
					c.Fatalf("accepted: %s chosen last (k=%d, statement %d)", late, k, stmt)
				}
			}
			c.Class("late " + late)
		}
		// the same prover on a genuine permutation is accepted: the attack is in the deviation
		p := drawPairs(c, k)
		x := newCheat(c, p, one())
		x.stmt = 63
		prf, err := proof.HashProve(s, "PairShuffle", s.Cipher(abstract.RandomKey), x.prove)
		if err != nil {
			hx.Infra("own prover: %v", err)
		}
		if !p.accepts(c, x.Xb, x.Yb, prf) {
			c.Class("own prover differs from the program's")
		}
		c.NonTrivial("k=%d X=%s", k, hx.Short(p.X[0]))
	})
}

// --- the two-element shuffle ---------------------------------------------------

func two(v []*big.Int) [2]abstract.Point { return [2]abstract.Point{hx.Pt(v[0]), hx.Pt(v[1])} }

func biffleAccepts(c *hx.Case, g, h abstract.Point, X, Y, Xb, Yb []*big.Int, prf []byte) (ok bool) {
	hx.Panics(func() {
		ok = proof.HashVerify(hx.Suite(), "Biffle", shuffle.BiffleVerifier(hx.Suite(), g, h, two(X), two(Y), two(Xb), two(Yb)), append([]byte{}, prf...)) == nil
	})
	return
}

func TestC17_Biffle(t *testing.T) {
	hx.Check(t, 40, "two drawn pairs through the two-element shuffle; decryption, alterations and provers choosing the outputs last; non-trivial: all", func(c *hx.Case) {
		s := hx.Suite()
		p := drawPairs(c, 2)
		G := p.G()
		rand := s.Cipher(abstract.RandomKey)
		xb, yb, prover := shuffle.Biffle(s, G, p.H(), two(p.X), two(p.Y), rand)
		Xb, Yb := ints(xb[:]), ints(yb[:])
		if p.plain(p.X, p.Y) != p.plain(Xb, Yb) {
			c.Fatalf("the two pairs decrypt to other elements")
		}
		for i := range Xb {
			for j := range p.X {
				if Xb[i].Cmp(p.X[j]) == 0 {
					c.Fatalf("pair not re-encrypted")
				}
			}
		}
		prf, err := proof.HashProve(s, "Biffle", rand, prover)
		if err != nil {
			c.Fatalf("no proof: %v", err)
		}
		if !biffleAccepts(c, G, p.H(), p.X, p.Y, Xb, Yb, prf) {
			c.Fatalf("honest shuffle of two rejected")
		}
		bad := func(what string, ok bool) {
			if ok {
				c.Fatalf("accepted: %s", what)
			}
		}
		e, _ := c.Elem("e")
		lists := [][]*big.Int{p.X, p.Y, Xb, Yb}
		ver := func(l [][]*big.Int, prf []byte) bool {
			return biffleAccepts(c, G, p.H(), l[0], l[1], l[2], l[3], prf)
		}
		mod := func(f, i int, v *big.Int) [][]*big.Int {
			r := make([][]*big.Int, 4)
			for n := range lists {
				r[n] = append([]*big.Int{}, lists[n]...)
			}
			r[f][i] = v
			return r
		}
		for f := 0; f < 4; f++ {
			for i := 0; i < 2; i++ {
				if lists[f][i].Cmp(e) != 0 {
					bad(fmt.Sprintf("list %d element %d replaced", f, i), ver(mod(f, i, e), prf))
				}
				bad(fmt.Sprintf("list %d element %d times generator", f, i), ver(mod(f, i, hx.Mul(lists[f][i], hx.Gen)), prf))
				if lists[f][0].Cmp(lists[f][1]) != 0 {
					bad(fmt.Sprintf("list %d element %d duplicated", f, i), ver(mod(f, i, lists[f][1-i]), prf))
				}
			}
			if lists[f][0].Cmp(lists[f][1]) != 0 {
				m := mod(f, 0, lists[f][1])
				m[f][1] = lists[f][0]
				bad(fmt.Sprintf("list %d swapped", f), ver(m, prf))
			}
		}
		m := mod(2, 0, Xb[1])
		m[2][1], m[3][0], m[3][1] = Xb[0], Yb[1], Yb[0]
		bad("outputs swapped", ver(m, prf))
		b := c.Secret("b")
		m = mod(2, 0, hx.Mul(Xb[0], hx.Exp(p.g, b)))
		m[3][0] = hx.Mul(Yb[0], hx.Exp(p.h, b))
		bad("output re-encrypted again", ver(m, prf))
		if e.Cmp(p.h) != 0 {
			bad("another key", biffleAccepts(c, G, hx.Pt(e), p.X, p.Y, Xb, Yb, prf))
		}
		if e.Cmp(p.g) != 0 {
			bad("another generator", biffleAccepts(c, hx.Pt(e), p.H(), p.X, p.Y, Xb, Yb, prf))
		}
		for n := 0; n < 8; n++ {
			q := append([]byte{}, prf...)
			at := c.Int(0, len(q)-1, "at")
			q[at] ^= byte(1 << uint(c.Int(0, 7, "bit")))
			bad(fmt.Sprintf("bit of byte %d flipped", at), ver(lists, q))
		}
		bad("cut short", ver(lists, prf[:c.Int(0, len(prf)-1, "cut")]))
		// outputs chosen after the challenge
		for _, stmt := range []int{0, 63, 48, 15} {
			for br := 0; br < 2; br++ {
				x := &cheat{c: c, p: p, Xb: []*big.Int{p.X[0], p.X[1]}, Yb: []*big.Int{p.Y[0], p.Y[1]}, stmt: stmt}
				forge := func(ctx proof.ProverContext) error {
					if err := put(ctx, x.statement()...); err != nil {
						return err
					}
					v := x.fulls(8, "v")
					r := x.fulls(4, "r") // responses: beta0, beta1 of each branch
					bases := []*big.Int{p.g, p.h}
					var V []*big.Int
					// which response each commitment belongs to
					which := []int{0, 0, 1, 1, 3, 3, 2, 2}
					for i := 0; i < 8; i++ {
						if i/4 == br {
							V = append(V, hx.Exp(bases[i%2], v[i]))
						} else { // sub-challenge 0
							V = append(V, hx.Exp(bases[i%2], r[which[i]]))
						}
					}
					if err := put(ctx, V...); err != nil {
						return err
					}
					ch, err := challengeS(ctx, 1)
					if err != nil {
						return err
					}
					sub2 := []*big.Int{big64(0), big64(0)}
					sub2[br] = ch[0]
					for i := 0; i < 4; i++ {
						n := 4*br + i
						d := mul(sub(v[n], r[which[n]]), inv(ch[0]))
						out, in := i/2, (i/2)^br
						if i%2 == 0 {
							x.Xb[out] = hx.Mul(p.X[in], hx.Exp(p.g, d))
						} else {
							x.Yb[out] = hx.Mul(p.Y[in], hx.Exp(p.h, d))
						}
					}
					if err := putS(ctx, sub2...); err != nil {
						return err
					}
					return putS(ctx, r...)
				}
				q, err := proof.HashProve(s, "Biffle", rand, forge)
				if err != nil {
					hx.Infra("own prover: %v", err)
				}
				if biffleAccepts(c, G, p.H(), p.X, p.Y, x.Xb, x.Yb, q) {
					c.Fatalf("accepted: outputs chosen after the challenge (statement %d, branch %d)", stmt, br)
				}
			}
		}
		for n := 0; n < 10; n++ {
			weakerBiffle(c, p)
		}
		c.NonTrivial("X=%s Y=%s", hx.Short(p.X[0]), hx.Short(p.Y[0]))
	})
}

// rep is one relation of the two-element shuffle: output out (of the X or Y list) is input in
// plus beta times the base of that list.
type rep struct{ list, out, in, beta, base int }

// weakerBiffle proves a relation that differs from the one of a shuffle in one part, for outputs
// which meet it but are no shuffle.
func weakerBiffle(c *hx.Case, p *pairs) {
	s := hx.Suite()
	var reps [2][]rep
	for br := range reps {
		for out := 0; out < 2; out++ {
			for list := 0; list < 2; list++ {
				reps[br] = append(reps[br], rep{list, out, out ^ br, out ^ br, list})
			}
		}
	}
	br := c.Int(0, 1, "branch")
	at := c.Int(0, 3, "relation")
	what := c.Int(0, 5, "change")
	r := &reps[br][at]
	old := *r
	switch what {
	case 0: // as another one of the branch
		*r = reps[br][(at+1+c.Int(0, 2, "other"))%4]
	case 1: // as the one of the other branch
		*r = reps[1-br][c.Int(0, 3, "other")]
	case 2:
		r.in ^= 1
	case 3:
		r.beta ^= 1
	case 4:
		r.base ^= 1
	case 5: // left out
		reps[br] = append(append([]rep{}, reps[br][:at]...), reps[br][at+1:]...)
	}
	in := [2][]*big.Int{p.X, p.Y}
	bases := []*big.Int{p.g, p.h}
	beta := []*big.Int{c.Full("beta0"), c.Full("beta1")}
	var out [2][2]*big.Int
	for _, r := range reps[br] {
		v := hx.Mul(in[r.list][r.in], hx.Exp(bases[r.base], beta[r.beta]))
		if o := &out[r.list][r.out]; *o == nil {
			*o = v
		} else if (*o).Cmp(v) != 0 {
			return // no outputs meet it
		}
	}
	for l := range out {
		for i := range out[l] {
			if out[l][i] == nil {
				out[l][i] = hx.Exp(hx.Gen, c.Full("output"))
			}
		}
	}
	Xb, Yb := out[0][:], out[1][:]
	if p.plain(p.X, p.Y) == p.plain(Xb, Yb) {
		return
	}
	names := []string{"X", "Y"}
	points := map[string]abstract.Point{"G": p.G(), "H": p.H()}
	if points["G"] == nil {
		points["G"] = hx.Pt(hx.Gen)
	}
	var and []proof.Predicate
	for b := range reps {
		var l []proof.Predicate
		for _, r := range reps[b] {
			name := fmt.Sprintf("%sbar%d-%s%d", names[r.list], r.out, names[r.list], r.in)
			points[name] = hx.Pt(hx.Mul(out[r.list][r.out], hx.Inv(in[r.list][r.in])))
			l = append(l, proof.Rep(name, fmt.Sprint("beta", r.beta), []string{"G", "H"}[r.base]))
		}
		and = append(and, proof.And(l...))
	}
	or := proof.Or(and...)
	secrets := map[string]abstract.Secret{"beta0": hx.Sec(beta[0]), "beta1": hx.Sec(beta[1])}
	prove := or.Prover(s, secrets, points, map[proof.Predicate]int{or: br})
	x := &cheat{c: c, p: p, Xb: Xb, Yb: Yb}
	for _, x.stmt = range []int{63, 0} {
		q, err := proof.HashProve(s, "Biffle", s.Cipher(abstract.RandomKey), func(ctx proof.ProverContext) error {
			if err := put(ctx, x.statement()...); err != nil {
				return err
			}
			return prove(ctx)
		})
		if err != nil {
			hx.Infra("own prover: %v", err)
		}
		if biffleAccepts(c, p.G(), p.H(), p.X, p.Y, Xb, Yb, q) {
			c.Fatalf("accepted: outputs that are no shuffle (branch %d, relation %+v, change %d)", br, old, what)
		}
	}
	c.Class("weaker relation proved")
}

func TestC17_BiffleSpread(t *testing.T) {
	hx.Check(t, 4, "two pairs through the two-element shuffle 100 times: both orders occur; non-trivial: all", func(c *hx.Case) {
		p := drawPairs(c, 2)
		first := hx.Mul(p.Y[0], hx.Inv(hx.Exp(p.X[0], p.x)))
		p.Y[1] = hx.Mul(p.Y[1], hx.Exp(hx.Gen, c.Full("apart")))
		rand := hx.Suite().Cipher(abstract.RandomKey)
		n, seen := 0, map[string]bool{}
		for i := 0; i < 100; i++ {
			xb, yb, _ := shuffle.Biffle(hx.Suite(), p.G(), p.H(), two(p.X), two(p.Y), rand)
			if hx.Mul(hx.I(yb[0]), hx.Inv(hx.Exp(hx.I(xb[0]), p.x))).Cmp(first) == 0 {
				n++
			}
			for _, e := range []string{hx.I(xb[0]).String(), hx.I(xb[1]).String()} {
				if seen[e] {
					c.Fatalf("an output repeats")
				}
				seen[e] = true
			}
		}
		if n < 15 || n > 85 {
			c.Fatalf("the first pair stays in place %d times of 100", n)
		}
		c.NonTrivial("X=%s", hx.Short(p.X[0]))
	})
}
