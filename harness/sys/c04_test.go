package sys

import (
	"fmt"
	"math/big"
	"testing"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	pf "zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

// claim is a request that is put together by hand.
type claim struct {
	w    *world
	m    *member
	nym  *big.Int
	x    *big.Int // signs
	ind  int      // as stated
	rep  *big.Int // what it builds on: PCommr = GT^rep HT^r
	r    *big.Int
	indC *big.Int // value inside PCommind

	rind, pcommind, pcommd *big.Int
	rd, rf                 *big.Int // randomness of PCommd and of FOCommd
	fo                     *big.Int
	nonneg                 *fujiokam.ARGnonneg
	equal                  *pf.ARGequal
}

func (w *world) newClaim(m *member, ind int) *claim {
	c := &claim{w: w, m: m, nym: m.nym, x: m.x, ind: ind, rep: big.NewInt(int64(m.rep)), r: hx.S(m.n.cl.R), indC: big.NewInt(int64(ind))}
	c.rind, c.rf = w.c.Secret("rind"), w.c.Secret("rf")
	return c
}

func (c *claim) base() *fujiokam.FujiOkamBase { return c.w.co.co.FujiOkamBase }

func (c *claim) comm(v, r *big.Int) *big.Int {
	return hx.Mul(hx.Exp(c.w.gt, v), hx.Exp(c.w.ht, r))
}

// commitments fills in the two group commitments the way the program does.
func (c *claim) commitments() *big.Int {
	c.pcommind = c.comm(c.indC, c.rind)
	c.rd = new(big.Int).Sub(c.r, c.rind)
	d := new(big.Int).Sub(c.rep, c.indC)
	c.pcommd = c.comm(d, c.rd)
	return d
}

// prove makes both arguments for the integer d the way the protocol says, with whatever
// non-negativity argument there is.
func (c *claim) prove(d *big.Int, nonneg func() *fujiokam.ARGnonneg) {
	c.fo = forge.FoCommit(c.base(), d, c.rf)
	c.nonneg = nonneg()
	c.equal = c.equality(d, 15)
}

// equality is the protocol for an integer d of any sign and size.
func (c *claim) equality(d *big.Int, sub int) *pf.ARGequal {
	t1, t2, t3 := c.w.c.Full("t1"), c.w.c.Full("t2"), c.w.c.Full("t3")
	T1, T2 := c.comm(t1, t2), forge.FoCommit(c.base(), t1, t3)
	e := forge.HashEqual(sub, c.pcommd, c.fo, T1, T2)
	lin := func(v, t *big.Int) *big.Int { s := new(big.Int).Mul(e, v); return s.Add(s, t) }
	return &pf.ARGequal{C: e, S1: lin(d, t1), S2: lin(new(big.Int).Mod(c.rd, hx.Q), t2), S3: lin(c.rf, t3)}
}

func (c *claim) foPt() *fujiokam.Point { return c.base().Point().SetBigInt(new(big.Int).Set(c.fo)) }

// honestNonneg is the program's own argument for a value y.
func (c *claim) honestNonneg(y *big.Int) func() *fujiokam.ARGnonneg {
	return func() *fujiokam.ARGnonneg {
		p := c.base().Point().SetBigInt(forge.FoCommit(c.base(), y, c.rf))
		return c.base().ProveNonneg(new(big.Int).Set(y), p, new(big.Int).Set(c.rf))
	}
}

// squares is a dishonest prover for the value x that claims the squares of y.
func (c *claim) squares(x, y *big.Int) *forge.Nonneg {
	a, b, d := forge.ThreeSquares(c.w.c, y)
	if a == nil {
		a, b, d = big.NewInt(0), big.NewInt(1), big.NewInt(0)
	}
	f := forge.NewNonneg(c.w.c, c.base(), x, a, b, d)
	f.Rc, f.Commitx = c.rf, forge.FoCommit(c.base(), x, c.rf)
	return f
}

func (c *claim) params() map[string]interface{} {
	return map[string]interface{}{
		"ind": c.ind, "nym": encPoint(c.nym), "FOCommd": c.fo.Bytes(), "PCommd": encPoint(c.pcommd), "PCommind": encPoint(c.pcommind),
		"rind":       util.EncodeSecret(hx.Sec(c.rind)),
		"arg_nonneg": util.EncodeARGnonneg(c.nonneg), "arg_equal": util.EncodeARGequal(c.equal),
	}
}

// excessive draws a way to ask for more than the reputation allows and returns the
// parameters without the signature, nil if this way does not apply.
func (w *world) excessive(m *member, genuine, old []*msg) (map[string]interface{}, *big.Int, string) {
	c := w.c
	rep := m.rep
	if rep < 0 {
		rep = 0
	}
	over := rep + c.Int(1, 6, "over")
	switch c.Int(0, 3, "size") {
	case 0:
		over = rep + 1
	case 1:
		over = []int{1 << 31, 1<<32 + rep, 1<<32 + 1, 1<<40 + 3, 1<<62 + 1, 1<<63 - 1, 256 + rep, 65536 + rep}[c.Int(0, 7, "huge")]
	}
	q := w.newClaim(m, over)
	y := big.NewInt(int64(c.Int(0, 5, "y")))
	what := ""
	switch c.Int(0, 15, "way") {
	case 0:
		what = "the negative difference taken modulo the group order"
		d := new(big.Int).Mod(q.commitments(), hx.Q)
		q.prove(d, func() *fujiokam.ARGnonneg { return q.squares(d, d).Honest(15, d) })
	case 1:
		what = "arguments about another difference"
		q.commitments()
		q.prove(y, q.honestNonneg(y))
	case 2:
		what = "arguments about another difference, by the program's prover"
		d := q.commitments()
		q.prove(y, q.honestNonneg(y))
		v := y
		if c.Bool("true difference") {
			v = d
		}
		q.equal = pf.ProveEqual(w.co.co.PedersenBase, q.base(), hx.Sec(v), hx.Pt(q.pcommd), hx.Sec(q.rd), q.foPt(), new(big.Int).Set(q.rf))
	case 3:
		what = "a commitment to the difference that does not follow from the others"
		q.commitments()
		q.rd = c.Secret("rd")
		if c.Bool("keep randomness") {
			q.rd = new(big.Int).Sub(q.r, q.rind)
		}
		q.pcommd = q.comm(y, q.rd)
		q.prove(y, q.honestNonneg(y))
	case 4:
		what = "a commitment to a smaller number of bridges"
		q.indC = big.NewInt(int64(c.Int(0, rep, "small")))
		if m.rep < 0 {
			q.indC = big.NewInt(int64(m.rep))
		}
		d := q.commitments()
		q.prove(d, q.honestNonneg(d))
	case 5:
		what = "a forged non-negativity argument"
		d := q.commitments()
		sub := c.Int(0, 15, "hashed")
		q.prove(d, func() *fujiokam.ARGnonneg {
			switch c.Int(0, 5, "strategy") {
			case 0:
				return q.squares(d, y).Honest(sub, d)
			case 1:
				return q.squares(d, y).Honest(sub, y)
			case 2:
				return q.squares(d, y).LateCommitrx(sub, y)
			case 3:
				return q.squares(d, y).LateCr(sub)
			case 4:
				return q.squares(d, y).LateC(sub)
			}
			return q.squares(d, y).Guess(big.NewInt(int64(c.Int(0, 2, "guess"))))
		})
	case 6:
		what = "the non-negativity argument of the absolute value"
		d := q.commitments()
		abs := new(big.Int).Abs(d)
		q.prove(d, func() *fujiokam.ARGnonneg { return q.squares(d, abs).Honest(15, abs) })
	case 7:
		what = "a forged equality argument"
		d := q.commitments()
		q.prove(y, q.honestNonneg(y))
		sub := c.Int(0, 15, "hashed")
		t1, t2, t3 := c.Full("t1"), c.Full("t2"), c.Full("t3")
		T1, T2 := q.comm(t1, t2), forge.FoCommit(q.base(), t1, t3)
		e := forge.HashEqual(sub, q.pcommd, q.fo, T1, T2)
		lin := func(v, t *big.Int) *big.Int { s := new(big.Int).Mul(e, v); return s.Add(s, t) }
		s1, s2, s3 := lin(d, t1), lin(q.rd, t2), lin(q.rf, t3)
		switch c.Int(0, 3, "side") {
		case 0:
			s2 = c.Full("s2")
		case 1:
			s1, s2 = lin(y, t1), c.Full("s2")
		case 2:
			s1 = lin(y, t1)
		case 3:
			s3 = c.Full("s3")
		}
		q.equal = &pf.ARGequal{C: e, S1: s1, S2: s2, S3: s3}
	case 8:
		what = "arguments made of small numbers"
		q.commitments()
		q.prove(y, q.honestNonneg(y))
		z := func() *big.Int { return big.NewInt(int64(c.Int(0, 1, "z"))) }
		if c.Bool("nonneg") {
			q.nonneg = &fujiokam.ARGnonneg{Commitrx: z(), C: z(), Cr: z(), R: z(), X_: z(), A_: z(), B_: z(), D_: z(), R_: z()}
		}
		q.equal = &pf.ARGequal{C: z(), S1: z(), S2: z(), S3: z()}
		q.fo = []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Set(q.base().N), q.fo}[c.Int(0, 3, "fo")]
	case 9, 10:
		// another client's, another request's or another round's
		from := append(append([]*msg{}, genuine...), old...)
		if len(from) == 0 {
			return nil, nil, ""
		}
		o := from[c.Int(0, len(from)-1, "replayed")]
		p := params(o)
		k := p["ind"].(int)
		p["nym"] = encPoint(m.nym)
		mine := w.byNode(o.src) == m && o.step >= 0 && contains(genuine, o)
		what = "the proof of another client's request"
		if contains(old, o) {
			what = "the proof of a request of an earlier round"
		}
		if mine || c.Bool("more") {
			k = over
			what += ", for more"
		}
		p["ind"] = k
		if c.Bool("own commitments") && k == over {
			// with fresh, true commitments around the old arguments
			q.commitments()
			p["PCommd"], p["PCommind"], p["rind"] = encPoint(q.pcommd), encPoint(q.pcommind), util.EncodeSecret(hx.Sec(q.rind))
		}
		return p, m.x, what
	case 11:
		what = "a made-up reputation of a pseudonym that is not in the table"
		q.x = c.Secret("stranger")
		if late := w.latecomer(); late != nil && c.Bool("late") {
			q.x = late.x
		}
		q.nym = hx.Exp(w.g, q.x)
		q.rep, q.r = big.NewInt(int64(c.Int(0, 10, "own"))), c.Secret("own r")
		if c.Bool("nothing committed") {
			q.rep, q.r = big.NewInt(0), big.NewInt(0)
		}
		q.ind = c.Int(1, 5, "ask")
		q.indC = big.NewInt(int64(q.ind))
		d := q.commitments()
		if d.Sign() < 0 {
			d = y
		}
		q.prove(d, q.honestNonneg(d))
	case 12:
		what = "a made-up reputation in place of the committed one"
		q.rep, q.r = big.NewInt(int64(over)), c.Secret("own r")
		if c.Bool("own randomness") {
			q.r = hx.S(m.n.cl.R)
		}
		if over > 1<<33 {
			return nil, nil, ""
		}
		d := q.commitments()
		q.prove(d, q.honestNonneg(d))
	case 13:
		what = "the commitment of another participant"
		others := w.active()
		o := others[c.Int(0, len(others)-1, "other")]
		if o == m || o.rep < over {
			return nil, nil, ""
		}
		q.rep, q.r = big.NewInt(int64(o.rep)), hx.S(o.n.cl.R)
		d := q.commitments()
		q.prove(d, q.honestNonneg(d))
	case 14:
		what = "wrong randomness for the number of bridges"
		q.indC = big.NewInt(0)
		d := q.commitments()
		if d.Sign() < 0 {
			return nil, nil, ""
		}
		q.prove(d, q.honestNonneg(d))
		q.rind = c.Secret("other rind")
	case 15:
		what = "swapped commitments"
		q.commitments()
		q.pcommd, q.pcommind = q.pcommind, q.pcommd
		q.prove(y, q.honestNonneg(y))
	}
	return q.params(), q.x, what
}

func contains(l []*msg, m *msg) bool {
	for _, x := range l {
		if x == m {
			return true
		}
	}
	return false
}

// requests lists genuine requests that were delivered to the coordinator.
func (w *world) requestsIn(log []*msg) []*msg {
	var out []*msg
	for _, m := range log {
		if m.ev.EventType == proto.REQUEST_BRIDGES && m.dst == w.co && !m.forged {
			out = append(out, m)
		}
	}
	return out
}

func TestC04_Requests(t *testing.T) {
	run(t, "C04", 16, "at least two kinds of excessive requests were delivered while bridges were available", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C04", c.Int(2, 3, "clients"), stageOpts{1, 2, 1, 2}, keep)
		old := w.requestsIn(w.log)
		act := w.active()
		for i := 0; i < 7; i++ {
			w.post(act[c.Int(0, len(act)-1, "provider")], w.plainAddr())
		}
		w.quiesce()
		if m := act[c.Int(0, len(act)-1, "asks first")]; m.rep > 0 && c.Bool("genuine first") {
			w.request(m, 1)
			w.quiesce()
		}
		if c.Bool("late joiner") {
			w.join()
			w.quiesce()
		}
		kinds := map[string]bool{}
		for i, n := 0, c.Int(2, 9, "attempts"); i < n; i++ {
			m := act[c.Int(0, len(act)-1, "cheater")]
			var genuine []*msg // of this round, some of them never delivered
			for _, x := range act {
				if x.rep > 0 && c.Bool("captured") {
					g := w.capture(func() { w.request(x, 1+c.Int(0, x.rep-1, "ind")) })
					genuine = append(genuine, g...)
				}
			}
			p, x, what := w.excessive(m, genuine, old)
			if p == nil {
				continue
			}
			what = fmt.Sprintf("%s (reputation %d) asks for %v with %s", m.name, m.rep, p["ind"], what)
			toServer := c.Bool("to a server")
			if !toServer {
				p["signature"] = w.sign(x, w.g, bridge.MessageOfRequestBridges(p))
				w.noEffect(w.inject(m.n.addr.String(), w.co, proto.REQUEST_BRIDGES, p), "C04", "%s", what)
			} else {
				k := c.Int(1, 3, "assignments")
				if p["ind"].(int) < k {
					k = p["ind"].(int)
				}
				var list []bridge.Assignment
				for j := 0; j < k; j++ {
					list = append(list, bridge.Assignment{NymR: hx.Pt(new(big.Int).SetBytes(p["nym"].([]byte))), Addr: w.plainAddr() + fmt.Sprint(j), Nym: hx.Pt(act[0].nym)})
				}
				p["assignments"] = bridge.EncodeAssignmentList(list)
				w.notSigned(p, what)
			}
			kinds[what] = true
		}
		w.drain()
		w.stats()
		if len(kinds) > 1 {
			c.NonTrivial("%s", w.story())
		}
	})
}

// notSigned asks a server, in the coordinator's name, to sign what it must refuse.
func (w *world) notSigned(p map[string]interface{}, what string) {
	n := w.ses[w.c.Int(0, len(w.ses)-1, "server")]
	w.note("%s is asked to sign: %s", n.name, what)
	m := w.inject(w.co.addr.String(), n, proto.SIGN_ASSIGNMENTS, p)
	w.code(what, func() {
		w.unqueue(m)
		handle(m)
	})
	for _, x := range w.log {
		if x.step == w.steps && !x.forged {
			if x.ev.Params["success"] != false || x.ev.Params["signatures"] != nil {
				w.fail("C04", "%s signed: %s", n.name, what)
			}
			w.unqueue(x)
		}
	}
}

// A proper proof for a number of bridges does not get a server to sign more of them,
// or those of somebody else.
func TestC04_Servers(t *testing.T) {
	run(t, "C04", 8, "a server was asked to sign more than a genuine proof covers", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C04", c.Int(2, 3, "clients"), stageOpts{1, 3, 1, 1}, keep)
		act := w.active()
		n := 0
		for i, total := 0, c.Int(1, 6, "attempts"); i < total; i++ {
			m := act[c.Int(0, len(act)-1, "requester")]
			if m.rep < 0 {
				continue
			}
			ind := c.Int(0, m.rep, "ind")
			g := w.capture(func() { w.request(m, ind) })
			p := params(g[0])
			delete(p, "signature")
			nymR := m.nym
			k := ind + c.Int(1, 3, "more")
			what := fmt.Sprintf("%d assignments with a proof for %d", k, ind)
			other := act[c.Int(0, len(act)-1, "other")]
			wrongAt := -1
			if ind > 0 && other != m && c.Bool("somebody else's") {
				k = c.Int(1, ind, "assignments")
				wrongAt = c.Int(0, k-1, "wrong")
				what = fmt.Sprintf("an assignment to %s with a proof of %s", other.name, m.name)
			}
			var list []bridge.Assignment
			for j := 0; j < k; j++ {
				a := bridge.Assignment{NymR: hx.Pt(nymR), Addr: fmt.Sprintf("sign%d-%d", i, j), Nym: hx.Pt(act[0].nym)}
				if j == wrongAt {
					a.NymR = hx.Pt(other.nym)
				}
				list = append(list, a)
			}
			p["assignments"] = bridge.EncodeAssignmentList(list)
			if c.Int(0, 3, "grown") == 0 && wrongAt < 0 {
				p["ind"] = k
				what += " and that number changed"
				if k <= m.rep && k == ind {
					continue
				}
			}
			w.notSigned(p, what)
			n++
		}
		w.supply()
		w.drain()
		if n > 0 {
			c.NonTrivial("%s", w.story())
		}
	})
}
