package sys

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// hop is what one server made of a table.
type hop struct {
	in, out   *msg
	forward   bool
	inK, outK []*big.Int
	inV, outV []*big.Int
	perm      []int // output position of each input entry
	gt, ht    [2]*big.Int
	g         [2]*big.Int // forward only
	note      string
	secret    *big.Int // the server's round key
}

// smallPower tells whether b is a small power of a (or the other way round).
func smallPower(a, b *big.Int) (int64, bool) {
	for k := int64(-64); k <= 64; k++ {
		if hx.Exp(a, big.NewInt(k)).Cmp(b) == 0 {
			return k, true
		}
	}
	return 0, false
}

// takeHop delivers a table to a server and returns what it sent on.
func (w *world) takeHop(m *msg) *hop {
	n := m.dst
	h := &hop{in: m, forward: m.ev.EventType == proto.ANNOUNCEMENT, secret: hx.S(n.se.Roundkey)}
	back := map[string]*big.Int{}
	for k, v := range n.se.KeyMap {
		back[k] = hx.I(v)
	}
	got := w.capture(func() { w.deliver(m) })
	if len(got) != 1 || got[0].ev.EventType != m.ev.EventType {
		w.fail("C18 C03", "%s did not send a table on", n.name)
	}
	h.out = got[0]
	h.inK, h.inV = w.points(m.ev, "keys"), w.points(m.ev, "vals")
	h.outK, h.outV = w.points(h.out.ev, "keys"), w.points(h.out.ev, "vals")
	for i, e := range []*msg{m, h.out} {
		h.gt[i], h.ht[i] = w.point(e.ev, "GT"), w.point(e.ev, "HT")
		if h.forward {
			h.g[i] = hx.Gen
			if e.ev.Params["g"] != nil {
				h.g[i] = w.point(e.ev, "g")
			}
		}
	}
	if len(h.outK) != len(h.inK) {
		w.fail("C02", "%s made %d entries of %d", n.name, len(h.outK), len(h.inK))
	}
	at := map[string]int{}
	for i, k := range h.outK {
		at[k.String()] = i
	}
	for i, k := range h.inK {
		img := hx.Exp(k, h.secret)
		if !h.forward {
			img = back[hx.Pt(k).String()]
		}
		if img == nil {
			w.fail("C02", "%s got a key it does not know", n.name)
		}
		j, ok := at[img.String()]
		if !ok {
			if h.forward {
				w.fail("C03 C02", "%s did not apply its round key to entry %d", n.name, i)
			}
			w.fail("C02", "%s lost entry %d", n.name, i)
		}
		h.perm = append(h.perm, j)
	}
	return h
}

// masked checks that a hop hides its input behind a secret that is not a trivial one.
func (w *world) masked(h *hop) {
	name := h.in.dst.name
	type pair struct {
		what string
		a, b *big.Int
	}
	pairs := []pair{{"the first commitment generator", h.gt[0], h.gt[1]}, {"the second commitment generator", h.ht[0], h.ht[1]}}
	if h.forward {
		pairs = append(pairs, pair{"the base", h.g[0], h.g[1]})
		for i, k := range h.inK {
			pairs = append(pairs, pair{"a pseudonym", k, h.outK[h.perm[i]]})
		}
	}
	for i, v := range h.inV {
		pairs = append(pairs, pair{"a commitment", v, h.outV[h.perm[i]]})
	}
	secrets := map[string]*big.Int{"its private key": hx.S(h.in.dst.se.PrivateKey)}
	for _, p := range pairs {
		if p.a.Cmp(big.NewInt(1)) == 0 {
			continue // nothing to hide
		}
		if k, ok := smallPower(p.a, p.b); ok {
			w.fail("C03", "%s raised %s to the power %d", name, p.what, k)
		}
		for _, s := range hx.Sorted(secrets) {
			if hx.Exp(p.a, secrets[s]).Cmp(p.b) == 0 {
				w.fail("C03", "%s raised %s to %s", name, p.what, s)
			}
		}
	}
	if i := int(h.in.step) % len(pairs); pairs[i].a.Cmp(big.NewInt(1)) != 0 {
		if k, ok := hx.SmallLog(pairs[i].a, pairs[i].b, 32); ok {
			w.fail("C03", "%s raised %s to the power %s", name, pairs[i].what, k)
		}
	}
	// the commitments must not share the secret of the pseudonyms: g and GT together
	// would tell which is which
	if hx.Exp(h.gt[0], h.secret).Cmp(h.gt[1]) == 0 {
		w.fail("C03", "%s raised the commitments to the secret of the pseudonyms", name)
	}
}

// seen collects values that must never come again.
type seen map[string]string

func (w *world) fresh(s seen, v *big.Int, what string) {
	if v.Cmp(big.NewInt(1)) == 0 {
		return
	}
	k := v.String()
	if old, dup := s[k]; dup {
		w.fail("C03", "%s is the same as %s", what, old)
	}
	s[k] = what
}

// Whole histories: nothing published in one round or hop comes again in another.
func TestC03_History(t *testing.T) {
	o := histOpts
	o.maxOps = 5
	o.maxRounds = 5
	run(t, "C03", 6, "at least three rounds with a table of two or more entries", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C03", o, keep)
		s := seen{}
		big1 := 0
		bases := map[*node][]*big.Int{} // first-hop bases
		var anns []*msg
		for _, m := range w.log {
			if m.forged {
				continue
			}
			who := ""
			switch {
			case m.ev.EventType == proto.ANNOUNCEMENT && m.src == w.co:
				// the long-term keys come in again every round, the rest does not
				for _, k := range w.points(m.ev, "keys") {
					if s[k.String()] == "" {
						s[k.String()] = "a long-term key"
					}
					if s[k.String()] != "a long-term key" {
						w.fail("C03", "a long-term key was used as %s", s[k.String()])
					}
				}
				anns = append(anns, m)
				continue
			case m.ev.EventType == proto.ANNOUNCEMENT:
				who = fmt.Sprintf("of %s at step %d", m.src.name, m.step)
				for _, k := range w.points(m.ev, "keys") {
					w.fresh(s, k, "a pseudonym "+who)
				}
				w.fresh(s, w.point(m.ev, "g"), "the base "+who)
				if m.dst == w.co && len(w.points(m.ev, "keys")) > 1 {
					big1++
				}
				if m.dst.kind == kServer {
					anns = append(anns, m)
				}
				if m.src == w.ses[0] {
					bases[m.src] = append(bases[m.src], w.point(m.ev, "g"))
				}
			case m.ev.EventType == proto.ROUND_END && m.src != nil && m.src.kind == kServer:
				who = fmt.Sprintf("of %s (way back) at step %d", m.src.name, m.step)
			case m.src == w.co:
				w.drawn(s, m)
				continue
			default:
				continue
			}
			for _, v := range w.points(m.ev, "vals") {
				w.fresh(s, v, "a commitment "+who)
			}
			w.fresh(s, w.point(m.ev, "GT"), "the first commitment generator "+who)
			w.fresh(s, w.point(m.ev, "HT"), "the second commitment generator "+who)
		}
		for _, l := range bases {
			for i := range l {
				for j := i + 1; j < len(l); j++ {
					if k, ok := smallPower(l[i], l[j]); ok {
						w.fail("C03", "a base is the power %d of that of an earlier round", k)
					}
					if k, ok := smallPower(hx.Gen, hx.Mul(l[j], hx.Inv(l[i]))); ok {
						w.fail("C03", "the secrets of two rounds differ by %d", k)
					}
				}
			}
		}
		// the same table again, at every server: new secrets each time
		w.fifo = true
		for i, n := 0, c.Int(1, 3, "again"); i < n && len(anns) > 0; i++ {
			m := anns[c.Int(0, len(anns)-1, "table")]
			for i, n := range w.ses {
				if m.src == w.co && i > 0 {
					break // without a proof, for the first server only
				}
				f := w.inject(m.ev.SrcAddr, n, proto.ANNOUNCEMENT, params(m))
				w.unqueue(f)
				h := w.takeHop(f)
				w.masked(h)
				who := fmt.Sprintf("of %s, given an old table", n.name)
				for _, v := range h.outV {
					w.fresh(s, v, "a commitment "+who)
				}
				w.fresh(s, h.gt[1], "the first commitment generator "+who)
				w.fresh(s, h.ht[1], "the second commitment generator "+who)
			}
		}
		w.stats()
		if big1 > 2 {
			c.NonTrivial("%d servers: %s", len(w.ses), w.story())
		}
	})
}

// drawn checks that the coordinator draws the randomness of its commitments anew: of
// those to starting credits and of those to the changes of a round.
func (w *world) drawn(s seen, m *msg) {
	var rs []*big.Int
	switch m.ev.EventType {
	case proto.CLIENT_REGISTER_SERVERSIDE:
		w.fresh(s, w.point(m.ev, "pcomm"), fmt.Sprintf("the commitment of the registration at step %d", m.step))
		return
	case proto.INIT_PEDERSEN_R:
		rs = []*big.Int{new(big.Int).SetBytes(bytesOf(m.ev, "r"))}
	case proto.BCAST_PEDERSEN_RDIFF:
		for _, r := range util.ProtobufDecodeSecretList(bytesOf(m.ev, "rDiffs")) {
			rs = append(rs, hx.S(r))
		}
		// everyone gets the same message
		if at := fmt.Sprintf("rDiffs %d", m.step); s[at] != "" {
			return
		} else {
			s[at] = at
		}
	}
	for i, r := range rs {
		if r.BitLen() < 400 {
			w.fail("C03", "the randomness %d of %v has %d bits", i, m, r.BitLen())
		}
		w.fresh(s, r, fmt.Sprintf("the randomness %d of %v at step %d", i, m, m.step))
	}
}

// One server gets the same table again and again, in both directions: new commitments
// every time, and every order comes out.
func TestC03_Hops(t *testing.T) {
	run(t, "C03", 3, "a table of two to five entries went through one server at least 45 times in each direction; every order (up to three entries) or every pair of positions came out", func(c *hx.Case, keep func(*sim)) {
		again(c, keep, c.Int(2, 5, "entries"))
	})
}

// The same with at most one entry, where there is nothing to shuffle.
func TestC03_SmallTables(t *testing.T) {
	run(t, "C03", 4, "a table of one entry (or none) went through one server several times in each direction", func(c *hx.Case, keep func(*sim)) {
		again(c, keep, []int{1, 1, 0}[c.Int(0, 2, "entries")])
	})
}

func again(c *hx.Case, keep func(*sim), k int) {
	w := newWorld(c, "C03", c.Int(1, 2, "servers"), 0)
	keep(w.sim)
	w.fifo = true
	w.addFakes(k)
	for _, m := range w.members {
		m.in = true
	}
	at := c.Int(0, len(w.ses)-1, "server")
	n := w.ses[at]
	reps := []int{8, 8, 45, 110, 95, 125}[k] // a missing order by chance: less than 1 in 10^8
	w.beginRound()
	for i := 0; i < at; i++ {
		w.deliver(w.pick())
	}
	ann := w.queue[0]
	s := seen{}
	var orders [][]int
	for i := 0; i < reps; i++ {
		f := w.inject(ann.ev.SrcAddr, n, proto.ANNOUNCEMENT, params(ann))
		w.unqueue(f)
		h := w.takeHop(f)
		if i < 5 {
			w.masked(h)
		}
		for _, v := range append(append([]*big.Int{}, h.outV...), h.gt[1], h.ht[1]) {
			w.fresh(s, v, "a commitment or generator of run "+fmt.Sprint(i))
		}
		orders = append(orders, h.perm)
	}
	w.allOrders(orders, k, "on the way out")
	w.quiesce()
	w.opened()
	w.votePhase()
	w.quiesce()
	// the way back, up to this server
	var end *msg
	w.note("operator: round end")
	w.tap = func(m *msg) bool {
		if m.ev.EventType == proto.ROUND_END && m.dst == n {
			end = m
			return false
		}
		return true
	}
	w.endRound()
	w.quiesce()
	w.tap = nil
	if end == nil {
		w.fail("*", "the end of the round did not reach %s", n.name)
	}
	keys, rk := n.se.KeyMap, n.se.Roundkey
	orders = nil
	rks := seen{hx.S(rk).String(): "the round key"}
	var news []*big.Int
	for i := 0; i < reps; i++ {
		n.se.KeyMap = map[string]abstract.Point{}
		for a, b := range keys {
			n.se.KeyMap[a] = b
		}
		// every run starts from the same state: what the server makes of its own
		// keys alone comes out again
		n.se.Roundkey = hx.Suite().Secret().Set(rk)
		f := w.inject(end.ev.SrcAddr, n, proto.ROUND_END, params(end))
		w.unqueue(f)
		h := w.takeHop(f)
		if i < 5 {
			w.masked(h)
		}
		for _, v := range append(append([]*big.Int{}, h.outV...), h.gt[1], h.ht[1]) {
			w.fresh(s, v, "a commitment or generator of run "+fmt.Sprint(i)+" on the way back")
		}
		if i < 3 {
			next := hx.S(n.se.Roundkey)
			w.fresh(rks, next, "the next round key")
			w.unrelated(append(news, hx.S(rk), hx.S(n.se.PrivateKey)), next)
			news = append(news, next)
		}
		orders = append(orders, h.perm)
	}
	w.allOrders(orders, k, "on the way back")
	c.Class(fmt.Sprintf("%d entries", k))
	c.NonTrivial("server %d of %d, %d entries, %d runs each way, first orders %v", at, len(w.ses), k, reps, orders[:4])
}

// unrelated checks that a new secret is long and neither close to nor a small multiple
// of one of the others.
func (w *world) unrelated(old []*big.Int, k *big.Int) {
	if k.BitLen() < 400 {
		w.fail("C03", "the next round key has %d bits", k.BitLen())
	}
	for _, o := range old {
		for _, d := range []*big.Int{new(big.Int).Sub(k, o), new(big.Int).Mul(k, new(big.Int).ModInverse(o, hx.Q))} {
			d.Mod(d, hx.Q)
			if neg := new(big.Int).Sub(hx.Q, d); neg.Cmp(d) < 0 {
				d = neg
			}
			if d.BitLen() < 400 {
				w.fail("C03", "the next round key is a known secret plus or times a number of %d bits", d.BitLen())
			}
		}
	}
}

func (w *world) allOrders(orders [][]int, k int, dir string) {
	whole, pairs := map[string]int{}, map[[2]int]int{}
	for _, o := range orders {
		whole[fmt.Sprint(o)]++
		for i, j := range o {
			pairs[[2]int{i, j}]++
		}
	}
	fact := []int{1, 1, 2, 6, 24, 120}[k]
	if k <= 3 && len(whole) != fact {
		w.fail("C03", "in %d runs %s over %d entries only %d of %d orders came out: %v", len(orders), dir, k, len(whole), fact, whole)
	}
	if len(pairs) != k*k {
		w.fail("C03", "in %d runs %s over %d entries some position never led to some other: %v", len(orders), dir, k, pairs)
	}
	if k > 3 && len(whole) < 8 {
		w.fail("C03", "in %d runs %s over %d entries only %d orders came out", len(orders), dir, k, len(whole))
	}
}
