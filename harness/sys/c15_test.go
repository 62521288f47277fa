package sys

import (
	"fmt"
	"math/big"
	"testing"

	"zRep/cmd/client"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

var genNames = []string{"g1", "g2", "g3", "g4", "g5", "g6"}

const perGen = fujiokam.GN_HONESTY_PROOF_SIZE

func copyEv(ev *proto.Event) *proto.Event {
	p := map[string]interface{}{}
	for k, v := range ev.Params {
		p[k] = v
	}
	return &proto.Event{EventType: ev.EventType, Params: p, SrcAddr: ev.SrcAddr}
}

// honesty follows the honesty proofs on the wire.
type honesty struct {
	*world
	n, h    *big.Int
	g       []*big.Int
	lists   [][]*big.Int     // proof values in the order they were sent
	answers [][]*big.Int     // every answer the coordinator gave
	used    map[string]bool  // proof values about which a challenge was answered
	latest  map[*node]int    // latest list sent to a client
}

func (o *honesty) confirmation(m *msg) {
	o.n = new(big.Int).SetBytes(bytesOf(m.ev, "n"))
	o.h = new(big.Int).SetBytes(bytesOf(m.ev, "h1"))
	o.g = nil
	for _, k := range genNames {
		o.g = append(o.g, new(big.Int).SetBytes(bytesOf(m.ev, k)))
	}
	l := util.ProtobufDecodeBigIntList(bytesOf(m.ev, "honesty_prf"))
	if len(l) != 6*perGen {
		o.fail("C15", "%d proof values", len(l))
	}
	o.lists = append(o.lists, l)
	o.latest[m.dst] = len(o.lists) - 1
}

// answersFor tells whether the answer is one to this challenge about these proof values.
func (o *honesty) answersFor(a, list []*big.Int, bits []bool) bool {
	if len(a) != len(bits) || len(list) != len(bits) {
		return false
	}
	for i, bit := range bits {
		want := new(big.Int).Set(list[i])
		if bit {
			want.Mul(want, o.g[i/perGen]).Mod(want, o.n)
		}
		if new(big.Int).Exp(o.h, a[i], o.n).Cmp(want) != 0 {
			return false
		}
	}
	return true
}

// answered judges an answer the coordinator sent in reply to a challenge.
func (o *honesty) answered(m *msg, bits []bool) int {
	a := util.ProtobufDecodeBigIntList(bytesOf(m.ev, "honesty_ans"))
	at := -1
	for i, l := range o.lists {
		if o.answersFor(a, l, bits) {
			at = i
			for _, v := range l {
				if o.used[v.String()] {
					o.fail("C15", "a second challenge about the same proof value is answered")
				}
				o.used[v.String()] = true
			}
			break
		}
	}
	// what two answers tell together
	for _, b := range o.answers {
		for i := 0; i < len(a) && i < len(b); i++ {
			d := new(big.Int).Sub(a[i], b[i])
			d.Abs(d)
			if d.Sign() != 0 && new(big.Int).Exp(o.h, d, o.n).Cmp(o.g[i/perGen]) == 0 {
				o.fail("C15", "two answers reveal the exponent of generator %d", i/perGen+1)
			}
		}
	}
	o.answers = append(o.answers, a)
	return at
}

func newHonesty(c *hx.Case, keep func(*sim)) *honesty {
	w := newWorld(c, "C15", c.Int(1, 2, "servers"), 2)
	keep(w.sim)
	w.beginRound() // clients join while a round is open
	w.quiesce()
	return &honesty{world: w, used: map[string]bool{}, latest: map[*node]int{}}
}

func (o *honesty) drawBits() []bool {
	bits := make([]bool, 6*perGen)
	x := o.c.Full("bits")
	for i := range bits {
		bits[i] = x.Bit(i) == 1
	}
	return bits
}

// TestC15_Challenges: whatever challenges arrive, from whomever, after whatever
// registrations, no proof values are answered twice.
func TestC15_Challenges(t *testing.T) {
	run(t, "C15", 10, "a challenge that must not be answered arrived after an answered one", func(c *hx.Case, keep func(*sim)) {
		o := newHonesty(c, keep)
		outsider := o.add("outsider", kOutsider)
		refused, good := 0, 0
		last := map[*node][]byte{} // latest challenge sent by a client
		story := ""
		o.tap = func(m *msg) bool {
			switch m.ev.EventType {
			case proto.CLIENT_REGISTER_CONFIRMATION:
				o.confirmation(m)
			case proto.GN_HONESTY_CHALLENGE:
				last[m.src] = bytesOf(m.ev, "honesty_chal")
			}
			return true
		}
		at := 0
		o.on["GN_HONESTY_CHALLENGE"] = func(m *msg) {
			bits := util.ProtobufDecodeBoolList(bytesOf(m.ev, "honesty_chal"))
			for _, a := range o.since(at, proto.GN_HONESTY_ANSWER) {
				l := o.answered(a, bits)
				good++
				if !m.forged && o.latest[m.src] == l && a.dst != m.src {
					o.fail("C15", "the answer went to %s", a.dst.name)
				}
			}
			at = len(o.log)
		}
		challenge := func() {
			var from string
			switch k := c.Int(0, 3, "from"); {
			case k == 0 || len(o.cls) == 0:
				from = outsider.addr.String()
			default:
				from = o.cls[c.Int(0, len(o.cls)-1, "of")].addr.String()
			}
			ch := util.ProtobufEncodeBoolList(o.drawBits())
			if n := o.byAddr(from); last[n] != nil && c.Bool("same") {
				ch = last[n]
			}
			answers, known := good, len(o.lists)
			m := o.inject(from, o.co, proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": ch})
			if c.Bool("late") {
				return
			}
			if text, crashed := o.deliverTry(m); crashed {
				o.fail("C15", "the coordinator ended on a challenge: %s", text)
			}
			if answers == good && known > 0 && answers > 0 {
				refused++
			}
			story += "?"
		}
		for i, n := 0, c.Int(3, 7, "steps"); i < n; i++ {
			switch k := c.Int(0, 4, "step"); {
			case k == 0 || len(o.cls) == 0:
				if len(o.cls) < 3 {
					o.registerClient(o.addClient())
					story += "c"
				}
			case k == 1:
				o.quiesceTry()
				cl := o.cls[c.Int(0, len(o.cls)-1, "again")]
				if c.Bool("other key") { // another program at the same address
					o.code("start a client", func() { cl.cl = client.VerifInit() })
					cl.cl.LocalAddr, cl.cl.CoordinatorAddr = cl.addr, o.co.addr
				}
				o.registerClient(cl)
				story += "r"
			case k == 2:
				o.someTry(c.Int(1, 6, "some"))
				story += "d"
			default:
				challenge()
			}
		}
		o.quiesceTry()
		for i := 0; i < 2; i++ {
			challenge()
		}
		o.quiesceTry()
		if refused > 0 && good > 0 {
			c.NonTrivial("servers=%d clients=%d lists=%d answers=%d refused=%d %s", len(o.ses), len(o.cls), len(o.lists), good, refused, story)
		}
		c.Count("answers", good)
		c.Count("refused challenges", refused)
	})
}

// someTry is some in which clients may end: one whose challenge was overtaken by
// another in its name does.
func (s *sim) someTry(n int) {
	for ; n > 0 && len(s.queue) > 0; n-- {
		m := s.pick()
		if text, crashed := s.deliverTry(m); crashed {
			if m.dst.kind != kClient {
				s.fail("*", "%s ended on %v: %s", m.dst.name, m, text)
			}
		}
	}
}

func (s *sim) quiesceTry() {
	for len(s.queue) > 0 {
		s.someTry(1)
	}
}

// TestC15_Client: a client goes on with honest parameters and answers and with no others.
func TestC15_Client(t *testing.T) {
	run(t, "C15", 30, "parameters or answers were altered on the way to the client", func(c *hx.Case, keep func(*sim)) {
		o := newHonesty(c, keep)
		kind := c.Int(0, 9, "kind")
		g := c.Int(0, 5, "generator")
		at := g*perGen + c.Int(0, perGen-1, "at")
		var bits []bool
		what := "nothing"
		altered := func(m *msg, name string, v interface{}, w string) bool {
			ev := copyEv(m.ev)
			ev.Params[name] = v
			o.enqueue(m.dst, encode(ev), true)
			what = w
			return false
		}
		answers := 0
		o.tap = func(m *msg) bool {
			switch m.ev.EventType {
			case proto.CLIENT_REGISTER_CONFIRMATION:
				o.confirmation(m)
				v := new(big.Int).Set(o.g[g])
				switch kind {
				case 1:
					return altered(m, genNames[g], v.Sub(o.n, v).Bytes(), "a generator negated")
				case 2:
					for v = c.FullBelow(o.n, 2, "nonsquare"); big.Jacobi(v, o.n) != -1; {
						v.Add(v, big.NewInt(1))
					}
					return altered(m, genNames[g], v.Bytes(), "a generator outside the squares")
				case 3:
					v.Mul(v, o.h).Mod(v, o.n)
					return altered(m, genNames[g], v.Bytes(), "another generator")
				case 4:
					v.Exp(o.g[(g+1)%6], big.NewInt(int64(c.Int(1, 3, "power"))), o.n)
					if v.Cmp(o.g[g]) == 0 {
						c.Fatalf("two generators coincide")
					}
					return altered(m, genNames[g], v.Bytes(), "a generator made from another")
				case 5:
					l := append([]*big.Int{}, o.lists[len(o.lists)-1]...)
					l[at] = new(big.Int).Mul(l[at], o.h)
					l[at].Mod(l[at], o.n)
					return altered(m, "honesty_prf", util.ProtobufEncodeBigIntList(l), "a proof value")
				}
			case proto.GN_HONESTY_CHALLENGE:
				bits = util.ProtobufDecodeBoolList(bytesOf(m.ev, "honesty_chal"))
			case proto.GN_HONESTY_ANSWER:
				answers++
				a := util.ProtobufDecodeBigIntList(bytesOf(m.ev, "honesty_ans"))
				switch kind {
				case 6:
					a[at] = new(big.Int).Add(a[at], big.NewInt(int64(c.Int(1, 3, "by"))))
					return altered(m, "honesty_ans", util.ProtobufEncodeBigIntList(a), "an answer")
				case 7:
					n := c.Int(1, perGen, "short")
					return altered(m, "honesty_ans", util.ProtobufEncodeBigIntList(a[:len(a)-n]), "the end of the answer cut off")
				case 8:
					zero := make([]*big.Int, len(a))
					for i := range zero {
						zero[i] = new(big.Int)
					}
					return altered(m, "honesty_ans", util.ProtobufEncodeBigIntList(zero), "an answer of zeros")
				}
			}
			return true
		}
		if kind == 9 {
			// an answer to another challenge
			o.on["CLIENT_REGISTER_CONFIRMATION"] = func(m *msg) {
				for _, q := range o.queue {
					if q.ev.EventType == proto.GN_HONESTY_CHALLENGE && !q.forged {
						o.unqueue(q)
						other := append([]bool{}, bits...)
						other[at] = !other[at]
						o.inject(q.ev.SrcAddr, o.co, proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(other)})
						what = "the challenge"
						return
					}
				}
			}
		}
		cl := o.addClient()
		o.registerClient(cl)
		ended := false
		for len(o.queue) > 0 {
			m := o.pick()
			text, crashed := o.deliverTry(m)
			if crashed && m.dst == cl && m.ev.EventType == proto.GN_HONESTY_ANSWER && what != "nothing" {
				ended = true
				continue
			}
			if crashed {
				o.fail("C15", "%s ended on %v (altered: %s): %s", m.dst.name, m, what, text)
			}
		}
		if answers != 1 {
			o.fail("C15", "%d answers to one challenge", answers)
		}
		accepted := !ended && cl.cl.Status == client.CONNECTED && cl.cl.FujiOkamBase != nil
		if what == "nothing" && !accepted {
			o.fail("C15", "the client does not accept honest parameters")
		}
		if what != "nothing" && accepted {
			o.fail("C15", "the client accepts its parameters although %s was altered (generator %d)", what, g+1)
		}
		if what != "nothing" {
			c.NonTrivial("%s g%d at %d", what, g+1, at)
		}
		c.Class(fmt.Sprint("altered: ", what))
	})
}
