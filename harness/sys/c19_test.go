package sys

import (
	"fmt"
	"math/big"
	"net"
	"reflect"
	"testing"

	"zRep/cmd/coordinator"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zrepverif/hx"
)

func (w *world) leadsTo(a *net.TCPAddr, n *node) bool {
	return a != nil && w.byAddr(a.String()) == n
}

func foParams(b *fujiokam.FujiOkamBase) string {
	if b == nil {
		return "none"
	}
	out := fmt.Sprint(b.N, b.RandomRadius)
	for _, p := range []*fujiokam.Point{b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1} {
		if p == nil || reflect.ValueOf(p).IsNil() {
			return "incomplete"
		}
		out += fmt.Sprintf(" %x", p.ToBinary())
	}
	return out
}

// network checks the links and the joint parameters.
func (w *world) network(order []*node) {
	co := w.co.co
	if len(co.ServerList) != len(order) {
		w.fail("C19", "%d servers registered, the coordinator has %d", len(order), len(co.ServerList))
	}
	want := foParams(co.FujiOkamBase)
	for i, n := range order {
		prev, next := w.co, w.co
		if i > 0 {
			prev = order[i-1]
		}
		if i+1 < len(order) {
			next = order[i+1]
		}
		if !w.leadsTo(n.se.PreviousHop, prev) || !w.leadsTo(n.se.NextHop, next) {
			w.fail("C19", "%s, number %d of %d, lies between %v and %v instead of %s and %s", n.name, i, len(order), n.se.PreviousHop, n.se.NextHop, prev.name, next.name)
		}
		if !w.leadsTo(co.ServerList[i].Addr, n) || hx.I(co.ServerList[i].PublicKey).Cmp(hx.Exp(hx.Gen, hx.S(n.se.PrivateKey))) != 0 {
			w.fail("C19", "the coordinator has another address or key for %s, number %d", n.name, i)
		}
		if !n.se.IsConnected {
			w.fail("C19 C23", "%s was never told that it is registered", n.name)
		}
		if got := foParams(n.se.FujiOkamBase); got != want {
			w.fail("C19", "%s has other integer-commitment parameters than the coordinator: %s", n.name, cut(got))
		}
		if hx.I(n.se.PedersenBase.HT).Cmp(hx.I(co.PedersenBase.HT)) != 0 || hx.I(n.se.PedersenBase.GT).Cmp(hx.I(co.PedersenBase.GT)) != 0 {
			w.fail("C19", "%s and the coordinator have different commitment generators", n.name)
		}
	}
}

func TestC19_Chain(t *testing.T) {
	run(t, "C19", 24, "at least three servers registered, two of them at the same time", func(c *hx.Case, keep func(*sim)) {
		s := newSim(c, "C19")
		keep(s)
		w := &world{sim: s, pool: map[string]*pooled{}, grants: map[string]*grant{}, tally: map[string]int{}}
		w.on["POST_BRIDGE"] = w.onPost
		w.on["REQUEST_BRIDGES"] = w.onRequest
		w.on["GOT_SIGNS"] = w.onGotSigns
		w.on["VOTE"] = w.onVote
		var order []*node
		h := hx.I(w.co.co.PedersenBase.HT)
		updates, overlap := 0, false
		search := c.Int(0, 2, "searched") // whose exponent is searched for longer
		w.on["SERVER_REGISTER"] = func(m *msg) { order = append(order, m.src) }
		w.on["SERVER_REGISTER_REPLY"] = func(m *msg) {
			in := w.point(m.ev, "h")
			if in.Cmp(h) != 0 {
				w.fail("C19", "%s was not given the generator all servers before it contributed to", m.dst.name)
			}
			out := w.last(proto.UPDATE_PEDERSEN_H, w.co)
			if out == nil || out.step != w.steps || out.src != m.dst {
				w.fail("C19", "%s did not return an updated generator", m.dst.name)
			}
			h = w.point(out.ev, "h")
			updates++
			if k, small := smallPower(in, h); small {
				w.fail("C19", "%s raised the generator to %d", m.dst.name, k)
			}
			if updates == 1+search {
				if k, small := hx.SmallLog(in, h, 36); small {
					w.fail("C19", "%s raised the generator to %s", m.dst.name, k)
				}
			}
			for what, x := range map[string]*big.Int{"private": hx.S(m.dst.se.PrivateKey), "round": hx.S(m.dst.se.Roundkey)} {
				if hx.Exp(in, x).Cmp(h) == 0 {
					w.fail("C19", "%s raised the generator to its %s key", m.dst.name, what)
				}
			}
		}
		n := c.Int(1, 6, "servers")
		search %= n
		var nodes []*node
		for i := 0; i < n; i++ {
			nodes = append(nodes, w.addServer())
		}
		for len(nodes) > 0 {
			i := c.Int(0, len(nodes)-1, "starts")
			w.registerServer(nodes[i])
			nodes = append(nodes[:i:i], nodes[i+1:]...)
			if len(w.queue) > 1 {
				overlap = true
			}
			switch c.Int(0, 2, "deliver") {
			case 0:
				w.quiesce()
			case 1:
				w.some(c.Int(1, 4, "some"))
			}
		}
		if c.Bool("early") {
			// the operator goes on as soon as every registration reached the coordinator
			for len(order) < n {
				w.deliver(w.pick())
			}
			w.note("operator: servers configured")
			w.during(func() {
				coordinator.VerifConfigCommParams(w.co.co)
				w.co.co.Status = coordinator.READY_FOR_NEW_ROUND
			}, w.deliver)
		} else {
			w.quiesce()
			w.configure()
		}
		if updates != n {
			w.fail("C19", "%d of %d servers contributed to the second generator", updates, n)
		}
		if hx.I(w.co.co.PedersenBase.HT).Cmp(h) != 0 {
			w.fail("C19", "the second generator is not the one all servers contributed to")
		}
		w.network(order)
		params0 := foParams(w.co.co.FujiOkamBase)

		// the network works, and whoever comes later changes nothing
		w.ses = order
		if k := c.Int(0, 2, "fakes"); k > 0 {
			w.addFakes(k)
		}
		for _, m := range w.members {
			m.in = true
		}
		late := func() {
			if c.Int(0, 2, "late") != 0 {
				return
			}
			l := w.add(fmt.Sprint("late server", w.steps), kOutsider)
			f := w.inject(l.addr.String(), w.co, proto.SERVER_REGISTER, map[string]interface{}{"public_key": encPoint(hx.Exp(hx.Gen, c.Full("late key")))})
			w.noEffect(f, "C19", "a server that registers after the configuration")
			if c.Bool("returns h") {
				f := w.inject(l.addr.String(), w.co, proto.UPDATE_PEDERSEN_H, map[string]interface{}{"h": encPoint(hx.Exp(hx.Gen, c.Full("late h")))})
				w.noEffect(f, "C19", "a generator from a server that registers after the configuration")
			}
			c.Class("late server")
		}
		late()
		w.openRound()
		late()
		m := w.join()
		w.some(c.Int(0, 6, "some"))
		late()
		w.quiesce()
		if foParams(m.n.cl.FujiOkamBase) != params0 {
			w.fail("C19", "%s has other integer-commitment parameters than the coordinator", m.name)
		}
		w.closeRound()
		late()
		w.openRound()
		if hx.I(m.n.cl.PedersenBase.HT).Cmp(hx.I(w.co.co.PedersenBase.HT)) != 0 {
			w.fail("C19", "%s has another second generator", m.name)
		}
		w.post(m, w.plainAddr())
		w.quiesce()
		w.request(m, 1)
		w.quiesce()
		w.settled()

		// two servers, or one twice, do not contribute the same
		w.on = map[string]func(*msg){}
		rep := w.last(proto.SERVER_REGISTER_REPLY, nil)
		outs := map[string]string{}
		for i := 0; i < 3; i++ {
			o := w.addServer()
			w.ses = w.ses[:len(w.ses)-1]
			for j := 0; j < 2; j++ {
				f := w.inject(rep.ev.SrcAddr, o, proto.SERVER_REGISTER_REPLY, params(rep))
				got := w.capture(func() { w.deliver(f) })
				if len(got) != 1 {
					w.fail("C19", "no updated generator")
				}
				out := w.point(got[0].ev, "h").String()
				if was := outs[out]; was != "" {
					w.fail("C19", "%s and %s contribute the same exponent", was, o.name)
				}
				outs[out] = o.name + fmt.Sprint(", time ", j)
			}
		}
		c.Class(fmt.Sprintf("%d servers", n))
		if n > 2 && overlap {
			c.NonTrivial("%s", w.story())
		}
	})
}
