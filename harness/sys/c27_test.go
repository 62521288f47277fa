package sys

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"testing"

	"zRep/cmd/coordinator"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hostile"
	"zrepverif/hx"
)

// whole is what a message that says nothing must leave as it was.
func (w *world) whole() map[string]string {
	f := w.tables()
	for k, v := range fields(w.co.co, "Status", "RequesterAddrs", "VotedBridges", "RegistrationsInFlight", "AllClientsPublicKeys", "IsUpdatingH", "LRSBase") {
		f[k] = v
	}
	return f
}

func state(n *node) map[string]string {
	if n.se != nil {
		return fields(n.se, "G", "EndingKeyMap", "EndingCommMap", "IsConnected", "NextHop", "NextIsServer", "PreviousHop", "PreviousIsServer", "KeyMap", "Roundkey")
	}
	return fields(n.cl, "Status", "OnetimePseudoNym", "G", "Reputation", "AllClientsPublicKeys", "Assignments", "PCommr", "R")
}

// stray hands a server or a client something that is no event it could have a use for.
func (w *world) stray() {
	c := w.c
	l := append(append([]*node{}, w.ses...), w.cls...)
	if len(l) == 0 {
		return
	}
	n := l[c.Int(0, len(l)-1, "program")]
	var base []byte
	for _, m := range w.log {
		if m.dst == n && !m.forged {
			base = m.raw
		}
	}
	raw, what := []byte{}, ""
	switch ev := (&proto.Event{}); c.Int(0, 4, "stray") {
	case 0:
		ev.EventType, ev.SrcAddr = hostile.Alien(c), "127.0.0.1:9"
		raw, what = encode(ev), fmt.Sprintf("an event of type %d", ev.EventType)
	case 1:
		if base == nil || gob.NewDecoder(bytes.NewReader(base)).Decode(ev) != nil {
			ev.EventType = proto.VOTE
		}
		ev.SrcAddr = hostile.Address(c)
		raw, what = encode(ev), fmt.Sprintf("a %s from %q", evName(ev.EventType), ev.SrcAddr)
	default:
		raw, what = hostile.Raw(c, base)
	}
	w.bad++
	c.Class("other programs")
	what += " to " + n.name
	w.note("hostile: %s", what)
	before := state(n)
	if text, crashed := w.try(what, func() { handle(&msg{dst: n, raw: raw}) }); crashed {
		w.fail("C27", "%s stopped it: %s", what, text)
	}
	if d := diff(before, state(n)); d != "" {
		w.fail("C27", "%s had an effect: %s", what, d)
	}
	w.silent(what)
}

// silent: nothing was sent in this step.
func (w *world) silent(what string) {
	for _, x := range w.log {
		if x.step == w.steps && !x.forged {
			w.fail("C27", "%s was answered with %v", what, x)
		}
	}
}

// pester hands the coordinator something that is no message.
func (w *world) pester() {
	c := w.c
	if c.Int(0, 5, "other program") == 0 {
		w.stray()
		return
	}
	var bases, next []*msg // messages the coordinator took in, or will
	waiting := map[*msg]bool{}
	for _, m := range w.queue {
		waiting[m] = true
	}
	for _, m := range w.log {
		if m.dst != w.co || m.forged || hostile.Needed[m.ev.EventType] == nil {
			continue
		}
		if waiting[m] {
			// the only challenge of a client may be spoiled in its name
			if m.ev.EventType != proto.GN_HONESTY_CHALLENGE {
				next = append(next, m)
			}
			continue
		}
		bases = append(bases, m)
	}
	if len(next) > 0 && c.Int(0, 3, "not yet") > 0 {
		bases = next
		c.Class("before the genuine message")
	}
	var base *msg
	if len(bases) > 0 {
		// equally many of each kind
		var kinds []int
		for _, k := range hostile.Kinds {
			for _, m := range bases {
				if m.ev.EventType == k {
					kinds = append(kinds, k)
					break
				}
			}
		}
		k := kinds[c.Int(0, len(kinds)-1, "base kind")]
		var of []*msg
		for _, m := range bases {
			if m.ev.EventType == k {
				of = append(of, m)
			}
		}
		base = of[len(of)-1-c.Int(0, min(len(of)-1, 12), "base")]
	}
	stranger := fmt.Sprintf("127.0.0.1:%d", c.Int(1, 1023, "port"))
	var raw []byte
	what := ""
	switch k := c.Int(0, 9, "hostile"); {
	case k <= 1:
		var b []byte
		if base != nil {
			b = base.raw
		}
		raw, what = hostile.Raw(c, b)
		c.Class("bytes")
	case k == 2 && base != nil:
		a := hostile.Address(c)
		raw = encode(&proto.Event{EventType: base.ev.EventType, Params: base.ev.Params, SrcAddr: a})
		what = fmt.Sprintf("a %s from %q", evName(base.ev.EventType), a)
		c.Class("sender")
	case k == 3:
		ev := &proto.Event{EventType: hostile.Unknown(c), SrcAddr: stranger}
		if base != nil {
			ev.Params = base.ev.Params
		}
		raw, what = encode(ev), fmt.Sprintf("an event of type %d", ev.EventType)
		c.Class("type")
	case k == 4 || base == nil:
		v, how := hostile.Key(c)
		p := map[string]interface{}{}
		if v != nil {
			p["public_key"] = v
		}
		raw, what = encode(&proto.Event{EventType: proto.CLIENT_REGISTER_CONTROLLERSIDE, Params: p, SrcAddr: stranger}), "a registration with "+how
		c.Class("registration")
	default:
		p, typ := params(base), base.ev.EventType
		from := base.ev.SrcAddr
		if typ == proto.CLIENT_REGISTER_CONTROLLERSIDE {
			from = stranger
		}
		signs := ""
		m := w.byNode(base.src)
		mine := m != nil && m.in && w.open && (typ == proto.REQUEST_BRIDGES || typ == proto.VOTE)
		if mine = mine && c.Bool("signs"); mine {
			// a registered client does it, in this round and with its right signature
			p["nym"] = util.EncodePoint(hx.Pt(m.nym))
		}
		field, how := hostile.Break(c, typ, p)
		if mine && field != "signature" {
			hx.Panics(func() {
				p["signature"] = w.sign(m.x, w.g, body(typ, p))
				signs = ", signed,"
			})
		}
		raw, what = encode(&proto.Event{EventType: typ, Params: p, SrcAddr: from}), fmt.Sprintf("a %s%s %s", evName(typ), signs, how)
		c.Class(evName(typ) + signs)
	}
	w.bad++
	w.note("hostile: %s", what)
	before := w.whole()
	if text, crashed := w.try(what, func() { coordinator.Handle(append([]byte{}, raw...), w.co.co) }); crashed {
		w.fail("C27", "%s stopped the coordinator: %s", what, text)
	}
	if !coordinator.VerifIdle() {
		w.fail("C27", "%s blocks the coordinator", what)
	}
	if d := diff(before, w.whole()); d != "" {
		w.fail("C27", "%s had an effect: %s", what, d)
	}
	w.silent(what)
}

// now and then
func (w *world) maybe(n int) {
	for w.c.Int(0, n, "pester") == 0 {
		w.pester()
	}
}

// deliverAmid is quiesce with hostile messages in between.
func (w *world) deliverAmid() {
	for len(w.queue) > 0 {
		w.deliver(w.pick())
		w.maybe(6)
	}
}

// newWorldAmid is newWorld with hostile messages in between.
func newWorldAmid(c *hx.Case, keep func(*sim), servers, fakes int) *world {
	w := netless(c, "C27")
	keep(w.sim)
	for i := 0; i < servers; i++ {
		n := w.addServer()
		w.maybe(2)
		w.registerServer(n)
		w.maybe(1)
		w.deliverAmid()
	}
	if fakes > 0 {
		w.addFakes(fakes)
	}
	w.configure()
	return w
}

// Histories in which hostile messages arrive at any time.
func TestC27_Hostile(t *testing.T) {
	run(t, "C27", 12, "at least ten hostile messages in at least two rounds in which honest clients posted and asked for bridges", func(c *hx.Case, keep func(*sim)) {
		w := newWorldAmid(c, keep, c.Int(1, 3, "servers"), c.Int(0, 3, "fakes"))
		for _, m := range w.members {
			m.in = true
		}
		w.fifo = c.Bool("fifo")
		rounds := c.Int(2, 4, "rounds")
		for r := 1; r <= rounds; r++ {
			w.maybe(1)
			w.beginRound()
			w.maybe(1)
			w.deliverAmid()
			w.opened()
			if r == 1 {
				for i, n := 0, c.Int(2, 4, "joins"); i < n; i++ {
					w.join()
					w.maybe(2)
				}
			}
			for i, n := 0, c.Int(1, 6, "ops"); i < n && r > 1; i++ {
				w.op()
				w.maybe(1)
				w.drift()
				if c.Int(0, 5, "joinNow") == 0 {
					w.join()
				}
				w.maybe(1)
			}
			w.deliverAmid()
			w.settled()
			w.votePhase()
			w.deliverAmid()
			for i, n := 0, c.Int(0, 3, "late ops"); i < n && r > 1; i++ {
				w.op()
				w.maybe(1)
			}
			for _, m := range w.active() {
				for i := range m.n.cl.Assignments {
					if c.Int(0, 2, "votes") > 0 {
						w.vote(m, i, 1-2*c.Int(0, 1, "down"))
						w.maybe(1)
					}
				}
			}
			if c.Int(0, 2, "before the end") > 0 {
				w.deliverAmid()
			}
			w.end(func(m *msg) {
				w.deliver(m)
				w.maybe(4)
			})
			w.deliverAmid()
			w.ended()
		}
		w.openRound()
		w.drain()
		c.Count("hostile messages", w.bad)
		w.stats()
		if w.bad >= 10 && w.posts > 0 && w.requests > 0 {
			c.NonTrivial("%s", w.story())
		}
	})
}
