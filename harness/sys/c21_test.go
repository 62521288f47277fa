package sys

import (
	"fmt"
	"testing"

	"zRep/proto"
	"zrepverif/hx"
)

// Posts, requests, votes and signatures that arrive between the end of a round and the
// next table.
func TestC21_Late(t *testing.T) {
	run(t, "C21", 14, "messages of at least three of the kinds post, request, signatures and vote arrived late", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C21", c.Int(2, 4, "clients"), stageOpts{1, 3, 2, 1}, keep)
		w.fifo = c.Bool("fifo")
		w.supply()
		var held []*msg
		kinds := map[string]bool{}
		slow := func(m *msg) bool {
			switch m.ev.EventType {
			case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.GOT_SIGNS, proto.SIGN_ASSIGNMENTS, proto.VOTE:
				if m.dst == w.co || m.ev.EventType == proto.SIGN_ASSIGNMENTS {
					if c.Int(0, 2, "slow") > 0 {
						held = append(held, m)
						return false
					}
				}
			}
			return true
		}
		act := w.active()
		for i, n := 0, c.Int(0, 3, "on time"); i < n; i++ {
			w.op()
			w.drift()
		}
		w.quiesce()
		w.settled()
		// from now on some messages are slow
		w.tap = slow
		for i, n := 0, c.Int(2, 6, "slow ops"); i < n; i++ {
			m := act[c.Int(0, len(act)-1, "who")]
			switch k := c.Int(0, 3, "op"); {
			case k == 0:
				w.post(m, w.newAddr())
			case k == 1 && m.rep > 0:
				w.request(m, w.askFor(m.rep))
			case len(m.n.cl.Assignments) > 0:
				w.vote(m, c.Int(0, len(m.n.cl.Assignments)-1, "bridge"), 1-2*c.Int(0, 1, "down"))
			default:
				w.post(m, w.plainAddr())
			}
			w.drift()
		}
		w.tap = nil
		w.votePhase()
		w.quiesce()
		if c.Bool("votes") {
			w.tap = slow
			for _, m := range act {
				for i := range m.n.cl.Assignments {
					w.vote(m, i, 1-2*c.Int(0, 1, "down"))
				}
			}
			w.tap = nil
			w.quiesce()
		}
		if c.Bool("registration in flight") { // the end of the round waits for it
			w.post(act[0], w.plainAddr())
			w.quiesce()
			w.join()
			w.some(c.Int(1, 3, "some"))
		}
		arrive := func(where string) {
			for i := 0; i < len(held); i++ {
				if c.Int(0, 3, "arrives") > 0 {
					continue
				}
				m := held[i]
				if c.Int(0, 2, "again") > 0 { // otherwise it comes once more
					held = append(held[:i:i], held[i+1:]...)
					i--
				}
				what := fmt.Sprintf("%v that arrives %s", m, where)
				if m.dst != w.co {
					w.note("late: %s", what)
					sent := w.capture(func() {
						w.code(what, func() { handle(m) })
					})
					for _, x := range sent {
						held = append(held, x)
					}
				} else {
					w.noEffect(m, "C21", "%s", what)
				}
				kinds[evName(m.ev.EventType)] = true
				c.Class(evName(m.ev.EventType) + " " + where)
			}
		}
		w.end(func(m *msg) {
			arrive("while the round is being closed")
			w.deliver(m)
		})
		w.ended()
		arrive("between the rounds")
		arrive("between the rounds")
		arrive("between the rounds")
		w.beginRound()
		for len(w.queue) > 0 {
			arrive("during the announcement")
			if w.co.co.Status == 3 {
				break
			}
			w.deliver(w.pick())
		}
		w.quiesce()
		w.opened()
		arrive("in the next round")
		held = nil
		// nothing of it comes to light in the next round
		for _, m := range w.active() {
			if len(m.n.cl.Assignments) > 0 {
				w.fail("C21 C07", "%s starts the round with a bridge", m.name)
			}
		}
		w.post(act[0], w.plainAddr())
		w.drain()
		w.stats()
		if len(kinds) > 2 {
			c.NonTrivial("%s", w.story())
		}
	})
}

// Clients that register at any point.
func TestC21_Joins(t *testing.T) {
	run(t, "C21", 12, "registrations arrived in at least two of the phases before the first announcement, announcement, closing and between rounds", func(c *hx.Case, keep func(*sim)) {
		w := newWorld(c, "C21", c.Int(1, 4, "servers"), c.Int(0, 2, "fakes"))
		keep(w.sim)
		for _, m := range w.members {
			m.in = true
		}
		w.fifo = c.Int(0, 3, "fifo") == 0
		phases := map[string]bool{}
		left := c.Tail(2, 7, 20, "clients")
		come := func(where string) {
			for left > 0 && c.Int(0, 2, "comes") == 0 {
				n := 1
				if c.Int(0, 5, "crowd") == 0 { // many at once
					n = c.Int(1, left, "at once")
				}
				for ; n > 0; n-- {
					w.join()
					left--
				}
				c.Class("registers " + where)
				phases[where] = true
				w.some(c.Int(0, 3, "some"))
			}
		}
		complete := func() {
			w.told()
			for _, m := range w.clients() {
				if m.n.cl.R == nil || m.n.cl.FujiOkamBase == nil {
					w.fail("C21", "the registration of %s did not complete", m.name)
				}
			}
		}
		rounds := c.Int(2, 4, "rounds")
		for r := 1; r <= rounds; r++ {
			switch {
			case r == 1:
				come("before the first announcement")
			default:
				come("between rounds")
			}
			if c.Bool("deliver") {
				w.quiesce()
			}
			w.beginRound()
			for n := c.Int(0, 4, "announcing"); n > 0; n-- {
				w.some(1)
				if w.co.co.Status == 2 {
					come("during the announcement")
				}
			}
			w.quiesce()
			w.opened()
			complete()
			for i, n := 0, c.Int(0, 4, "ops"); i < n && len(w.active()) > 0; i++ {
				come("in the posting phase")
				w.op()
				w.drift()
			}
			w.quiesce()
			w.settled()
			come("in the posting phase")
			w.votePhase()
			come("in the voting phase")
			w.some(c.Int(0, 4, "some"))
			at := c.Int(0, 6, "closing")
			come("right before the end")
			w.end(func(m *msg) {
				if at--; at >= 0 && w.co.co.Status != 3 {
					come("while the round is being closed")
				}
				for _, x := range w.queue { // unless it was delivered meanwhile
					if x == m {
						w.deliver(m)
						break
					}
				}
			})
			w.ended()
		}
		// two more rounds without anybody new: everybody is in
		for i := 0; i < 2; i++ {
			w.openRound()
			complete()
			if i == 0 {
				w.closeRound()
			}
		}
		for _, m := range w.clients() {
			if !m.in {
				w.fail("C21 C02", "%s is in no table", m.name)
			}
		}
		// and can take part
		if act := w.active(); len(act) > 1 {
			w.post(act[len(act)-1], w.plainAddr())
			w.post(act[0], w.plainAddr())
			w.drain()
		}
		w.stats()
		special := 0
		for _, p := range []string{"before the first announcement", "between rounds", "during the announcement", "right before the end", "while the round is being closed"} {
			if phases[p] {
				special++
			}
		}
		if special > 1 {
			c.NonTrivial("%s", w.story())
		}
	})
}
