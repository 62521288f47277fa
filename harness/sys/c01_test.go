package sys

import (
	"math/big"
	"testing"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zrepverif/hx"
)

var histOpts = options{maxServers: 3, maxFakes: 2, minRounds: 2, maxRounds: 4, maxJoins: 2, maxOps: 10}

// stats counts what a history did.
func (w *world) stats() {
	c := w.c
	c.Count("rounds", w.round)
	c.Count("votes accepted", w.accepted)
	c.Count("requests", w.requests)
	c.Count("granted", w.granted)
	c.Count("contended requests", w.contended)
	c.Count("messages", len(w.log))
	for _, m := range w.clients() {
		switch {
		case m.rep < 0:
			c.Class("negative reputation")
		case m.rep > 5:
			c.Class("reputation above 5")
		case m.rep < 5:
			c.Class("reputation below 5")
		}
	}
}

func TestC01_History(t *testing.T) {
	run(t, "C01", 14, "at least one vote was accepted and a later round was published", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C01", histOpts, keep)
		w.stats()
		if w.accepted > 0 {
			c.NonTrivial("%d servers, %d rounds, %d votes accepted: %s", len(w.ses), w.round, w.accepted, w.story())
		}
	})
}

// Many votes in one direction, so that reputations leave the usual range.
func TestC01_Far(t *testing.T) {
	run(t, "C01", 5, "a reputation of at most 0 or at least 10 was published", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C01", c.Int(2, 4, "clients"), stageOpts{1, 2, 2, 0}, keep)
		for r, rounds := 0, c.Int(2, 4, "voting rounds"); r < rounds; r++ {
			if r > 0 {
				w.openRound()
			}
			act := w.active()
			prov := act[c.Int(0, 1, "provider")]
			for i := 0; i < 8; i++ {
				w.post(prov, w.plainAddr())
			}
			w.quiesce()
			for _, m := range act {
				if m.rep > 0 {
					w.request(m, m.rep)
				}
			}
			w.quiesce()
			w.settled()
			fb := []int{1, -1}[c.Int(0, 1, "direction")]
			for _, m := range act {
				for i := range m.n.cl.Assignments {
					w.vote(m, i, fb)
				}
			}
			w.closeRound()
		}
		w.openRound()
		w.stats()
		for _, m := range w.clients() {
			if m.rep <= 0 || m.rep >= 10 {
				c.NonTrivial("%s has %d: %s", m.name, m.rep, w.story())
			}
		}
	})
}

func TestC02_History(t *testing.T) {
	o := histOpts
	o.maxFakes, o.maxJoins, o.maxRounds, o.maxOps = 4, 3, 5, 3
	run(t, "C02", 14, "a client joined in a later round than another, and a round with both was published", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C02", o, keep)
		w.stats()
		if w.joinRounds() > 1 {
			c.NonTrivial("%d servers, %d rounds, %d members: %s", len(w.ses), w.round, len(w.members), w.story())
		}
	})
}

func TestC05_History(t *testing.T) {
	o := histOpts
	o.maxOps = 14
	run(t, "C05", 20, "some request was granted at least one bridge", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C05", o, keep)
		w.stats()
		if w.granted > 0 {
			c.NonTrivial("%d servers, %d granted, %d contended: %s", len(w.ses), w.granted, w.contended, w.story())
		}
	})
}

// Every size of request a reputation allows, in one round.
func TestC05_Sizes(t *testing.T) {
	run(t, "C05", 6, "every number of bridges from 0 to the reputation was asked for and granted", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C05", c.Int(2, 3, "clients"), stageOpts{1, 3, 1, 2}, keep)
		act := w.active()
		m := act[c.Int(0, len(act)-1, "requester")]
		if m.rep < 0 {
			return
		}
		need := m.rep * (m.rep + 1) / 2
		for i := 0; i < need; i++ {
			w.post(act[c.Int(0, len(act)-1, "provider")], w.plainAddr())
		}
		w.quiesce()
		for k := 0; k <= m.rep; k++ {
			w.request(m, k)
		}
		w.fifo = c.Bool("in order")
		w.quiesce()
		w.settled()
		if w.granted < need || len(m.n.cl.Assignments) != need {
			w.fail("C05", "%s (reputation %d) asked for %d bridges in all and holds %d", m.name, m.rep, need, len(m.n.cl.Assignments))
		}
		c.Class("done")
		if m.rep > 0 {
			c.NonTrivial("reputation %d, %d servers, %d clients", m.rep, len(w.ses), len(act))
		}
	})
}

func TestC06_History(t *testing.T) {
	o := histOpts
	o.maxOps = 14
	run(t, "C06", 12, "a request was granted, and either some request found too few bridges or bridges of two providers were assigned", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C06", o, keep)
		w.stats()
		if w.granted > 0 && (w.contended > 0 || w.providers() > 1) {
			c.NonTrivial("%d servers, %d granted, %d contended: %s", len(w.ses), w.granted, w.contended, w.story())
		}
	})
}

// Addresses posted again: by the same client or another one, before or after they were
// assigned, and those of an earlier round.
func TestC06_Reposts(t *testing.T) {
	run(t, "C06", 10, "an address was posted again after it was assigned, then asked for again", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C06", c.Int(2, 4, "clients"), stageOpts{1, 2, 1, 1}, keep)
		act := w.active()
		any := func(label string) *member { return act[c.Int(0, len(act)-1, label)] }
		addrs := []string{"r0", "r1", "r2"}
		again, story := 0, ""
		for r, rounds := 0, c.Int(1, 2, "rounds"); r < rounds; r++ {
			if r > 0 {
				w.openRound()
			}
			for i, n := 0, c.Int(2, 8, "steps"); i < n; i++ {
				if c.Bool("post") {
					a := addrs[c.Int(0, len(addrs)-1, "addr")]
					p := any("provider")
					if w.pool[a] != nil && w.pool[a].used {
						again++
					}
					w.post(p, a)
				} else if m := any("requester"); m.rep > 0 {
					w.request(m, c.Int(1, m.rep, "ind"))
				}
				if c.Bool("deliver") {
					w.quiesce()
				}
			}
			w.quiesce()
			w.settled()
			for _, m := range act {
				if m.rep > 0 {
					w.request(m, m.rep)
				}
			}
			w.quiesce()
			for _, m := range act {
				for i := range m.n.cl.Assignments {
					w.vote(m, i, 1)
				}
			}
			story = w.story()
			w.closeRound()
		}
		w.openRound()
		w.stats()
		if again > 0 {
			c.NonTrivial("%d servers, %d posted again: %s", len(w.ses), again, story)
		}
	})
}

// Posts under pseudonyms that are not in the table: nobody could be credited for them.
func TestC06_Strangers(t *testing.T) {
	run(t, "C06", 8, "a well-signed post under a pseudonym that is not in the table was delivered, and bridges were asked for afterwards", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C06", 2, stageOpts{1, 2, 1, 1}, keep)
		for i, n := 0, c.Int(1, 6, "posts"); i < n; i++ {
			x, who := c.Secret("stranger"), "a stranger"
			base := w.g
			switch c.Int(0, 3, "who") {
			case 0:
				m := w.join()
				w.quiesce()
				x, who = m.x, "a client that registered in this round"
			case 1:
				m := w.active()[0]
				x, who = new(big.Int).Mod(new(big.Int).Neg(m.x), hx.Q), "the inverse of a pseudonym"
			case 2:
				old := w.keysOfEarlierRounds()
				p := map[string]interface{}{"bridge_addr": w.plainAddr(), "nym": encPoint(old[c.Int(0, len(old)-1, "old")])}
				p["signature"] = w.sign(w.active()[0].x, w.g, bridge.MessageOfPostBridge(p))
				w.noEffect(w.inject(w.active()[0].n.addr.String(), w.co, proto.POST_BRIDGE, p), "C06", "a post under a pseudonym of an earlier round")
				continue
			}
			nym := hx.Exp(base, x)
			if w.byNym(nym) != nil {
				continue
			}
			p := map[string]interface{}{"bridge_addr": w.plainAddr(), "nym": encPoint(nym)}
			p["signature"] = w.sign(x, base, bridge.MessageOfPostBridge(p))
			w.noEffect(w.inject("127.0.0.1:9", w.co, proto.POST_BRIDGE, p), "C06", "a post by %s", who)
		}
		w.supply()
		w.drain()
		w.stats()
		c.NonTrivial("%s", w.story())
	})
}
