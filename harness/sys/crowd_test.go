package sys

import (
	"testing"

	"zrepverif/hx"
)

// Crowds: many servers, placeholders and clients, and numbers beyond those of the
// ordinary histories; few cases, since each is long.

var crowdOpts = options{minServers: 2, maxServers: 4, maxFakes: 6, minRounds: 2, maxRounds: 3, minJoins: 8, maxJoins: 16, maxOps: 24}

func crowd(t *testing.T, decides string) {
	run(t, decides, 1, "at least nine clients joined in one round and some request was granted", func(c *hx.Case, keep func(*sim)) {
		w := history(c, decides, crowdOpts, keep)
		w.stats()
		c.Count("clients", len(w.clients()))
		c.Count("servers", len(w.ses))
		if w.granted > 0 {
			c.NonTrivial("%d servers, %d members, %d granted, %d votes: %s", len(w.ses), len(w.members), w.granted, w.accepted, w.story())
		}
	})
}

func TestC01_Crowd(t *testing.T) { crowd(t, "C01") }
func TestC02_Crowd(t *testing.T) { crowd(t, "C02") }
func TestC05_Crowd(t *testing.T) { crowd(t, "C05") }
func TestC06_Crowd(t *testing.T) { crowd(t, "C06") }
func TestC07_Crowd(t *testing.T) { crowd(t, "C07") }

// deep is a round in which one client is granted so many bridges of another one, a few
// at a time, that the votes on them leave what fits in a byte; then, in later rounds,
// the provider asks for as many at once, and the votes may go the other way.
func deep(t *testing.T, decides string) {
	run(t, decides, 1, "a tally or a request beyond 127 was made, and a later round was published", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, decides, 2, stageOpts{1, 1, 1, 0}, keep)
		act := w.active()
		prov, req := act[0], act[1]
		n := []int{128, 129, 130, 140, 256, 257, 260}[c.Int(0, 6, "bridges")]
		fb := 1
		if c.Int(0, 3, "down") == 3 {
			fb = -1
		}
		fill := func(from *member) {
			for i := 0; i < n; i++ {
				w.post(from, w.plainAddr())
			}
			w.quiesce()
		}
		voteAll := func(m *member, fb int) {
			for i := range m.n.cl.Assignments {
				w.vote(m, i, fb)
			}
		}
		fill(prov)
		for w.free() > 0 {
			ind := req.rep
			if f := w.free(); f < ind && c.Bool("exactly") {
				ind = f
			}
			w.request(req, ind)
			w.quiesce()
		}
		w.settled()
		voteAll(req, fb)
		w.closeRound()
		w.openRound()
		big := 0
		if prov.rep > 127 {
			fill(req)
			big = n
			if big > prov.rep {
				big = prov.rep
			}
			w.request(prov, big)
			w.quiesce()
			w.settled()
			voteAll(prov, -fb)
			w.closeRound()
			w.openRound()
		}
		w.stats()
		c.NonTrivial("%d bridges, feedback %+d, %d asked for at once: reputations %d and %d", n, fb, big, prov.rep, req.rep)
	})
}

func TestC01_Deep(t *testing.T) { deep(t, "C01") }
func TestC05_Deep(t *testing.T) { deep(t, "C05") }
func TestC08_Deep(t *testing.T) { deep(t, "C08") }

// together is many clients that register at once, at any point of the protocol, so that
// their registrations and their challenges are under way at the same time.
func together(t *testing.T, decides string) {
	run(t, decides, 2, "at least seven clients registered at once", func(c *hx.Case, keep func(*sim)) {
		w := newWorld(c, decides, c.Int(1, 3, "servers"), c.Int(0, 2, "fakes"))
		keep(w.sim)
		for _, m := range w.members {
			m.in = true
		}
		w.fifo = c.Bool("fifo")
		n := c.Tail(7, 18, 40, "clients")
		phases := []string{"before the first announcement", "in the first round", "when the voting starts", "between two rounds", "during the second announcement", "in the second round"}
		phase := c.Int(0, len(phases)-1, "phase")
		c.Class(phases[phase])
		all := func(at int) {
			if at != phase {
				return
			}
			w.note("%d clients register %s", n, phases[at])
			for i := 0; i < n; i++ {
				w.join()
				if c.Int(0, 3, "meanwhile") == 0 {
					w.some(c.Int(1, 5, "some"))
				}
			}
		}
		all(0)
		if c.Bool("deliver") {
			w.quiesce()
		}
		w.openRound()
		all(1)
		if c.Bool("one more") {
			w.join()
			w.quiesce()
		}
		w.votePhase()
		all(2)
		w.some(c.Int(0, 10, "some"))
		w.endRound()
		w.quiesce()
		w.ended()
		all(3)
		w.some(c.Int(0, 10, "some"))
		w.beginRound()
		w.some(c.Int(0, 3, "announcing"))
		all(4)
		w.quiesce()
		w.opened()
		all(5)
		for r := 0; r < 2; r++ {
			w.quiesce()
			w.told()
			w.closeRound()
			w.openRound()
		}
		w.told()
		for _, m := range w.clients() {
			if !m.in || m.n.cl.R == nil {
				w.fail("C21 C02", "%s, which registered %s, is in no table", m.name, phases[phase])
			}
		}
		if act := w.active(); len(act) > 1 {
			w.post(act[0], w.plainAddr())
			w.post(act[len(act)-1], w.plainAddr())
			w.drain()
		}
		c.NonTrivial("%d servers, %d clients %s", len(w.ses), n, phases[phase])
	})
}

func TestC21_Together(t *testing.T) { together(t, "C21") }
func TestC02_Together(t *testing.T) { together(t, "C02") }
func TestC15_Together(t *testing.T) { together(t, "C15") }

// wide is a round in which a client whose reputation is well above the starting credit
// asks for many bridges of several providers at once, while others ask too.
func wide(t *testing.T, decides string) {
	run(t, decides, 2, "a request for at least seven bridges was granted bridges of at least two providers", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, decides, c.Int(3, 5, "clients"), stageOpts{1, 3, 2, 0}, keep)
		act := w.active()
		at := c.Int(0, len(act)-1, "star")
		star, fan := act[at], act[(at+1)%len(act)]
		n := c.Int(4, 16, "bridges")
		for i := 0; i < n; i++ {
			w.post(star, w.plainAddr())
		}
		w.quiesce()
		for w.free() > 0 {
			w.request(fan, fan.rep)
			w.quiesce()
		}
		for i := range fan.n.cl.Assignments {
			w.vote(fan, i, 1)
		}
		w.closeRound()
		w.openRound()
		w.fifo = c.Bool("in order")
		for i, k := 0, c.Int(6, 24, "posts"); i < k; i++ {
			w.post(act[c.Int(0, len(act)-1, "provider")], w.plainAddr())
		}
		w.quiesce()
		free := w.free()
		for i, k := 0, c.Int(1, 3, "requests"); i < k; i++ {
			if c.Bool("others") {
				m := act[c.Int(0, len(act)-1, "requester")]
				w.request(m, w.askFor(m.rep))
			}
			w.request(star, c.Int(star.rep/2+1, star.rep, "ind"))
			w.drift()
		}
		w.quiesce()
		w.settled()
		from := map[*member]bool{}
		for _, g := range w.grants {
			if g.requester == star {
				from[g.provider] = true
			}
		}
		got := len(star.n.cl.Assignments)
		for _, m := range act {
			for i := range m.n.cl.Assignments {
				if c.Int(0, 5, "votes") > 0 {
					w.vote(m, i, 1-2*c.Int(0, 1, "down"))
				}
			}
		}
		w.closeRound()
		w.openRound()
		w.stats()
		if got > 6 && len(from) > 1 {
			c.NonTrivial("%d servers, %d clients, reputation %d: %d of %d bridges, of %d providers", len(w.ses), len(act), star.rep, got, free, len(from))
		}
	})
}

func TestC05_Wide(t *testing.T) { wide(t, "C05") }
func TestC06_Wide(t *testing.T) { wide(t, "C06") }
func TestC07_Wide(t *testing.T) { wide(t, "C07") }
func TestC08_Wide(t *testing.T) { wide(t, "C08") }
func TestC23_Wide(t *testing.T) { wide(t, "C23") }
