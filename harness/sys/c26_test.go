package sys

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"testing"

	"zRep/primitive/fujiokam"
	pf "zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

// shown26 collects what the coordinator and the servers see of the requests of a history.
type shown26 struct {
	w     *world
	seen  *forge.Shown
	n     int
	reps  map[int]bool
	ds    map[int]bool
	fo    map[string]string
	extra map[string]*extra26
}

// extra26 is a parameter that the protocol does not know: it must not follow the secrets.
type extra26 struct{ rep, d bool }

func number(v interface{}) *big.Int {
	switch x := v.(type) {
	case int:
		return big.NewInt(int64(x))
	case []byte:
		return new(big.Int).SetBytes(x)
	case string:
		if i, err := strconv.Atoi(x); err == nil {
			return big.NewInt(int64(i))
		}
	}
	return nil
}

func (s *shown26) request(x *msg) {
	w := s.w
	m := w.byNode(x.src)
	ind, _ := x.ev.Params["ind"].(int)
	d := m.rep - ind
	r := hx.S(m.n.cl.R)
	base := m.n.cl.FujiOkamBase
	what := fmt.Sprintf("request %d (%s, reputation %d, asks for %d)", s.n, m.name, m.rep, ind)
	s.n++
	must := func(e string) {
		if e != "" {
			w.fail("C26", "%s", e)
		}
	}
	var nn *fujiokam.ARGnonneg
	var eq *pf.ARGequal
	msg, crashed := hx.Panics(func() {
		nn, eq = util.DecodeARGnonneg(bytesOf(x.ev, "arg_nonneg")), util.DecodeARGequal(bytesOf(x.ev, "arg_equal"))
	})
	if crashed {
		w.fail("C05 C26", "%s cannot be decoded: %s", what, msg)
	}
	rind := new(big.Int).SetBytes(bytesOf(x.ev, "rind"))
	rd := new(big.Int).Sub(r, rind)
	fo := new(big.Int).SetBytes(bytesOf(x.ev, "FOCommd"))
	must(s.seen.Blinding("PCommind of "+what, rind))
	// what the asked-for number's randomness leaves of the published commitment's
	must(s.seen.Blinding("PCommd of "+what, rd.Mod(rd, hx.Q)))
	for _, k := range []string{"PCommind", "PCommd"} {
		must(s.seen.Point(k+" of "+what, w.point(x.ev, k)))
	}
	must(s.seen.Point("FOCommd of "+what, fo))
	D := big.NewInt(int64(d))
	must(s.seen.Nonneg(what, base, D, nn))
	must(s.seen.Equal(what, base, D, rd, eq))
	// g1^d h^r: equal blindings show as an equal rest
	rest := forge.MulN(base.N, fo, forge.ExpN(&base.G1.V, big.NewInt(int64(-d)), base.N))
	near := forge.Cp(rest)
	for i := 0; i < 8; i++ {
		if o := s.fo[string(near.Bytes())]; o != "" {
			w.fail("C26", "FOCommd of %s and of %s use one blinding", what, o)
		}
		near = forge.MulN(base.N, near, &base.H1.V)
	}
	s.fo[string(rest.Bytes())] = what
	if rest.Cmp(big.NewInt(1)) == 0 {
		w.fail("C26", "FOCommd of %s is not blinded", what)
	}
	s.reps[m.rep], s.ds[d] = true, true
	for k, v := range x.ev.Params {
		switch k {
		case "ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal", "signature":
			continue
		}
		n := number(v)
		e := s.extra[k]
		if e == nil {
			e = &extra26{true, true}
			s.extra[k] = e
		}
		if n == nil {
			e.rep, e.d = false, false
			continue
		}
		e.rep = e.rep && n.Cmp(big.NewInt(int64(m.rep))) == 0
		e.d = e.d && n.Cmp(D) == 0
		for what, secret := range map[string]*big.Int{"the opening of the published commitment": r, "the opening of PCommd": rd, "the private key": m.x} {
			if n.Cmp(secret) == 0 {
				w.fail("C26", "a request carries %s as %q", what, k)
			}
		}
	}
}

func TestC26_Requests(t *testing.T) {
	run(t, "C26", 24, "history with several requests of several clients over one to three rounds; all requests seen on the wire together must not show more than that the reputation suffices: no mask or blinding twice or near another, none too short, no parameter that follows the reputation; non-trivial: three or more requests", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C26", c.Int(1, 4, "clients"), stageOpts{1, 2, 2, 2}, keep)
		s := &shown26{w: w, seen: forge.NewShown(), reps: map[int]bool{}, ds: map[int]bool{}, fo: map[string]string{}, extra: map[string]*extra26{}}
		for r, rounds := 0, c.Int(1, 3, "rounds"); r < rounds; r++ {
			act := w.active()
			for i, n := 0, c.Int(2, 7, "steps"); i < n; i++ {
				m := act[c.Int(0, len(act)-1, "who")]
				if c.Int(0, 3, "what") == 0 {
					w.post(m, w.plainAddr())
				} else if m.rep >= 0 {
					at := len(w.log)
					w.request(m, w.askFor(m.rep))
					for _, x := range w.since(at, proto.REQUEST_BRIDGES) {
						s.request(x)
					}
				}
				w.drift()
			}
			w.quiesce()
			for _, m := range act {
				for i := range m.n.cl.Assignments {
					w.vote(m, i, 1-2*c.Int(0, 1, "down"))
				}
			}
			w.closeRound()
			w.openRound()
		}
		var ks []string
		for k := range s.extra {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if e := s.extra[k]; e.rep && len(s.reps) > 1 {
				w.fail("C26", "the parameter %q of every request is the reputation", k)
			} else if e.d && len(s.ds) > 1 {
				w.fail("C26", "the parameter %q of every request is the difference to the reputation", k)
			}
		}
		c.Count("requests", s.n)
		if s.n >= 3 {
			c.NonTrivial("%d requests, reputations %v, differences %v", s.n, s.reps, s.ds)
		}
	})
}
