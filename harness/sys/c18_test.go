package sys

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
	"zRep/proto"
	"zRep/util/shuffle"
	"zrepverif/hx"
)

// known tells whether a violation is listed in known-findings.txt, and reports it if so.
func known(prop, id string) bool {
	f, err := os.Open(os.Getenv("HX_KNOWN"))
	if err != nil {
		return false
	}
	defer f.Close()
	for s := bufio.NewScanner(f); s.Scan(); {
		if head := "finding: property=" + prop + " id=" + id + " "; strings.HasPrefix(s.Text(), head) {
			fmt.Fprintf(os.Stderr, "KNOWN-FINDING: property=%s %s: %s\n", prop, id, strings.TrimPrefix(s.Text(), head))
			return true
		}
	}
	return false
}

var hopLists = []string{"xbar", "ybar", "prev_keys", "prev_vals"}

// wrongHop makes a table message from a genuine one whose proof is missing or wrong.
func (w *world) wrongHop(m *msg, others []*msg) (map[string]interface{}, string) {
	c := w.c
	p := params(m)
	n := len(w.points(m.ev, "keys"))
	put := func(name string, l []*big.Int) { p[name] = encPoints(l) }
	for try := 0; ; try++ {
		what := ""
		k := c.Int(0, 17, "wrong")
		if try > 20 {
			k = 0
		}
		switch k {
		case 0:
			for _, f := range append([]string{"proof", "shuffled", "public_key"}, hopLists...) {
				delete(p, f)
			}
			what = "no proof at all"
			if m.ev.EventType == proto.ROUND_END && c.Bool("is_start") {
				p["is_start"] = true
				what += ", as if from the coordinator"
			}
			if m.ev.EventType == proto.ANNOUNCEMENT && c.Bool("no g") {
				delete(p, "g")
				what += ", as if from the coordinator"
			}
		case 1:
			delete(p, "shuffled")
			what = "not marked as shuffled"
			if m.ev.EventType == proto.ROUND_END && c.Bool("is_start") {
				p["is_start"] = c.Bool("start")
			}
			if c.Bool("also no proof") {
				delete(p, "proof")
			}
		case 2:
			p["shuffled"] = c.Bool("flag")
			p["proof"] = []byte{}
			what = "an empty proof"
		case 3, 4, 5:
			b := bytesOf(m.ev, "proof")
			out := append([]byte{}, b...)
			switch c.Int(0, 3, "how") {
			case 0:
				out = out[:c.Int(0, len(out)-1, "cut")]
				what = fmt.Sprintf("a proof cut to %d of %d bytes", len(out), len(b))
			case 1:
				at := c.Int(0, len(out)-1, "at")
				out[at] ^= byte(c.Int(1, 255, "xor"))
				what = fmt.Sprintf("a proof with byte %d of %d changed", at, len(b))
			case 2:
				for i := range out {
					out[i] = 0
				}
				what = "a proof of zeros"
			default:
				at := c.Int(0, len(out)-1, "at")
				out = append(out[:at:at], out[at+1:]...)
				what = fmt.Sprintf("a proof without byte %d", at)
			}
			p["proof"] = out
			if c.Bool("flag too") {
				p["shuffled"] = false
			}
		case 6:
			if len(others) == 0 {
				continue
			}
			p["proof"] = params(others[c.Int(0, len(others)-1, "other")])["proof"]
			what = "the proof of another table"
		case 7:
			if len(others) == 0 {
				continue
			}
			o := others[c.Int(0, len(others)-1, "other")]
			mask := c.Int(1, 15, "lists")
			for i, f := range hopLists {
				if mask>>uint(i)&1 == 1 {
					p[f] = params(o)[f]
					what += f + " "
				}
			}
			what += "of another table"
		case 8:
			var key *big.Int
			switch c.Int(0, 4, "key") {
			case 0:
				key = hx.Exp(hx.Gen, c.Full("x"))
			case 1:
				key = hx.Gen
			case 2:
				key = hx.I(w.ses[c.Int(0, len(w.ses)-1, "server")].se.PublicKey)
			case 3:
				key = hx.I(w.co.co.PublicKey)
			default:
				key = big.NewInt(1)
			}
			p["public_key"] = encPoint(key)
			what = "another public key"
		case 9:
			if c.Bool("empty") {
				p["public_key"] = []byte{}
			} else {
				p["public_key"] = []byte{3} // not in the group
			}
			what = "a public key that is not one"
		case 10:
			// honest proof about other lists than the sender's table
			h := hx.Pt(w.point(m.ev, "public_key"))
			size := c.Int(2, 4, "size")
			var X, Y []abstract.Point
			for i := 0; i < size; i++ {
				e, _ := c.Elem("Y")
				X, Y = append(X, h), append(Y, hx.Pt(e))
			}
			rand := hx.Suite().Cipher(abstract.RandomKey)
			_, _, prover, _, _ := shuffle.Shuffle(hx.Suite(), nil, h, X, Y, rand)
			prf, err := proof.HashProve(hx.Suite(), "PairShuffle", rand, prover)
			if err != nil {
				w.fail("C17", "no proof of a shuffle of %d: %v", size, err)
			}
			p["proof"] = prf
			what = "a proof about made-up lists"
		case 11, 12:
			// lists that were not shuffled at all
			k := c.Int(0, 3, "unshuffled")
			if k != 1 {
				p["ybar"] = params(m)["prev_vals"]
			}
			if k != 2 {
				p["xbar"] = params(m)["prev_keys"]
			}
			what = "lists that are not shuffled"
			if k == 3 { // and everything the same
				one := w.points(m.ev, "prev_keys")[0]
				if c.Bool("values") {
					one = w.points(m.ev, "prev_vals")[0]
				}
				var l []*big.Int
				for i := 0; i < n; i++ {
					l = append(l, one)
				}
				for _, f := range hopLists {
					put(f, l)
				}
				what = "lists of one element"
			}
			switch c.Int(0, 3, "proof") {
			case 0:
				delete(p, "proof")
				what += ", without a proof"
			case 1:
				p["proof"] = []byte{}
				what += ", an empty proof"
			case 2:
				if len(others) > 0 {
					p["proof"] = params(others[c.Int(0, len(others)-1, "other")])["proof"]
					what += ", another proof"
				}
			}
		default:
			f := hopLists[c.Int(0, 3, "list")]
			l := append([]*big.Int{}, w.points(m.ev, f)...)
			i := c.Int(0, n-1, "i")
			j := (i + c.Int(1, n-1, "j")) % n
			how := ""
			change := func(l []*big.Int, kind int) []*big.Int {
				switch kind {
				case 0:
					l[i], l[j] = l[j], l[i]
					how = fmt.Sprintf("entries %d and %d swapped", i, j)
				case 1:
					l[i] = l[j]
					how = fmt.Sprintf("entry %d replaced by entry %d", i, j)
				case 2:
					l[i] = hx.Mul(l[i], hx.Gen)
					how = fmt.Sprintf("entry %d times the generator", i)
				case 3:
					l[i] = hx.Exp(hx.Gen, c.Full("e"))
					how = fmt.Sprintf("entry %d replaced", i)
				case 4:
					l = append(l[:i:i], l[i+1:]...)
					how = fmt.Sprintf("entry %d left out", i)
				default:
					l = append(l, l[i])
					how = fmt.Sprintf("entry %d added once more", i)
				}
				return l
			}
			kind := c.Int(0, 5, "change")
			switch c.Int(0, 3, "lists") {
			case 0: // the same to the output pairs
				put("xbar", change(append([]*big.Int{}, w.points(m.ev, "xbar")...), kind))
				put("ybar", change(append([]*big.Int{}, w.points(m.ev, "ybar")...), kind))
				f = "xbar and ybar"
			case 1:
				put("prev_keys", change(append([]*big.Int{}, w.points(m.ev, "prev_keys")...), kind))
				put("prev_vals", change(append([]*big.Int{}, w.points(m.ev, "prev_vals")...), kind))
				f = "prev_keys and prev_vals"
			default:
				put(f, change(l, kind))
			}
			what = f + ": " + how
		}
		for _, f := range append([]string{"proof", "shuffled", "public_key"}, hopLists...) {
			if fmt.Sprintf("%x", p[f]) != fmt.Sprintf("%x", m.ev.Params[f]) && !(f == "shuffled" && p[f] != nil) {
				return p, what
			}
		}
		p = params(m)
	}
}

type serverState struct {
	st   map[string]string
	redo func()
}

func (w *world) saveServer(n *node) serverState {
	saved := *n.se
	keys := map[string]abstract.Point{}
	for k, v := range n.se.KeyMap {
		keys[k] = v
	}
	names := []string{"KeyMap", "Roundkey", "EndingKeyMap", "EndingCommMap", "G", "PedersenBase", "NextHop", "PreviousHop"}
	return serverState{fields(n.se, names...), func() {
		*n.se = saved
		n.se.KeyMap = map[string]abstract.Point{}
		for k, v := range keys {
			n.se.KeyMap[k] = v
		}
	}}
}

// refuses gives a server a table it must not pass on.
func (w *world) refuses(m *msg, p map[string]interface{}, what string) {
	n := m.dst
	before := w.saveServer(n)
	w.note("forged: %v with %s", m, what)
	f := w.inject(m.ev.SrcAddr, n, m.ev.EventType, p)
	w.unqueue(f)
	at := len(w.log)
	_, crashed := w.try("", func() { handle(f) })
	for _, x := range w.log[at:] {
		w.fail("C18", "%s was given a table with %s and sent %v", n.name, what, x)
	}
	if !crashed {
		if d := diff(before.st, w.saveServer(n).st); d != "" {
			w.fail("C18", "%s was given a table with %s and took it in: %s", n.name, what, d)
		}
	}
	before.redo()
	if crashed {
		w.c.Class("stops")
	}
}

func TestC18_Altered(t *testing.T) {
	run(t, "C18", 24, "tables of two or more entries went between servers in both directions, and each was also delivered with a missing or wrong proof", func(c *hx.Case, keep func(*sim)) {
		w := newWorld(c, "C18", c.Int(2, 4, "servers"), c.Int(0, 4, "fakes"))
		keep(w.sim)
		for _, m := range w.members {
			m.in = true
		}
		w.fifo = true
		wrong := map[int]int{}
		var done []*msg // earlier genuine tables with a proof
		finding := false
		deliver := func(m *msg) {
			ty := m.ev.EventType
			if m.src == nil || m.src.kind != kServer || m.dst.kind != kServer || ty != proto.ANNOUNCEMENT && ty != proto.ROUND_END {
				w.deliver(m)
				return
			}
			size := len(w.points(m.ev, "keys"))
			c.Class(fmt.Sprintf("tables of %d", size))
			if size > 1 {
				if len(done) > 0 && len(done) < 3 || c.Int(0, 2, "attack") > 0 {
					for i, k := 0, c.Int(1, 4, "wrongs"); i < k; i++ {
						p, what := w.wrongHop(m, done)
						w.refuses(m, p, what)
						c.Count("wrong tables", 1)
						wrong[ty]++
					}
				}
				if !finding && c.Int(0, 3, "exchange") == 0 {
					// the proof is about xbar, ybar: two participants' commitments exchanged
					p := params(m)
					vals := w.points(m.ev, "vals")
					if vals[0].Cmp(vals[1]) != 0 {
						vals[0], vals[1] = vals[1], vals[0]
						p["vals"] = encPoints(vals)
						before := w.saveServer(m.dst)
						f := w.inject(m.ev.SrcAddr, m.dst, ty, p)
						w.unqueue(f)
						sent := w.capture(func() { w.try("", func() { handle(f) }) })
						if len(sent) > 0 && !known("C18", "table-not-bound-to-proof") {
							w.fail("C18", "%s was given a table with two commitments exchanged after the shuffle and sent %v", m.dst.name, sent[0])
						}
						before.redo()
						finding = true
					}
				}
				done = append(done, m)
			}
			at := len(w.log)
			w.deliver(m)
			sent := w.log[at:]
			if len(sent) != 1 || sent[0].ev.EventType != ty {
				w.fail("C18", "%s was given an honest table of %d entries and did not pass it on", m.dst.name, size)
			}
		}
		all := func() {
			for len(w.queue) > 0 {
				deliver(w.pick())
			}
		}
		for r, rounds := 0, c.Int(1, 3, "rounds"); r < rounds; r++ {
			w.beginRound()
			all()
			w.opened()
			for i, k := 0, c.Int(0, 2, "joins"); i < k; i++ {
				w.join()
			}
			all()
			w.votePhase()
			all()
			w.end(deliver)
			w.ended()
		}
		w.beginRound()
		all()
		w.opened()
		if wrong[proto.ANNOUNCEMENT] > 0 && wrong[proto.ROUND_END] > 0 {
			c.NonTrivial("%d servers: %s", len(w.ses), w.story())
		}
	})
}
