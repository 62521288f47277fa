package sys

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

func TestC08_History(t *testing.T) {
	o := histOpts
	o.maxOps = 14
	run(t, "C08", 12, "at least two votes were accepted", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C08", o, keep)
		w.stats()
		if w.accepted > 1 {
			c.NonTrivial("%d servers, %d votes accepted: %s", len(w.ses), w.accepted, w.story())
		}
	})
}

// sign makes a signature with a private key the harness knows.
func (w *world) sign(x, base *big.Int, msg []byte) []byte {
	var b abstract.Point
	if base != nil {
		b = hx.Suite().Point()
		if base.Sign() != 0 {
			b = hx.Pt(base)
		}
	}
	return util.ElGamalSign(hx.Suite(), hx.Suite().Cipher(w.c.Bytes(4, 8, "nonce")), msg, hx.Sec(x), b)
}

// endorse is the list of every node's signature on an assignment.
func (w *world) endorse(enc []byte) [][]byte {
	var l [][]byte
	for _, n := range w.ses {
		l = append(l, w.sign(hx.S(n.se.PrivateKey), nil, enc))
	}
	return append(l, w.sign(hx.S(w.co.co.PrivateKey), nil, enc))
}

// holders are the clients that hold assignments.
func (w *world) holders() []*member {
	var out []*member
	for _, m := range w.active() {
		if len(m.n.cl.Assignments) > 0 {
			out = append(out, m)
		}
	}
	return out
}

// supply gets bridges of at least one provider to other clients.
func (w *world) supply() {
	act := w.active()
	for i, n := 0, w.c.Int(2, 6, "posts"); i < n; i++ {
		w.post(act[w.c.Int(0, len(act)-1, "provider")], w.plainAddr())
	}
	w.quiesce()
	asked := 0
	for _, m := range act {
		if m.rep > 0 && (asked == 0 || w.c.Bool("asks")) {
			w.request(m, 1+w.c.Int(0, m.rep-1, "ind"))
			asked++
		}
	}
	w.quiesce()
	w.settled()
}

func TestC08_Invalid(t *testing.T) {
	run(t, "C08", 16, "at least one invalid vote was delivered while the same assignment could be voted on validly", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C08", c.Int(2, 4, "clients"), stageOpts{1, 3, 1, 1}, keep)
		var old []*msg // genuine votes of an earlier round
		for _, m := range w.log {
			if m.ev.EventType == proto.VOTE && m.dst == w.co {
				old = append(old, m)
			}
		}
		oldNyms := w.keysOfEarlierRounds()
		w.supply()
		if c.Bool("late joiner") {
			w.join()
			w.quiesce()
		}
		if c.Bool("vote phase") {
			w.votePhase()
			w.quiesce()
		}
		hs := w.holders()
		if len(hs) == 0 {
			return
		}
		bad := 0
		kinds := ""
		for i, n := 0, c.Int(1, 8, "invalid votes"); i < n; i++ {
			m := hs[c.Int(0, len(hs)-1, "voter")]
			at := c.Int(0, len(m.n.cl.Assignments)-1, "bridge")
			fb := 1 - 2*c.Int(0, 1, "down")
			g := w.capture(func() { w.vote(m, at, fb) })
			if len(g) != 1 {
				w.fail("C08", "%s cannot vote on a bridge it was given", m.name)
			}
			genuine := g[0]
			p := params(genuine)
			from := genuine.ev.SrcAddr
			a := bridge.DecodeAssignment(p["assignment"].([]byte))
			sigs := util.Decode2DByteArray(p["signatures"].([]byte))
			resign := func(x *big.Int) {
				p["signatures"] = util.Encode2DByteArray(sigs)
				p["signature"] = w.sign(x, w.g, bridge.MessageOfVote(p))
			}
			act := w.active()
			other := act[c.Int(0, len(act)-1, "other")]
			if other == m {
				other = nil
			}
			k := c.Int(0, len(sigs)-1, "node")
			kind := c.Int(0, 22, "kind")
			name := ""
			switch kind {
			case 0:
				p["feedback"] = []int{0, 2, -2, 3, 100, -100, 1<<32 + 1, 1<<32 - 1, -1 << 31, 257, -257}[c.Int(0, 10, "value")]
				name = fmt.Sprintf("feedback %d", p["feedback"])
				resign(m.x)
			case 1:
				if other == nil {
					continue
				}
				name = "a vote signed by another client"
				resign(other.x)
			case 2:
				if other == nil {
					continue
				}
				name = "a vote by another client than the requester"
				p["nym"] = util.EncodePoint(hx.Pt(other.nym))
				resign(other.x)
			case 3:
				name = "a changed byte in the signature of a node"
				sigs[k] = append([]byte{}, sigs[k]...)
				sigs[k][c.Int(0, len(sigs[k])-1, "at")] ^= byte(c.Int(1, 255, "xor"))
				resign(m.x)
			case 4:
				name = "the signature of a node is missing"
				sigs = append(sigs[:k:k], sigs[k+1:]...)
				resign(m.x)
			case 5:
				name = "no signatures of nodes"
				sigs = nil
				resign(m.x)
			case 6:
				name = "a node's signature by someone else"
				sigs[k] = w.sign(m.x, nil, p["assignment"].([]byte))
				resign(m.x)
			case 7:
				name = "two nodes' signatures swapped"
				j := c.Int(0, len(sigs)-1, "other node")
				if j == k {
					continue
				}
				sigs[j], sigs[k] = sigs[k], sigs[j]
				resign(m.x)
			case 8:
				if other == nil {
					continue
				}
				name = "another provider in the assignment"
				if a.Nym.Equal(hx.Pt(other.nym)) {
					continue
				}
				a.Nym = hx.Pt(other.nym)
				p["assignment"] = bridge.EncodeAssignment(a)
				resign(m.x)
			case 9:
				name = "another address in the assignment"
				a.Addr += "x"
				p["assignment"] = bridge.EncodeAssignment(a)
				resign(m.x)
			case 10:
				if other == nil || len(other.n.cl.Assignments) == 0 {
					continue
				}
				name = "the assignment of another client, made over to oneself"
				o := other.n.cl.Assignments[0]
				b := *o.Assignment
				b.NymR = hx.Pt(m.nym)
				p["assignment"] = bridge.EncodeAssignment(&b)
				sigs = util.Decode2DByteArray(o.ByteSignatures)
				resign(m.x)
			case 11:
				name = "a signature under another base"
				p["signature"] = w.sign(m.x, nil, bridge.MessageOfVote(p))
			case 12:
				if len(old) == 0 {
					continue
				}
				name = "a vote of an earlier round"
				o := old[c.Int(0, len(old)-1, "old")]
				p, from = params(o), o.ev.SrcAddr
			case 13:
				if len(old) == 0 {
					continue
				}
				name = "an assignment of an earlier round"
				o := old[c.Int(0, len(old)-1, "old")]
				voter := w.byNode(o.src)
				p["assignment"], p["signatures"] = bytesOf(o.ev, "assignment"), bytesOf(o.ev, "signatures")
				p["nym"] = util.EncodePoint(hx.Pt(voter.nym))
				p["signature"] = w.sign(voter.x, w.g, bridge.MessageOfVote(p))
			case 14:
				name = "a provider that is not in the table, endorsed by every node"
				switch c.Int(0, 2, "who") {
				case 0:
					_, e := c.Elem("stranger")
					a.Nym = hx.Pt(hx.Exp(w.g, e))
				case 1:
					a.Nym = hx.Pt(oldNyms[c.Int(0, len(oldNyms)-1, "old nym")])
				case 2:
					late := w.latecomer()
					if late == nil {
						continue
					}
					a.Nym = hx.Pt(hx.Exp(w.g, late.x))
				}
				p["assignment"] = bridge.EncodeAssignment(a)
				sigs = w.endorse(p["assignment"].([]byte))
				resign(m.x)
			case 15:
				name = "a voter that is not in the table"
				x := c.Secret("stranger")
				if late := w.latecomer(); late != nil {
					x = late.x
				}
				a.NymR = hx.Pt(hx.Exp(w.g, x))
				p["nym"] = util.EncodePoint(a.NymR)
				p["assignment"] = bridge.EncodeAssignment(a)
				sigs = w.endorse(p["assignment"].([]byte))
				resign(x)
			case 20, 21, 22:
				name = "a list made up of signatures of nodes"
				genuine := append([][]byte{}, sigs...)
				var others [][]byte // the same nodes' signatures on another assignment
				for _, h := range hs {
					for _, o := range h.n.cl.Assignments {
						if o.Assignment.Addr != a.Addr {
							others = util.Decode2DByteArray(o.ByteSignatures)
						}
					}
				}
				own := w.sign(m.x, nil, p["assignment"].([]byte))
				same := c.Int(0, 4, "fill")
				// the last place is the coordinator's own
				places := len(sigs)
				if c.Int(0, 5, "the last place too") < 5 {
					places--
					if k == places {
						k = c.Int(0, places-1, "node")
					}
				}
				for i := range sigs[:places] {
					if kind == 20 { // one of them for all
						sigs[i] = genuine[k]
						continue
					}
					switch c.Int(0, 6, fmt.Sprint("place", i)) {
					case 0, 1, 2:
						if kind == 22 && same < len(genuine) {
							sigs[i] = genuine[same]
						}
					case 3:
						sigs[i] = genuine[c.Int(0, len(genuine)-1, "from")]
					case 4:
						if others != nil {
							sigs[i] = others[i]
						}
					case 5:
						sigs[i] = own
					case 6:
						sigs[i] = []byte{}
					}
				}
				if c.Int(0, 5, "longer") == 5 {
					sigs = append(sigs, genuine[k])
				}
				if fmt.Sprint(sigs) == fmt.Sprint(genuine) {
					continue
				}
				resign(m.x)
			case 18:
				name = "the feedback turned after signing"
				p["feedback"] = -fb
			case 19:
				if other == nil {
					continue
				}
				name = "the voter changed after signing"
				p["nym"] = util.EncodePoint(hx.Pt(other.nym))
			case 16, 17:
				name = "a second vote on the same assignment"
				if gr := w.grants[a.Addr]; gr == nil || !gr.voted {
					genuine.forged = false
					w.queue = append(w.queue, genuine)
					w.quiesce()
				}
				if kind == 17 {
					name += ", the other way"
					p["feedback"] = -fb
					resign(m.x)
				}
			}
			c.Class(name)
			kinds += fmt.Sprint(" ", kind)
			w.noEffect(w.inject(from, w.co, proto.VOTE, p), "C08", "%s", name)
			bad++
		}
		w.drain()
		w.stats()
		if bad > 0 {
			c.NonTrivial("%d servers, kinds%s: %s", len(w.ses), kinds, w.story())
		}
	})
}

// latecomer is a client that registered but is not in the table yet.
func (w *world) latecomer() *member {
	for _, m := range w.clients() {
		if !m.in {
			return m
		}
	}
	return nil
}

// keysOfEarlierRounds are the pseudonyms published before this round.
func (w *world) keysOfEarlierRounds() []*big.Int {
	var out []*big.Int
	for _, m := range w.log[:w.start] {
		if m.ev.EventType == proto.ANNOUNCEMENT_FINALIZE {
			out = append(out, w.points(m.ev, "keys")...)
		}
	}
	if len(out) == 0 {
		out = append(out, hx.Gen)
	}
	return out
}

// body is the signed part of a client's message.
func body(typ int, p map[string]interface{}) []byte {
	switch typ {
	case proto.POST_BRIDGE:
		return bridge.MessageOfPostBridge(p)
	case proto.REQUEST_BRIDGES:
		return bridge.MessageOfRequestBridges(p)
	}
	return bridge.MessageOfVote(p)
}
