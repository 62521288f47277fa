package sys

import (
	"fmt"
	"testing"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

func TestC07_History(t *testing.T) {
	o := histOpts
	o.maxOps = 14
	run(t, "C07", 12, "an assignment was released in a network of at least two servers", func(c *hx.Case, keep func(*sim)) {
		w := history(c, "C07", o, keep)
		w.stats()
		if w.granted > 0 && len(w.ses) > 1 {
			c.NonTrivial("%d servers, %d granted: %s", len(w.ses), w.granted, w.story())
		}
	})
}

// Signatures on their way from the servers to the coordinator are altered, doubled,
// reordered, held back, mixed up and made up.
func TestC07_Tampered(t *testing.T) {
	run(t, "C07", 14, "at least one altered or made-up signature message was delivered while assignments were waiting", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C07", c.Int(2, 3, "clients"), stageOpts{1, 3, 1, 1}, keep)
		act := w.active()
		// genuine signature messages of earlier rounds
		var old []*msg
		for _, m := range w.log {
			if m.ev.EventType == proto.GOT_SIGNS && m.dst == w.co {
				old = append(old, m)
			}
		}
		for i, n := 0, c.Int(2, 6, "posts"); i < n; i++ {
			w.post(act[c.Int(0, len(act)-1, "provider")], w.plainAddr())
		}
		w.quiesce()
		var asking []*member
		for _, m := range act {
			if m.rep > 0 && len(asking) < 2 {
				asking = append(asking, m)
				w.request(m, w.askFor(m.rep))
			}
		}
		// up to the servers' answers
		var genuine []*msg
		w.tap = func(m *msg) bool {
			if m.ev.EventType == proto.GOT_SIGNS && m.dst == w.co {
				genuine = append(genuine, m)
				return false
			}
			return true
		}
		w.quiesce()
		if c.Bool("repeat") { // while the assignments wait for their signatures
			for i, n := 0, c.Int(1, 3, "repeats"); i < n; i++ {
				w.repeat()
			}
			w.quiesce()
		}
		w.tap = nil
		if len(genuine) == 0 {
			c.Class("nothing assigned")
			return
		}
		forgeries := 0
		kinds := ""
		for i, n := 0, c.Int(1, 8, "forgeries"); i < n; i++ {
			src := genuine[c.Int(0, len(genuine)-1, "of")]
			p := params(src)
			from := src.ev.SrcAddr
			sigs := util.Decode2DByteArray(p["signatures"].([]byte))
			list := bridge.DecodeAssignmentList(p["assignments"].([]byte))
			k := c.Int(0, len(sigs)-1, "sig")
			kind := c.Int(0, 15, "kind")
			name := ""
			put := func() {
				p["signatures"] = util.Encode2DByteArray(sigs)
				p["assignments"] = bridge.EncodeAssignmentList(list)
			}
			sign := func(n *node, base interface{}) {
				enc := bridge.EncodeAssignment(&list[k])
				if base == nil {
					sigs[k] = util.ElGamalSign(hx.Suite(), hx.Suite().Cipher(c.Bytes(1, 8, "nonce")), enc, n.se.PrivateKey, nil)
				} else {
					sigs[k] = util.ElGamalSign(hx.Suite(), hx.Suite().Cipher(c.Bytes(1, 8, "nonce")), enc, n.se.PrivateKey, hx.Suite().Point())
				}
			}
			switch kind {
			case 0:
				name = "a changed byte in a signature"
				sigs[k][c.Int(0, len(sigs[k])-1, "at")] ^= byte(c.Int(1, 255, "xor"))
				put()
			case 1:
				name = "an empty signature"
				sigs[k] = []byte{}
				put()
			case 2:
				name = "a signature too few"
				sigs = append(sigs[:k:k], sigs[k+1:]...)
				put()
			case 3:
				name = "the signatures of two assignments swapped"
				j := c.Int(0, len(sigs)-1, "other")
				if string(list[j].Addr) == list[k].Addr {
					continue
				}
				sigs[k], sigs[j] = sigs[j], sigs[k]
				put()
			case 4:
				name = "another server as the sender"
				from = w.ses[c.Int(0, len(w.ses)-1, "from")].addr.String()
			case 5:
				name = "a client as the sender"
				from = act[c.Int(0, len(act)-1, "from")].n.addr.String()
			case 6:
				name = "the coordinator as the sender"
				from = w.co.addr.String()
			case 7:
				name = "an unknown sender"
				from = "127.0.0.1:9"
			case 8:
				name = "a signature on another address"
				list[k].Addr = list[k].Addr + "x"
				sign(src.src, nil)
				put()
			case 9:
				name = "a signature on another requester"
				list[k].NymR = hx.Pt(act[c.Int(0, len(act)-1, "requester")].nym)
				sign(src.src, nil)
				put()
			case 10:
				name = "a signature on another provider"
				list[k].Nym = hx.Pt(act[c.Int(0, len(act)-1, "provider")].nym)
				sign(src.src, nil)
				put()
			case 11:
				name = "a signature by another server"
				sign(w.ses[c.Int(0, len(w.ses)-1, "signer")], nil)
				put()
			case 12:
				name = "a signature under the point 0"
				sign(src.src, 0)
				put()
			case 13:
				name = "a failure reported"
				p["success"] = false
			case 14:
				name = "the signatures of an earlier round"
				if len(old) == 0 {
					continue
				}
				o := old[c.Int(0, len(old)-1, "old")]
				p, from = params(o), o.ev.SrcAddr
			case 15:
				name = "the same message again"
			}
			c.Class(name)
			kinds += fmt.Sprintf(" %d", kind)
			w.note("forged: %s", name)
			w.inject(from, w.co, proto.GOT_SIGNS, p)
			forgeries++
			if c.Bool("deliver") {
				w.quiesce()
			}
			if len(genuine) > 1 && c.Int(0, 3, "genuine too") == 0 {
				g := genuine[0]
				genuine = genuine[1:]
				w.queue = append(w.queue, g)
			}
		}
		w.queue = append(w.queue, genuine...)
		w.fifo = false
		w.quiesce()
		w.settled()
		// what was released can be voted on
		for _, m := range w.active() {
			for i := range m.n.cl.Assignments {
				w.vote(m, i, 1)
			}
		}
		w.closeRound()
		w.openRound()
		if forgeries > 0 {
			c.NonTrivial("%d servers, forgeries%s: %s", len(w.ses), kinds, w.story())
		}
	})
}

// A delivery altered on its way to the client is not recorded.
func TestC07_Client(t *testing.T) {
	run(t, "C07", 6, "an altered delivery reached the client it was for", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C07", 2, stageOpts{1, 2, 0, 0}, keep)
		act := w.active()
		for i := 0; i < 3; i++ {
			w.post(act[0], w.plainAddr())
		}
		w.quiesce()
		m := act[1]
		w.request(m, 3)
		var genuine []*msg
		w.tap = func(x *msg) bool {
			if x.ev.EventType == proto.GOT_SIGNS && x.dst == m.n {
				genuine = append(genuine, x)
				return false
			}
			return true
		}
		w.quiesce()
		w.tap = nil
		if len(genuine) != 3 {
			w.fail("C05", "%d of 3 assignments were released", len(genuine))
		}
		late := append([]*msg{}, genuine...) // still to be delivered
		held := func() string { return fields(m.n.cl, "Assignments")["Assignments"] }
		for i := 0; i < 14; i++ {
			if len(late) > 0 && c.Int(0, 5, "genuine") == 0 {
				k := c.Int(0, len(late)-1, "which")
				w.deliver(late[k])
				late = append(late[:k:k], late[k+1:]...)
				if len(m.n.cl.Assignments) != len(genuine)-len(late) {
					w.fail("C07 C05", "%s holds %d of %d delivered assignments", m.name, len(m.n.cl.Assignments), len(genuine)-len(late))
				}
				c.Class(fmt.Sprint("altered ones after genuine ones"))
				continue
			}
			k := c.Int(0, 2, "of")
			g, o := genuine[k], genuine[(k+1+c.Int(0, 1, "other"))%3]
			p := params(g)
			name := ""
			switch c.Int(0, 10, "kind") {
			case 9:
				name = "everything made up by a stranger"
				x := hx.Sec(c.Full("stranger's key"))
				a := bridge.DecodeAssignment(p["assignment"].([]byte))
				if c.Bool("own bridge") {
					a.Addr = "x" + a.Addr
				}
				p["assignment"] = bridge.EncodeAssignment(a)
				one := util.ElGamalSign(hx.Suite(), hx.Suite().Cipher([]byte{3}), bridge.EncodeAssignment(a), x, nil)
				l := util.Decode2DByteArray(p["signatures"].([]byte))
				for j := range l {
					l[j] = one
				}
				p["signatures"] = util.Encode2DByteArray(l)
				p["signature"] = util.ElGamalSign(hx.Suite(), hx.Suite().Cipher([]byte{4}), bridge.MessageOfGotSignatures(p), x, nil)
			case 10:
				name = "no signature of the coordinator"
				p["signature"] = []byte{}
			case 8:
				name = "bytes moved from the assignment to the signatures"
				a, l := p["assignment"].([]byte), p["signatures"].([]byte)
				at := c.Int(0, len(a)-1, "at")
				p["assignment"], p["signatures"] = a[:at:at], append(append([]byte{}, a[at:]...), l...)
			case 0:
				name = "a changed byte of the assignment's address"
				a := bridge.DecodeAssignment(p["assignment"].([]byte))
				a.Addr = "x" + a.Addr
				p["assignment"] = bridge.EncodeAssignment(a)
			case 1:
				name = "another provider"
				a := bridge.DecodeAssignment(p["assignment"].([]byte))
				a.Nym = hx.Pt(m.nym)
				p["assignment"] = bridge.EncodeAssignment(a)
			case 2:
				name = "another assignment"
				p["assignment"] = bytesOf(o.ev, "assignment")
			case 3:
				name = "the signatures of another assignment"
				p["signatures"] = bytesOf(o.ev, "signatures")
			case 4:
				name = "the coordinator's signature of another delivery"
				p["signature"] = bytesOf(o.ev, "signature")
			case 5:
				name = "a changed byte in the coordinator's signature"
				s := p["signature"].([]byte)
				s[c.Int(0, len(s)-1, "at")] ^= byte(c.Int(1, 255, "xor"))
			case 6:
				name = "a signature left out"
				l := util.Decode2DByteArray(p["signatures"].([]byte))
				p["signatures"] = util.Encode2DByteArray(l[1:])
			case 7:
				name = "a signature by a server instead of the coordinator"
				n := w.ses[c.Int(0, len(w.ses)-1, "signer")]
				p["signature"] = util.ElGamalSign(hx.Suite(), hx.Suite().Cipher([]byte{1, 2}), bridge.MessageOfGotSignatures(p), n.se.PrivateKey, nil)
			}
			c.Class(name)
			before := held()
			f := w.inject(w.co.addr.String(), m.n, proto.GOT_SIGNS, p)
			w.note("altered on its way to %s: %s", m.name, name)
			w.deliver(f)
			if held() != before {
				w.fail("C07", "%s recorded a delivery with %s", m.name, name)
			}
		}
		for _, g := range late {
			w.deliver(g)
		}
		w.settled()
		c.NonTrivial("%s", w.story())
	})
}
