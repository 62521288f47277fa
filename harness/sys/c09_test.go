package sys

import (
	"fmt"
	"math/big"
	"testing"

	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// signedFields are the signed parameters of each kind of message.
var signedFields = map[int][]string{
	proto.POST_BRIDGE:     {"bridge_addr", "nym"},
	proto.REQUEST_BRIDGES: {"ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"},
	proto.VOTE:            {"nym", "assignment", "signatures", "feedback"},
}

// genuine makes one real message of a kind and takes it out of the network.
func (w *world) genuine(typ int, m *member) *msg {
	var got []*msg
	switch typ {
	case proto.POST_BRIDGE:
		addr := w.newAddr()
		got = w.capture(func() { w.post(m, addr) })
	case proto.REQUEST_BRIDGES:
		if m.rep < 1 {
			return nil
		}
		ind := 1 + w.c.Int(0, m.rep-1, "ind")
		got = w.capture(func() { w.request(m, ind) })
	case proto.VOTE:
		if len(m.n.cl.Assignments) == 0 {
			return nil
		}
		at, fb := w.c.Int(0, len(m.n.cl.Assignments)-1, "bridge"), 1-2*w.c.Int(0, 1, "down")
		got = w.capture(func() { w.vote(m, at, fb) })
	}
	if len(got) != 1 || got[0].ev.EventType != typ {
		w.fail("C05 C08", "%s cannot send a %s", m.name, evName(typ))
	}
	return got[0]
}

// tamper alters a byte string; the result differs from it.
func tamper(c *hx.Case, b []byte, other []byte) ([]byte, string) {
	out := append([]byte{}, b...)
	for i := 0; ; i++ {
		k := c.Int(0, 5, "alteration")
		if i > 8 {
			k = 1
		}
		switch {
		case k == 0 && len(b) > 0:
			out[c.Int(0, len(b)-1, "at")] ^= byte(c.Int(1, 255, "xor"))
			return out, "a changed byte"
		case k == 1:
			return append(out, byte(c.Int(0, 255, "extra"))), "an extra byte"
		case k == 2 && len(b) > 0:
			return out[:len(b)-1], "the last byte missing"
		case k == 3 && len(b) > 0:
			return out[1:], "the first byte missing"
		case k == 4 && len(b) > 0:
			return []byte{}, "nothing"
		case k == 5 && other != nil && string(other) != string(b):
			return append([]byte{}, other...), "the one of another message"
		}
	}
}

// altered is like noEffect for a message whose encoding may be broken: the coordinator
// may give up on it, it may not act on it.
func (w *world) altered(m *msg, broken bool, props, format string, args ...interface{}) {
	if !broken {
		w.noEffect(m, props, format, args...)
		return
	}
	what := fmt.Sprintf(format, args...)
	w.note("forged: %s", what)
	before := w.tables()
	w.try(what, func() {
		w.unqueue(m)
		handle(m)
	})
	if d := diff(before, w.tables()); d != "" {
		w.fail(props, "%s had an effect: %s", what, d)
	}
	for _, x := range w.log {
		if x.step == w.steps && !x.forged {
			w.fail(props, "%s was answered with %v", what, x)
		}
	}
}

func TestC09_Altered(t *testing.T) {
	run(t, "C09", 24, "at least five altered or impersonated messages were delivered, of at least two kinds", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C09", c.Int(2, 3, "clients"), stageOpts{1, 2, 1, 2}, keep)
		var old []*msg // what clients signed in earlier rounds
		for _, m := range w.log[:w.start] {
			if signedFields[m.ev.EventType] != nil && m.dst == w.co && !m.forged {
				old = append(old, m)
			}
		}
		var oldBases []*big.Int
		for _, m := range w.log[:w.start] {
			if m.ev.EventType == proto.ANNOUNCEMENT_FINALIZE {
				oldBases = append(oldBases, w.point(m.ev, "g"))
			}
		}
		w.supply()
		// something is left to be assigned
		for i, act := 0, w.active(); i < 3; i++ {
			w.post(act[c.Int(0, len(act)-1, "provider")], w.plainAddr())
		}
		w.quiesce()
		if c.Bool("vote phase") {
			w.votePhase()
			w.quiesce()
		}
		kinds := map[int]bool{}
		n := 0
		var before []*msg // genuine ones of this round, taken out of the network
		for i, total := 0, c.Int(4, 14, "alterations"); i < total; i++ {
			act := w.active()
			m := act[c.Int(0, len(act)-1, "victim")]
			other := act[c.Int(0, len(act)-1, "other")]
			typ := []int{proto.POST_BRIDGE, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE, proto.VOTE}[c.Int(0, 4, "type")]
			g := w.genuine(typ, m)
			if g == nil {
				continue
			}
			p, from := params(g), g.ev.SrcAddr
			names := signedFields[typ]
			f := names[c.Int(0, len(names)-1, "field")]
			what, broken := "", false
			var donor *msg // another message with the same field
			for _, o := range append(append([]*msg{}, old...), before...) {
				if o.ev.EventType == typ && (donor == nil || c.Bool("donor")) {
					donor = o
				}
			}
			kind := c.Int(0, 9, "kind")
			switch kind {
			case 0, 1, 2: // one signed field
				switch f {
				case "bridge_addr":
					var o []byte
					if donor != nil {
						o = []byte(donor.ev.Params[f].(string))
					}
					b, how := tamper(c, []byte(p[f].(string)), o)
					p[f], what = string(b), how
				case "nym":
					nym := hx.Pt(m.nym)
					switch c.Int(0, 5, "nym") {
					case 0:
						nym = hx.Pt(other.nym)
					case 1:
						nym = hx.Pt(m.pub)
					case 2:
						e, _ := c.Elem("stranger")
						nym = hx.Pt(e)
					case 3:
						nym = hx.Pt(w.keys[c.Int(0, len(w.keys)-1, "entry")])
					case 4:
						nym = hx.Pt(new(big.Int).Mod(new(big.Int).Mul(m.nym, m.nym), hx.P))
					case 5:
						if donor == nil {
							continue
						}
						nym = hx.Pt(w.point(donor.ev, "nym"))
					}
					if hx.I(nym).Cmp(m.nym) == 0 {
						continue
					}
					p[f], what = util.EncodePoint(nym), "another one"
				case "ind":
					v := p[f].(int)
					p[f] = []int{v + 1, v - 1, v - 2, v + 1<<32, v + 1<<16, v + 256, 0, -v, v + 10}[c.Int(0, 8, "value")]
					what = fmt.Sprint(p[f])
				case "feedback":
					v := p[f].(int)
					p[f] = []int{-v, -v, v + 1<<32, v + 256, 2 * v, 0, v << 1}[c.Int(0, 6, "value")]
					what = fmt.Sprint(p[f])
				default:
					var o []byte
					if donor != nil {
						o = bytesOf(donor.ev, f)
					}
					p[f], what = tamper(c, p[f].([]byte), o)
					broken = true
				}
				what = "a " + evName(typ) + " with its " + f + " changed: " + what
			case 3: // the signature
				var o []byte
				// two messages may well say the same: then either signature is right
				if donor != nil && string(body(typ, donor.ev.Params)) != string(body(typ, p)) {
					o = bytesOf(donor.ev, "signature")
				}
				b := p["signature"].([]byte)
				p["signature"], what = tamper(c, b, o)
				if s := p["signature"].([]byte); len(s) > len(b) && string(s[:len(b)]) == string(b) {
					continue // bytes after its end are no part of a signature
				}
				what = "a " + evName(typ) + " with its signature changed: " + what
			case 4: // someone else's key
				x, who := other.x, other.name
				if other == m || c.Bool("made-up key") {
					x, who = c.Secret("key"), "a stranger"
				}
				p["signature"] = w.sign(x, w.g, body(typ, p))
				what = fmt.Sprintf("a %s of %s signed by %s", evName(typ), m.name, who)
			case 5: // the right key, another base
				base := []*big.Int{nil, big.NewInt(0)}[c.Int(0, 1, "none")]
				if len(oldBases) > 0 && c.Bool("old base") {
					base = oldBases[c.Int(0, len(oldBases)-1, "which")]
				}
				if base != nil && base.Cmp(w.g) == 0 {
					continue
				}
				p["signature"] = w.sign(m.x, base, body(typ, p))
				what = "a " + evName(typ) + " signed under another base than this round's"
			case 6: // moved bytes
				what, broken = move(c, typ, p)
				if what == "" {
					continue
				}
			case 7: // an earlier round
				if len(old) == 0 {
					continue
				}
				o := old[c.Int(0, len(old)-1, "old")]
				p, from, typ = params(o), o.ev.SrcAddr, o.ev.EventType
				what = "a " + evName(typ) + " of an earlier round"
				switch c.Int(0, 2, "freshened") {
				case 1:
					who := w.byNode(o.src)
					p["nym"] = util.EncodePoint(hx.Pt(who.nym))
					what += " under the present pseudonym"
				case 2:
					who := w.byNode(o.src)
					p["signature"] = w.sign(who.x, w.g, body(typ, p))
					what += " signed again under the present base"
				}
			case 8: // a signature of another kind of message
				o := w.genuine([]int{proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE}[c.Int(0, 2, "signed")], m)
				if o == nil || o.ev.EventType == typ {
					continue
				}
				p["signature"] = bytesOf(o.ev, "signature")
				what = fmt.Sprintf("a %s with the signature of a %s", evName(typ), evName(o.ev.EventType))
			case 9: // consistent other content
				switch typ {
				case proto.VOTE:
					if len(m.n.cl.Assignments) > 1 {
						o := w.genuine(typ, m)
						if string(bytesOf(o.ev, "assignment")) == string(p["assignment"].([]byte)) {
							p["signatures"] = util.Encode2DByteArray(w.endorse(p["assignment"].([]byte)))
							what = "a VOTE with other signatures of the nodes"
						} else {
							p["assignment"], p["signatures"] = bytesOf(o.ev, "assignment"), bytesOf(o.ev, "signatures")
							what = "a VOTE made over to another assignment"
						}
					} else {
						p["signatures"] = util.Encode2DByteArray(w.endorse(p["assignment"].([]byte)))
						what = "a VOTE with other signatures of the nodes"
					}
				case proto.REQUEST_BRIDGES:
					o := w.genuine(typ, m)
					for _, k := range names {
						p[k] = o.ev.Params[k]
					}
					what = "a REQUEST_BRIDGES with the content of another"
				default:
					p["bridge_addr"] = w.plainAddr()
					what = "a POST_BRIDGE of another address"
				}
			}
			c.Class(fmt.Sprintf("%s kind %d", evName(typ), kind))
			kinds[typ] = true
			before = append(before, g)
			w.altered(w.inject(from, w.co, typ, p), broken, "C09", "%s", what)
			n++
		}
		w.drain()
		if n > 4 && len(kinds) > 1 {
			c.NonTrivial("%s", w.story())
		}
	})
}

// move shifts bytes from one signed field to the next one.
func move(c *hx.Case, typ int, p map[string]interface{}) (string, bool) {
	names := signedFields[typ]
	i := c.Int(0, len(names)-2, "boundary")
	a, b := names[i], names[i+1]
	if b == "feedback" {
		return "", false
	}
	get := func(f string) []byte {
		switch v := p[f].(type) {
		case string:
			return []byte(v)
		case []byte:
			return v
		case int:
			return []byte(fmt.Sprint(v))
		}
		return nil
	}
	x, y := get(a), get(b)
	k := c.Int(1, 3, "bytes")
	back := c.Bool("back")
	if back {
		if len(y) < k {
			return "", false
		}
		x, y = append(append([]byte{}, x...), y[:k]...), y[k:]
	} else {
		if len(x) < k {
			return "", false
		}
		x, y = x[:len(x)-k], append(append([]byte{}, x[len(x)-k:]...), y...)
	}
	set := func(f string, v []byte) bool {
		switch p[f].(type) {
		case string:
			p[f] = string(v)
		case []byte:
			p[f] = v
		case int:
			n := 0
			if _, err := fmt.Sscanf(string(v), "%d", &n); err != nil || fmt.Sprint(n) != string(v) {
				return false
			}
			p[f] = n
		}
		return true
	}
	if !set(a, x) || !set(b, y) {
		return "", false
	}
	return fmt.Sprintf("a %s with %d bytes moved between %s and %s", evName(typ), k, a, b), true
}

// A post whose address ends with zero bytes, and the pseudonym that begins with them.
func TestC09_Boundary(t *testing.T) {
	run(t, "C09", 4, "bytes were moved from the address to the pseudonym or back without changing the pseudonym", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C09", 2, stageOpts{1, 1, 0, 0}, keep)
		for i := 0; i < 6; i++ {
			act := w.active()
			m := act[c.Int(0, len(act)-1, "victim")]
			k := c.Int(1, 3, "zeros")
			addr := w.plainAddr()
			zeros := string(make([]byte, k))
			if c.Bool("back") {
				// a pseudonym with leading zero bytes, made by the client itself
				g := w.capture(func() { w.post(m, addr) })
				p := params(g[0])
				p["nym"] = append([]byte(zeros), p["nym"].([]byte)...)
				p["signature"] = w.sign(m.x, w.g, body(proto.POST_BRIDGE, p))
				p["nym"] = p["nym"].([]byte)[k:]
				p["bridge_addr"] = addr + zeros
				w.altered(w.inject(g[0].ev.SrcAddr, w.co, proto.POST_BRIDGE, p), true, "C09", "a post with zero bytes moved to the address")
				continue
			}
			g := w.capture(func() { w.post(m, addr+zeros) })
			p := params(g[0])
			p["bridge_addr"] = addr
			p["nym"] = append([]byte(zeros), p["nym"].([]byte)...)
			w.altered(w.inject(g[0].ev.SrcAddr, w.co, proto.POST_BRIDGE, p), true, "C09", "a post with zero bytes moved to the pseudonym")
		}
		c.NonTrivial("%s", w.story())
		w.drain()
	})
}
