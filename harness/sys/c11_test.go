package sys

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// sigOf is one signature somebody emitted, solved for its nonce with the signer's key.
type sigOf struct {
	signer string
	what   string
	raw    []byte
	msg    []byte
	x      *big.Int
	base   *big.Int // nil: the generator
	v      *big.Int
}

// emitted lists every genuine signature on the wire.
func (w *world) emitted() []sigOf {
	var out []sigOf
	add := func(m *msg, n string, x, base *big.Int, text, raw []byte) {
		var b abstract.Point
		pub := hx.Exp(hx.Gen, x)
		if base != nil {
			b, pub = hx.Pt(base), hx.Exp(base, x)
		}
		if util.ElGamalVerify(hx.Suite(), text, hx.Pt(pub), raw, b) != nil {
			w.fail("C07 C08 C09", "%v carries a signature of %s that does not verify", m, n)
		}
		l := hx.Suite().SecretLen()
		ch, r := new(big.Int).SetBytes(raw[:l]), new(big.Int).SetBytes(raw[l:2*l])
		v := new(big.Int).Mul(x, ch)
		v.Add(v, r).Mod(v, hx.Q)
		out = append(out, sigOf{n, fmt.Sprintf("%v at step %d", m, m.step), raw, text, x, base, v})
	}
	var g *big.Int
	for _, m := range w.log {
		if m.forged {
			continue
		}
		switch m.ev.EventType {
		case proto.ANNOUNCEMENT_FINALIZE:
			g = w.point(m.ev, "g")
		case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE:
			if m.dst != w.co {
				continue // the announcement of the voting phase
			}
			add(m, m.src.name, hx.S(m.src.cl.PrivateKey), g, body(m.ev.EventType, m.ev.Params), bytesOf(m.ev, "signature"))
		case proto.GOT_SIGNS:
			if m.dst == w.co {
				sigs := util.Decode2DByteArray(bytesOf(m.ev, "signatures"))
				list := bridge.DecodeAssignmentList(bytesOf(m.ev, "assignments"))
				for i := range list {
					if i < len(sigs) {
						add(m, m.src.name, hx.S(m.src.se.PrivateKey), nil, bridge.EncodeAssignment(&list[i]), sigs[i])
					}
				}
				continue
			}
			x := hx.S(w.co.co.PrivateKey)
			sigs := util.Decode2DByteArray(bytesOf(m.ev, "signatures"))
			add(m, "coordinator", x, nil, bytesOf(m.ev, "assignment"), sigs[len(sigs)-1])
			add(m, "coordinator", x, nil, bridge.MessageOfGotSignatures(m.ev.Params), bytesOf(m.ev, "signature"))
		}
	}
	return out
}

// near tells whether two numbers are close modulo the order.
func near(a, b *big.Int, bits int) bool {
	d := new(big.Int).Sub(a, b)
	d.Mod(d, hx.Q)
	return d.BitLen() < bits || new(big.Int).Sub(hx.Q, d).BitLen() < bits
}

// guesses is what an observer would try for the nonce of a signature.
func (w *world) guesses(s sigOf) map[string]*big.Int {
	out := map[string]*big.Int{}
	seed := func(what string, b []byte) {
		if b != nil {
			out["drawn from a cipher keyed with "+what] = hx.S(hx.Suite().Secret().Pick(hx.Suite().Cipher(b)))
		}
	}
	pub := hx.Exp(hx.Gen, s.x)
	for _, t := range []string{"", "example", "random", "nonce", "seed", "zRep", "test", s.signer} {
		seed(fmt.Sprintf("%q", t), []byte(t))
	}
	seed("the message", s.msg)
	seed("the signer's public key", pub.Bytes())
	h := hx.Suite().Hash()
	h.Write(s.msg)
	d := h.Sum(nil)
	seed("a hash of the message", d)
	out["a hash of the message"] = new(big.Int).Mod(new(big.Int).SetBytes(d), hx.Q)
	if s.base != nil {
		seed("the base", s.base.Bytes())
		seed("the pseudonym", hx.Exp(s.base, s.x).Bytes())
	}
	for i := 0; i < 16; i++ {
		seed(fmt.Sprint("the byte ", i), []byte{byte(i)})
		seed(fmt.Sprint("the digits ", i), []byte(fmt.Sprint(i)))
	}
	c := hx.Suite().Cipher(append([]byte{}, pub.Bytes()...))
	c.Message(nil, nil, s.msg)
	out["drawn from a cipher over public key and message"] = hx.S(hx.Suite().Secret().Pick(c))
	out["the private key"] = s.x
	l := hx.Suite().SecretLen()
	ch := new(big.Int).SetBytes(s.raw[:l])
	out["the challenge"] = ch
	return out
}

// unpredictable checks every pair and every signature.
func (w *world) unpredictable(sigs []sigOf) {
	seen := map[string]sigOf{}
	last := map[string][]sigOf{}
	for _, s := range sigs {
		if near(s.v, new(big.Int), 400) {
			w.fail("C11", "the nonce of %s's signature in %s is a small number", s.signer, s.what)
		}
		if o, dup := seen[s.v.String()]; dup && !(bytes.Equal(o.raw, s.raw) && o.signer == s.signer) {
			w.fail("C11", "%s's signature in %s has the same nonce as %s's in %s: the private key follows from the two", s.signer, s.what, o.signer, o.what)
		}
		seen[s.v.String()] = s
		for _, o := range last[s.signer] {
			if bytes.Equal(o.raw, s.raw) {
				continue
			}
			for k := int64(-4); k <= 4; k++ {
				if k != 0 && near(s.v, new(big.Int).Mul(o.v, big.NewInt(k)), 300) {
					w.fail("C11", "the nonce of %s's signature in %s is %d times that of %s plus a small number", s.signer, s.what, k, o.what)
				}
			}
		}
		last[s.signer] = append(last[s.signer], s)
	}
	for i, s := range sigs {
		if i > 40 && i%8 != 0 {
			continue
		}
		g := w.guesses(s)
		for _, k := range hx.Sorted(g) {
			if s.v.Cmp(new(big.Int).Mod(g[k], hx.Q)) == 0 {
				w.fail("C11", "the nonce of %s's signature in %s is %s", s.signer, s.what, k)
			}
		}
	}
}

func c11History(c *hx.Case, keep func(*sim)) (*world, []sigOf) {
	o := histOpts
	o.maxOps = 10
	w := history(c, "C11", o, keep)
	sigs := w.emitted()
	w.unpredictable(sigs)
	return w, sigs
}

func TestC11_History(t *testing.T) {
	run(t, "C11", 8, "at least ten signatures were emitted, by a client, a server and the coordinator", func(c *hx.Case, keep func(*sim)) {
		w, sigs := c11History(c, keep)
		w.stats()
		by := map[string]bool{}
		for _, s := range sigs {
			by[strings.TrimRight(s.signer, "0123456789")] = true
		}
		c.Count("signatures", len(sigs))
		if len(sigs) >= 10 && len(by) == 3 {
			c.NonTrivial("%d signatures: %s", len(sigs), w.story())
		}
	})
}

// The same signer signs one message several times, then the same messages under the same
// state with another random source.
func TestC11_Again(t *testing.T) {
	run(t, "C11", 6, "a client signed the same thing twice in one state, under two random sources, and so did a server and the coordinator", func(c *hx.Case, keep func(*sim)) {
		w := stage(c, "C11", 2, stageOpts{1, 2, 1, 1}, keep)
		act := w.active()
		m, o := act[c.Int(0, len(act)-1, "who")], act[0]
		if o == m {
			o = act[1]
		}
		signed := 0
		for i, n := 0, c.Int(2, 4, "times"); i < n; i++ {
			if c.Bool("other source") {
				c.NewEntropy()
			}
			w.capture(func() { w.post(m, "same:1") })
			if m.rep > 0 {
				w.capture(func() { w.request(m, 1) })
			}
		}
		w.post(o, "it:1")
		w.quiesce()
		if m.rep > 0 {
			var asks []*msg
			w.tap = func(x *msg) bool {
				if x.ev.EventType == proto.SIGN_ASSIGNMENTS {
					asks = append(asks, x)
					return false
				}
				return true
			}
			w.request(m, 1)
			w.quiesce()
			w.tap = nil
			for _, a := range asks {
				for i, n := 0, c.Int(2, 3, "asked"); i < n; i++ {
					c.NewEntropy()
					if i == 0 {
						w.deliver(a)
					} else { // only the first answer goes through
						w.capture(func() { w.deliver(a) })
					}
					signed++
				}
			}
			w.quiesce()
			for i := range m.n.cl.Assignments {
				for j := 0; j < 2; j++ {
					c.NewEntropy()
					w.capture(func() { w.vote(m, i, 1) })
				}
			}
		}
		sigs := w.emitted()
		w.unpredictable(sigs)
		c.Count("signatures", len(sigs))
		if signed > 0 {
			c.NonTrivial("%d signatures: %s", len(sigs), w.story())
		}
	})
}

// Separate runs of the programs have no nonce in common.
func TestC11_Restart(t *testing.T) {
	exe, err := os.Executable()
	if err != nil {
		hx.Infra("%v", err)
	}
	run(t, "C11", 1, "two separate processes, with different random sources, each emitted at least ten signatures", func(c *hx.Case, keep func(*sim)) {
		first := map[string]string{}
		counts := []int{}
		for i := 0; i < 2; i++ {
			dir, err := os.MkdirTemp(scratch, "restart")
			if err != nil {
				hx.Infra("%v", err)
			}
			cmd := exec.Command(exe, "-test.run", "^TestC11_Child$", "-test.timeout", "0")
			cmd.Dir = dir
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "HX_") {
					cmd.Env = append(cmd.Env, e)
				}
			}
			cmd.Env = append(cmd.Env, "HX_SEED="+fmt.Sprint(c.Int(0, 1<<40, "seed")), "HX_SHARD="+fmt.Sprint(i), "HX_CHILD="+dir, "HX_TMP="+dir)
			text, err := cmd.CombinedOutput()
			b, err2 := os.ReadFile(filepath.Join(dir, "nonces"))
			if err != nil || err2 != nil {
				if strings.Contains(string(text), "--- FAIL") {
					c.Fatalf("a separate process failed:\n%s", text)
				}
				hx.Infra("child: %v %v %s", err, err2, text)
			}
			var l [][2]string
			json.Unmarshal(b, &l)
			for _, e := range l {
				if was, dup := first[e[0]]; dup && i == 1 {
					c.Fatalf("two separate runs used the same nonce: %s, and %s", was, e[1])
				}
			}
			for _, e := range l {
				first[e[0]] = e[1]
			}
			counts = append(counts, len(l))
		}
		c.Count("signatures", counts[0]+counts[1])
		if counts[0] > 9 && counts[1] > 9 {
			c.NonTrivial("%v signatures", counts)
		}
	})
}

func TestC11_Child(t *testing.T) {
	dir := os.Getenv("HX_CHILD")
	if dir == "" {
		t.Skip("only started by TestC11_Restart")
	}
	var l [][2]string
	run(t, "C11", 4, "-", func(c *hx.Case, keep func(*sim)) {
		_, sigs := c11History(c, keep)
		for _, s := range sigs {
			l = append(l, [2]string{s.v.String(), s.signer + " " + s.what})
		}
	})
	b, _ := json.Marshal(l)
	if err := os.WriteFile(filepath.Join(dir, "nonces"), b, 0o644); err != nil {
		hx.Infra("%v", err)
	}
}
