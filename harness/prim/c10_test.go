package prim

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/util"
	"zrepverif/hx"
)

// base draws the base a signature is made with: the standard one or a round's base.
func sigBase(c *hx.Case, label string) (abstract.Point, *big.Int) {
	if c.Int(0, 2, label+"Kind") == 0 {
		return nil, hx.Gen
	}
	g, _ := c.Elem(label)
	return hx.Pt(g), g
}

// sigBaseFull draws a base whose logarithm nobody could guess.
func sigBaseFull(c *hx.Case, label string) (abstract.Point, *big.Int) {
	if c.Int(0, 2, label+"Kind") == 0 {
		return nil, hx.Gen
	}
	g := hx.Exp(hx.Gen, c.Full(label))
	return hx.Pt(g), g
}

func drawMsg(c *hx.Case, label string) []byte {
	switch c.Int(0, 14, label+"Kind") {
	case 0:
		return []byte{}
	case 12, 13, 14: // text, with blanks at the ends
		var b []byte
		for i := c.Int(1, 40, label+"Letters"); i > 0; i-- {
			b = append(b, " \taAbBzZ019.:;,/=\r\n\x00"[c.Int(0, 18, label+"Letter")])
		}
		return b
	case 3, 4: // around the sizes of blocks and buffers
		n := []int{16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16385,
			32768, 65535, 65536, 65537, 100000}[c.Int(0, 30, label+"Size")] + c.Int(0, 2, label+"More")
		b := c.Full(label + "Fill").Bytes()
		c.Class("long message")
		return bytes.Repeat(b, n/len(b)+1)[:n]
	case 1:
		return bytes.Repeat([]byte{byte(c.Int(0, 255, label))}, c.Int(1, 700, label+"len"))
	case 2:
		return c.Bytes(100, 400, label)
	}
	return c.Bytes(1, 80, label)
}

// changed draws a message different from m.
func changed(c *hx.Case, m []byte, label string) ([]byte, string) {
	n := append([]byte{}, m...)
	k := c.Int(0, 12, label+"How")
	if len(m) == 0 && k > 1 && k != 8 {
		k = 0
	}
	switch k {
	case 8:
		return append(n, " \n\r\t\x00"[c.Int(0, 4, label+"Blank")]), "blank at the end"
	case 9:
		return append([]byte{" \n\r\t\x00"[c.Int(0, 4, label+"Blank")]}, n...), "blank in front"
	case 10:
		i, j := c.Int(0, len(n)-1, label+"At"), c.Int(0, len(n)-1, label+"With")
		n[i], n[j] = n[j], n[i]
		return n, "two bytes exchanged"
	case 11:
		for i := range n {
			n[i] = m[len(m)-1-i]
		}
		return n, "reversed"
	case 12:
		if c.Bool(label + "Lower") {
			return bytes.ToLower(n), "lower case"
		}
		return bytes.ReplaceAll(n, []byte(" "), nil), "blanks removed"
	case 0:
		return append(n, byte(c.Int(0, 255, label))), "append"
	case 1:
		return append([]byte{byte(c.Int(0, 255, label))}, n...), "prepend"
	case 2:
		i := c.Int(0, len(n)-1, label+"At")
		n[i] ^= byte(1 << uint(c.Int(0, 7, label+"Bit")))
		return n, "flip"
	case 3:
		return n[:len(n)-1], "cut"
	case 4:
		return n[1:], "behead"
	case 5:
		return []byte{}, "empty"
	}
	if k == 7 { // somewhere in the second half
		i := len(n)/2 + c.Int(0, (len(n)-1)/2, label+"At")
		n[i] ^= byte(1 << uint(c.Int(0, 7, label+"Bit")))
		return n, "flip late"
	}
	// only the end differs: hashes that read a prefix would miss it
	n[len(n)-1] ^= 0x80
	return n, "last"
}

func rejects(c *hx.Case, what string, m []byte, pk abstract.Point, sig []byte, g abstract.Point) {
	if err := util.ElGamalVerify(hx.Suite(), m, pk, sig, g); err == nil {
		c.Fatalf("%s: signature accepted (message %s, signature %s)", what, hx.Hex(m), hx.Hex(sig))
	}
}

func TestC10_Laws(t *testing.T) {
	hx.Check(t, 150, "sign with a drawn key, base and message; every case also tries altered messages, keys, bases and signatures; non-trivial: all", func(c *hx.Case) {
		g, gi := sigBase(c, "g")
		x := c.Secret("x")
		m := drawMsg(c, "m")
		priv := hx.Sec(x)
		pk := hx.Pt(hx.Exp(gi, x))
		sig := util.ElGamalSign(hx.Suite(), hx.Suite().Cipher(abstract.RandomKey), append([]byte{}, m...), priv, g)
		if hx.S(priv).Cmp(x) != 0 || (g != nil && hx.I(g).Cmp(gi) != 0) {
			c.Fatalf("signing changed the key or the base")
		}
		keep := append([]byte{}, sig...)
		if err := util.ElGamalVerify(hx.Suite(), m, pk, sig, g); err != nil {
			c.Fatalf("genuine signature rejected: %v (message %s)", err, hx.Hex(m))
		}
		if !bytes.Equal(keep, sig) || hx.I(pk).Cmp(hx.Exp(gi, x)) != 0 || (g != nil && hx.I(g).Cmp(gi) != 0) {
			c.Fatalf("verification changed its arguments")
		}
		// the same after a trip through the wire form of the key
		if err := util.ElGamalVerify(hx.Suite(), m, util.DecodePoint(hx.Suite(), util.EncodePoint(pk)), sig, g); err != nil {
			c.Fatalf("genuine signature rejected with the decoded key: %v", err)
		}
		m2, how := changed(c, m, "m2")
		if !bytes.Equal(m2, m) {
			rejects(c, "message "+how, m2, pk, sig, g)
			c.Class("message " + how)
		}
		for i := 0; i < 3; i++ {
			if m2, how := changed(c, m, "m3"); !bytes.Equal(m2, m) {
				rejects(c, "message "+how, m2, pk, sig, g)
			}
		}
		if y := c.Secret("y"); y.Cmp(x) != 0 {
			rejects(c, "other key", m, hx.Pt(hx.Exp(gi, y)), sig, g)
		}
		// related keys: inverse, square, product with the base
		related := map[string]*big.Int{"inverse key": hx.Inv(hx.I(pk)), "square of key": hx.Mul(hx.I(pk), hx.I(pk)), "key times base": hx.Mul(hx.I(pk), gi)}
		for _, name := range hx.Sorted(related) {
			k := related[name]
			if k.Cmp(hx.I(pk)) != 0 {
				rejects(c, name, m, hx.Pt(k), sig, g)
			}
		}
		if g2, _ := c.Elem("g2"); g2.Cmp(gi) != 0 {
			rejects(c, "other base", m, pk, sig, hx.Pt(g2))
			if g != nil && gi.Cmp(hx.Gen) != 0 {
				rejects(c, "standard base", m, pk, sig, nil)
			}
		}
		if ch := new(big.Int).SetBytes(sig[:len(sig)/2]); len(sig) == 128 && ch.BitLen() < 150 {
			c.Fatalf("challenge of %d bits", ch.BitLen())
		}
		// every region of the signature matters
		for i := 0; i < 4; i++ {
			at := c.Int(0, len(sig)-1, "at")
			s2 := append([]byte{}, sig...)
			s2[at] ^= byte(1 << uint(c.Int(0, 7, "bit")))
			rejects(c, "altered signature", m, pk, s2, g)
		}
		s2 := append([]byte{}, sig...)
		s2[len(s2)-1] ^= 1
		rejects(c, "last bit", m, pk, s2, g)
		cut := c.Int(0, len(sig)-1, "cut")
		rejects(c, "truncated signature", m, pk, sig[:cut], g)
		rejects(c, "swapped halves", m, pk, append(append([]byte{}, sig[len(sig)/2:]...), sig[:len(sig)/2]...), g)
		rejects(c, "nil signature", m, pk, nil, g)
		c.NonTrivial("x=%s g=%s m=%s(%d)", hx.Short(x), hx.Short(gi), hx.Hex(m), len(m))
	})
}

// sigParts assembles the wire form {challenge, response}.
func sigParts(ch, r *big.Int) []byte {
	var b bytes.Buffer
	s := struct{ C, R abstract.Secret }{hx.Sec(ch), hx.Sec(r)}
	if err := abstract.Write(&b, &s, hx.Suite()); err != nil {
		hx.Infra("%v", err)
	}
	return b.Bytes()
}

// challenge is the hash of the scheme: of a commitment and a message.
func challenge(msg []byte, T *big.Int) *big.Int {
	tb := make([]byte, 64)
	T.FillBytes(tb)
	c := hx.Suite().Cipher(tb)
	c.Message(nil, nil, msg)
	return hx.S(hx.Suite().Secret().Pick(c))
}

// A forger knows everything but the private key.
func TestC10_Forgery(t *testing.T) {
	hx.Check(t, 150, "signature values computed without the private key: random, commitment first, challenge first, zero values, combination of two genuine signatures; non-trivial: all", func(c *hx.Case) {
		g, gi := sigBaseFull(c, "g")
		x := c.Full("x")
		pki := hx.Exp(gi, x)
		pk := hx.Pt(pki)
		m := drawMsg(c, "m")
		r := c.Full("r")
		zero := big64(0)
		rejects(c, "random values", m, pk, sigParts(c.Full("c"), r), g)
		// commitment first, with each way the key could have been left out of it
		comms := map[string]*big.Int{
			"commitment without key":   hx.Exp(gi, r),
			"commitment inverse":       hx.Inv(hx.Exp(gi, r)),
			"standard base":            hx.Exp(hx.Gen, r),
			"key alone":                hx.Exp(pki, r),
			"identity commitment":      big64(1),
			"zero commitment":          zero,
			"commitment equal to key":  pki,
			"commitment equal to base": gi,
		}
		for _, name := range hx.Sorted(comms) {
			T := comms[name]
			ch := challenge(m, T)
			rejects(c, name, m, pk, sigParts(ch, r), g)
			rejects(c, name+", zero response", m, pk, sigParts(ch, zero), g)
			rejects(c, name+", response = challenge", m, pk, sigParts(ch, ch), g)
		}
		// challenge first
		ch := c.Full("ch")
		T := hx.Mul(hx.Exp(gi, r), hx.Exp(pki, ch))
		rejects(c, "challenge first", m, pk, sigParts(ch, r), g)
		rejects(c, "challenge of late commitment", m, pk, sigParts(challenge(m, T), r), g)
		rejects(c, "message hash only", m, pk, sigParts(challenge(m, zero), r), g)
		// genuine signatures on two messages, mixed
		sign := func(m []byte) []byte {
			return util.ElGamalSign(hx.Suite(), hx.Suite().Cipher(abstract.RandomKey), m, hx.Sec(x), g)
		}
		m1, m2 := append([]byte("a"), m...), append([]byte("b"), m...)
		s1, s2 := sign(m1), sign(m2)
		h := len(s1) / 2
		rejects(c, "mixed", m1, pk, append(append([]byte{}, s1[:h]...), s2[h:]...), g)
		rejects(c, "mixed", m2, pk, append(append([]byte{}, s1[:h]...), s2[h:]...), g)
		rejects(c, "other message", m, pk, s1, g)
		rejects(c, "other message", m2, pk, s1, g)
		// bytes of any kind are an error, not a crash
		junk := c.Bytes(0, 200, "junk")
		rejects(c, "junk", m, pk, junk, g)
		c.NonTrivial("x=%s g=%s m=%s", hx.Short(x), hx.Short(gi), hx.Hex(m))
	})
}

func TestC22_Encryption(t *testing.T) {
	hx.Check(t, 200, "encrypt drawn elements to a drawn key; non-trivial: all", func(c *hx.Case) {
		s := hx.Suite()
		x := c.Secret("x")
		X := hx.Exp(hx.Gen, x)
		pk := hx.Pt(X)
		e1 := c.BigBelow(hx.Q, 0, "m1")
		e2 := c.BigBelow(hx.Q, 0, "m2")
		m1, m2 := hx.Exp(hx.Gen, e1), hx.Exp(hx.Gen, e2)
		M1 := hx.Pt(m1)
		K, C, _ := util.ElGamalEncrypt(s, pk, M1)
		if hx.I(M1).Cmp(m1) != 0 || hx.I(pk).Cmp(X) != 0 {
			c.Fatalf("encryption changed its arguments")
		}
		ki, ci := hx.I(K), hx.I(C)
		priv := hx.Sec(x)
		D := util.ElGamalDecrypt(s, priv, K, C)
		if hx.I(D).Cmp(m1) != 0 {
			c.Fatalf("decryption gave %s, not %s", hx.Short(hx.I(D)), hx.Short(m1))
		}
		if hx.I(K).Cmp(ki) != 0 || hx.I(C).Cmp(ci) != 0 || hx.S(priv).Cmp(x) != 0 {
			c.Fatalf("decryption changed its arguments")
		}
		// independent decryption
		if hx.Mul(ci, hx.Inv(hx.Exp(ki, x))).Cmp(m1) != 0 {
			c.Fatalf("ciphertext is not an encryption of the element")
		}
		if ci.Cmp(m1) == 0 || ki.Cmp(big64(1)) == 0 {
			c.Fatalf("element sent in the clear")
		}
		if y := c.Secret("y"); y.Cmp(x) != 0 {
			if hx.I(util.ElGamalDecrypt(s, hx.Sec(y), hx.Pt(ki), hx.Pt(ci))).Cmp(m1) == 0 {
				c.Fatalf("another key decrypts")
			}
		}
		K1, C1, _ := util.ElGamalEncrypt(s, pk, hx.Pt(m1))
		if hx.I(K1).Cmp(ki) == 0 || hx.I(C1).Cmp(ci) == 0 {
			c.Fatalf("two encryptions of the same element coincide")
		}
		// the blinding of two ciphertexts must not be related in a guessable way
		for i := int64(1); i <= 3; i++ {
			if hx.Exp(ki, big64(i)).Cmp(hx.I(K1)) == 0 || hx.Exp(hx.Gen, big64(i)).Cmp(ki) == 0 || hx.Mul(ki, hx.Exp(hx.Gen, big64(i))).Cmp(hx.I(K1)) == 0 {
				c.Fatalf("ephemeral keys are predictable")
			}
		}
		bits := 22
		if c.Int(0, 19, "search") == 0 {
			bits = 32
		}
		for what, y := range map[string]*big.Int{"an ephemeral key": ki, "the quotient of two ephemeral keys": hx.Mul(hx.I(K1), hx.Inv(ki)), "the blinding factor": hx.Mul(ci, hx.Inv(m1))} {
			if k, ok := hx.SmallLog(hx.Gen, y, bits); ok {
				if what == "the blinding factor" && x.BitLen() < 40 { // the key is that small
					continue
				}
				c.Fatalf("%s is found by searching: %s", what, k)
			}
		}
		K2, C2, _ := util.ElGamalEncrypt(s, pk, hx.Pt(m2))
		D2 := util.ElGamalDecrypt(s, hx.Sec(x), hx.Pt(hx.Mul(ki, hx.I(K2))), hx.Pt(hx.Mul(ci, hx.I(C2))))
		if hx.I(D2).Cmp(hx.Mul(m1, m2)) != 0 {
			c.Fatalf("product of ciphertexts does not decrypt to the product")
		}
		c.NonTrivial("x=%s m1=%s m2=%s", hx.Short(x), hx.Short(m1), hx.Short(m2))
	})
}
