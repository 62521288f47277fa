package prim

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/dedis/crypto/abstract"
	"zRep/cmd/bridge"
	"zRep/primitive/lrs"
	"zRep/util"
	"zrepverif/hx"
)

// Lists longer than a table of a small test, and elements longer than a buffer: every
// element differs from every other one, so that a lost, repeated or moved one shows.
func TestC20_Long(t *testing.T) {
	kinds := []string{"bigints", "bools", "points", "secrets", "ints", "bytes2d", "bytearrays", "assignments", "ring", "bigint"}
	hx.Check(t, 20, "lists of 100 to 1100 elements, or elements of up to 200 000 bytes; non-trivial: all", func(c *hx.Case) {
		kind := kinds[c.Int(0, len(kinds)-1, "kind")]
		n := []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1025}[c.Int(0, 14, "n")] + c.Int(0, 3, "more")
		c.Class(kind)
		fail := func(format string, args ...interface{}) {
			c.Fatalf("long "+kind+" is not read back as written: "+format, args...)
		}
		base := c.Full("base")
		big1 := func(i int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(base, big64(int64(i))), hx.Q) }
		// elements of the group: powers of one, by repeated multiplication
		var elems []*big.Int
		elem := func(i int) *big.Int {
			for len(elems) <= i {
				if len(elems) == 0 {
					elems = append(elems, hx.Exp(hx.Gen, base))
				} else {
					elems = append(elems, hx.Mul(elems[len(elems)-1], hx.Gen))
				}
			}
			return elems[i]
		}
		long := func(i int) []byte {
			b := big1(i).Bytes()
			size := i % 80
			if n < 129 && i < 3 {
				size = []int{4096, 65536, 200000}[i]
			}
			return bytes.Repeat(b, size/len(b)+1)[:size]
		}
		switch kind {
		case "bigints", "ring":
			var v []*big.Int
			for i := 0; i < n; i++ {
				x := big1(i)
				if i%7 == 3 {
					x.Neg(x)
				}
				if i%11 == 5 {
					x.Rsh(x, uint(i%510))
				}
				v = append(v, x)
			}
			w := cpInts(v)
			if kind == "ring" {
				b := lrs.ProtobufEncodeSignature(&lrs.Signature{Y0: cpInts(v)[0], S: v, C: cpInts(v)[1:]})
				d := lrs.ProtobufDecodeSignature(b)
				scribble(b)
				if s := sameBigs(w, d.S); s != "" {
					fail("%s", s)
				}
				if s := sameBigs(w[1:], d.C); s != "" {
					fail("%s", s)
				}
				break
			}
			b := util.ProtobufEncodeBigIntList(v)
			d := util.ProtobufDecodeBigIntList(b)
			scribble(b)
			if s := sameBigs(w, d); s != "" {
				fail("%s", s)
			}
		case "bigint":
			v := new(big.Int).Lsh(base, uint(64*n+c.Int(0, 63, "shift")))
			v.Add(v, base)
			if d := util.DecodeBigInt(util.EncodeBigInt(v)); d.Cmp(v) != 0 {
				fail("a number of %d bits", v.BitLen())
			}
		case "bools":
			n *= 4
			v := make([]bool, n)
			for i := range v {
				v[i] = base.Bit(i*i%509) != base.Bit(i/500)
			}
			d := util.ProtobufDecodeBoolList(util.ProtobufEncodeBoolList(append([]bool{}, v...)))
			if fmt.Sprint(d) != fmt.Sprint(v) {
				fail("%d bits", n)
			}
		case "points":
			var v []abstract.Point
			for i := 0; i < n; i++ {
				v = append(v, hx.Pt(elem(i)))
			}
			b := util.ProtobufEncodePointList(v)
			d := util.ProtobufDecodePointList(b)
			scribble(b)
			if s := samePoints(v, d); s != "" {
				fail("%s", s)
			}
		case "secrets":
			var v []abstract.Secret
			for i := 0; i < n; i++ {
				v = append(v, hx.Sec(big1(i)))
			}
			b := util.ProtobufEncodeSecretList(v)
			d := util.ProtobufDecodeSecretList(b)
			scribble(b)
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if hx.S(d[i]).Cmp(big1(i)) != 0 {
					fail("element %d of %d", i, n)
				}
			}
		case "ints":
			v := make([]int, n)
			for i := range v {
				v[i] = (i - n/2) << uint(i%3*20) * (1 - i%2*2)
			}
			d := util.DecodeIntArray(util.EncodeIntArray(append([]int{}, v...)))
			if fmt.Sprint(d) != fmt.Sprint(v) {
				fail("%d integers", n)
			}
		case "bytes2d", "bytearrays":
			v := make([][]byte, n)
			for i := range v {
				v[i] = long(i)
			}
			var d [][]byte
			if kind == "bytes2d" {
				d = util.Decode2DByteArray(util.Encode2DByteArray(v))
			} else {
				for _, a := range util.SerializeTwoDimensionArray(v) {
					d = append(d, a.Arr)
				}
			}
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if !bytes.Equal(d[i], long(i)) {
					fail("element %d (%d bytes)", i, len(v[i]))
				}
			}
		case "assignments":
			v := make([]bridge.Assignment, n)
			for i := range v {
				v[i] = bridge.Assignment{NymR: hx.Pt(elem(0)), Nym: hx.Pt(elem(i)), Addr: fmt.Sprintf("b%d:%s", i, strings.Repeat("y", len(long(i))))}
			}
			b := bridge.EncodeAssignmentList(v)
			d := bridge.DecodeAssignmentList(b)
			scribble(b)
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if s := sameAssignment(&v[i], &d[i]); s != "" {
					fail("element %d: %s", i, s)
				}
			}
		}
		c.NonTrivial("%s %d %s", kind, n, hx.Short(base))
	})
}
