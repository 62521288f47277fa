package prim

import (
	"bytes"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/dedis/crypto/abstract"
	"pgregory.net/rapid"
	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/lrs"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
	"zrepverif/forge"
	"zrepverif/hx"
)

// drawBig draws an integer of any sign and size.
func drawBig(c *hx.Case, label string) *big.Int {
	k := c.Int(0, 10, label+"Size")
	b := c.Bytes(0, []int{0, 1, 4, 8, 9, 32, 64, 65, 130, 400, 9}[k], label)
	v := new(big.Int).SetBytes(b)
	if k == 10 { // of every length
		v.Add(v, new(big.Int).Lsh(big64(1), uint(c.Tail(0, 600, 9000, label+"Bits"))))
	}
	if c.Bool(label + "Neg") {
		v.Neg(v)
	}
	return v
}

func drawPoint(c *hx.Case, label string) abstract.Point {
	switch c.Int(0, 9, label+"Kind") {
	case 0:
		return hx.Pt(big64(1))
	case 1:
		return hx.Pt(big64(4))
	case 2: // short when written without padding
		for i := int64(2); ; i++ {
			if v := big64(i * int64(1+c.Int(0, 50, label))); big.Jacobi(v, hx.P) == 1 {
				return hx.Pt(v)
			}
		}
	}
	v, _ := c.Elem(label)
	return hx.Pt(v)
}

func drawSecret(c *hx.Case, label string) abstract.Secret {
	if c.Int(0, 9, label+"Kind") == 0 {
		return hx.Sec(big64(int64(c.Int(0, 300, label))))
	}
	return hx.Sec(c.Secret(label))
}

// length draws a list length, empty and long ones included.
func length(c *hx.Case, label string) int {
	switch c.Int(0, 9, label+"Kind") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return c.Int(10, 60, label)
	}
	return c.Int(2, 9, label)
}

func drawString(c *hx.Case, label string) string {
	switch c.Int(0, 5, label+"Kind") {
	case 0:
		return ""
	case 1:
		return string(c.Bytes(0, 20, label)) // any bytes
	case 2:
		return fmt.Sprintf("%d.%d.%d.%d:%d", c.Int(0, 255, label), c.Int(0, 255, label+"2"), c.Int(0, 255, label+"3"), c.Int(0, 255, label+"4"), c.Int(0, 65535, label+"5"))
	case 3:
		return strings.Repeat("x", c.Int(1, 5000, label))
	}
	return rapid.String().Draw(c.T, label)
}

// scribble destroys an encoding after it was decoded: what was decoded must not change.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func fillInts(c *hx.Case, v interface{}, label string) {
	e := reflect.ValueOf(v).Elem()
	for i := 0; i < e.NumField(); i++ {
		switch e.Field(i).Interface().(type) {
		case *big.Int:
			e.Field(i).Set(reflect.ValueOf(drawBig(c, fmt.Sprint(label, i))))
		case []*big.Int:
			n := length(c, label+"len")
			l := make([]*big.Int, n)
			for j := range l {
				l[j] = drawBig(c, fmt.Sprint(label, i, "_", j))
			}
			e.Field(i).Set(reflect.ValueOf(l))
		}
	}
}

// sameInts compares two structs of integers field by field, so that a lost field shows.
func sameInts(a, b interface{}) string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		name := x.Type().Field(i).Name
		switch p := x.Field(i).Interface().(type) {
		case *big.Int:
			q := y.Field(i).Interface().(*big.Int)
			if q == nil || p.Cmp(q) != 0 {
				return fmt.Sprintf("%s: %v became %v", name, p, q)
			}
		case []*big.Int:
			q := y.Field(i).Interface().([]*big.Int)
			if s := sameBigs(p, q); s != "" {
				return name + ": " + s
			}
		}
	}
	return ""
}

func sameBigs(p, q []*big.Int) string {
	if len(p) != len(q) {
		return fmt.Sprintf("length %d became %d", len(p), len(q))
	}
	for i := range p {
		if q[i] == nil || p[i].Cmp(q[i]) != 0 {
			return fmt.Sprintf("element %d: %v became %v", i, p[i], q[i])
		}
	}
	return ""
}

func samePoints(p, q []abstract.Point) string {
	if len(p) != len(q) {
		return fmt.Sprintf("length %d became %d", len(p), len(q))
	}
	for i := range p {
		if q[i] == nil || hx.I(p[i]).Cmp(hx.I(q[i])) != 0 {
			return fmt.Sprintf("element %d changed", i)
		}
	}
	return ""
}

func TestC20_Values(t *testing.T) {
	kinds := []string{"bigint", "bigints", "bools", "point", "secret", "points", "secrets", "ints", "bytes2d", "u32",
		"nonneg", "equal", "ring", "assignment", "assignments", "secret-int", "point-int", "fopoint", "bytearrays"}
	hx.Check(t, 3000, "the value is not empty or zero", func(c *hx.Case) {
		kind := kinds[c.Int(0, len(kinds)-1, "kind")]
		c.Class(kind)
		fail := func(format string, args ...interface{}) {
			c.Fatalf(kind+" is not read back as written: "+format, args...)
		}
		switch kind {
		case "bigint":
			v := drawBig(c, "v")
			w := forge.Cp(v)
			b := util.EncodeBigInt(v)
			d := util.DecodeBigInt(b)
			scribble(b)
			if d.Cmp(w) != 0 || v.Cmp(w) != 0 {
				fail("%v became %v (argument now %v)", w, d, v)
			}
			if w.Sign() != 0 {
				c.NonTrivial("%s %s", kind, hx.Short(w))
			}
		case "bigints":
			var v, w []*big.Int
			for i, n := 0, length(c, "n"); i < n; i++ {
				x := drawBig(c, fmt.Sprint("v", i))
				v, w = append(v, x), append(w, forge.Cp(x))
			}
			b := util.ProtobufEncodeBigIntList(v)
			d := util.ProtobufDecodeBigIntList(b)
			scribble(b)
			if s := sameBigs(w, d); s != "" {
				fail("%s", s)
			}
			if len(w) > 0 {
				c.NonTrivial("%s %d %s", kind, len(w), hx.Short(w[0]))
			}
		case "bools":
			v := rapid.SliceOfN(rapid.Bool(), 0, []int{0, 1, 9, 80, 300}[c.Int(0, 4, "max")]).Draw(c.T, "v")
			w := append([]bool{}, v...)
			b := util.ProtobufEncodeBoolList(v)
			d := util.ProtobufDecodeBoolList(b)
			scribble(b)
			if fmt.Sprint(w) != fmt.Sprint(append([]bool{}, d...)) {
				fail("%v became %v", w, d)
			}
			if len(w) > 0 {
				c.NonTrivial("%s %v", kind, w)
			}
		case "point":
			v := drawPoint(c, "v")
			w := hx.I(v)
			b := util.EncodePoint(v)
			d := util.DecodePoint(hx.Suite(), b)
			scribble(b)
			if hx.I(d).Cmp(w) != 0 || !d.Equal(v) || hx.I(v).Cmp(w) != 0 {
				fail("%v became %v", w, hx.I(d))
			}
			c.NonTrivial("%s %s", kind, hx.Short(w))
		case "secret":
			v := drawSecret(c, "v")
			w := hx.S(v)
			b := util.EncodeSecret(v)
			d := util.DecodeSecret(hx.Suite(), b)
			scribble(b)
			if hx.S(d).Cmp(w) != 0 || !d.Equal(v) {
				fail("%v became %v", w, hx.S(d))
			}
			if w.Sign() != 0 {
				c.NonTrivial("%s %s", kind, hx.Short(w))
			}
		case "points":
			var v []abstract.Point
			for i, n := 0, length(c, "n"); i < n; i++ {
				v = append(v, drawPoint(c, fmt.Sprint("v", i)))
			}
			b := util.ProtobufEncodePointList(v)
			d := util.ProtobufDecodePointList(b)
			scribble(b)
			if s := samePoints(v, d); s != "" {
				fail("%s", s)
			}
			if len(d) > 1 { // the elements must not share state
				before := hx.I(d[1])
				d[0].Mul(d[0], hx.Sec(big64(3)))
				if hx.I(d[1]).Cmp(before) != 0 {
					fail("element 1 changed with element 0")
				}
				c.NonTrivial("%s %d %s", kind, len(d), hx.Short(before))
			}
		case "secrets":
			var v []abstract.Secret
			for i, n := 0, length(c, "n"); i < n; i++ {
				v = append(v, drawSecret(c, fmt.Sprint("v", i)))
			}
			b := util.ProtobufEncodeSecretList(v)
			d := util.ProtobufDecodeSecretList(b)
			scribble(b)
			if len(d) != len(v) {
				fail("length %d became %d", len(v), len(d))
			}
			for i := range v {
				if hx.S(v[i]).Cmp(hx.S(d[i])) != 0 {
					fail("element %d: %v became %v", i, hx.S(v[i]), hx.S(d[i]))
				}
				// it must still compute in the group
				if s := hx.Suite().Secret().Add(d[i], hx.Sec(big64(1))); hx.S(s).Cmp(new(big.Int).Mod(new(big.Int).Add(hx.S(v[i]), big64(1)), hx.Q)) != 0 {
					fail("element %d computes differently", i)
				}
			}
			if len(v) > 0 {
				c.NonTrivial("%s %d %s", kind, len(v), hx.Short(hx.S(v[0])))
			}
		case "ints":
			v := rapid.SliceOfN(rapid.Int(), 0, 20).Draw(c.T, "v")
			b := util.EncodeIntArray(v)
			d := util.DecodeIntArray(b)
			scribble(b)
			if fmt.Sprint(v) != fmt.Sprint(append([]int{}, d...)) {
				fail("%v became %v", v, d)
			}
			if len(v) > 0 {
				c.NonTrivial("%s %v", kind, v)
			}
		case "bytes2d":
			n := length(c, "n")
			v := make([][]byte, n)
			for i := range v {
				v[i] = c.Bytes(0, 70, fmt.Sprint("v", i))
			}
			b := util.Encode2DByteArray(v)
			d := util.Decode2DByteArray(b)
			scribble(b)
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if !bytes.Equal(v[i], d[i]) {
					fail("element %d: %x became %x", i, v[i], d[i])
				}
			}
			if n > 0 {
				c.NonTrivial("%s %d %s", kind, n, hx.Hex(v[0]))
			}
		case "bytearrays":
			n := length(c, "n")
			v := make([][]byte, n)
			for i := range v {
				v[i] = c.Bytes(0, 70, fmt.Sprint("v", i))
			}
			d := util.SerializeTwoDimensionArray(v)
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if !bytes.Equal(v[i], d[i].Arr) {
					fail("element %d: %x became %x", i, v[i], d[i].Arr)
				}
			}
			if n > 0 {
				c.NonTrivial("%s %d %s", kind, n, hx.Hex(v[0]))
			}
		case "u32":
			v := int(rapid.Uint32().Draw(c.T, "v"))
			if d := util.ByteToInt(util.IntToByte(v)); d != v {
				fail("%d became %d", v, d)
			}
			if v != 0 {
				c.NonTrivial("%s %d", kind, v)
			}
		case "nonneg":
			v := new(fujiokam.ARGnonneg)
			fillInts(c, v, "f")
			b := util.EncodeARGnonneg(v)
			d := util.DecodeARGnonneg(b)
			scribble(b)
			if s := sameInts(v, d); s != "" {
				fail("%s", s)
			}
			c.NonTrivial("%s %s", kind, hx.Hex(b))
		case "equal":
			v := new(pedersen_fujiokam.ARGequal)
			fillInts(c, v, "f")
			b := util.EncodeARGequal(v)
			d := util.DecodeARGequal(b)
			scribble(b)
			if s := sameInts(v, d); s != "" {
				fail("%s", s)
			}
			c.NonTrivial("%s %s", kind, hx.Hex(b))
		case "ring":
			v := new(lrs.Signature)
			fillInts(c, v, "f")
			b := lrs.ProtobufEncodeSignature(v)
			d := lrs.ProtobufDecodeSignature(b)
			scribble(b)
			if s := sameInts(v, d); s != "" {
				fail("%s", s)
			}
			c.NonTrivial("%s %s", kind, hx.Hex(b))
		case "assignment":
			v := drawAssignment(c, "a")
			w := *v
			b := bridge.EncodeAssignment(v)
			d := bridge.DecodeAssignment(b)
			scribble(b)
			if s := sameAssignment(&w, d); s != "" {
				fail("%s", s)
			}
			c.NonTrivial("%s %q", kind, w.Addr)
		case "assignments":
			n := length(c, "n")
			v := make([]bridge.Assignment, n)
			for i := range v {
				v[i] = *drawAssignment(c, fmt.Sprint("a", i))
			}
			b := bridge.EncodeAssignmentList(v)
			d := bridge.DecodeAssignmentList(b)
			scribble(b)
			if len(d) != n {
				fail("length %d became %d", n, len(d))
			}
			for i := range v {
				if s := sameAssignment(&v[i], &d[i]); s != "" {
					fail("element %d: %s", i, s)
				}
			}
			if n > 0 {
				c.NonTrivial("%s %d %q", kind, n, v[0].Addr)
			}
		case "secret-int":
			v := drawSecret(c, "v")
			if d := util.BigIntToSecret(hx.Suite(), util.SecretToBigInt(v)); hx.S(d).Cmp(hx.S(v)) != 0 {
				fail("%v became %v", hx.S(v), hx.S(d))
			}
			c.NonTrivial("%s %s", kind, hx.Short(hx.S(v)))
		case "point-int":
			v := drawPoint(c, "v")
			i := util.PointToBigInt(v)
			if i.Cmp(hx.I(v)) != 0 {
				fail("%v became %v", hx.I(v), i)
			}
			if d := util.BigIntToPoint(hx.Suite(), i); hx.I(d).Cmp(hx.I(v)) != 0 {
				fail("%v became %v", hx.I(v), hx.I(d))
			}
			c.NonTrivial("%s %s", kind, hx.Short(i))
		case "fopoint":
			v := drawBig(c, "v")
			v.Abs(v)
			n := new(big.Int).Add(v, big64(2))
			p := fujiokam.PointFromRaw(v, n)
			b := p.ToBinary()
			d := fujiokam.PointFromN(n).FromBinary(b)
			scribble(b)
			if !d.Equal(p) || d.ToBigInt().Cmp(v) != 0 {
				fail("%v became %v", v, d.ToBigInt())
			}
			c.NonTrivial("%s %s", kind, hx.Short(v))
		}
	})
}

func drawAssignment(c *hx.Case, label string) *bridge.Assignment {
	return &bridge.Assignment{NymR: drawPoint(c, label+"R"), Addr: drawString(c, label+"A"), Nym: drawPoint(c, label+"N")}
}

func sameAssignment(v, d *bridge.Assignment) string {
	if d.Addr != v.Addr {
		return fmt.Sprintf("address %q became %q", v.Addr, d.Addr)
	}
	if d.NymR == nil || d.Nym == nil || hx.I(d.NymR).Cmp(hx.I(v.NymR)) != 0 || hx.I(d.Nym).Cmp(hx.I(v.Nym)) != 0 {
		return "a pseudonym changed"
	}
	return ""
}

// drawEvent draws an event with parameters of the types the programs put into events.
func drawEvent(c *hx.Case) *proto.Event {
	params := map[string]interface{}{}
	for i, n := 0, c.Int(0, 12, "params"); i < n; i++ {
		name := rapid.StringMatching("[a-zA-Z_]{0,12}[0-9]?").Draw(c.T, fmt.Sprint("name", i))
		l := fmt.Sprint("p", i)
		switch c.Int(0, 4, l+"Kind") {
		case 0:
			params[name] = rapid.Int().Draw(c.T, l)
		case 1:
			params[name] = drawString(c, l)
		case 2:
			params[name] = c.Bool(l)
		case 3:
			params[name] = c.Bytes(0, 100, l)
		default:
			var pts []abstract.Point
			for j, n := 0, c.Int(0, 5, l+"n"); j < n; j++ {
				pts = append(pts, drawPoint(c, fmt.Sprint(l, "_", j)))
			}
			params[name] = util.ProtobufEncodePointList(pts)
		}
	}
	return &proto.Event{EventType: rapid.Int().Draw(c.T, "type"), Params: params}
}

func sameParams(a, b map[string]interface{}) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d parameters became %d", len(a), len(b))
	}
	for _, k := range hx.Sorted(a) {
		x, y := a[k], b[k]
		if xb, ok := x.([]byte); ok {
			yb, ok := y.([]byte)
			if !ok || !bytes.Equal(xb, yb) {
				return fmt.Sprintf("parameter %q: %d bytes changed", k, len(xb))
			}
			continue
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("parameter %q: %v became %v", k, x, y)
		}
	}
	return ""
}

func TestC20_Events(t *testing.T) {
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		hx.Infra("%v", err)
	}
	defer ln.Close()
	type got struct {
		b   []byte
		err error
	}
	in := make(chan got)
	go func() {
		for {
			conn, err := ln.AcceptTCP()
			if err != nil {
				in <- got{nil, err}
				return
			}
			// as the programs receive it
			var buf bytes.Buffer
			err = util.Receive(conn, &buf)
			in <- got{buf.Bytes(), err}
		}
	}()
	hx.Check(t, 400, "the event has at least two parameters", func(c *hx.Case) {
		ev := drawEvent(c)
		size := []int{0, 0, 0, 1000, 60000, 70000, 1 << 20}[c.Int(0, 6, "size")]
		if size > 0 {
			big := bytes.Repeat([]byte{byte(c.Int(0, 255, "fill")), 1, 2}, size/3)
			ev.Params["big"] = big
			c.Class("large event")
		}
		ip := net.IPv4(127, 0, 0, 1)
		switch c.Int(0, 3, "ip") {
		case 0:
			ip = net.IPv4zero
		case 1:
			ip = net.IPv4(byte(c.Int(1, 223, "ip1")), byte(c.Int(0, 255, "ip2")), byte(c.Int(0, 255, "ip3")), byte(c.Int(1, 254, "ip4")))
		}
		from := &net.TCPAddr{IP: ip, Port: c.Int(1, 65535, "port")}
		typ := ev.EventType
		done := make(chan string, 1)
		go func() {
			msg, _ := hx.Panics(func() { util.SendEvent(from, ln.Addr().(*net.TCPAddr), ev) })
			done <- msg
		}()
		var g got
		select {
		case g = <-in:
		case msg := <-done:
			if msg != "" {
				c.Fatalf("an event could not be sent: %s", msg)
			}
			select {
			case g = <-in:
				done <- ""
			case <-time.After(60 * time.Second):
				hx.Infra("nothing arrived")
			}
		case <-time.After(60 * time.Second):
			hx.Infra("nothing arrived")
		}
		if msg := <-done; msg != "" {
			c.Fatalf("an event could not be sent: %s", msg)
		}
		if ne, ok := g.err.(net.Error); ok && ne.Timeout() {
			// the machine is too slow for the program's time limit
			c.Class("timed out")
			return
		}
		if g.err != nil {
			c.Fatalf("an event that was sent completely is not received: %v", g.err)
		}
		var d *proto.Event
		var addr *net.TCPAddr
		if msg, bad := hx.Panics(func() { d, addr = util.DecodeEvent(g.b) }); bad {
			c.Fatalf("an event of %d bytes is not received as sent: %s", len(g.b), msg)
		}
		scribble(g.b)
		if d.EventType != typ {
			c.Fatalf("event type %d became %d", typ, d.EventType)
		}
		if s := sameParams(ev.Params, d.Params); s != "" {
			c.Fatalf("event not received as sent: %s", s)
		}
		if !addr.IP.Equal(from.IP) || addr.Port != from.Port {
			c.Fatalf("sender %v became %v", from, addr)
		}
		if len(ev.Params) >= 2 {
			c.NonTrivial("%d params, %d bytes, from %v", len(ev.Params), len(g.b), from)
		}
	})
}

func TestC20_Config(t *testing.T) {
	dir, err := os.MkdirTemp(scratch, "config")
	if err != nil {
		hx.Infra("%v", err)
	}
	old, err := os.Getwd()
	if err != nil {
		hx.Infra("%v", err)
	}
	if err := os.MkdirAll(filepath.Join(dir, "config"), 0o755); err != nil {
		hx.Infra("%v", err)
	}
	defer os.Chdir(old)
	if err := os.Chdir(dir); err != nil {
		hx.Infra("%v", err)
	}
	word := rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_.-]{0,14}`)
	val := rapid.OneOf(rapid.StringMatching(`[0-9]{1,5}`), rapid.StringMatching(`[0-9.:]{7,15}`), rapid.StringMatching(`[ -<>-~]{0,30}`))
	hx.Check(t, 300, "at least two keys", func(c *hx.Case) {
		want := map[string]string{}
		for _, f := range []string{"local", "conn"} {
			var b strings.Builder
			n := c.Int(0, 6, f)
			for i := 0; i < n; i++ {
				k := word.Draw(c.T, "key")
				if i == 0 && c.Bool("real") {
					k = map[string]string{"local": "local_port", "conn": "coordinator_port"}[f]
				}
				if _, dup := want[k]; dup {
					continue
				}
				v := val.Draw(c.T, "value")
				if !utf8.ValidString(v) {
					continue
				}
				want[k] = v
				nl := "\n"
				if c.Int(0, 5, "crlf") == 0 {
					nl = "\r\n"
				}
				if i == n-1 && c.Bool("nonl") {
					nl = ""
				}
				if nl == "" || nl == "\r\n" {
					v = strings.TrimRight(v, "\r")
					want[k] = v
				}
				b.WriteString(k + "=" + v + nl)
			}
			if err := os.WriteFile(filepath.Join("config", f+".properties"), []byte(b.String()), 0o644); err != nil {
				hx.Infra("%v", err)
			}
		}
		got := util.ReadConfig()
		keys := hx.Sorted(want)
		for _, k := range keys {
			if got[k] != want[k] {
				c.Fatalf("configuration key %q is %q, the file says %q", k, got[k], want[k])
			}
			if p := util.GetParameter(k); p != want[k] {
				c.Fatalf("parameter %q is %q, the file says %q", k, p, want[k])
			}
		}
		var extra []string
		for k := range got {
			if _, ok := want[k]; !ok {
				extra = append(extra, k)
			}
		}
		if len(extra) > 0 {
			sort.Strings(extra)
			c.Fatalf("configuration reports %q, which no file contains", extra)
		}
		if len(want) >= 2 {
			c.NonTrivial("%q", want)
		}
	})
}
