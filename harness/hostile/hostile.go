// Package hostile makes messages that no honest program sends.
package hostile

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"math/big"
	"reflect"

	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// Needed are the parameters without which a message says nothing.
var Needed = map[int][]string{
	proto.CLIENT_REGISTER_CONTROLLERSIDE: {"public_key"},
	proto.GN_HONESTY_CHALLENGE:           {"honesty_chal"},
	proto.POST_BRIDGE:                    {"bridge_addr", "nym", "signature"},
	proto.REQUEST_BRIDGES:                {"ind", "nym", "signature", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"},
	proto.VOTE:                           {"nym", "assignment", "signatures", "feedback", "signature"},
	proto.GOT_SIGNS:                      {"success", "assignments", "signatures"},
	// from the servers
	proto.SERVER_REGISTER:            {"public_key"},
	proto.UPDATE_PEDERSEN_H:          {"h"},
	proto.CLIENT_REGISTER_SERVERSIDE: {"public_key", "pcomm", "addr"},
	proto.ANNOUNCEMENT:               {"g", "GT", "HT", "keys", "vals"},
	proto.ROUND_END:                  {"GT", "HT", "keys", "vals"},
}

// Kinds are the kinds of messages that Break spoils.
var Kinds = []int{proto.CLIENT_REGISTER_CONTROLLERSIDE, proto.GN_HONESTY_CHALLENGE, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE, proto.GOT_SIGNS,
	proto.SERVER_REGISTER, proto.UPDATE_PEDERSEN_H, proto.CLIENT_REGISTER_SERVERSIDE, proto.ANNOUNCEMENT, proto.ROUND_END}

// Raw makes bytes that do not decode to an event; base is a genuine message.
func Raw(c *hx.Case, base []byte) ([]byte, string) {
	for i := 0; ; i++ {
		var b []byte
		what := ""
		k := c.Int(0, 5, "raw")
		if i > 5 {
			k = 0
		}
		switch k {
		case 0:
			return nil, "an empty message"
		case 1:
			b, what = c.Bytes(1, 300, "noise"), "random bytes"
		case 2:
			if len(base) > 0 {
				b, what = base[:c.Int(0, len(base)-1, "cut")], "the beginning of a message"
			}
		case 3:
			b = append([]byte{}, base...)
			for j, n := 0, c.Int(1, 3, "flips"); j < n && len(b) > 0; j++ {
				b[c.Int(0, len(b)-1, "at")] ^= byte(c.Int(1, 255, "xor"))
			}
			what = "a damaged message"
		case 4:
			var buf bytes.Buffer
			gob.NewEncoder(&buf).Encode([]interface{}{map[string]int{"Params": 1}, "text", 7, struct{ EventType string }{"8"}}[c.Int(0, 3, "what")])
			b, what = buf.Bytes(), "another encoded value"
		case 5:
			b = append([]byte{0xfc, byte(c.Int(0, 255, "size")), 0xff, 0xff, 0xff}, c.Bytes(0, 40, "rest")...)
			what = "a message that claims to be long"
		}
		if !decodes(b) {
			return b, fmt.Sprintf("%s (%d bytes)", what, len(b))
		}
	}
}

func decodes(b []byte) (ok bool) {
	defer func() { recover() }() // what the decoder does not survive is no event either
	return gob.NewDecoder(bytes.NewReader(b)).Decode(&proto.Event{}) == nil
}

// Address makes a sender's address that cannot be one.
func Address(c *hx.Case) string {
	l := []string{"x", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:-1", "[::1", "[::1]", "127.0.0.1:80:80", "\x00\xff", "127.0.0.1:\x00"}
	return l[c.Int(0, len(l)-1, "address")]
}

// Unknown is a kind of event the coordinator has no use for.
func Unknown(c *hx.Case) int {
	l := []int{-1, proto.INIT_PEDERSEN_R, proto.GN_HONESTY_ANSWER, proto.VOTE_REPLY, proto.CLIENT_REGISTER_CONFIRMATION, proto.ANNOUNCEMENT_FINALIZE,
		proto.SIGN_ASSIGNMENTS, proto.UPDATE_NEXT_HOP, proto.BCAST_PEDERSEN_H, proto.BCAST_PEDERSEN_RDIFF, proto.SERVER_REGISTER_REPLY, 26, 255, 9999, math.MaxInt32, math.MinInt64}
	return l[c.Int(0, len(l)-1, "kind")]
}

// Alien is a kind of event nobody has a use for.
func Alien(c *hx.Case) int {
	l := []int{-1, 26, 255, 9999, math.MaxInt32, math.MinInt64}
	return l[c.Int(0, len(l)-1, "kind")]
}

// Key is not the encoding of a public key.
func Key(c *hx.Case) (interface{}, string) {
	switch c.Int(0, 7, "key") {
	case 0:
		return []byte{}, "an empty key"
	case 1:
		return make([]byte, c.Int(1, 70, "zeros")), "the key 0"
	case 2:
		return hx.P.Bytes(), "a key as large as the modulus"
	case 3:
		return new(big.Int).Sub(hx.P, big.NewInt(1)).Bytes(), "the key -1"
	case 4:
		return append(c.Bytes(1, 64, "more"), hx.P.Bytes()...), "a long key"
	case 5:
		return other(c, []byte(nil)), "a key of another type"
	case 6:
		return nil, "no key"
	}
	for i := int64(2); ; i++ {
		v := new(big.Int).Sub(hx.P, new(big.Int).Exp(big.NewInt(3), big.NewInt(2*(i+int64(c.Int(0, 200, "root")))), hx.P))
		if big.Jacobi(v, hx.P) == -1 {
			return v.Bytes(), "a key that is no square"
		}
	}
}

func other(c *hx.Case, v interface{}) interface{} {
	l := []interface{}{7, int64(-1), "text", true, 3.5, []byte{1, 2, 3}, []string{"a"}, []int{1}, uint(9), []byte(nil), ""}
	for i := c.Int(0, len(l)-1, "type"); ; i++ {
		if x := l[i%len(l)]; reflect.TypeOf(x) != reflect.TypeOf(v) {
			return x
		}
	}
}

// Break spoils one needed parameter of a genuine message in p; it returns which and what
// it did.
func Break(c *hx.Case, typ int, p map[string]interface{}) (string, string) {
	names := Needed[typ]
	f := names[c.Int(0, len(names)-1, "parameter")]
	what := ""
	switch f {
	case "public_key", "h", "pcomm", "g", "GT", "HT":
		v, how := Key(c)
		if v == nil {
			delete(p, f)
		} else {
			p[f] = v
		}
		return f, "with " + how + " for " + f
	case "addr":
		p[f] = Address(c)
		return f, fmt.Sprintf("for the address %q", p[f])
	case "keys", "vals":
		return f, "whose " + f + " " + table(c, f, p)
	}
	switch c.Int(0, 6, "spoil") {
	case 0:
		delete(p, f)
		what = "is missing"
	case 1:
		p[f] = other(c, p[f])
		what = fmt.Sprintf("is a %T", p[f])
	default:
		switch v := p[f].(type) {
		case int:
			// other than a genuine message may have
			p[f] = []int{v + 1<<33, math.MinInt64, math.MaxInt64, -2 - c.Int(0, 9, "negative"), v + 1<<32}[c.Int(0, 4, "number")]
			what = fmt.Sprintf("is %d", p[f])
		case []byte:
			var others []string
			for _, k := range names {
				if b, ok := p[k].([]byte); ok && k != f && !bytes.Equal(b, v) {
					others = append(others, k)
				}
			}
			switch k := c.Int(0, 5, "bytes"); {
			case k == 0:
				p[f], what = []byte{}, "is empty"
			case k == 1 && len(v) > 3:
				p[f], what = append([]byte{}, v[:c.Int(1, len(v)/2, "length")]...), "is cut"
			case k == 2 && len(others) > 0:
				o := others[c.Int(0, len(others)-1, "other")]
				p[f], what = append([]byte{}, p[o].([]byte)...), "is the "+o
			case k == 3:
				p[f], what = list(c, f, v), "is a list of another length or with other entries"
			case k == 4:
				p[f], what = c.Bytes(2000, 20000, "much"), "is long"
			default:
				p[f], what = c.Bytes(len(v), len(v)+1, "noise"), "is random"
			}
			if bytes.Equal(p[f].([]byte), v) {
				delete(p, f)
				what = "is missing"
			}
		default:
			delete(p, f)
			what = "is missing"
		}
	}
	return f, "whose " + f + " " + what
}

// table spoils one column of a table.
func table(c *hx.Case, f string, p map[string]interface{}) string {
	b, _ := p[f].([]byte)
	l := util.ProtobufDecodePointList(b)
	k := c.Int(0, 5, "table")
	switch {
	case k == 1:
		p[f] = other(c, p[f])
		return fmt.Sprintf("is a %T", p[f])
	case k == 2:
		p[f] = util.ProtobufEncodePointList(append(l, hx.Pt(big.NewInt(4))))
		return "has one entry more"
	case k == 3 && len(l) > 0:
		p[f] = util.ProtobufEncodePointList(l[:c.Int(0, len(l)-1, "entries")])
		return "has fewer entries"
	case k == 4 && len(l) > 0:
		p[f] = append([]byte{}, b[:c.Int(1, len(b)-1, "cut")]...)
		return "is cut"
	case k == 5 && len(l) > 0:
		b = append([]byte{}, b...)
		at := bytes.LastIndex(b, util.EncodePoint(l[len(l)-1]))
		for i := at; i < len(b); i++ {
			b[i] = 0xff
		}
		p[f] = b
		return "has an entry that is none"
	}
	delete(p, f)
	return "is missing"
}

// list makes a list where the message has one: of another length, or with entries that
// are none.
func list(c *hx.Case, f string, v []byte) []byte {
	switch f {
	case "honesty_chal":
		return util.ProtobufEncodeBoolList(make([]bool, []int{0, 1, 79, 479, 481, 1000}[c.Int(0, 5, "bits")]))
	case "signatures":
		var l [][]byte
		hx.Panics(func() { l = util.Decode2DByteArray(v) })
		switch n := c.Int(0, 3, "rows"); {
		case n == 0 || len(l) == 0:
			return util.Encode2DByteArray([][]byte{})
		case n == 1:
			return util.Encode2DByteArray(l[:len(l)-1])
		case n == 2:
			return util.Encode2DByteArray(append(l, l[0]))
		default:
			for i := range l {
				l[i] = [][]byte{{}, nil, {0}, c.Bytes(1, 99, "row")}[c.Int(0, 3, "entry")]
			}
			return util.Encode2DByteArray(l)
		}
	}
	return append([]byte{0xfd, 0xff, 0xff, 0xff, 0x7f}, v...)
}
