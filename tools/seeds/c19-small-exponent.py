property = "C19"
needs = "someone that searches the few exponents a server may have used"
breaks = "the exponent a server contributes to the second generator has 16 bits"
edits = [("cmd/server/AnonServerHandler.go",
"""	r := anonServer.Suite.Secret().Pick(random.Stream)
	h.Mul(h, r)
""", """	r := anonServer.Suite.Secret().SetInt64(int64(random.Uint16(random.Stream)) + 2)
	h.Mul(h, r)
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto"; "zRep/util")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 0, 2)
	suite := w.co.co.Suite
	from := util.DecodePoint(suite, w.sent(proto.SERVER_REGISTER_REPLY, w.servers[1]).ev.Params["h"].([]byte))
	to := util.DecodePoint(suite, w.sent(proto.UPDATE_PEDERSEN_H, w.co).ev.Params["h"].([]byte))
	p := suite.Point().Null()
	for e := 0; e <= 1<<16 + 2; e++ {
		if p.Equal(to) { t.Fatal("the exponent is", e) }
		p.Add(p, from)
	}
}
'''
