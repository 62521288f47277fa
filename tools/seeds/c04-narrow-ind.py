property = "C04"
needs = "a request for 2^32 + k bridges"
breaks = "the proof is checked for the low 32 bits of the number asked for only"
edits = [("cmd/bridge/bridge.go",
"	xind := suite.Secret().SetInt64(int64(ind))\n	rind := suite.Secret()", "	// the indicator has four bytes on the wire\n	xind := suite.Secret().SetInt64(int64(int32(ind)))\n	rind := suite.Secret()")]
demo = r'''
package zzdemo

import ("fmt"; "testing"; "zRep/cmd/bridge"; "zRep/proto"; "zRep/util"; "github.com/dedis/crypto/abstract")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	for i := 0; i < 8; i++ { w.post(w.clients[0], fmt.Sprint("10.0.0.", i)) }
	a := w.clients[1]
	a.cl.Reputation = 5
	var held *message
	w.keep = func(m *message) bool { if m.ev.EventType == proto.REQUEST_BRIDGES { held = m; return false }; return true }
	w.get(a, 1)
	w.keep = nil
	params := held.ev.Params
	params["ind"] = 1<<32 + 1
	params["signature"] = util.ElGamalSign(a.cl.Suite, a.cl.Suite.Cipher(abstract.RandomKey), bridge.MessageOfRequestBridges(params), a.cl.PrivateKey, a.cl.G)
	w.send(a, w.co, proto.REQUEST_BRIDGES, params)
	w.settle()
	if n := len(a.cl.Assignments); n > 0 { t.Fatal("granted", n, "bridges on reputation 5") }
}
'''
