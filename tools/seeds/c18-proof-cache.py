property = "C18"
needs = "a table that comes with the proof of an earlier table"
breaks = "a proof the server has verified once is accepted with any other lists"
edits = [("cmd/server/AnonServerHandler.go",
"""		// verify the shuffle
		verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
			prevValList, xbarList, ybarList)
		err := proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, params["proof"].([]byte))
		if err != nil {
			panic("Shuffle verify failed: " + err.Error())
		}
""", """		// verify the shuffle, once
		prf := params["proof"].([]byte)
		if !verifiedProofs[string(prf)] {
			verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
				prevValList, xbarList, ybarList)
			err := proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, prf)
			if err != nil {
				panic("Shuffle verify failed: " + err.Error())
			}
			verifiedProofs[string(prf)] = true
		}
"""), ("cmd/server/AnonServerHandler.go", "var anonServer *AnonServer\n", "var anonServer *AnonServer\n\nvar verifiedProofs = make(map[string]bool)\n")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto"; "zRep/util")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1, 3)
	w.round()
	m := w.sent(proto.ANNOUNCEMENT, w.servers[1])
	pm := map[string]interface{}{}
	for k, v := range m.ev.Params { pm[k] = v }
	ybar := util.ProtobufDecodePointList(pm["ybar"].([]byte))
	ybar[0] = ybar[1]
	pm["ybar"] = util.ProtobufEncodePointList(ybar)
	n := w.count(proto.ANNOUNCEMENT, w.co)
	w.send(w.servers[0], w.servers[1], proto.ANNOUNCEMENT, pm)
	panics(w.settle)
	if w.count(proto.ANNOUNCEMENT, w.co) != n { t.Fatal("a table with a duplicated output was passed on") }
}
'''
