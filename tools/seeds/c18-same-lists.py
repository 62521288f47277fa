property = "C18"
needs = "a hop that passes on the lists it received, unshuffled, with a proof that is none"
breaks = "lists that are equal to the previous ones are taken as not shuffled and their proof is not looked at"
edits = [("cmd/server/AnonServerHandler.go",
"""		err := proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, params["proof"].([]byte))
""", """		// nothing was moved: there is nothing to prove
		moved := false
		for i := range ybarList {
			moved = moved || i >= len(prevValList) || !prevValList[i].Equal(ybarList[i])
		}
		var err error
		if moved {
			err = proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, params["proof"].([]byte))
		}
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1, 3)
	w.round()
	m := w.sent(proto.ANNOUNCEMENT, w.servers[1])
	pm := map[string]interface{}{}
	for k, v := range m.ev.Params { pm[k] = v }
	pm["xbar"], pm["ybar"] = pm["prev_keys"], pm["prev_vals"]
	pm["proof"] = []byte{}
	n := w.count(proto.ANNOUNCEMENT, w.co)
	w.send(w.servers[0], w.servers[1], proto.ANNOUNCEMENT, pm)
	panics(w.settle)
	if w.count(proto.ANNOUNCEMENT, w.co) != n { t.Fatal("a table without a proof was passed on") }
}
'''
