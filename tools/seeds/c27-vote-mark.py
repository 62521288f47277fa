property = "C27"
needs = "a vote that is signed but has no usable list of signatures, before a proper one on the same bridge"
breaks = "a bridge is marked as voted on before the vote was checked completely"
edits = [("cmd/coordinator/CoordinatorHandler.go", """	// verify each server's signature
	signatures := util.Decode2DByteArray(params["signatures"].([]byte))
	byteAssignment := params["assignment"].([]byte)
	assignment := bridge.DecodeAssignment(byteAssignment)
""", """	// a bridge is voted on once
	byteAssignment := params["assignment"].([]byte)
	assignment := bridge.DecodeAssignment(byteAssignment)
	if anonCoordinator.VotedBridges[assignment.Addr] {
		fmt.Println("[note] Duplicate vote")
		return
	}
	if assignment.NymR.Equal(nym) {
		anonCoordinator.VotedBridges[assignment.Addr] = true
	}

	// verify each server's signature
	signatures := util.Decode2DByteArray(params["signatures"].([]byte))
"""), ("cmd/coordinator/CoordinatorHandler.go", """	if anonCoordinator.VotedBridges[assignment.Addr] {
		fmt.Println("[note] Duplicate vote")
		return
	}
	anonCoordinator.VotedBridges[assignment.Addr] = true

	// record""", """	// record""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/cmd/bridge"; "zRep/proto"; "zRep/util"; "github.com/dedis/crypto/abstract")

func TestDemo(t *testing.T) {
	w := newWorld(t, 1, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	w.get(w.clients[1], 1)
	// the client's vote is held back
	w.keep = func(m *message) bool { return m.ev.EventType != proto.VOTE }
	w.feedback(w.clients[1], 0, 1)
	w.keep = nil
	genuine := w.sent(proto.VOTE, w.co)
	bad := map[string]interface{}{}
	for k, v := range genuine.ev.Params { bad[k] = v }
	bad["signatures"] = util.Encode2DByteArray([][]byte{})
	cl := w.clients[1].cl
	bad["signature"] = util.ElGamalSign(cl.Suite, cl.Suite.Cipher(abstract.RandomKey), bridge.MessageOfVote(bad), cl.PrivateKey, cl.G)
	w.send(w.clients[1], w.co, proto.VOTE, bad)
	w.settle()
	w.co.handle(genuine.raw)
	w.settle()
	sum := 0
	for _, d := range w.co.co.ReputationDiffMap { sum += d }
	if sum != 1 { t.Fatal("the vote does not count after one without signatures: ", sum) }
}
'''
