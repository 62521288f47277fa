property = "C07"
needs = "a forged delivery for an address the client already holds"
breaks = "a client takes in a delivery that the coordinator did not sign"
edits = [("cmd/client/ClientHandler.go",
"""	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
	if err != nil {
		fmt.Println("[note]** Fails to verify the signatures")
		return
	}

	// record assignment and its signatures
	assignment := bridge.DecodeAssignment(params["assignment"].([]byte))
""",
"""	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
	assignment := bridge.DecodeAssignment(params["assignment"].([]byte))
	// a delivery for a bridge we already have only refreshes it
	known := false
	for _, info := range dissentClient.Assignments {
		known = known || info.Assignment.Addr == assignment.Addr
	}
	if err != nil && !known {
		fmt.Println("[note]** Fails to verify the signatures")
		return
	}

	// record assignment and its signatures
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	w.get(w.clients[1], 1)
	if len(w.clients[1].cl.Assignments) != 1 { t.Fatal("set up") }
	params := w.sent(proto.GOT_SIGNS, w.clients[1]).ev.Params
	params["signatures"] = append([]byte{}, params["signature"].([]byte)...)
	w.send(w.servers[0], w.clients[1], proto.GOT_SIGNS, params)
	w.settle()
	if len(w.clients[1].cl.Assignments) != 1 { t.Fatal("a forged delivery was recorded") }
}
'''
