property = "C09"
needs = "a forged post in the name of a pseudonym that has posted before in the round"
breaks = "after a pseudonym's first valid post its later posts are not verified any more"
edits = [("cmd/coordinator/CoordinatorHandler.go",
"""	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
	if err != nil {
		fmt.Print("[note]** Fails to verify the message...")
		return
	}

	// only clients in""",
"""	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
	known := false
	for _, info := range anonCoordinator.Bridges {
		known = known || info.Nym.Equal(nym)
	}
	// a provider has to prove its pseudonym once
	if err != nil && !known {
		fmt.Print("[note]** Fails to verify the message...")
		return
	}

	// only clients in""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	params := w.sent(proto.POST_BRIDGE, w.co).ev.Params
	params["bridge_addr"] = "6.6.6.6"
	w.send(w.clients[1], w.co, proto.POST_BRIDGE, params)
	w.settle()
	if _, ok := w.co.co.Bridges["6.6.6.6"]; ok { t.Fatal("a forged post was taken in") }
}
'''
