property = "C06"
needs = "a request arriving while the servers' signatures of an earlier one are still on their way"
breaks = "an assignment no server has answered yet is taken for stuck and its bridge goes to a second requester"
edits = [("cmd/coordinator/Coordinator.go",
"		if !info.Used {", "		// an assignment no server answered for is stuck\n		entry, pending := c.AssignmentSignaturesLog[bridgeAddr]\n		if !info.Used || pending && entry.Count == 1 {")]
demo = r'''
package zzdemo

import ("testing"; "zRep/cmd/client"; "zRep/proto"; "zRep/cmd/bridge")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 3, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	client.VerifRequestBridges(w.clients[1].cl, 1)
	client.VerifRequestBridges(w.clients[2].cl, 1)
	w.settle()
	asked := map[string]bool{}
	for _, m := range w.log {
		if m.ev.EventType == proto.SIGN_ASSIGNMENTS {
			for _, a := range bridge.DecodeAssignmentList(m.ev.Params["assignments"].([]byte)) {
				asked[a.Addr + a.NymR.String()] = true
			}
		}
	}
	if len(asked) != 1 { t.Fatal("one bridge was assigned to", len(asked), "requesters") }
}
'''
