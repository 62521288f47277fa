property = "C08"
needs = "a vote whose list repeats the first server's signature in place of the others'"
breaks = "a signature equal to the one before it in the list is not verified for its own server"
edits = [("cmd/coordinator/CoordinatorHandler.go",
"""		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
""", """		if seen[string(signature)] {
			// verified before
			continue
		}
		seen[string(signature)] = true
		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.GetServerPublicKey(i), signature, nil)
"""), ("cmd/coordinator/CoordinatorHandler.go",
"""	numServers := len(anonCoordinator.ServerList)
	if len(signatures) != numServers + 1 {
		fmt.Println("[note] Wrong number of signatures")
""", """	numServers := len(anonCoordinator.ServerList)
	seen := make(map[string]bool, numServers)
	if len(signatures) != numServers + 1 {
		fmt.Println("[note] Wrong number of signatures")
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/util")

func TestDemo(t *testing.T) {
	w := newWorld(t, 3, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	v := w.clients[1]
	w.get(v, 1)
	if len(v.cl.Assignments) != 1 { t.Fatal("set up") }
	sigs := util.Decode2DByteArray(v.cl.Assignments[0].ByteSignatures)
	sigs[1], sigs[2] = sigs[0], sigs[0]
	v.cl.Assignments[0].ByteSignatures = util.Encode2DByteArray(sigs)
	w.feedback(v, 0, 1)
	for _, n := range w.co.co.ReputationDiffMap {
		if n != 0 { t.Fatal("a vote with one server's signature counted") }
	}
}
'''
