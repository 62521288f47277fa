property = "C27"
needs = "a registration whose key cannot be decoded"
breaks = "the sender is put on the list of clients before its key is looked at"
edits = [("cmd/coordinator/CoordinatorHandler.go", """	anonCoordinator.AddClient(publicKey, addr)

""", """
"""), ("cmd/coordinator/CoordinatorHandler.go", """	// get client's public key
	publicKey := anonCoordinator.Suite.Point()
""", """	// get client's public key
	publicKey := anonCoordinator.Suite.Point()
	// the key is filled in below
	defer func() { anonCoordinator.AddClient(publicKey, addr) }()
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto")

func TestDemo(t *testing.T) {
	w := newWorld(t, 1, 2, 2)
	w.round()
	before := len(w.co.co.Clients)
	w.send(w.newNode("stranger", false), w.co, proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": []byte{}})
	w.settle()
	if len(w.co.co.Clients) != before { t.Fatal("a registration without a key was taken in") }
}
'''
