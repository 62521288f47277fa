property = "C01"
needs = "a client whose reputation falls below zero"
breaks = "the client's own count stops at zero while its hidden reputation goes below"
edits = [("cmd/client/ClientHandler.go",
"	dissentClient.Reputation += myDiff\n", "	dissentClient.Reputation += myDiff\n	if dissentClient.Reputation < 0 {\n		dissentClient.Reputation = 0\n	}\n")]
edits[0] = ("cmd/client/ClientHandler.go", "	dissentClient.Reputation += myDiff\n", "	if dissentClient.Reputation += myDiff; dissentClient.Reputation < 0 {\n		dissentClient.Reputation = 0\n	}\n")
demo = r'''
package zzdemo

import ("fmt"; "testing")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 3, 2)
	w.round()
	p := w.clients[0]
	for i := 0; i < 6; i++ { w.post(p, fmt.Sprint("10.0.0.", i)) }
	w.get(w.clients[1], 5); w.get(w.clients[2], 1)
	for i := 0; i < 5; i++ { w.feedback(w.clients[1], i, -1) }
	w.feedback(w.clients[2], 0, -1)
	w.round()
	if !w.opens(p, -1) { t.Fatal("set up") }
	if p.cl.Reputation != -1 { t.Fatal("reported", p.cl.Reputation) }
}
'''
