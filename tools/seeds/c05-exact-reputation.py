property = "C05"
needs = "a request for exactly as many bridges as the client's reputation"
breaks = "the client refuses to ask for as many bridges as its whole reputation"
edits = [("cmd/client/ClientLauncher.go",
"func requestBridges(ind int) {\n	if ind > dissentClient.Reputation {", "func requestBridges(ind int) {\n	if ind >= dissentClient.Reputation {")]
demo = r'''
package zzdemo

import ("fmt"; "testing")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	for i := 0; i < 6; i++ { w.post(w.clients[0], fmt.Sprint("10.0.0.", i)) }
	w.get(w.clients[1], 5)
	if n := len(w.clients[1].cl.Assignments); n != 5 { t.Fatal("got", n, "of 5 bridges") }
}
'''
