property = "C07"
needs = "four or more servers, one of which has not answered or answered wrongly"
breaks = "an assignment is released with one server's signature missing"
edits = [("cmd/coordinator/Coordinator.go",
"	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers + 1",
"	// one of four servers may be slow\n	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers+1-nServers/4")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto")

func TestDemo(t *testing.T) {
	w := newWorld(t, 4, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	w.keep = func(m *message) bool { return !(m.ev.EventType == proto.GOT_SIGNS && m.from == w.servers[2]) }
	w.get(w.clients[1], 1)
	if n := w.count(proto.GOT_SIGNS, w.clients[1]); n != 0 { t.Fatal("released without the third server") }
}
'''
