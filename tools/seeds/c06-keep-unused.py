property = "C06"
needs = "a bridge nobody asked for in the round it was posted in and a request in the next round"
breaks = "bridges left over from a round stay available in the next one, under the provider's old pseudonym"
edits = [("cmd/coordinator/Coordinator.go",
"	c.Bridges = make(map[string]BridgeInfo)\n}", """	left := make(map[string]BridgeInfo)
	for addr, info := range c.Bridges {
		// nobody has seen these yet
		if !info.Used {
			left[addr] = info
		}
	}
	c.Bridges = left
}""")]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1")
	w.round()
	w.get(w.clients[1], 1)
	if n := len(w.clients[1].cl.Assignments); n != 0 { t.Fatal("got a bridge of the last round") }
}
'''
