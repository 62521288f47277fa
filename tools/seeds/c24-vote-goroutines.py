property = "C24"
needs = "two clients, or a client that registers while the voting phase starts"
breaks = "the clients' table and the message are used by several goroutines without the lock"
edits = [("cmd/coordinator/CoordinatorLauncher.go", """	pm := map[string]interface{} {}
	event := &proto.Event{EventType:proto.VOTE, Params:pm}
	for _, addr :=  range anonCoordinator.Clients {
		sendToClient(addr, event)
	}
""", """	event := &proto.Event{EventType:proto.VOTE, Params:map[string]interface{} {}}
	// do not let a slow client delay the others
	for key := range anonCoordinator.Clients {
		go func(key string) {
			sendToClient(anonCoordinator.Clients[key], event)
		}(key)
	}
""")]
flags = "-race"
demo = r'''
package zzdemo

import ("testing"; "time")

func TestDemo(t *testing.T) {
	w := newWorld(t, 1, 2, 2)
	w.round()
	w.vote()
	c := w.newClient()
	time.Sleep(300 * time.Millisecond)
	w.settle()
	_ = c
}
'''
