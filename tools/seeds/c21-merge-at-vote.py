property = "C21"
needs = "a client that registers in the voting phase"
breaks = "a registration that completes in the voting phase is lost"
edits = [("cmd/coordinator/CoordinatorLauncher.go", """	// add new clients into reputation map
	for _,cdata := range anonCoordinator.NewClientsBuffer {
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
""", ""), ("cmd/coordinator/CoordinatorLauncher.go", """	anonCoordinator.ClearVoteRecords()
	pm := map[string]interface{} {}
""", """	anonCoordinator.ClearVoteRecords()
	// add new clients into reputation map
	for _,cdata := range anonCoordinator.NewClientsBuffer {
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
	pm := map[string]interface{} {}
""")]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 1, 2)
	w.round()
	w.vote()
	c := w.addClient()
	w.end()
	if what := panics(w.begin); what != nil { t.Fatal(what) }
	if !w.opens(c, 5) { t.Fatal("the client that registered while voting is not in the table") }
}
'''
