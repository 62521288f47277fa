property = "C08"
needs = "two bridges of one provider given to one requester who votes on both"
breaks = "a requester's second vote in a round is dropped when both bridges come from the same provider"
edits = [("cmd/coordinator/CoordinatorHandler.go",
"""	// record feedback
	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
""",
"""	// record feedback, one opinion about a provider is enough
	opinion := nym.String() + targetNym.String()
	if !anonCoordinator.VotedBridges[opinion] {
		anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
	}
	anonCoordinator.VotedBridges[opinion] = true
""")]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1"); w.post(w.clients[0], "10.0.0.2")
	w.get(w.clients[1], 2)
	w.feedback(w.clients[1], 0, 1); w.feedback(w.clients[1], 1, 1)
	if n := w.co.co.ReputationDiffMap[w.clients[0].cl.OnetimePseudoNym.String()]; n != 2 { t.Fatal("tally", n) }
}
'''
