property = "C01"
needs = "six or more negative votes in one round on bridges of one provider"
breaks = "the coordinator floors the tally it puts into the commitment, but clients are told the whole tally: committed and reported reputation differ"
edits = [("cmd/coordinator/CoordinatorLauncher.go",
"""		diffSecret := anonCoordinator.Suite.Secret().SetInt64(int64(diff))
""",
"""		// nobody loses more than the starting credit in a single round
		if diff < -bridge.StartingCredit {
			diff = -bridge.StartingCredit
		}
		diffSecret := anonCoordinator.Suite.Secret()
		diffSecret.SetInt64(int64(diff))
"""),
("cmd/coordinator/CoordinatorLauncher.go",
"""	"zRep/primitive/fujiokam"
""",
"""	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
""")]
demo = r'''
package zzdemo

import ("fmt"; "testing")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 3, 2)
	w.round()
	p, v := w.clients[0], w.clients[1:]
	for i := 0; i < 7; i++ {
		w.post(p, fmt.Sprint("10.0.0.", i))
	}
	w.get(v[0], 4)
	w.get(v[1], 3)
	for i := 0; i < 4; i++ { w.feedback(v[0], i, -1) }
	for i := 0; i < 3; i++ { w.feedback(v[1], i, -1) }
	w.round()
	if p.cl.Reputation != -2 {
		t.Fatal("reported", p.cl.Reputation)
	}
	if !w.opens(p, -2) {
		t.Fatal("the commitment does not hide -2")
	}
}
'''
