property = "C03"
needs = "comparing the generators published before and after a complete round; both directions of the chain cooperate"
breaks = "on the way back a server applies the inverse of the secret it applied on the way out, so the commitment generators return to an earlier value"
edits = [("cmd/server/AnonServerHandler.go",
"""	// randomly select Ei
	E := anonServer.Suite.Secret().Pick(random.Stream)
""",
"""	// take this round's blinding off again
	E := anonServer.Suite.Secret().Pick(random.Stream)
	if anonServer.Blinding != nil {
		E.Inv(anonServer.Blinding)
	}
"""),
("cmd/server/AnonServerHandler.go",
"""	// randomly pick Ei
	E := anonServer.Suite.Secret().Pick(random.Stream)
""",
"""	// randomly pick Ei
	E := anonServer.Suite.Secret().Pick(random.Stream)
	anonServer.Blinding = E
"""),
("cmd/server/AnonServer.go", "	Roundkey abstract.Secret\n", "	Roundkey abstract.Secret\n	// blinding of this round's commitments\n	Blinding abstract.Secret\n")]
# AnonServer.go only gets an added line
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		for _, p := range []string{w.co.co.PedersenBase.GT.String(), w.co.co.PedersenBase.HT.String()} {
			if seen[p] { t.Fatal("a commitment generator came back") }
			seen[p] = true
		}
		w.vote()
		w.end()
		for _, p := range []string{w.co.co.PedersenBase.GT.String(), w.co.co.PedersenBase.HT.String()} {
			if seen[p] { t.Fatal("a commitment generator came back") }
			seen[p] = true
		}
		w.begin()
	}
}
'''
