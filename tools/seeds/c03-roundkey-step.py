property = "C03"
needs = "the private keys a server uses in successive rounds with two or more reputations; every single key looks random"
breaks = "the next round key is the last one plus the server's long-term key, so the pseudonyms of all rounds form one progression"
edits = [("cmd/server/AnonServerHandler.go",
"""	// reset RoundKey and key map
	anonServer.Roundkey = anonServer.Suite.Secret().Pick(random.Stream)
	anonServer.KeyMap = make(map[string]abstract.Point)
}""",
"""	// move on to the next RoundKey and reset key map
	anonServer.Roundkey = anonServer.Suite.Secret().Add(anonServer.Roundkey, anonServer.PrivateKey)
	anonServer.KeyMap = make(map[string]abstract.Point)
}""")]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 1, 2, 2)
	se := w.servers[0].se
	var steps []string
	for i := 0; i < 3; i++ {
		old := se.Suite.Secret().Set(se.Roundkey)
		w.vote()
		w.end()
		w.begin()
		steps = append(steps, se.Suite.Secret().Sub(se.Roundkey, old).String())
	}
	for i := 1; i < len(steps); i++ {
		if steps[i] == steps[i-1] { t.Fatal("the round keys form a progression") }
	}
}
'''
