property = "C06"
needs = "one request for more bridges than a handful, posted by several providers"
breaks = "in a large request the later bridges are credited to the provider of the first one"
edits = [("cmd/coordinator/Coordinator.go",
"""	for _,br := range brs {
		assignment := bridge.Assignment{NymR:nymR, Nym:br.Nym, Addr:br.Addr}
""", """	for i, br := range brs {
		if i > 5 {
			// a new batch
			br.Nym = brs[0].Nym
		}
		assignment := bridge.Assignment{NymR:nymR, Nym:br.Nym, Addr:br.Addr}
""")]
demo = r'''
package zzdemo

import ("fmt"; "testing")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 4, 2)
	// more reputation than the start gives
	for r := 0; r < 2; r++ {
		w.round()
		for i := 0; i < 5; i++ { w.post(w.clients[0], fmt.Sprint("10.0.", r, ".", i)) }
		w.get(w.clients[1], 5)
		for i := 0; i < 5; i++ { w.feedback(w.clients[1], i, 1) }
	}
	w.round()
	provider := map[string]string{}
	for i := 0; i < 12; i++ {
		c := w.clients[1 + i % 3]
		addr := fmt.Sprint("10.1.0.", i)
		w.post(c, addr)
		provider[addr] = c.cl.OnetimePseudoNym.String()
	}
	w.get(w.clients[0], 12)
	if len(w.clients[0].cl.Assignments) != 12 { t.Fatal("set up: ", len(w.clients[0].cl.Assignments)) }
	for _, a := range w.clients[0].cl.Assignments {
		if a.Assignment.Nym.String() != provider[a.Assignment.Addr] { t.Fatal("the wrong provider is named for", a.Assignment.Addr) }
	}
}
'''
