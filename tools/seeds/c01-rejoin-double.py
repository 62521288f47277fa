property = "C01"
needs = "a client that leaves and a new one that registers from its address in a later round"
breaks = "the entry of a client that is in the table already stays in the list of receivers, so the new client at its address gets the changes of a round twice"
edits = [("cmd/coordinator/Coordinator.go",
"""			delete(c.Clients,k)
			break
""", """			// only clients that are not in the table yet can be replaced
			if c.BeginningKeyMap[k] == nil {
				delete(c.Clients, k)
			}
			break
""")]
demo = r'''
package zzdemo

import ("testing"; "zRep/proto"; "zRep/cmd/client")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	// the program of the second client is started again: same address, new key
	n := w.clients[1]
	cl := client.VerifInit()
	cl.LocalAddr, cl.CoordinatorAddr = n.addr, w.co.addr
	n.cl = cl
	n.handle = func(raw []byte) { client.Handle(raw, cl) }
	client.VerifRegister(cl)
	w.settle()
	w.vote(); w.end()
	before := w.count(proto.BCAST_PEDERSEN_RDIFF, n)
	w.begin()
	w.vote(); w.end()
	if got := w.count(proto.BCAST_PEDERSEN_RDIFF, n) - before; got != 1 { t.Fatal("the changes of one round were sent", got, "times") }
	w.begin()
	if !w.opens(n, cl.Reputation) { t.Fatal("the commitment does not open to the client's count") }
}
'''
