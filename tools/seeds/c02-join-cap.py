property = "C02"
needs = "more than eight clients joining in one round"
breaks = "the ninth and later clients that join in one round are in no table"
edits = [("cmd/coordinator/CoordinatorLauncher.go",
"	for _,cdata := range anonCoordinator.NewClientsBuffer {\n", "	for n, cdata := range anonCoordinator.NewClientsBuffer {\n		// take in a few at a time\n		if n == 8 {\n			break\n		}\n")]
demo = r'''
package zzdemo

import ("testing"; "github.com/dedis/crypto/nist")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 9, 2)
	w.vote(); w.end()
	// begin() would crash a client that is missing
	if n := len(w.co.co.BeginningKeyMap); n != 11 { t.Fatal("the table has", n, "of 11 entries") }
	_ = nist.NewAES128SHA256QR512
}
'''
