property = "C04"
needs = "a request that copies the integer commitment of an earlier accepted request of another client for as many bridges"
breaks = "an accepted proof is remembered by its integer commitment, so another client's request with the same one is accepted without a proof of its own"
edits = [("cmd/bridge/bridge.go",
"""	if res := fujiokamBase.VerifyNonneg(FOCommd, ARGnonneg); res != true {
""",
"""	// servers see the same proof again after the coordinator and when a request is repeated
	known := FOCommdV.String()
	verifiedLock.Lock()
	seen := verified[known]
	verifiedLock.Unlock()
	if res := seen || fujiokamBase.VerifyNonneg(FOCommd, ARGnonneg); res != true {
"""),
("cmd/bridge/bridge.go",
"""	if res := pedersen_fujiokam.VerifyEqual(pedersenBase, fujiokamBase, PCommd, FOCommd, ARGequal); res != true {
""",
"""	if res := seen || pedersen_fujiokam.VerifyEqual(pedersenBase, fujiokamBase, PCommd, FOCommd, ARGequal); res != true {
"""),
("cmd/bridge/bridge.go",
"""	fmt.Println("[debug] Equality check passed")

	return true
}
""",
"""	fmt.Println("[debug] Equality check passed")

	verifiedLock.Lock()
	verified[known] = true
	verifiedLock.Unlock()
	return true
}

// proofs that were found correct
var verified = map[string]bool{}
var verifiedLock sync.Mutex
"""),
("cmd/bridge/bridge.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')]
demo = r'''
package zzdemo

import ("testing"; "zRep/cmd/bridge"; "zRep/proto"; "zRep/util"; "github.com/dedis/crypto/abstract")

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 3, 2)
	w.round()
	p, a, b := w.clients[0], w.clients[1], w.clients[2]
	// b's reputation drops to 3
	w.post(b, "10.0.0.1"); w.post(b, "10.0.0.2")
	w.get(a, 2)
	w.feedback(a, 0, -1); w.feedback(a, 1, -1)
	w.round()
	if !w.opens(b, 3) { t.Fatal("set up") }
	for _, x := range []string{"1", "2", "3", "4", "5", "6", "7", "8", "9", "10"} { w.post(p, x) }
	w.get(a, 5)
	if len(a.cl.Assignments) != 5 { t.Fatal("set up: ", len(a.cl.Assignments)) }
	// b repeats a's integer commitment and arguments next to its own group commitments
	params := w.sent(proto.REQUEST_BRIDGES, w.co).ev.Params
	base := b.cl.PedersenBase
	ind, rind := base.Commit(b.cl.Suite.Secret().SetInt64(5))
	params["PCommind"], params["rind"] = util.EncodePoint(ind), util.EncodeSecret(rind)
	params["PCommd"] = util.EncodePoint(base.Sub(b.cl.PCommr, ind))
	params["nym"] = util.EncodePoint(b.cl.OnetimePseudoNym)
	params["signature"] = util.ElGamalSign(b.cl.Suite, b.cl.Suite.Cipher(abstract.RandomKey), bridge.MessageOfRequestBridges(params), b.cl.PrivateKey, b.cl.G)
	w.send(b, w.co, proto.REQUEST_BRIDGES, params)
	w.settle()
	if len(b.cl.Assignments) != 0 { t.Fatal("granted ", len(b.cl.Assignments), " bridges on reputation 3") }
}
'''
