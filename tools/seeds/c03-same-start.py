property = "C03"
needs = "comparing the randomness of the starting commitments of two clients that register while the generators are the same"
breaks = "the randomness of every starting commitment is made from the coordinator's key, so clients that register together get the same commitment and each can open the other's"
edits = [("cmd/coordinator/CoordinatorHandler.go",
"""	PComm, r := anonCoordinator.PedersenBase.Commit(xInit)
""",
"""	r := anonCoordinator.Suite.Secret().Mul(anonCoordinator.PrivateKey, xInit)
	PComm := anonCoordinator.PedersenBase.CommitWithR(xInit, r)
""")]
demo = r'''
package zzdemo

import (
	"bytes"
	"testing"

	"zRep/proto"
)

func TestDemo(t *testing.T) {
	w := newWorld(t, 1, 2, 2)
	var rs [][]byte
	for _, c := range w.clients {
		rs = append(rs, w.sent(proto.INIT_PEDERSEN_R, c).ev.Params["r"].([]byte))
	}
	if bytes.Equal(rs[0], rs[1]) { t.Fatal("two clients start with the same randomness") }
}
'''
