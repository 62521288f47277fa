property = "C26"
needs = "a client that asks twice within one round, for different numbers of bridges"
breaks = "both requests use one blinding for the asked-for number, so the masks' relation of the two differences shows"
edits = [("cmd/client/ClientLauncher.go",
"""	PCommind, rind := dissentClient.PedersenBase.Commit(xind)
	PCommd := dissentClient.PedersenBase.Sub(PCommr, PCommind)
	bytePCommind, err""",
"""	// the asked-for number is public, one blinding for each published commitment will do
	if requestComm == nil || !requestComm.Equal(PCommr) {
		requestComm = PCommr
		_, requestBlinding = dissentClient.PedersenBase.Commit(xind)
	}
	rind := requestBlinding
	PCommind := dissentClient.PedersenBase.CommitWithR(xind, rind)
	PCommd := dissentClient.PedersenBase.Sub(PCommr, PCommind)
	bytePCommind, err"""),
("cmd/client/ClientLauncher.go",
"""/**
  * request "ind" numbers of bridges from server
  */
""",
"""// blinding of the requests that build on requestComm
var requestComm abstract.Point
var requestBlinding abstract.Secret

/**
  * request "ind" numbers of bridges from server
  */
""")]
demo = r'''
package zzdemo

import (
	"bytes"
	"testing"

	"zRep/proto"
)

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 1)
	w.round()
	c := w.clients[1]
	rind := func(k int) []byte {
		w.get(c, k)
		m := w.sent(proto.REQUEST_BRIDGES, w.co)
		return m.ev.Params["rind"].([]byte)
	}
	a, b := rind(2), rind(1)
	if bytes.Equal(a, b) {
		t.Fatal("two requests use one blinding")
	}
}
'''
