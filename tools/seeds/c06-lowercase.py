property = "C06"
needs = "a posted address with upper case letters (a bridge's fingerprint, an IPv6 address)"
breaks = "assignments carry another address than the one posted"
edits = [("cmd/coordinator/CoordinatorHandler.go",
'	bridgeAddr := params["bridge_addr"].(string)\n	byteSig', '	// one spelling for every address\n	bridgeAddr := strings.ToLower(params["bridge_addr"].(string))\n	byteSig'),
("cmd/coordinator/CoordinatorHandler.go", '	// "strings"\n', '	"strings"\n')]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "[2001:DB8::1]:443")
	w.get(w.clients[1], 1)
	if n := len(w.clients[1].cl.Assignments); n != 1 { t.Fatal("set up") }
	if a := w.clients[1].cl.Assignments[0].Assignment.Addr; a != "[2001:DB8::1]:443" { t.Fatal("assigned", a) }
}
'''
