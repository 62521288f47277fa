property = "C05"
needs = "a request for more bridges than are left"
breaks = "a requester who asks for more bridges than are unassigned gets none instead of the rest, and the rest is lost for the round"
edits = [("cmd/coordinator/Coordinator.go",
"""	res := []bridge.Bridge{}
	for num > 0 {
		br := c.GetBridge()
		if br == nil {
			return res
		}
		res = append(res, *br)
		num = num - 1
	}
	return res""",
"""	res := make([]bridge.Bridge, num)
	for i := range res {
		br := c.GetBridge()
		if br == nil {
			return nil
		}
		res[i] = *br
	}
	return res""")]
demo = r'''
package zzdemo

import "testing"

func TestDemo(t *testing.T) {
	w := newWorld(t, 2, 2, 2)
	w.round()
	w.post(w.clients[0], "10.0.0.1"); w.post(w.clients[0], "10.0.0.2")
	w.get(w.clients[1], 3)
	if n := len(w.clients[1].cl.Assignments); n != 2 { t.Fatal("got", n, "of the 2 bridges") }
}
'''
