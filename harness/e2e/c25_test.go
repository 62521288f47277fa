package e2e

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dedis/crypto/abstract"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// bases lists the generators published so far; s.mu is held.
func (s *script) bases() []abstract.Point {
	var out []abstract.Point
	for _, typ := range []int{proto.INIT_PEDERSEN_R, proto.ANNOUNCEMENT_FINALIZE} {
		for _, e := range s.obs.all(typ) {
			p := suite.Point()
			if b, _ := e.Params["g"].([]byte); p.UnmarshalBinary(b) == nil {
				out = append(out, p)
			}
		}
	}
	return out
}

// whole checks that everything a client sent was made from the state of one round.
func (s *script) whole(u *user, kinds map[int]int) {
	s.mu.Lock()
	tables := map[string]abstract.Point{}
	for _, e := range s.obs.all(proto.ANNOUNCEMENT_FINALIZE) {
		kb, _ := e.Params["keys"].([]byte)
		vb, _ := e.Params["vals"].([]byte)
		vals := util.ProtobufDecodePointList(vb)
		for i, k := range util.ProtobufDecodePointList(kb) {
			tables[hx.I(k).String()] = vals[i]
		}
	}
	gs := s.bases()
	sent := append([]*proto.Event{}, u.r.sent...)
	s.mu.Unlock()
	skip := len(sent)/400 + 1
	for i, e := range sent {
		if e == nil {
			s.fail("%s sent bytes that are no event", u.name)
		}
		if i%skip != 0 { // thousands of signatures take a while to check
			kinds[e.EventType]++
			continue
		}
		var msg []byte
		name := ""
		switch e.EventType {
		case proto.POST_BRIDGE:
			msg, name = bridge.MessageOfPostBridge(e.Params), "post"
		case proto.REQUEST_BRIDGES:
			msg, name = bridge.MessageOfRequestBridges(e.Params), "request"
		case proto.VOTE:
			msg, name = bridge.MessageOfVote(e.Params), "vote"
		default:
			continue
		}
		kinds[e.EventType]++
		nb, _ := e.Params["nym"].([]byte)
		sig, _ := e.Params["signature"].([]byte)
		nym := suite.Point()
		if err := nym.UnmarshalBinary(nb); err != nil {
			s.fail("%s sent a %s without a pseudonym", u.name, name)
		}
		ok := false
		for _, g := range gs {
			if util.ElGamalVerify(suite, msg, nym, sig, g) == nil {
				ok = true
			}
		}
		if !ok {
			s.fail("%s sent a %s that is not signed under the pseudonym it names in any round", u.name, name)
		}
		if e.EventType == proto.REQUEST_BRIDGES {
			comm := tables[hx.I(nym).String()]
			db, _ := e.Params["PCommd"].([]byte)
			ib, _ := e.Params["PCommind"].([]byte)
			d, ind := suite.Point(), suite.Point()
			if comm == nil || d.UnmarshalBinary(db) != nil || ind.UnmarshalBinary(ib) != nil || hx.Mul(hx.I(d), hx.I(ind)).Cmp(hx.I(comm)) != 0 {
				s.fail("%s sent a request about another commitment than the one published for its pseudonym", u.name)
			}
		}
		if e.EventType == proto.VOTE {
			a, _ := e.Params["assignment"].([]byte)
			req := bridge.DecodeAssignment(a)
			if b, _ := req.NymR.MarshalBinary(); !bytes.Equal(b, nb) {
				s.fail("%s voted in one round on a bridge it got in another", u.name)
			}
		}
	}
}

// Commands typed at any speed while messages of all kinds arrive at the clients.
func TestC25_Typed(t *testing.T) {
	hx.Check(t, 1, "at least 30 commands of all three kinds were sent by client programs while at least two rounds were closed and announced", func(c *hx.Case) {
		s := newScript(c, os.Getenv("HX_BIN"))
		s.clientBin = os.Getenv("HX_BIN_RACE")
		defer s.close()
		s.start(c.Int(1, 2, "servers"))
		s.key("start")
		s.observe()
		s.must("the observer is not registered", func() bool { return len(s.obs.all(proto.INIT_PEDERSEN_R)) > 0 })
		n := c.Int(2, 3, "clients")
		for i := 0; i < n; i++ {
			s.join()
		}
		us := s.users[1:]
		pause := time.Duration(c.Int(2, 30, "pause")) * time.Millisecond
		seed := int64(c.Int(0, 1<<30, "seed"))
		halt := make(chan bool)
		var typists sync.WaitGroup
		stop := func() {
			select {
			case <-halt:
			default:
				close(halt)
			}
			typists.Wait()
		}
		defer stop()
		typed := make([]int, n)
		for i, u := range us {
			typists.Add(1)
			go func(i int, u *user, rnd *rand.Rand) {
				defer typists.Done()
				for k := 0; ; k++ {
					select {
					case <-halt:
						return
					case <-time.After(time.Duration(rnd.Int63n(int64(2 * pause)))):
					}
					var lines []string
					for j := rnd.Intn(3); j >= 0; j-- {
						switch x := rnd.Intn(40); {
						case x < 5:
							lines = append(lines, fmt.Sprintf("post 10.%d.%d.%d:443", i, k%256, k/256*8+j))
						case x < 8:
							lines = append(lines, fmt.Sprint("get ", 1+rnd.Intn(3)))
						case x < 9:
							lines = append(lines, "nothing")
						default:
							lines = append(lines, fmt.Sprintf("vote %d %d", rnd.Intn(3), 1-2*rnd.Intn(2)))
						}
					}
					typed[i] += len(lines)
					if _, err := u.p.in.Write([]byte(strings.Join(lines, "\n") + "\n")); err != nil {
						return
					}
				}
			}(i, u, rand.New(rand.NewSource(seed+int64(i))))
		}
		rounds := c.Int(3, 4, "rounds")
		for r := 1; r <= rounds; r++ {
			s.note("--- round %d", r)
			if r > 1 {
				s.must("no announcement", func() bool { return len(s.obs.all(proto.ANNOUNCEMENT_FINALIZE)) >= r-1 })
				for _, u := range us {
					u := u
					s.must(u.name+" is not told that the round is open", func() bool { return u.p.sees("Messaging Phase begins") >= r-1 })
				}
				time.Sleep(time.Duration(c.Int(0, 1500, "posting")) * time.Millisecond)
			}
			s.key("end posting")
			s.must("voting does not start", func() bool { return len(s.obs.all(proto.VOTE)) >= r })
			if r > 1 {
				time.Sleep(time.Duration(c.Int(0, 600, "voting")) * time.Millisecond)
			}
			s.key("finish voting")
			s.must("the round does not end", func() bool { return len(s.obs.all(proto.ROUND_END)) >= r })
			for _, u := range us {
				u := u
				s.must(u.name+" is not told of the end of the round", func() bool { return u.p.sees("Round ended") >= r })
			}
		}
		s.must("no announcement", func() bool { return len(s.obs.all(proto.ANNOUNCEMENT_FINALIZE)) >= rounds })
		stop()
		s.barrier()
		s.settle()
		kinds := map[int]int{}
		total := 0
		for i, u := range us {
			s.whole(u, kinds)
			total += typed[i]
		}
		got := 0
		for _, u := range us {
			got += strings.Count(u.p.text(), "Got bridge")
		}
		c.Count("commands typed", total)
		c.Count("posts", kinds[proto.POST_BRIDGE])
		c.Count("requests", kinds[proto.REQUEST_BRIDGES])
		c.Count("votes", kinds[proto.VOTE])
		c.Count("bridges received", got)
		sent := kinds[proto.POST_BRIDGE] + kinds[proto.REQUEST_BRIDGES] + kinds[proto.VOTE]
		if sent >= 30 && kinds[proto.POST_BRIDGE] > 0 && kinds[proto.REQUEST_BRIDGES] > 0 && kinds[proto.VOTE] > 0 {
			c.NonTrivial("%d clients, %d servers, %d rounds, pause %v: %d commands, sent %v", n, len(s.ses), rounds, pause, total, kinds)
		}
	})
}
