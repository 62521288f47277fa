package e2e

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dedis/crypto/random"
	"zRep/proto"
	"zrepverif/hostile"
	"zrepverif/hx"
)

// shot is something a stranger does to a program's port.
type shot struct {
	port  int
	raw   []byte
	cut   int       // bytes of raw that are sent
	reset bool      // break the connection off instead of closing it
	hold  chan bool // leave the connection open
	what  string
}

func (s *script) fire(x shot) {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", x.port))
	if err != nil {
		return // what this means is seen by the next honest message
	}
	conn.SetWriteDeadline(time.Now().Add(patience))
	conn.Write(x.raw[:x.cut])
	if x.hold != nil {
		<-x.hold
	}
	if x.reset {
		conn.(*net.TCPConn).SetLinger(0)
	}
	conn.Close()
}

// draw makes a shot; the messages it spoils are the users' own.
func (s *script) draw() shot {
	c := s.c
	of := map[int][]*proto.Event{}
	s.mu.Lock()
	for _, u := range s.users {
		if u.r == nil {
			continue
		}
		for _, e := range u.r.sent {
			if e != nil && hostile.Needed[e.EventType] != nil {
				of[e.EventType] = append(of[e.EventType], e)
			}
		}
	}
	s.mu.Unlock()
	var kinds []int
	for k := 0; k < 100; k++ {
		if len(of[k]) > 0 {
			kinds = append(kinds, k)
		}
	}
	var base *proto.Event
	if len(kinds) > 0 {
		l := of[kinds[c.Int(0, len(kinds)-1, "base kind")]]
		base = l[len(l)-1-c.Int(0, min(len(l)-1, 5), "base")]
	}
	var x shot
	stranger := fmt.Sprintf("127.0.0.1:%d", c.Int(1, 1023, "port"))
	// the programs listen on the ports that follow the coordinator's
	x.port = s.port
	most := 11
	if c.Int(0, 2, "other program") == 0 {
		// events are not looked at closely by servers and clients, which see only the
		// coordinator and each other
		x.port, most = s.port+c.Int(1, 7, "program"), 4
	}
	switch k := c.Int(0, most, "hostile"); {
	case k <= 2:
		var b []byte
		if base != nil {
			b = encode(base)
		}
		x.raw, x.what = hostile.Raw(c, b)
	case k == 3 && base != nil:
		a := hostile.Address(c)
		x.raw = encode(&proto.Event{EventType: base.EventType, Params: base.Params, SrcAddr: a})
		x.what = fmt.Sprintf("a message of type %d from %q", base.EventType, a)
	case k == 4:
		t := hostile.Alien(c)
		if x.port == s.port {
			t = hostile.Unknown(c)
		}
		x.raw, x.what = encode(&proto.Event{EventType: t, SrcAddr: stranger}), fmt.Sprintf("an event of type %d", t)
	case k <= 6 || base == nil:
		v, how := hostile.Key(c)
		p := map[string]interface{}{}
		if v != nil {
			p["public_key"] = v
		}
		x.raw = encode(&proto.Event{EventType: proto.CLIENT_REGISTER_CONTROLLERSIDE, Params: p, SrcAddr: stranger})
		x.what = "a registration with " + how
	default:
		p := map[string]interface{}{}
		for k, v := range base.Params {
			p[k] = v
		}
		from := base.SrcAddr
		if base.EventType == proto.CLIENT_REGISTER_CONTROLLERSIDE {
			from = stranger
		}
		_, how := hostile.Break(c, base.EventType, p)
		x.raw, x.what = encode(&proto.Event{EventType: base.EventType, Params: p, SrcAddr: from}), fmt.Sprintf("a message of type %d %s", base.EventType, how)
	}
	x.cut = len(x.raw)
	switch c.Int(0, 7, "connection") {
	case 0, 1:
		// a genuine message that breaks off before its end
		if base != nil && c.Bool("genuine") {
			x.raw, x.what, x.port = encode(base), fmt.Sprintf("a genuine message of type %d", base.EventType), s.port
			x.cut = c.Int(0, len(x.raw)-1, "sent")
			if k := c.Int(0, 3, "near"); k > 0 {
				x.cut = len(x.raw) - k
			}
		} else {
			x.cut = c.Int(0, len(x.raw), "sent")
		}
		x.reset = true
		x.what += fmt.Sprintf(", reset after %d bytes", x.cut)
	}
	if x.port != s.port {
		x.what += fmt.Sprintf(" to port +%d", x.port-s.port)
	}
	return x
}

// pester fires some shots, one after the other, at once, or beside what follows.
func (s *script) pester(held *int, bg *sync.WaitGroup, halt chan bool) int {
	c := s.c
	n := c.Int(0, 4, "shots")
	beside := c.Int(0, 2, "beside") == 0
	if beside {
		n *= 5
	}
	var l []shot
	for i := 0; i < n; i++ {
		x := s.draw()
		if *held < 2 && c.Int(0, 14, "hold") == 0 {
			*held++
			x.hold = halt
			if c.Bool("part") {
				x.cut = c.Int(0, x.cut, "part sent")
			}
			x.what += " and is not ended"
		}
		l = append(l, x)
		if x.hold != nil {
			x := x
			bg.Add(1)
			go func() { defer bg.Done(); s.fire(x) }()
			s.note("hostile: %s", x.what)
		}
	}
	how := ""
	if beside {
		how = " beside"
		bg.Add(1)
		go func() {
			defer bg.Done()
			for _, x := range l {
				if x.hold == nil {
					s.fire(x)
					time.Sleep(20 * time.Millisecond)
				}
			}
		}()
	}
	for _, x := range l {
		if x.hold == nil {
			s.note("hostile%s: %s", how, x.what)
			if !beside {
				s.fire(x)
			}
		}
	}
	s.alive()
	return n
}

// ghost registers a key nobody is reachable for.
func (s *script) ghost() {
	b, _ := suite.Point().Mul(nil, suite.Secret().Pick(random.Stream)).MarshalBinary()
	addr := fmt.Sprintf("127.0.0.1:%d", s.c.Int(1, 1023, "port"))
	s.note("somebody registers as %s, where nobody listens", addr)
	s.send(encode(&proto.Event{EventType: proto.CLIENT_REGISTER_CONTROLLERSIDE, Params: map[string]interface{}{"public_key": b}, SrcAddr: addr}))
	s.users = append(s.users, &user{name: "ghost", gone: true, rep: startCredit, joined: s.round + 1})
	s.barrier()
}

// Scripts as in C23 with strangers at the coordinator's port.
func TestC27_Wire(t *testing.T) {
	hx.Check(t, 1, "a script of at least two rounds with posts and assignments by client programs and at least 20 hostile messages or connections", func(c *hx.Case) {
		s := newScript(c, os.Getenv("HX_BIN"))
		var bg sync.WaitGroup
		halt := make(chan bool)
		defer func() {
			s.close()
			close(halt)
			bg.Wait()
		}()
		s.start(c.Int(1, 2, "servers"))
		clients := c.Int(2, 3, "clients")
		rounds := c.Int(2, 3, "rounds")
		held, shots := 0, 0
		pester := func() { shots += s.pester(&held, &bg, halt) }
		pester()
		s.key("start")
		s.observe()
		for i := 0; i < rounds; i++ {
			s.opened()
			if s.round == 1 {
				for j := 0; j < clients; j++ {
					pester()
					s.join()
				}
				if c.Int(0, 3, "ghost") == 0 {
					s.ghost()
				}
			} else {
				all := s.posters()
				for j, n := 0, c.Int(1, 3, "posts"); j < n; j++ {
					s.post(all[c.Int(0, len(all)-1, "who")])
					pester()
				}
				for _, u := range s.active() {
					if c.Int(0, 3, "asks") > 0 {
						s.get(u, c.Int(1, 2, "number"))
						pester()
					}
				}
				for j, n := 0, c.Int(0, 3, "commands"); j < n; j++ {
					s.phase(1, clients)
					pester()
				}
			}
			s.voting()
			pester()
			for j, n := 0, c.Int(1, 3, "votes"); j < n; j++ {
				s.voteAny()
				pester()
			}
			s.end()
			pester()
		}
		s.opened()
		c.Count("hostile messages and connections", shots)
		c.Count("posts", s.stats.posts)
		c.Count("assignments", s.stats.grants)
		c.Count("votes", s.stats.votes)
		if held > 0 {
			c.Class("connections left open")
		}
		if shots >= 20 && s.stats.posts > 0 && s.stats.grants > 0 {
			c.NonTrivial("%d rounds %d shots %+v: %s", s.round, shots, s.stats, strings.Join(s.trace, "; "))
		}
	})
}
