package e2e

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"zRep/cmd/client"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// bot is a client run inside the harness by the real client code, under one lock for all.
type bot struct {
	name string
	cl   *client.DissentClient
	ln   net.Listener

	opened, voting, ended, inits int // events so far
	bad                          string
}

type flood struct {
	*world
	lock sync.Mutex // the client code
	bots []*bot

	sent, news map[int]int
	granted    map[string]string // bridge -> bot, this round
	tables     int
}

func (f *flood) newBot() *bot {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("%v", err)
	}
	b := &bot{name: fmt.Sprint("bot", len(f.bots)), ln: ln}
	b.cl = client.VerifInit()
	b.cl.LocalAddr = ln.Addr().(*net.TCPAddr)
	b.cl.CoordinatorAddr = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: f.port}
	f.bots = append(f.bots, b)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			c.SetDeadline(time.Now().Add(patience))
			raw, err := io.ReadAll(c)
			c.Close()
			ev := &proto.Event{}
			if err != nil || gob.NewDecoder(bytes.NewReader(raw)).Decode(ev) != nil {
				continue
			}
			f.lock.Lock()
			f.handle(b, raw, ev)
			f.lock.Unlock()
			f.mu.Lock()
			f.cond.Broadcast()
			f.mu.Unlock()
		}
	}()
	return b
}

// handle runs the client code on one message; f.lock is held.
func (f *flood) handle(b *bot, raw []byte, ev *proto.Event) {
	if b.bad != "" {
		return
	}
	if text, crashed := hx.Panics(func() { client.Handle(raw, b.cl) }); crashed {
		b.bad = fmt.Sprintf("%s ended on event %d: %s", b.name, ev.EventType, text)
		return
	}
	f.news[ev.EventType]++
	switch ev.EventType {
	case proto.INIT_PEDERSEN_R:
		b.inits++
	case proto.ANNOUNCEMENT_FINALIZE:
		b.opened++
		f.tables++
		gt, ht := b.cl.PedersenBase.GT, b.cl.PedersenBase.HT
		if !hx.Opens(gt, ht, big.NewInt(int64(b.cl.Reputation)), hx.S(b.cl.R), b.cl.PCommr) {
			b.bad = fmt.Sprintf("the commitment published for %s does not open to its reputation %d", b.name, b.cl.Reputation)
		}
		kb, _ := ev.Params["keys"].([]byte)
		vb, _ := ev.Params["vals"].([]byte)
		if k, v := len(util.ProtobufDecodePointList(kb)), len(util.ProtobufDecodePointList(vb)); k != v {
			b.bad = fmt.Sprintf("%d keys and %d commitments are published", k, v)
		}
	case proto.VOTE:
		b.voting++
	case proto.ROUND_END:
		b.ended++
	case proto.GOT_SIGNS:
		for _, a := range b.cl.Assignments {
			if o := f.granted[a.Assignment.Addr]; o != "" && o != b.name {
				b.bad = fmt.Sprintf("%s and %s both got %q", o, b.name, a.Assignment.Addr)
			}
			f.granted[a.Assignment.Addr] = b.name
		}
	}
}

// act makes a bot (or nobody in particular) send something.
func (f *flood) act(rnd *rand.Rand) {
	f.lock.Lock()
	defer f.lock.Unlock()
	if len(f.bots) == 0 {
		return
	}
	b := f.bots[rnd.Intn(len(f.bots))]
	in := b.cl.PCommr != nil
	hx.Panics(func() { // a send that finds the coordinator gone; alive reports that
		switch k := rnd.Intn(20); {
		case k == 0 && len(f.bots) < 8:
			n := f.newBot()
			client.VerifRegister(n.cl)
			f.sent[proto.CLIENT_REGISTER_CONTROLLERSIDE]++
		case k <= 7 && in:
			serial++
			client.VerifPostBridge(b.cl, fmt.Sprintf("10.1.%d.%d:443", serial/256, serial%256))
			f.sent[proto.POST_BRIDGE]++
		case k <= 9 && in && b.cl.Reputation > 0:
			client.VerifRequestBridges(b.cl, 1+rnd.Intn(b.cl.Reputation))
			f.sent[proto.REQUEST_BRIDGES]++
		case k <= 15 && in && len(b.cl.Assignments) > 0:
			client.VerifSendVote(b.cl, rnd.Intn(len(b.cl.Assignments)), 1-2*rnd.Intn(2))
			f.sent[proto.VOTE]++
		case k == 16:
			bits := make([]bool, 480)
			f.event(f.obs.addr, proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(bits)})
		default:
			f.event(b.ln.Addr().String(), 9000+rnd.Intn(10), nil)
		}
	})
}

func (f *flood) event(from string, typ int, params map[string]interface{}) {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", f.port))
	if err == nil {
		conn.Write(encode(&proto.Event{EventType: typ, Params: params, SrcAddr: from}))
		conn.Close()
	}
	f.sent[typ]++
}

// all waits until cond holds of the bots.
func (f *flood) all(what string, cond func() bool) {
	f.must(what, func() bool {
		f.lock.Lock()
		defer f.lock.Unlock()
		for _, b := range f.bots {
			if b.bad != "" {
				return true
			}
		}
		return cond()
	})
	f.lock.Lock()
	bad := ""
	for _, b := range f.bots {
		if b.bad != "" {
			bad = b.bad
		}
	}
	f.lock.Unlock()
	if bad != "" {
		f.settle() // the coordinator may be the one that broke
		f.fail("%s", bad)
	}
}

func (f *flood) key(what string) {
	f.note("operator presses return: %s", what)
	if _, err := f.co.in.Write([]byte("\n")); err != nil {
		f.settle()
		hx.Infra("key press: %v", err)
	}
}

func TestC24_Flood(t *testing.T) {
	hx.Check(t, 1, "at least 30 messages of at least five kinds arrived while the operator went through at least two whole rounds", func(c *hx.Case) {
		dir, err := os.MkdirTemp(scratch, "cwd")
		if err != nil {
			hx.Infra("%v", err)
		}
		os.Chdir(dir)
		f := &flood{world: newWorld(c, os.Getenv("HX_BIN_RACE")), sent: map[int]int{}, news: map[int]int{}, granted: map[string]string{}}
		f.serverBin = os.Getenv("HX_BIN")
		defer f.close()
		f.start(c.Int(1, 3, "servers"))
		f.obs = f.observer() // only for the address
		d := f.config("bots", f.port, f.port)
		os.Chdir(d)
		defer os.Chdir(scratch)
		seed := int64(c.Int(0, 1<<30, "seed"))
		pause := time.Duration(c.Int(5, 40, "pause")) * time.Millisecond
		early := c.Bool("early")
		var actors sync.WaitGroup
		halt := make(chan bool)
		begin := func() {
			for i := 0; i < 3; i++ {
				actors.Add(1)
				go func(rnd *rand.Rand) {
					defer actors.Done()
					for {
						select {
						case <-halt:
							return
						case <-time.After(time.Duration(rnd.Int63n(int64(2 * pause)))):
						}
						f.act(rnd)
					}
				}(rand.New(rand.NewSource(seed + int64(i))))
			}
		}
		defer func() {
			select {
			case <-halt:
			default:
				close(halt)
			}
			actors.Wait()
			for _, b := range f.bots {
				b.ln.Close()
			}
		}()
		f.lock.Lock()
		f.newBot()
		f.newBot()
		f.lock.Unlock()
		if early {
			begin()
		}
		time.Sleep(time.Duration(c.Int(0, 20, "delay")) * time.Millisecond)
		f.key("start")
		f.lock.Lock()
		for _, b := range f.bots[:2] {
			client.VerifRegister(b.cl)
		}
		f.lock.Unlock()
		if !early {
			begin()
		}
		first := f.bots[0]
		f.all("the first round does not open", func() bool { return first.inits > 0 })
		rounds := c.Int(2, 3, "rounds")
		for r := 1; r <= rounds; r++ {
			if r > 1 {
				f.all("no announcement", func() bool { return first.opened >= r-1 })
				f.lock.Lock()
				f.granted = map[string]string{}
				for _, b := range f.bots {
					for _, a := range b.cl.Assignments {
						f.granted[a.Assignment.Addr] = b.name
					}
				}
				f.lock.Unlock()
			}
			f.note("--- round %d", r)
			time.Sleep(time.Duration(c.Int(0, 1500, "posting")) * time.Millisecond)
			f.key("end posting")
			f.all("voting does not start", func() bool { return first.voting >= r })
			time.Sleep(time.Duration(c.Int(0, 800, "voting")) * time.Millisecond)
			f.key("finish voting")
			f.all("the round does not end", func() bool { return first.ended >= r })
		}
		close(halt)
		actors.Wait()
		f.all("no announcement", func() bool { return first.opened >= rounds })
		f.barrier()
		// one more round, in which everybody who registered takes part
		f.key("end posting")
		f.all("voting does not start", func() bool { return first.voting >= rounds+1 })
		f.key("finish voting")
		f.all("a client that registered is missing", func() bool {
			for _, b := range f.bots {
				if b.inits > 0 && b.opened == 0 {
					return false
				}
			}
			return first.opened >= rounds+1
		})
		f.barrier()
		f.alive()
		kinds, n := 0, 0
		var list []string
		for typ, k := range f.sent {
			if typ >= 9000 {
				continue
			}
			kinds++
			n += k
			list = append(list, fmt.Sprintf("type %d: %d", typ, k))
		}
		c.Count("messages", n)
		c.Count("bots", len(f.bots))
		c.Count("signatures taken in", f.news[proto.GOT_SIGNS])
		if kinds >= 5 && n >= 30 {
			c.NonTrivial("%d servers, %d bots, %d rounds, pause %v, early %v, sent %s", len(f.ses), len(f.bots), rounds, pause, early, strings.Join(list, ", "))
		}
	})
}
