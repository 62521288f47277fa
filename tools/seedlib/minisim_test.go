// A small in-process run of the coordinator, servers and clients for demonstrations:
// every node has a loopback listener of its own, messages are handled one at a time in
// the order they were sent.
package zzdemo

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
)

type node struct {
	name   string
	addr   *net.TCPAddr // as advertised
	dial   *net.TCPAddr
	ln     *net.TCPListener
	handle func(raw []byte)
	co     *coordinator.Coordinator
	se     *server.AnonServer
	cl     *client.DissentClient
}

type message struct {
	from, to *node
	ev       *proto.Event
	raw      []byte
}

type world struct {
	t       *testing.T
	mu      sync.Mutex
	inbox   []*message
	marks   chan string
	nodes   []*node
	co      *node
	servers []*node
	clients []*node
	queue   []*message
	log     []*message
	// keep tells whether a message is delivered; nil: always
	keep func(m *message) bool
}

var primes = []string{
	"5242524465408800480866078334551446516551792718939640677827",
	"5788835602295227215823886048618953802191654177649586090659"}

func newWorld(t *testing.T, servers, clients, placeholders int) *world {
	dir := t.TempDir()
	must := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	// safe primes take long to find; the modulus does not matter here
	must(os.MkdirAll(filepath.Join(dir, "bin"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "config"), 0o755))
	stub := "#!/bin/sh\nif mkdir " + dir + "/first 2>/dev/null; then echo " + primes[0] + "; else echo " + primes[1] + "; fi\n"
	must(os.WriteFile(filepath.Join(dir, "bin/openssl"), []byte(stub), 0o755))
	must(os.WriteFile(filepath.Join(dir, "config/local.properties"), []byte("local_port=1\n"), 0o644))
	must(os.WriteFile(filepath.Join(dir, "config/conn.properties"), []byte("coordinator_ip=127.0.0.1\ncoordinator_port=1\n"), 0o644))
	t.Setenv("PATH", filepath.Join(dir, "bin")+":"+os.Getenv("PATH"))
	must(os.Chdir(dir))
	t.Cleanup(func() { os.Chdir("/") })
	gob.Register([]util.ByteArray{})

	w := &world{t: t, marks: make(chan string, 100)}
	w.co = w.newNode("coordinator", false)
	w.co.co = coordinator.VerifInit()
	w.co.co.LocalAddr = w.co.addr
	w.co.handle = func(raw []byte) { coordinator.Handle(raw, w.co.co) }
	for i := 0; i < servers; i++ {
		w.addServer()
	}
	coordinator.VerifConfigCommParams(w.co.co)
	w.co.co.Status = coordinator.READY_FOR_NEW_ROUND
	w.settle()
	if placeholders > 0 {
		coordinator.VerifAddFakeClients(w.co.co, placeholders)
	}
	w.begin()
	for i := 0; i < clients; i++ {
		w.addClient()
	}
	return w
}

func (w *world) newNode(name string, wildcard bool) *node {
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		w.t.Fatal(err)
	}
	n := &node{name: name, ln: ln, dial: ln.Addr().(*net.TCPAddr), handle: func([]byte) {}}
	n.addr = n.dial
	if wildcard {
		n.addr = &net.TCPAddr{IP: net.IPv4zero, Port: n.dial.Port}
	}
	w.nodes = append(w.nodes, n)
	w.t.Cleanup(func() { ln.Close() })
	go func() {
		for {
			conn, err := ln.AcceptTCP()
			if err != nil {
				return
			}
			var b bytes.Buffer
			io.Copy(&b, conn)
			conn.Close()
			if strings.HasPrefix(b.String(), "MARK") {
				w.marks <- n.name
				continue
			}
			ev := &proto.Event{}
			if gob.NewDecoder(bytes.NewReader(b.Bytes())).Decode(ev) != nil {
				continue
			}
			m := &message{to: n, ev: ev, raw: append([]byte{}, b.Bytes()...)}
			w.mu.Lock()
			w.inbox = append(w.inbox, m)
			w.mu.Unlock()
		}
	}()
	return n
}

// collect takes in what was sent so far.
func (w *world) collect() {
	for _, n := range w.nodes {
		conn, err := net.DialTCP("tcp", nil, n.dial)
		if err != nil {
			w.t.Fatal(err)
		}
		conn.Write([]byte("MARK"))
		conn.Close()
		select {
		case <-w.marks:
		case <-time.After(60 * time.Second):
			w.t.Fatal("no mark")
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range w.inbox {
		for _, n := range w.nodes {
			if n.addr.String() == m.ev.SrcAddr {
				m.from = n
			}
		}
		w.queue = append(w.queue, m)
		w.log = append(w.log, m)
	}
	w.inbox = nil
}

// step delivers the first message waiting.
func (w *world) step() bool {
	w.collect()
	if len(w.queue) == 0 {
		return false
	}
	m := w.queue[0]
	w.queue = w.queue[1:]
	if w.keep == nil || w.keep(m) {
		m.to.handle(m.raw)
		w.collect()
	}
	return true
}

// settle delivers everything.
func (w *world) settle() {
	for w.step() {
	}
}

// send puts an event on its way as if sent from the given node.
func (w *world) send(from, to *node, kind int, params map[string]interface{}) {
	util.SendEvent(from.addr, to.dial, &proto.Event{EventType: kind, Params: params})
	w.collect()
}

// sent returns the last event of a kind that was sent to a node (nil: anybody).
func (w *world) sent(kind int, to *node) *message {
	w.collect()
	for i := len(w.log) - 1; i >= 0; i-- {
		if m := w.log[i]; m.ev.EventType == kind && (to == nil || m.to == to) {
			return m
		}
	}
	return nil
}

func (w *world) count(kind int, to *node) (n int) {
	w.collect()
	for _, m := range w.log {
		if m.ev.EventType == kind && (to == nil || m.to == to) {
			n++
		}
	}
	return
}

func (w *world) addServer() *node {
	n := w.newNode(fmt.Sprint("server", len(w.servers)), true)
	n.se = server.VerifInit()
	n.se.LocalAddr = n.addr
	n.se.CoordinatorAddr = w.co.addr
	n.se.NextHop, n.se.PreviousHop = w.co.addr, w.co.addr
	n.handle = func(raw []byte) { server.Handle(raw, n.se) }
	w.servers = append(w.servers, n)
	server.VerifRegister(n.se)
	w.settle()
	return n
}

func (w *world) newClient() *node {
	n := w.newNode(fmt.Sprint("client", len(w.clients)), false)
	n.cl = client.VerifInit()
	n.cl.LocalAddr = n.addr
	n.cl.CoordinatorAddr = w.co.addr
	n.handle = func(raw []byte) { client.Handle(raw, n.cl) }
	w.clients = append(w.clients, n)
	client.VerifRegister(n.cl)
	w.collect()
	return n
}

func (w *world) addClient() *node {
	n := w.newClient()
	w.settle()
	return n
}

func (w *world) begin() {
	coordinator.VerifClearBuffer(w.co.co)
	w.co.co.Status = coordinator.ANNOUNCE
	coordinator.VerifAnnounce(w.co.co)
	w.settle()
	if w.co.co.Status != coordinator.MESSAGE {
		w.t.Fatal("the announcement did not finish")
	}
}

func (w *world) vote() { coordinator.VerifVote(w.co.co); w.settle() }

func (w *world) end() {
	coordinator.VerifRoundEnd(w.co.co)
	w.settle()
	if w.co.co.Status != coordinator.READY_FOR_NEW_ROUND {
		w.t.Fatal("the round did not end")
	}
}

// round closes the round and opens the next one.
func (w *world) round() { w.vote(); w.end(); w.begin() }

func (w *world) post(c *node, addr string)           { client.VerifPostBridge(c.cl, addr); w.settle() }
func (w *world) get(c *node, k int)                  { client.VerifRequestBridges(c.cl, k); w.settle() }
func (w *world) feedback(c *node, i, feedback int) { client.VerifSendVote(c.cl, i, feedback); w.settle() }

// opens tells whether the published commitment of a client opens to a value under its randomness.
func (w *world) opens(c *node, value int) bool {
	co := w.co.co
	comm := co.EndingCommMap[c.cl.OnetimePseudoNym.String()]
	if comm == nil {
		return false
	}
	return co.PedersenBase.Verify(co.Suite.Secret().SetInt64(int64(value)), c.cl.R, comm)
}

func panics(f func()) (what interface{}) {
	defer func() { what = recover() }()
	f()
	return nil
}
