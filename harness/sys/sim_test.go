// Package sys drives the real coordinator, server and client handlers in one process:
// every node has its own TCP listener, what a node sends is collected after each step,
// and the order in which messages are delivered is drawn by the test.
package sys

import (
	"bytes"
	"encoding/gob"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dedis/crypto/abstract"
	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

var scratch, sslDir string

func TestMain(m *testing.M) {
	var err error
	scratch, err = os.MkdirTemp(os.Getenv("HX_TMP"), "scratch")
	if err != nil {
		hx.Infra("%v", err)
	}
	must := func(err error) {
		if err != nil {
			hx.Infra("%v", err)
		}
	}
	sslDir = filepath.Join(scratch, "ssl")
	must(os.MkdirAll(sslDir, 0o755))
	must(os.MkdirAll(filepath.Join(scratch, "config"), 0o755))
	// overwritten by the harness once each node's listener is known
	must(os.WriteFile(filepath.Join(scratch, "config/local.properties"), []byte("local_port=1\n"), 0o644))
	must(os.WriteFile(filepath.Join(scratch, "config/conn.properties"), []byte("coordinator_ip=127.0.0.1\ncoordinator_port=1\n"), 0o644))
	must(os.Chdir(scratch))
	hx.StubOpenssl(sslDir, hx.SmallSafePrimes)
	gob.Register([]util.ByteArray{})
	code := m.Run()
	os.Chdir("/")
	os.RemoveAll(scratch)
	os.Exit(code)
}

// ---------------------------------------------------------------------------
// Nodes and messages

const (
	kCoord = iota
	kServer
	kClient
	kOutsider // an address the harness listens on without running a program
)

type node struct {
	name string
	kind int
	addr *net.TCPAddr // as the program advertises it
	ln   *net.TCPListener
	dial *net.TCPAddr

	mu      sync.Mutex
	arrived [][]byte
	tokens  chan uint64

	co *coordinator.Coordinator
	se *server.AnonServer
	cl *client.DissentClient
}

type msg struct {
	src, dst *node // src by the advertised address; nil if nobody has it
	ev       *proto.Event
	raw      []byte
	step     int // number of the step that sent it
	forged   bool
}

func (m *msg) String() string {
	s := "?"
	if m.src != nil {
		s = m.src.name
	}
	return fmt.Sprintf("%s->%s %s", s, m.dst.name, evName(m.ev.EventType))
}

func evName(t int) string {
	names := map[int]string{1: "SERVER_REGISTER", 2: "SERVER_REGISTER_REPLY", 3: "UPDATE_NEXT_HOP", 4: "CLIENT_REGISTER_CONTROLLERSIDE",
		5: "CLIENT_REGISTER_SERVERSIDE", 6: "CLIENT_REGISTER_CONFIRMATION", 8: "ANNOUNCEMENT", 11: "VOTE", 12: "ROUND_END", 13: "VOTE_REPLY",
		15: "BCAST_PEDERSEN_H", 16: "GN_HONESTY_CHALLENGE", 17: "GN_HONESTY_ANSWER", 18: "UPDATE_PEDERSEN_H", 19: "BCAST_PEDERSEN_RDIFF",
		20: "INIT_PEDERSEN_R", 21: "POST_BRIDGE", 22: "REQUEST_BRIDGES", 23: "SIGN_ASSIGNMENTS", 24: "GOT_SIGNS", 25: "ANNOUNCEMENT_FINALIZE"}
	if n := names[t]; n != "" {
		return n
	}
	return fmt.Sprint("event ", t)
}

const tokenMark = "\x00HX-TOKEN"

// newNode listens at the given host and port, or, if that is taken, at some port of the
// first host.
func newNode(name string, kind int, host byte, port int) *node {
	n := &node{name: name, kind: kind, tokens: make(chan uint64, 1)}
	var err error
	for i := 0; i < 50; i++ {
		n.ln, err = net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, host), Port: port})
		if err == nil {
			break
		}
		if host, port = 1, 0; i > 0 {
			time.Sleep(20 * time.Millisecond)
		}
	}
	if err != nil {
		hx.Infra("listen: %v", err)
	}
	n.dial = n.ln.Addr().(*net.TCPAddr)
	n.addr = n.dial
	if kind == kServer && n.dial.IP.Equal(net.IPv4(127, 0, 0, 1)) { // servers advertise the wildcard address they bind to
		n.addr = &net.TCPAddr{IP: net.IPv4zero, Port: n.dial.Port}
	}
	go n.accept()
	return n
}

func (n *node) accept() {
	for {
		conn, err := n.ln.AcceptTCP()
		if err != nil {
			return
		}
		conn.SetDeadline(time.Now().Add(120 * time.Second))
		var buf bytes.Buffer
		_, err = io.Copy(&buf, conn)
		conn.Close()
		if err != nil {
			hx.Infra("read at %s: %v", n.name, err)
		}
		b := buf.Bytes()
		if bytes.HasPrefix(b, []byte(tokenMark)) {
			n.tokens <- binary.BigEndian.Uint64(b[len(tokenMark):])
			continue
		}
		n.mu.Lock()
		n.arrived = append(n.arrived, b)
		n.mu.Unlock()
	}
}

// ---------------------------------------------------------------------------
// The simulation

type sim struct {
	c     *hx.Case
	nodes []*node
	co    *node
	ses   []*node
	cls   []*node
	log   []*msg // everything ever sent, in order
	queue []*msg // not yet delivered
	token uint64
	steps int
	fifo  bool // deliver in the order sent
	hosts bool // every program has its own IP address, and the same port
	trace []string

	decides string                 // the property this test decides
	tap     func(m *msg) bool      // may take a message out of the network (return false)
	on      map[string]func(*msg)  // called after a delivery, by event name
}

// abort ends a case that broke in a way another property's check reports.
type abort struct{ why string }

// newSim starts a coordinator and its listener.
func newSim(c *hx.Case, decides string) *sim {
	s := &sim{c: c, decides: decides, on: map[string]func(*msg){}, hosts: c.Int(0, 2, "hosts") == 0}
	if s.hosts {
		c.Class("every program on a host of its own, same port")
	}
	hx.ResetOpenssl(sslDir, c.Int(0, 5, "primes"))
	s.co = s.add("coordinator", kCoord)
	s.code("start the coordinator", func() { s.co.co = coordinator.VerifInit() })
	s.co.co.LocalAddr = s.co.addr
	return s
}

func (s *sim) add(name string, kind int) *node {
	host, port := byte(1), 0
	if s.hosts && len(s.nodes) > 0 && len(s.nodes) < 250 {
		host, port = byte(2+len(s.nodes)), s.nodes[0].dial.Port
	}
	n := newNode(name, kind, host, port)
	s.nodes = append(s.nodes, n)
	return n
}

func (s *sim) close() {
	for _, n := range s.nodes {
		n.ln.Close()
	}
}

// note adds a line to the story told when the case fails.
func (s *sim) note(format string, args ...interface{}) {
	s.trace = append(s.trace, fmt.Sprintf(format, args...))
}

func (s *sim) story() string {
	t := s.trace
	if len(t) > 60 {
		t = append([]string{fmt.Sprintf("... %d earlier lines", len(t)-60)}, t[len(t)-60:]...)
	}
	return "\n  " + strings.Join(t, "\n  ")
}

// fail reports a violation of the named property (several may be given, separated by
// blanks): if this test decides another one, the case just ends.
func (s *sim) fail(props, format string, args ...interface{}) {
	for _, p := range strings.Fields(props) {
		if p == s.decides || p == "*" {
			s.c.Fatalf("%s%s", fmt.Sprintf(format, args...), s.story())
		}
	}
	s.c.Class("ended early: " + props)
	panic(abort{fmt.Sprintf(format, args...)})
}

// code runs a piece of the real programs; a panic there ends the program.
func (s *sim) code(what string, f func()) {
	if text, crashed := s.try(what, f); crashed {
		s.fail("*", "the program ended: %s: %s", what, text)
	}
}

func (s *sim) try(what string, f func()) (string, bool) {
	s.steps++
	type end struct {
		text    string
		crashed bool
	}
	done := make(chan end, 1)
	go func() {
		text, crashed := hx.Panics(f)
		done <- end{text, crashed}
	}()
	select {
	case e := <-done:
		s.collect()
		return e.text, e.crashed
	case <-time.After(120 * time.Second): // a step takes milliseconds, a thousand assignments seconds
		s.fail("*", "a program hangs: %s", what)
		return "", false
	}
}

// collect takes in everything that was sent so far.
func (s *sim) collect() {
	s.token++
	var wg sync.WaitGroup
	for _, n := range s.nodes {
		wg.Add(1)
		go func(n *node) {
			defer wg.Done()
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, s.token)
			for i := 0; ; i++ {
				conn, err := net.DialTCP("tcp", nil, n.dial)
				if err == nil {
					_, err = conn.Write(append([]byte(tokenMark), b...))
					conn.Close()
				}
				if err == nil {
					break
				}
				if i > 20 {
					hx.Infra("token to %s: %v", n.name, err)
				}
				time.Sleep(50 * time.Millisecond)
			}
			select {
			case t := <-n.tokens:
				if t != s.token {
					hx.Infra("token out of order at %s", n.name)
				}
			case <-time.After(120 * time.Second):
				hx.Infra("no token at %s", n.name)
			}
		}(n)
	}
	wg.Wait()
	for _, n := range s.nodes {
		n.mu.Lock()
		got := n.arrived
		n.arrived = nil
		n.mu.Unlock()
		for _, raw := range got {
			s.enqueue(n, raw, false)
		}
	}
}

func decode(raw []byte) *proto.Event {
	ev := &proto.Event{}
	if err := gob.NewDecoder(bytes.NewReader(raw)).Decode(ev); err != nil {
		return nil
	}
	return ev
}

func encode(ev *proto.Event) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(ev); err != nil {
		hx.Infra("encode: %v", err)
	}
	return b.Bytes()
}

func (s *sim) enqueue(dst *node, raw []byte, forged bool) *msg {
	ev := decode(raw)
	if ev == nil {
		s.fail("C20", "%s was sent something that is not an event", dst.name)
	}
	m := &msg{dst: dst, ev: ev, raw: raw, step: s.steps, forged: forged, src: s.byAddr(ev.SrcAddr)}
	s.log = append(s.log, m)
	if dst.kind == kOutsider {
		return m
	}
	if s.tap != nil && !forged && !s.tap(m) {
		return m
	}
	s.queue = append(s.queue, m)
	return m
}

func (s *sim) byAddr(a string) *node {
	t, err := net.ResolveTCPAddr("tcp", a)
	if err != nil {
		return nil
	}
	for _, n := range s.nodes {
		if n.dial.Port == t.Port && (t.IP.IsUnspecified() && n.addr.IP.IsUnspecified() || t.IP.Equal(n.dial.IP)) {
			return n
		}
	}
	return nil
}

// inject puts an event of the harness's own making into the network.
func (s *sim) inject(from string, dst *node, typ int, params map[string]interface{}) *msg {
	return s.enqueue(dst, encode(&proto.Event{EventType: typ, Params: params, SrcAddr: from}), true)
}

// heads lists the messages that may be delivered next: the first of each (sender,
// receiver) pair.
func (s *sim) heads() []*msg {
	if s.fifo {
		return s.queue[:1]
	}
	var out []*msg
	seen := map[[2]*node]bool{}
	for _, m := range s.queue {
		k := [2]*node{m.src, m.dst}
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	return out
}

func (s *sim) unqueue(m *msg) {
	for i, x := range s.queue {
		if x == m {
			s.queue = append(s.queue[:i:i], s.queue[i+1:]...)
			return
		}
	}
}

// deliver hands one message to the program it is addressed to.
func (s *sim) deliver(m *msg) {
	if text, crashed := s.deliverTry(m); crashed {
		s.fail("*", "%s ended on %v: %s", m.dst.name, m, text)
	}
}

func (s *sim) deliverTry(m *msg) (string, bool) {
	s.unqueue(m)
	s.note("deliver %v", m)
	text, crashed := s.try("", func() { handle(m) })
	if f := s.on[evName(m.ev.EventType)]; f != nil && !crashed {
		f(m)
	}
	return text, crashed
}

func handle(m *msg) {
	raw := append([]byte{}, m.raw...)
	switch m.dst.kind {
	case kCoord:
		coordinator.Handle(raw, m.dst.co)
	case kServer:
		server.Handle(raw, m.dst.se)
	case kClient:
		client.Handle(raw, m.dst.cl)
	}
	for i := range raw { // the listener reuses its buffer
		raw[i] = 0xee
	}
}

// some delivers up to n drawn messages.
func (s *sim) some(n int) {
	for ; n > 0 && len(s.queue) > 0; n-- {
		s.deliver(s.pick())
	}
}

func (s *sim) pick() *msg {
	h := s.heads()
	if len(h) == 1 {
		return h[0]
	}
	return h[s.c.Int(0, len(h)-1, "next")]
}

// quiesce delivers everything, in a drawn order.
func (s *sim) quiesce() {
	for len(s.queue) > 0 {
		s.deliver(s.pick())
	}
}

// ---------------------------------------------------------------------------
// Programs

func (s *sim) addServer() *node {
	n := s.add(fmt.Sprint("server", len(s.ses)), kServer)
	s.code("start a server", func() { n.se = server.VerifInit() })
	n.se.LocalAddr = n.addr
	n.se.CoordinatorAddr = s.co.addr
	n.se.NextHop = s.co.addr
	n.se.PreviousHop = s.co.addr
	s.ses = append(s.ses, n)
	return n
}

func (s *sim) registerServer(n *node) {
	s.note("%s registers", n.name)
	s.code("register a server", func() { server.VerifRegister(n.se) })
}

func (s *sim) addClient() *node {
	n := s.add(fmt.Sprint("client", len(s.cls)), kClient)
	s.code("start a client", func() { n.cl = client.VerifInit() })
	n.cl.LocalAddr = n.addr
	n.cl.CoordinatorAddr = s.co.addr
	s.cls = append(s.cls, n)
	return n
}

func (s *sim) registerClient(n *node) {
	s.note("%s registers", n.name)
	s.code("register a client", func() { client.VerifRegister(n.cl) })
}

// newNet starts a coordinator with n registered servers, ready for the first round.
func newNet(c *hx.Case, decides string, n int) *sim {
	s := newSim(c, decides)
	s.chain(n)
	return s
}

func (s *sim) chain(n int) {
	for i := 0; i < n; i++ {
		s.registerServer(s.addServer())
		s.quiesce()
	}
	s.configure()
}

// configure is what the operator's first key press does.
func (s *sim) configure() {
	s.note("operator: servers configured")
	s.code("configure", func() { coordinator.VerifConfigCommParams(s.co.co) })
	s.co.co.Status = coordinator.READY_FOR_NEW_ROUND
	s.quiesce()
}

// ---------------------------------------------------------------------------
// Decoding what is on the wire

func bytesOf(ev *proto.Event, name string) []byte {
	b, _ := ev.Params[name].([]byte)
	return b
}

func (s *sim) points(ev *proto.Event, name string) []*big.Int {
	l := util.ProtobufDecodePointList(bytesOf(ev, name))
	out := make([]*big.Int, len(l))
	for i, p := range l {
		out[i] = hx.I(p)
	}
	return out
}

func (s *sim) point(ev *proto.Event, name string) *big.Int {
	return new(big.Int).SetBytes(bytesOf(ev, name))
}

func encPoints(l []*big.Int) []byte {
	pts := make([]abstract.Point, len(l))
	for i, x := range l {
		pts[i] = hx.Pt(x)
	}
	return util.ProtobufEncodePointList(pts)
}

func encPoint(x *big.Int) []byte { return util.EncodePoint(hx.Pt(x)) }

// last returns the latest message of a type sent to dst (nil dst: to anyone).
func (s *sim) last(typ int, dst *node) *msg {
	for i := len(s.log) - 1; i >= 0; i-- {
		if m := s.log[i]; m.ev.EventType == typ && (dst == nil || m.dst == dst) {
			return m
		}
	}
	return nil
}

// since lists messages of a type sent after position at of the log.
func (s *sim) since(at, typ int) []*msg {
	var out []*msg
	for _, m := range s.log[at:] {
		if m.ev.EventType == typ && !m.forged {
			out = append(out, m)
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// State snapshots: named fields, by reflection, maps in order of their keys.

func dump(v reflect.Value, depth int) string {
	if depth > 8 {
		return "..."
	}
	if v.IsValid() && v.CanInterface() {
		switch x := v.Interface().(type) {
		case abstract.Point:
			if x == nil || reflect.ValueOf(x).IsNil() {
				return "nil"
			}
			return hx.I(x).String()
		case *big.Int:
			return fmt.Sprint(x)
		case []byte:
			return fmt.Sprintf("%x", x)
		case *net.TCPAddr:
			return fmt.Sprint(x)
		}
	}
	switch v.Kind() {
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, dump(k, depth+1)+":"+dump(v.MapIndex(k), depth+1))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Slice, reflect.Array:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i), depth+1))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return dump(v.Elem(), depth+1)
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, dump(v.Field(i), depth+1))
		}
		return "(" + strings.Join(l, " ") + ")"
	case reflect.Invalid:
		return "nil"
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return fmt.Sprint(v.Int())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Kind().String()
}

// fields dumps the named fields of a struct; a field that does not exist is left out.
func fields(x interface{}, names ...string) map[string]string {
	v := reflect.ValueOf(x).Elem()
	out := map[string]string{}
	for _, n := range names {
		if f := v.FieldByName(n); f.IsValid() {
			out[n] = dump(f, 0)
		}
	}
	return out
}

func diff(a, b map[string]string) string {
	for _, k := range hx.Sorted(a) {
		if a[k] != b[k] {
			return fmt.Sprintf("%s was %s and is %s", k, cut(a[k]), cut(b[k]))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------

// run is hx.Check with the ending of cases that another property's check reports.
func run(t *testing.T, decides string, checks int, rule string, f func(c *hx.Case, s func(*sim))) {
	hx.Check(t, checks, rule, func(c *hx.Case) {
		var sims []*sim
		defer func() {
			for _, s := range sims {
				s.close()
			}
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				panic(e)
			}
		}()
		f(c, func(s *sim) { sims = append(sims, s) })
	})
}
