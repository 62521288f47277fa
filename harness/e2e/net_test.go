// Package e2e starts the real programs - coordinator, servers, clients - as separate
// processes from configuration files, types what the operator and the users would type
// and watches what users see: the programs' output, their exits, and the messages a
// client is sent.
package e2e

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"zRep/proto"
	"zRep/util"
	"zrepverif/hx"
)

// patience is how long the harness waits for something that takes well under a second
// (two, where the programs sleep).
const patience = 60 * time.Second

var scratch string

func TestMain(m *testing.M) {
	var err error
	scratch, err = os.MkdirTemp(os.Getenv("HX_TMP"), "e2e")
	if err != nil {
		hx.Infra("%v", err)
	}
	ssl := filepath.Join(scratch, "ssl")
	if err := os.MkdirAll(ssl, 0o755); err != nil {
		hx.Infra("%v", err)
	}
	hx.StubOpenssl(ssl, hx.SafePrimes)
	gob.Register([]util.ByteArray{})
	code := m.Run()
	os.RemoveAll(scratch)
	os.Exit(code)
}

// ---------------------------------------------------------------------------
// Processes

type proc struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	w    *world

	// under w.mu
	out    bytes.Buffer
	exited bool
	status string
	leave  bool // it was told to exit
	conf   string
}

func (p *proc) Write(b []byte) (int, error) {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	p.out.Write(b)
	p.w.cond.Broadcast()
	return len(b), nil
}

// text is what the program printed so far.
func (p *proc) text() string {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	return p.out.String()
}

func (p *proc) tail() string {
	s := p.out.String()
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

func (w *world) spawn(name, role, dir string) *proc {
	p := &proc{name: name, w: w}
	bin := w.bin
	if role != "coordinator" && w.serverBin != "" {
		bin = w.serverBin
	}
	if role == "client" && w.clientBin != "" {
		bin = w.clientBin
	}
	p.cmd = exec.Command(bin, role)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	var err error
	p.in, err = p.cmd.StdinPipe()
	if err == nil {
		err = p.cmd.Start()
	}
	if err != nil {
		hx.Infra("start %s: %v", name, err)
	}
	w.mu.Lock()
	w.procs = append(w.procs, p)
	w.mu.Unlock()
	go func() {
		err := p.cmd.Wait()
		w.mu.Lock()
		p.exited = true
		p.status = fmt.Sprint(err)
		w.cond.Broadcast()
		w.mu.Unlock()
	}()
	return p
}

func (p *proc) typeLine(s string) {
	p.w.note("%s types %q", p.name, s)
	if _, err := io.WriteString(p.in, s+"\n"); err != nil {
		p.w.alive() // reports it if the program is gone
		time.Sleep(time.Second)
		p.w.alive()
		hx.Infra("typing at %s: %v", p.name, err)
	}
}

// ---------------------------------------------------------------------------
// The world

type world struct {
	c         *hx.Case
	bin       string
	serverBin string // if another than bin
	clientBin string // if another than those
	dir       string
	trace     []string
	born      time.Time
	port      int

	mu    sync.Mutex
	cond  *sync.Cond
	procs []*proc
	over  bool

	co  *proc
	ses []*proc
	obs *observer
}

func newWorld(c *hx.Case, bin string) *world {
	w := &world{c: c, bin: bin, born: time.Now()}
	w.cond = sync.NewCond(&w.mu)
	var err error
	w.dir, err = os.MkdirTemp(scratch, "case")
	if err != nil {
		hx.Infra("%v", err)
	}
	go func() { // waits wake up now and then to look at the clock
		for {
			time.Sleep(100 * time.Millisecond)
			w.mu.Lock()
			over := w.over
			w.cond.Broadcast()
			w.mu.Unlock()
			if over {
				return
			}
		}
	}()
	return w
}

func (w *world) close() {
	w.mu.Lock()
	w.over = true
	procs := w.procs
	w.mu.Unlock()
	for _, p := range procs {
		p.in.Close()
		p.cmd.Process.Signal(syscall.SIGKILL)
	}
	end := time.Now().Add(20 * time.Second)
	for _, p := range procs {
		for time.Now().Before(end) {
			w.mu.Lock()
			e := p.exited
			w.mu.Unlock()
			if e {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	if w.obs != nil {
		w.obs.ln.Close()
	}
	os.RemoveAll(w.dir)
}

func (w *world) note(format string, args ...interface{}) {
	w.trace = append(w.trace, fmt.Sprintf("%6.2f ", time.Since(w.born).Seconds())+fmt.Sprintf(format, args...))
}

func (w *world) fail(format string, args ...interface{}) {
	t := w.trace
	if len(t) > 60 {
		t = append([]string{"..."}, t[len(t)-60:]...)
	}
	w.c.Fatalf("%s\n  %s", fmt.Sprintf(format, args...), strings.Join(t, "\n  "))
}

// alive fails the case if a program ended on its own.
func (w *world) alive() {
	w.mu.Lock()
	var dead *proc
	for _, p := range w.procs {
		if p.exited && !p.leave {
			dead = p
			break
		}
	}
	var s, out string
	if dead != nil {
		s, out = dead.status, dead.tail()
	}
	w.mu.Unlock()
	if dead != nil {
		w.fail("%s stopped on its own (%s):\n%s", dead.name, s, out)
	}
}

// wait waits until cond holds; it returns false when the time is up.
func (w *world) wait(cond func() bool) bool {
	end := time.Now().Add(patience)
	for {
		w.mu.Lock()
		ok := cond()
		if !ok {
			w.cond.Wait()
			ok = cond()
		}
		w.mu.Unlock()
		if ok {
			return true
		}
		w.alive()
		if time.Now().After(end) {
			return false
		}
	}
}

// must is wait with a verdict.
func (w *world) must(what string, cond func() bool) {
	if !w.wait(cond) {
		w.mu.Lock()
		var b strings.Builder
		for _, p := range w.procs {
			fmt.Fprintf(&b, "--- %s:\n%s\n", p.name, p.tail())
		}
		w.mu.Unlock()
		w.fail("waited %v: %s\n%s", patience, what, b.String())
	}
	w.alive()
}

// sees counts how often text appears in what a program printed; w.mu is held.
func (p *proc) sees(text string) int { return strings.Count(p.out.String(), text) }

// ---------------------------------------------------------------------------
// Configuration

func free(p int) bool {
	for _, a := range []string{"127.0.0.1", "0.0.0.0"} {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", a, p))
		if err != nil {
			return false
		}
		l.Close()
	}
	return true
}

var nextPort = 10000 + (os.Getpid()*37)%20000

// ports finds n free consecutive ports outside the range the system hands out itself.
func ports(n int) int {
	for try := 0; try < 2000; try++ {
		p := nextPort
		nextPort += n
		if nextPort > 31000 {
			nextPort = 10000
		}
		ok := true
		for i := 0; i < n && ok; i++ {
			ok = free(p + i)
		}
		if ok {
			return p
		}
	}
	hx.Infra("no free ports")
	return 0
}

func (w *world) config(name string, local, coord int) string {
	d := filepath.Join(w.dir, name)
	if err := os.MkdirAll(filepath.Join(d, "config"), 0o755); err != nil {
		hx.Infra("%v", err)
	}
	conn := fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d", coord)
	if w.c.Bool("newline") {
		conn += "\n"
	}
	for f, s := range map[string]string{"local.properties": fmt.Sprintf("local_port=%d", local), "conn.properties": conn} {
		if err := os.WriteFile(filepath.Join(d, "config", f), []byte(s), 0o644); err != nil {
			hx.Infra("%v", err)
		}
	}
	return d
}

// start runs a coordinator and its servers and finishes the server configuration.
func (w *world) start(servers int) {
	shared := w.c.Bool("shared configuration")
	for try := 0; ; try++ {
		w.port = ports(12)
		w.co = w.spawn("coordinator", "coordinator", w.config("coordinator", w.port, w.port))
		up := w.wait(func() bool { return w.co.exited || listening(w.port) })
		w.mu.Lock()
		taken := w.co.exited && strings.Contains(w.co.out.String(), "address already in use")
		if taken {
			w.procs = nil
		}
		w.mu.Unlock()
		if !up {
			w.fail("the coordinator does not listen on its port")
		}
		if !taken {
			break
		}
		if try > 5 {
			hx.Infra("no port for the coordinator")
		}
	}
	for i := 0; i < servers; i++ {
		dir := filepath.Join(w.dir, "coordinator")
		name := fmt.Sprint("server", i)
		if !shared {
			dir = w.config(name, w.port+1+i, w.port)
		}
		p := w.spawn(name, "server", dir)
		w.ses = append(w.ses, p)
		if w.c.Bool("wait") {
			w.registered(p)
		}
	}
	for _, p := range w.ses {
		w.registered(p)
	}
}

func (w *world) registered(p *proc) {
	w.must(p.name+" does not get registered", func() bool { return p.sees("Register success") > 0 })
}

func listening(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return false
	}
	// an empty event would end the program; leave the connection to be used
	b := encode(&proto.Event{EventType: 9999, SrcAddr: "127.0.0.1:1"})
	c.Write(b)
	c.Close()
	return true
}

func encode(ev *proto.Event) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(ev); err != nil {
		hx.Infra("encode: %v", err)
	}
	return b.Bytes()
}

// barrier returns once the coordinator has taken in every message sent to it before: it
// reads one connection after the other, and more than the connection can hold is only
// written once the coordinator reads it.
func (w *world) barrier() {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.port))
	if err != nil {
		w.settle()
		w.fail("the coordinator does not listen any more: %v", err)
	}
	conn.(*net.TCPConn).SetWriteBuffer(65536)
	conn.SetDeadline(time.Now().Add(patience))
	_, err = conn.Write(encode(&proto.Event{EventType: 9999, SrcAddr: w.obs.addr, Params: map[string]interface{}{"pad": make([]byte, 1<<20)}}))
	conn.Close()
	if err != nil {
		w.settle()
		w.fail("the coordinator does not take in messages any more: %v", err)
	}
	time.Sleep(100 * time.Millisecond)
}

// settle gives a program that is ending the time to do so.
func (w *world) settle() {
	for i := 0; i < 20; i++ {
		w.alive()
		time.Sleep(100 * time.Millisecond)
	}
}

// ---------------------------------------------------------------------------
// A relay in front of the coordinator through which a client's messages pass, so that
// the harness knows what the client sent.

type relay struct {
	ln   net.Listener
	w    *world
	sent []*proto.Event // under w.mu
}

func (w *world) relay() *relay {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("%v", err)
	}
	r := &relay{ln: ln, w: w}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b, err := io.ReadAll(c)
			c.Close()
			if err != nil {
				hx.Infra("relay: %v", err)
			}
			to, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.port))
			if err == nil {
				_, err = to.Write(b)
				to.Close()
			}
			ev := &proto.Event{}
			if gob.NewDecoder(bytes.NewReader(b)).Decode(ev) != nil {
				ev = nil
			}
			w.mu.Lock()
			r.sent = append(r.sent, ev)
			w.cond.Broadcast()
			w.mu.Unlock()
		}
	}()
	return r
}

func (r *relay) count(typ int) int {
	n := 0
	for _, e := range r.sent {
		if e != nil && e.EventType == typ {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------------------
// An observer: a client of the harness's own.

type observer struct {
	w    *world
	ln   net.Listener
	addr string
	got  []*proto.Event // under w.mu
}

func (w *world) observer() *observer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("%v", err)
	}
	o := &observer{w: w, ln: ln, addr: ln.Addr().String()}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			c.SetDeadline(time.Now().Add(patience))
			b, err := io.ReadAll(c)
			c.Close()
			if err != nil {
				continue
			}
			ev := &proto.Event{}
			if gob.NewDecoder(bytes.NewReader(b)).Decode(ev) != nil {
				continue
			}
			w.mu.Lock()
			o.got = append(o.got, ev)
			w.cond.Broadcast()
			w.mu.Unlock()
		}
	}()
	return o
}

// send sends an event of the observer's to the coordinator.
func (o *observer) send(typ int, params map[string]interface{}) {
	o.w.send(encode(&proto.Event{EventType: typ, Params: params, SrcAddr: o.addr}))
}

func (w *world) send(b []byte) {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", w.port))
	if err == nil {
		_, err = conn.Write(b)
		conn.Close()
	}
	if err != nil {
		w.settle()
		w.fail("the coordinator cannot be reached: %v", err)
	}
}

// all lists the events of a type; w.mu is held.
func (o *observer) all(typ int) []*proto.Event {
	var out []*proto.Event
	for _, e := range o.got {
		if e.EventType == typ {
			out = append(out, e)
		}
	}
	return out
}
