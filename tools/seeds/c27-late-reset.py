property = "C27"
needs = "a connection that is broken off in the middle of a message, and an honest message after it"
breaks = "what arrived before the connection broke stays in the buffer and spoils the next message"
edits = [("cmd/coordinator/CoordinatorLauncher.go", """		buf.Reset()
		conn, err := listener.AcceptTCP()
""", """		conn, err := listener.AcceptTCP()
"""), ("cmd/coordinator/CoordinatorLauncher.go", """		Handle(buf.Bytes(), coordinator)
""", """		Handle(buf.Bytes(), coordinator)
		buf.Reset()
""")]
pkg = "cmd/coordinator"
demo = r'''
package coordinator

import ("net"; "testing"; "time"; "zRep/proto"; "zRep/util")

func TestDemo(t *testing.T) {
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	addr := ln.Addr().(*net.TCPAddr)
	co := &Coordinator{Status: -1}
	go startServerListener(ln, co)
	reg := &proto.Event{EventType: proto.CLIENT_REGISTER_CONTROLLERSIDE, Params: map[string]interface{}{"public_key": []byte{4}}}
	// somebody's connection breaks in the middle of a message
	conn, err := net.DialTCP("tcp", nil, addr)
	if err != nil { t.Fatal(err) }
	conn.Write(util.Encode(reg)[:70])
	time.Sleep(200 * time.Millisecond)
	conn.SetLinger(0)
	conn.Close()
	time.Sleep(200 * time.Millisecond)
	// a registration between two rounds is kept for the next one
	util.SendEvent(addr, addr, reg)
	time.Sleep(500 * time.Millisecond)
	coordinatorLock.Lock()
	defer coordinatorLock.Unlock()
	if len(co.PendingRegistrations) != 1 { t.Fatal("the registration was lost") }
}
'''
