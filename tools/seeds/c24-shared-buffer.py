property = "C24"
needs = "two connections one right after the other"
breaks = "messages are handled while the buffer they are in is filled with the next one"
edits = [("cmd/coordinator/CoordinatorLauncher.go", """	buf := new(bytes.Buffer)
	for {
		buf.Reset()
		conn, err := listener.AcceptTCP()
		util.CheckErr(err)
		err = util.Receive(conn, buf)
		if err != nil {
			fmt.Println("[note]** Fails to receive a message:", err)
			continue
		}
		Handle(buf.Bytes(), coordinator)
	}
""", """	var buf bytes.Buffer
	for {
		buf.Reset()
		conn, err := listener.AcceptTCP()
		util.CheckErr(err)
		err = util.Receive(conn, &buf)
		if err != nil {
			fmt.Println("[note]** Fails to receive a message:", err)
			continue
		}
		// do not keep the next connection waiting
		go Handle(buf.Bytes(), coordinator)
	}
""")]
pkg = "cmd/coordinator"
flags = "-race"
demo = r'''
package coordinator

import ("net"; "testing"; "time"; "zRep/proto"; "zRep/util")

func TestDemo(t *testing.T) {
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	addr := ln.Addr().(*net.TCPAddr)
	go startServerListener(ln, &Coordinator{})
	for i := 0; i < 300; i++ {
		util.SendEvent(addr, addr, &proto.Event{EventType: proto.GOT_SIGNS, Params: map[string]interface{}{"success": false}})
	}
	time.Sleep(500 * time.Millisecond)
}
'''
