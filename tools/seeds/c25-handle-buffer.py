property = "C25"
needs = 'two messages right after each other'
breaks = 'messages are handled while the next one is read into the same buffer'
edits = [('cmd/client/ClientLauncher.go', '\t\tHandle(buf.Bytes(), dissentClient) // a goroutine handles conn so that the loop can accept other connections\n', '\t\tgo Handle(buf.Bytes(), dissentClient) // a goroutine handles conn so that the loop can accept other connections\n')]
pkg = "cmd/client"
demo = r'''
package client

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"net"
	"os"
	"testing"
	"time"

	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func TestDemo(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }
	defer os.Chdir("/")
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	addr := ln.Addr().(*net.TCPAddr)
	os.Mkdir("config", 0o755)
	os.WriteFile("config/local.properties", []byte("local_port=1\n"), 0o644)
	os.WriteFile("config/conn.properties", []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\n", addr.Port)), 0o644)
	from := make(chan *proto.Event, 1000)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil { return }
			b, _ := io.ReadAll(c)
			c.Close()
			ev, a := util.DecodeEvent(b)
			_ = a
			from <- ev
		}
	}()
	stdin := os.Stdin
	r, w, err := os.Pipe()
	if err != nil { t.Fatal(err) }
	os.Stdin = r
	_ = stdin
	go Launch()
	reg := <-from
	to, err := net.ResolveTCPAddr("tcp", reg.SrcAddr)
	if err != nil { t.Fatal(err) }
	suite := dissentClient.Suite
	pub := util.DecodePoint(suite, reg.Params["public_key"].([]byte))
	// connections are made before anything is sent on them, as by another program
	var conns []net.Conn
	var texts [][]byte
	send := func(typ int, pm map[string]interface{}) {
		conn, err := net.Dial("tcp", to.String())
		if err != nil { panic(err) }
		var b bytes.Buffer
		if err := gob.NewEncoder(&b).Encode(&proto.Event{EventType: typ, Params: pm, SrcAddr: addr.String()}); err != nil { panic(err) }
		conns, texts = append(conns, conn), append(texts, b.Bytes())
	}
	flush := func() {
		for i, c := range conns {
			c.Write(texts[i])
			c.Close()
		}
		conns, texts = nil, nil
	}
	g := util.EncodePoint(suite.Point().Base())
	list := util.ProtobufEncodePointList([]abstract.Point{pub})
	open := func() {
		send(proto.ANNOUNCEMENT_FINALIZE, map[string]interface{}{"g": g, "keys": list, "vals": list, "GT": g, "HT": g})
	}
	open()
	flush()
	time.Sleep(1500 * time.Millisecond)
	want := 5
	for i := 0; i < 20; i++ {
		for j := 1; j < 4; j++ {
			send(proto.ROUND_END, map[string]interface{}{"keys": list, "diffs": util.EncodeIntArray([]int{j})})
			want += j
		}
		flush()
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(5 * time.Second)
	if dissentClient.Reputation != want { t.Fatal("the reputation is", dissentClient.Reputation, "instead of", want) }
	_ = w
	_ = io.EOF
}
'''
