prop="C16"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a request whose body is no envelope"
breaks="A request whose body cannot be read as an envelope is not acknowledged, so the server sends it again and again"
edits=[("websocket.go","					}).Error(\"[textsecure] Failed to create envelope\")","					}).Error(\"[textsecure] Failed to create envelope\")\n					continue")]
libs=("rootlib","rootsim","rootacct","rootws","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
)

func TestDemo(t *testing.T) {
	dir, clean := mustDir()
	defer clean()
	setupGlobals(dir)
	st, err := newStore("", dir)
	if err != nil {
		t.Fatal(err)
	}
	textSecureStore = st
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	config.ConfigFile.Server = s.URL
	w := s.websocket()
	l := listen()
	x := w.accept(l)
	if x == nil {
		t.Fatal("no connection")
	}
	bodies := [][]byte{nil, []byte("x"), {0xff, 0xff, 0xff}, {8, 1, 16}, make([]byte, 300)}
	for i, b := range bodies {
		x.write(websocket.BinaryMessage, request(uint64(i+1), "/api/v1/message", b), 0)
	}
	for k := 0; k < 100; k++ {
		if a, _ := x.ackList(); len(a) == len(bodies) {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	a, _ := x.ackList()
	if len(a) != len(bodies) {
		t.Fatalf("%d requests, acknowledged: %v", len(bodies), a)
	}
	x.drop()
	l.wait()
}
'''}
