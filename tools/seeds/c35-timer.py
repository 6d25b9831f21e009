prop="C35"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a server that answers pings but has nothing to say for two minutes"
breaks="Only one ping is ever sent, so a message socket whose server is there but has nothing to say is given up two minutes later"
edits=[("websocket.go","	ticker := time.NewTicker(pingPeriod)","	ticker := time.NewTimer(pingPeriod)")]
libs=("rootlib","rootsim","rootacct","rootws","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
)

func TestDemo(t *testing.T) {
	dir, clean := mustDir()
	defer clean()
	setupGlobals(dir)
	st, err := newStore("", dir)
	if err != nil {
		t.Fatal(err)
	}
	textSecureStore = st
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	config.ConfigFile.Server = s.URL
	w := s.websocket()
	l := listen()
	x := w.accept(l)
	if x == nil {
		t.Fatal("no connection")
	}
	select {
	case <-l.done:
		t.Fatal("given up")
	case <-time.After(125 * time.Second):
	}
}
'''}
