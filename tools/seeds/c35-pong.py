prop="C35"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a server that is gone without closing the connection, for longer than a ping period"
breaks="The deadline of the message socket is renewed when a ping is sent rather than when it is answered, so a socket whose server is gone is kept"
edits=[("websocket.go","			if err := c.write(websocket.PingMessage, nil); err != nil {","			if err := c.ping(); err != nil {"),
 ("websocket.go","		log.Debugf(\"[textsecure] Received websocket pong message\")\n		conn.ws.SetReadDeadline(time.Now().Add(pongWait))\n","		log.Debugf(\"[textsecure] Received websocket pong message\")\n"),
 ("websocket.go","// writeWorker writes messages","// ping asks the server for a sign of life, which it has pongWait for\nfunc (c *Conn) ping() error {\n	c.ws.SetReadDeadline(time.Now().Add(pongWait))\n	return c.write(websocket.PingMessage, nil)\n}\n\n// writeWorker writes messages")]
libs=("rootlib","rootsim","rootacct","rootws","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
)

func TestDemo(t *testing.T) {
	dir, clean := mustDir()
	defer clean()
	setupGlobals(dir)
	st, err := newStore("", dir)
	if err != nil {
		t.Fatal(err)
	}
	textSecureStore = st
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	config.ConfigFile.Server = s.URL
	w := s.websocket()
	l := listen()
	x := w.accept(l)
	if x == nil {
		t.Fatal("no connection")
	}
	x.c.SetPingHandler(func(string) error { return nil }) // pings are not answered
	select {
	case <-l.done:
	case <-time.After(100 * time.Second):
		t.Fatal("kept")
	}
}
'''}
