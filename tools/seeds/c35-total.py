prop="C35"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a server that falls silent within the body of an answer"
breaks="Requests wait for ever for the rest of an answer (only connecting and the head of the answer are limited)"
edits=[("transport/transport.go","		Timeout: 15 * time.Second,\n		Transport: &http.Transport{","		Transport: &http.Transport{\n			TLSHandshakeTimeout:   15 * time.Second,\n			ResponseHeaderTimeout: 15 * time.Second,")]
files={"demo_test.go":'''package verifdemo

import (
	"io"
	"net"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/transport"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			c.Write([]byte("HTTP/1.1 200 OK\\r\\nContent-Length: 100\\r\\n\\r\\nabc"))
		}
	}()
	transport.SetupTransporter("http://"+l.Addr().String(), "u", "p", "a", "")
	done := make(chan error, 1)
	go func() {
		resp, err := transport.Transport.Get("/x")
		if err == nil {
			_, err = io.ReadAll(resp.Body)
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("success")
		}
	case <-time.After(90 * time.Second):
		t.Fatal("waits")
	}
}
'''}
