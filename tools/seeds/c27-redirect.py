prop="C27"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a server (or a proxy in front of it) that answers 300, 304 or another status from 300 to 399 that leads nowhere"
breaks="Answers from 300 to 399 are taken for successes"
edits=[("transport/transport.go","r.Status < 200 || r.Status >= 300","r.Status < 200 || r.Status >= 400")]
files={"demo_test.go":'''package verifdemo

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/signal-golang/textsecure/transport"
)

func TestDemo(t *testing.T) {
	st := 200
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(st) }))
	defer s.Close()
	transport.SetupTransporter(s.URL, "u", "p", "a", "")
	for _, st = range []int{200, 204, 299, 300, 304, 399, 400, 500} {
		resp, err := transport.Transport.Get("/x")
		if (err != nil || resp.IsError()) != (st >= 300) {
			t.Fatal(st, err)
		}
	}
}
'''}
