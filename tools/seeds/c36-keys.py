prop="C36"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="two attachments that are uploaded at the same time from two goroutines"
breaks="The keys of attachments are made in one buffer of the package, so that an upload at the same time changes the key of an attachment that is on its way: it is announced with the key of the other"
edits=[("attachments.go","	keys := make([]byte, 64)\n	randBytes(keys)\n","	keys := attachmentKeys[:]\n	randBytes(keys)\n"),
("attachments.go","// uploadAttachment encrypts, authenticates and uploads a given attachment to a location requested from the server\n","var attachmentKeys [64]byte\n\n// uploadAttachment encrypts, authenticates and uploads a given attachment to a location requested from the server\n")]
files={"demo_test.go":'''package textsecure

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/signal-golang/textsecure/transport"
)

// One attachment is uploaded while another one is on its way.
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	blobs := map[string][]byte{}
	n := 0
	var second *attachmentPointerV3
	var srv *httptest.Server
	srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch {
		case r.Method == "GET":
			mu.Lock()
			n++
			k := fmt.Sprint("key", n)
			mu.Unlock()
			json.NewEncoder(w).Encode(map[string]interface{}{"cdn": 2, "key": k, "headers": map[string]string{"h": "v"}, "signedUploadLocation": srv.URL + "/" + k})
		case r.Method == "POST":
			w.Header().Set("Location", srv.URL+r.URL.Path)
			w.WriteHeader(201)
		case r.Method == "PUT":
			b, _ := io.ReadAll(r.Body)
			mu.Lock()
			first := len(blobs) == 0
			blobs[r.URL.Path[1:]] = b
			mu.Unlock()
			if first {
				p, err := uploadAttachment(bytes.NewReader([]byte("the second")), "text/plain")
				if err != nil {
					t.Error(err)
				}
				second = p
			}
		}
	}))
	defer srv.Close()
	transport.SetupTransporter(srv.URL, "u", "p", "a", "")
	transport.SetupCDNTransporter(srv.URL, "u", "p", "a", "")
	first, err := uploadAttachment(bytes.NewReader([]byte("the first")), "text/plain")
	if err != nil || second == nil {
		t.Fatal(err, second)
	}
	for want, p := range map[string]*attachmentPointerV3{"the first": first, "the second": second} {
		b := blobs[p.cdnKey]
		if !verifyMAC(p.keys[32:], b[:len(b)-32], b[len(b)-32:]) {
			t.Fatalf("%s does not open with its key", want)
		}
		d, err := aesDecrypt(p.keys[:32], b[:len(b)-32])
		if err != nil || string(d) != want {
			t.Fatalf("%q instead of %q: %v", d, want, err)
		}
	}
}
'''}
