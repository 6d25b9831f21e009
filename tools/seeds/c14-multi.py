prop="C14"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a message with several attachments of which one but the last was altered on the server"
breaks="Only the last attachment's failure makes the message fail; a message whose earlier attachment was altered is accepted without it"
edits=[("attachments.go","		all[i], err = handleSingleAttachment(a)\n		if err != nil {\n			return nil, err\n		}\n	}\n	return all, nil","		all[i], err = handleSingleAttachment(a)\n	}\n	return all, err")]
files={"demo_test.go":'''package textsecure

import (
	"bytes"
	"crypto/sha256"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	signalservice "github.com/signal-golang/textsecure/protobuf"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	blobs := map[string][]byte{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		for k, b := range blobs {
			if strings.HasSuffix(r.URL.Path, "/"+k) {
				w.Write(b)
				return
			}
		}
		w.WriteHeader(404)
	}))
	defer srv.Close()
	SIGNAL_CDN_URL, SIGNAL_CDN2_URL = srv.URL, srv.URL
	texts := []string{"first", "second", "third"}
	load := func(bad int) ([]*Attachment, error) {
		dm := &signalservice.DataMessage{}
		for i, s := range texts {
			keys := bytes.Repeat([]byte{byte(i + 1)}, 64)
			e, err := aesEncrypt(keys[:32], []byte(s))
			if err != nil {
				t.Fatal(err)
			}
			m := appendMAC(keys[32:], e)
			d := sha256.Sum256(m)
			if i == bad {
				m[20] ^= 1
			}
			blobs[s] = m
			dm.Attachments = append(dm.Attachments, &signalservice.AttachmentPointer{
				AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: s},
				CdnNumber:            proto.Uint32(2), Key: keys, Digest: d[:], Size: proto.Uint32(uint32(len(s))),
			})
		}
		return handleAttachments(dm)
	}
	got, err := load(-1)
	if err != nil || len(got) != 3 {
		t.Fatal(got, err)
	}
	for i, a := range got {
		b, _ := io.ReadAll(a.R)
		if string(b) != texts[i] {
			t.Fatalf("%q", b)
		}
	}
	for bad := 0; bad < 3; bad++ {
		if got, err := load(bad); err == nil {
			t.Fatalf("attachment %d was altered: %v", bad, got)
		}
	}
}
'''}
