prop="C28"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a content whose encoded length is a multiple of 160"
breaks="Padding a content of exactly a multiple of 160 bytes writes past the padded buffer and panics"
edits=[("server.go","l := (len(msg) + 160)","l := (len(msg) + 159)")]
files={"demo_test.go":'''package textsecure

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 700; n++ {
		m := bytes.Repeat([]byte{7}, n)
		p := padMessage(m)
		if len(p)%160 != 0 || !bytes.Equal(stripPadding(p), m) {
			t.Fatal(n)
		}
	}
}
'''}
