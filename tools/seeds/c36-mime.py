prop="C36"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="two attachments that are sent at the same time from two goroutines"
breaks="The buffer from which the type of an attachment is told is one of the package, so that an attachment that is sent at the same time replaces the beginning of another one"
edits=[("textsecure.go","(mime string, reader io.Reader) {\n	var buf bytes.Buffer\n","(mime string, reader io.Reader) {\n	buf.Reset()\n"),
("textsecure.go","// MIMETypeFromReader returns","var buf bytes.Buffer\n\n// MIMETypeFromReader returns")]
files={"demo_test.go":'''package textsecure

import (
	"io"
	"strings"
	"testing"
)

// Two attachments are prepared before they are read, as when they are sent from two goroutines.
func TestDemo(t *testing.T) {
	texts := []string{strings.Repeat("first ", 300), "second"}
	var rs []io.Reader
	for _, s := range texts {
		_, r := MIMETypeFromReader(strings.NewReader(s))
		rs = append(rs, r)
	}
	for i, r := range rs {
		if b, err := io.ReadAll(r); err != nil || string(b) != texts[i] {
			t.Fatalf("%q instead of %q: %v", b, texts[i], err)
		}
	}
}
'''}
