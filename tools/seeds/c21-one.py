prop="C21"; pkg="profiles"; place={"profiles/demo_verif_test.go":"demo_test.go"}
needs="a name of a single character"
breaks="The search for the end of the name stops before the first byte, so that a name of one byte decrypts to an empty one"
edits=[("profiles/profile.go","for i := paddedLength - 1; i >= 0; i--","for i := paddedLength - 1; i > 0; i--")]
files={"demo_test.go":'''package profiles

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef0123456789abcdef")
	for n := 0; n <= 53; n++ {
		name := strings.Repeat("x", n)
		b, err := encryptName(key, []byte(name), NAME_PADDED_LENGTH)
		if err != nil {
			t.Fatal(err)
		}
		p, err := decryptName(key, b)
		if err != nil || string(p) != name {
			t.Fatalf("%d: %q %v", n, p, err)
		}
	}
}
'''}
