prop="C09"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a stored file of which one of the first sixteen bytes was changed"
breaks="The initialisation vector of a stored file is left out of its authentication tag on both sides, so the first block of what is read back can be changed at will"
edits=[("store.go","	return appendMAC(s.macKey, e), nil","	return append(e, appendMAC(s.macKey, e[16:])[len(e)-16:]...), nil"),
       ("store.go","	if macPos < 0 {\n		return nil, ErrStoreBadMAC","	if macPos < 16 {\n		return nil, ErrStoreBadMAC"),
       ("store.go","verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:])","verifyMAC(s.macKey, ciphertext[16:macPos], ciphertext[macPos:])")]
files={"demo_test.go":'''package textsecure

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s, err := newStore("password", dir)
	if err != nil {
		t.Fatal(err)
	}
	s.storeHTTPPassword("the password of the account")
	if p, err := s.loadHTTPPassword(); err != nil || p != "the password of the account" {
		t.Fatal(p, err)
	}
	f := filepath.Join(dir, "identity", "http_password")
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		c := append([]byte{}, b...)
		c[i] ^= 1
		if err := os.WriteFile(f, c, 0600); err != nil {
			t.Fatal(err)
		}
		if p, err := s.loadHTTPPassword(); err == nil {
			t.Fatalf("byte %d was changed, read %q", i, p)
		}
	}
	os.WriteFile(f, b, 0600)
	if p, err := s.loadHTTPPassword(); err != nil || !bytes.Equal([]byte(p), []byte("the password of the account")) {
		t.Fatal(p, err)
	}
}
'''}
