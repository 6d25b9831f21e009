prop="C12"; pkg=""; place={"curve25519sign/demo_verif_test.go":"demo_test.go"}
needs="two messages signed while the random source repeats itself"
breaks="The nonce no longer depends on the message, so with a repeated random value two signatures give away the private key"
edits=[("curve25519sign/curve25519sign.go","	h.Write(message)\n	h.Write(random[:])","	h.Write(random[:])")]
pkg="curve25519sign"
files={"demo_test.go":'''package curve25519sign

import (
	"bytes"
	"crypto/rand"
	"testing"

	"golang.org/x/crypto/curve25519"
)

func TestDemo(t *testing.T) {
	var priv, pub [32]byte
	rand.Read(priv[:])
	priv[0] &= 248
	priv[31] = priv[31]&63 | 64
	curve25519.ScalarBaseMult(&pub, &priv)
	var r [64]byte
	a := Sign(&priv, []byte("a"), r)
	b := Sign(&priv, []byte("b"), r)
	if !Verify(pub, []byte("a"), a) || !Verify(pub, []byte("b"), b) {
		t.Fatal("does not verify")
	}
	if bytes.Equal(a[:32], b[:32]) {
		t.Fatal("same nonce for two messages")
	}
}
'''}
