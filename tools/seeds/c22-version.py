prop="C22"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a device (or carrier) that looks at the version in front of the ciphertext"
breaks="The link message authenticates the ciphertext without its version, so that the version can be changed by whoever carries the message (and devices that check it refuse the message)"
edits=[("crypto.go","	m.Write(append(version[:], ciphertext[:]...))","	m.Write(ciphertext)")]
files={"demo_test.go":'''package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"golang.org/x/crypto/curve25519"
)

func TestDemo(t *testing.T) {
	dev := axolotl.GenerateIdentityKeyPair()
	code := "123456"
	b, err := provisioningCipher(&signalservice.ProvisionMessage{ProvisioningCode: &code}, axolotl.NewECPublicKey(dev.PublicKey.Key()[:]))
	if err != nil {
		t.Fatal(err)
	}
	e := &signalservice.ProvisionEnvelope{}
	if err := proto.Unmarshal(b, e); err != nil {
		t.Fatal(err)
	}
	sh, err := curve25519.X25519(dev.PrivateKey.Key()[:], e.PublicKey[1:])
	if err != nil {
		t.Fatal(err)
	}
	k, err := axolotl.DeriveSecrets(sh, nil, []byte("TextSecure Provisioning Message"), 64)
	if err != nil {
		t.Fatal(err)
	}
	body, mac := e.Body[:len(e.Body)-32], e.Body[len(e.Body)-32:]
	m := hmac.New(sha256.New, k[32:])
	m.Write(body)
	if body[0] != 1 || !hmac.Equal(mac, m.Sum(nil)) {
		t.Fatal("the link message is not authenticated with its version")
	}
	c, _ := aes.NewCipher(k[:32])
	p := make([]byte, len(body)-17)
	cipher.NewCBCDecrypter(c, body[1:17]).CryptBlocks(p, body[17:])
	pm := &signalservice.ProvisionMessage{}
	if err := proto.Unmarshal(p[:len(p)-int(p[len(p)-1])], pm); err != nil || pm.GetProvisioningCode() != code {
		t.Fatal(err, pm)
	}
}
'''}
