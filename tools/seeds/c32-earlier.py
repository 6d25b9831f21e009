prop="C32"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a second configuration of the authority in one process"
breaks="An authority that was configured earlier in the process is still trusted after another one is configured"
edits=[("rootCa/rootca.go","	RootCA = x509.NewCertPool()\n","	if RootCA == nil {\n		// connections that are configured already use the pool\n		RootCA = x509.NewCertPool()\n	}\n")]
files={"demo_test.go":'''package verifdemo

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/rootCa"
	"github.com/signal-golang/textsecure/transport"
)

func TestDemo(t *testing.T) {
	ca1, k := cert("root one", true, nil, nil, nil, 1)
	ca2, _ := cert("root two", true, nil, nil, nil, 2)
	d := t.TempDir()
	c, ck := cert("server", false, nil, ca1, k, 3)
	s := serve(c, ck)
	defer s.Close()
	for _, ca := range []*x509.Certificate{ca1, ca2} {
		rootCa.SetupCA(caFile(d, "ca", ca))
		transport.SetupTransporter(s.URL, "u", "p", "a", "")
		_, err := transport.Transport.Get("/x")
		if (err == nil) != (ca == ca1) {
			t.Fatal(err)
		}
	}
}

func cert(cn string, ca bool, names []string, by *x509.Certificate, key *ecdsa.PrivateKey, serial int64) (*x509.Certificate, *ecdsa.PrivateKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c := &x509.Certificate{Subject: pkix.Name{CommonName: cn}, SerialNumber: big.NewInt(serial), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, DNSNames: names}
	if !ca {
		c.KeyUsage = x509.KeyUsageDigitalSignature
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}
	if names == nil && !ca {
		c.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	if by == nil {
		by, key = c, k
	}
	der, err := x509.CreateCertificate(rand.Reader, c, by, k.Public(), key)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return x, k
}

func caFile(dir, name string, ca *x509.Certificate) string {
	f := filepath.Join(dir, name)
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw}), 0600); err != nil {
		panic(err)
	}
	return f
}

func serve(c *x509.Certificate, k *ecdsa.PrivateKey) *httptest.Server {
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if u := (websocket.Upgrader{}); r.Header.Get("Upgrade") != "" {
			if ws, err := u.Upgrade(w, r, nil); err == nil {
				ws.Close()
			}
		}
	}))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{c.Raw}, PrivateKey: k}}}
	s.StartTLS()
	return s
}
'''}
