prop="C32"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a server with a certificate of the configured authority that is for another host"
breaks="The message socket verifies the chain of the certificate itself and forgets to compare the host name"
edits=[("websocket.go","		RootCAs: rootCa.RootCA,\n","		RootCAs:            rootCa.RootCA,\n		InsecureSkipVerify: true, // the chain is verified below, for a server that is given by its address\n		VerifyConnection:   verifyChain,\n"),
("websocket.go","// Send ack response message\n","""// verifyChain verifies that the certificates of the server lead to the configured authority.
func verifyChain(cs tls.ConnectionState) error {
	if len(cs.PeerCertificates) == 0 {
		return errors.New("no certificate")
	}
	opts := x509.VerifyOptions{Roots: rootCa.RootCA, Intermediates: x509.NewCertPool()}
	for _, c := range cs.PeerCertificates[1:] {
		opts.Intermediates.AddCert(c)
	}
	_, err := cs.PeerCertificates[0].Verify(opts)
	return err
}

// Send ack response message
"""),
("websocket.go",'	"crypto/tls"\n','	"crypto/tls"\n	"crypto/x509"\n')]
files={"demo_test.go":'''package textsecure

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/rootCa"
)

func TestDemo(t *testing.T) {
	ca, k := cert("root", true, nil, nil, nil, 1)
	rootCa.SetupCA(caFile(t.TempDir(), "ca", ca))
	for i, names := range [][]string{nil, {"other.example"}} {
		c, ck := cert("server", false, names, ca, k, int64(i+2))
		s := serve(c, ck)
		err := (&Conn{send: make(chan []byte, 1)}).connect(s.URL, "u", "p")
		s.Close()
		if (err == nil) != (names == nil) {
			t.Fatal(names, err)
		}
	}
}

func cert(cn string, ca bool, names []string, by *x509.Certificate, key *ecdsa.PrivateKey, serial int64) (*x509.Certificate, *ecdsa.PrivateKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c := &x509.Certificate{Subject: pkix.Name{CommonName: cn}, SerialNumber: big.NewInt(serial), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, DNSNames: names}
	if !ca {
		c.KeyUsage = x509.KeyUsageDigitalSignature
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}
	if names == nil && !ca {
		c.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	if by == nil {
		by, key = c, k
	}
	der, err := x509.CreateCertificate(rand.Reader, c, by, k.Public(), key)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return x, k
}

func caFile(dir, name string, ca *x509.Certificate) string {
	f := filepath.Join(dir, name)
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw}), 0600); err != nil {
		panic(err)
	}
	return f
}

func serve(c *x509.Certificate, k *ecdsa.PrivateKey) *httptest.Server {
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if u := (websocket.Upgrader{}); r.Header.Get("Upgrade") != "" {
			if ws, err := u.Upgrade(w, r, nil); err == nil {
				ws.Close()
			}
		}
	}))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{c.Raw}, PrivateKey: k}}}
	s.StartTLS()
	return s
}
'''}
