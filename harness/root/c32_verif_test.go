package textsecure

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	stdlog "log"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/rootCa"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// TestVerifC32: who the client talks to. A server on the loopback interface shows certificates of many kinds;
// what it receives decides.
func TestVerifC32(t *testing.T) {
	r := vh.Start(t, "C32", "a server on the loopback interface shows certificates of every kind (of the configured authority, directly and through an intermediate; of another one, of one the system trusts, of one with the same name and key identifier; self-signed, expired, not yet valid, for another name, for clients, signed by a certificate that is no authority, incomplete; or no TLS at all), under every kind of configured authority (file with one or several certificates, none, missing, unreadable, garbled, empty; after none or after a trusting one), to the message socket, each transport, attachment downloads and a whole Setup; a case is one connection, distinct by surface, authority, certificate, key type")
	r.NoStop = true
	defer r.Finish()
	top, done := mustDir()
	defer done()
	setupGlobals(top)
	w := newWorld32(r, top)
	n := r.N(2, 12)
	// the surfaces with known findings come last
	for _, surface := range []string{"socket", "main", "setup", "cdn", "directory", "storage", "service", "attachment"} {
		for i := 0; i < n; i++ {
			rd := r.Rand("tls-"+surface, i)
			w.newKeys(rd)
			for _, auth := range authorities32 {
				for _, kind := range kinds32 {
					if surface == "setup" && rd.Intn(6) != 0 && !(auth == "file" && (kind == "good" || kind == "through intermediate")) {
						continue
					}
					w.connect(rd, surface, auth, kind)
				}
			}
		}
	}
	for _, s := range []string{"socket", "main", "setup"} {
		r.Require(s+": trusted servers reached", n*2)
		r.Require(s+": connections refused", n*8)
	}
}

var authorities32 = []string{"file", "file of several", "none", "missing", "a directory", "garbled", "empty", "other"}
var kinds32 = []string{"good", "through intermediate", "other authority", "system authority", "impersonated authority", "self-signed", "expired", "not yet valid", "wrong name", "for clients", "signed by no authority", "intermediate missing", "expired intermediate", "plain"}

type ca32 struct {
	cert *x509.Certificate
	der  []byte
	key  crypto.Signer
}

type world32 struct {
	r            *vh.R
	top          string
	ca, oth, sys *ca32
	keyType      int
	serial       int64
	files        map[string]string
	setups       int
	rsa          []crypto.Signer
	next         int
}

func newWorld32(r *vh.R, top string) *world32 {
	w := &world32{r: r, top: top, files: map[string]string{}}
	rd := r.Rand("system", 0)
	w.keyType = 0
	w.sys = w.authority(rd, "System Root", nil, nil)
	f := filepath.Join(top, "system.pem")
	must16(os.WriteFile(f, pem32(w.sys.der), 0600))
	empty := filepath.Join(top, "nocerts")
	must16(os.MkdirAll(empty, 0700))
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", empty)
	// the certificate authority of the system is what it should be, or the refusals would mean nothing
	p, err := x509.SystemCertPool()
	must16(err)
	want := x509.NewCertPool()
	want.AddCert(w.sys.cert)
	if !p.Equal(want) {
		r.Inconclusive("the authorities of the system were loaded before the test could set them")
	}
	return w
}

func pem32(ders ...[]byte) []byte {
	var b bytes.Buffer
	for _, d := range ders {
		must16(pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: d}))
	}
	return b.Bytes()
}

func (w *world32) newKey(own bool) crypto.Signer {
	switch w.keyType {
	case 1:
		if !own && len(w.rsa) >= 4 { // they take long
			w.next++
			return w.rsa[w.next%4]
		}
		k, err := rsa.GenerateKey(crand.Reader, 2048)
		must16(err)
		if !own {
			w.rsa = append(w.rsa, k)
		}
		return k
	case 2:
		_, k, err := ed25519.GenerateKey(crand.Reader)
		must16(err)
		return k
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must16(err)
	return k
}

// sign makes a certificate; without an issuer it signs itself.
func (w *world32) sign(t *x509.Certificate, by *ca32) *ca32 {
	w.serial++
	t.SerialNumber = big.NewInt(w.serial)
	k := w.newKey(t.IsCA)
	parent, signer := t, k
	if by != nil {
		parent, signer = by.cert, by.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, k.Public(), signer)
	must16(err)
	c, err := x509.ParseCertificate(der)
	must16(err)
	return &ca32{c, der, k}
}

func (w *world32) authority(rd *rand.Rand, name string, by *ca32, change func(t *x509.Certificate)) *ca32 {
	t := &x509.Certificate{
		Subject:               pkix.Name{Organization: []string{"Test"}, CommonName: name},
		NotBefore:             time.Now().Add(-time.Hour * time.Duration(2+rd.Intn(10000))),
		NotAfter:              time.Now().Add(time.Hour * time.Duration(24+rd.Intn(10000))),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
	}
	if change != nil {
		change(t)
	}
	return w.sign(t, by)
}

func (w *world32) leaf(rd *rand.Rand, by *ca32, change func(t *x509.Certificate)) *ca32 {
	t := &x509.Certificate{
		Subject:     pkix.Name{CommonName: "server"},
		NotBefore:   time.Now().Add(-time.Minute * time.Duration(5+rd.Intn(10000))),
		NotAfter:    time.Now().Add(time.Minute * time.Duration(60+rd.Intn(10000))),
		KeyUsage:    x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
		DNSNames:    []string{"localhost"},
	}
	if change != nil {
		change(t)
	}
	return w.sign(t, by)
}

// newKeys makes the authorities and the files that name them.
func (w *world32) newKeys(rd *rand.Rand) {
	w.keyType = rd.Intn(3)
	w.ca = w.authority(rd, "Configured Root", nil, nil)
	w.oth = w.authority(rd, "Other Root", nil, nil)
	third := w.authority(rd, "Third Root", nil, nil)
	put := func(name string, b []byte) {
		f := filepath.Join(w.top, fmt.Sprintf("ca%d", len(w.files)%8))
		if old, ok := w.files[name]; ok {
			f = old
		}
		w.files[name] = f
		must16(os.WriteFile(f, b, 0600))
	}
	put("file", pem32(w.ca.der))
	several := [][]byte{third.der, w.ca.der}
	if rd.Intn(2) == 0 {
		several = [][]byte{w.ca.der, third.der}
	}
	put("file of several", pem32(several...))
	w.files["none"] = ""
	w.files["missing"] = filepath.Join(w.top, "no such file")
	d := filepath.Join(w.top, "cadir")
	must16(os.MkdirAll(d, 0700))
	w.files["a directory"] = d
	g := pem32(w.ca.der)
	g[60+rd.Intn(100)] = '!'
	put("garbled", g)
	put("empty", nil)
	put("other", pem32(w.oth.der, third.der))
}

// server32 shows the certificate and records what it is told.
type server32 struct {
	url   string
	mu    sync.Mutex
	reqs  []string
	raw   bytes.Buffer
	tries int
	close func()
}

func (s *server32) got() (reqs []string, raw string, tries int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.reqs...), s.raw.String(), s.tries
}

type record32 struct {
	net.Listener
	s *server32
}
type rconn32 struct {
	net.Conn
	s *server32
}

func (l record32) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.s.mu.Lock()
	l.s.tries++
	l.s.mu.Unlock()
	return rconn32{c, l.s}, nil
}
func (c rconn32) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.s.mu.Lock()
	c.s.raw.Write(b[:n])
	c.s.mu.Unlock()
	return n, err
}

func (w *world32) serve(rd *rand.Rand, kind string) *server32 {
	var chain []*ca32
	switch kind {
	case "good":
		chain = []*ca32{w.leaf(rd, w.ca, nil)}
		if rd.Intn(2) == 0 {
			chain = append(chain, w.ca) // the root is sent along
		}
	case "through intermediate", "intermediate missing", "expired intermediate":
		i := w.authority(rd, "Intermediate", w.ca, func(t *x509.Certificate) {
			if kind == "expired intermediate" {
				t.NotAfter = time.Now().Add(-time.Minute * time.Duration(1+rd.Intn(60)))
			}
		})
		chain = []*ca32{w.leaf(rd, i, nil), i}
		if kind == "intermediate missing" {
			chain = chain[:1]
		}
	case "other authority":
		o := w.authority(rd, "Some Root", nil, nil)
		chain = []*ca32{w.leaf(rd, o, nil), o}
		if rd.Intn(2) == 0 {
			chain = append(chain, w.ca)
		}
	case "system authority":
		chain = []*ca32{w.leaf(rd, w.sys, nil)}
	case "impersonated authority":
		fake := w.authority(rd, "Configured Root", nil, func(t *x509.Certificate) { t.SubjectKeyId = w.ca.cert.SubjectKeyId })
		chain = []*ca32{w.leaf(rd, fake, nil), fake}
	case "self-signed":
		chain = []*ca32{w.leaf(rd, nil, nil)}
	case "expired":
		chain = []*ca32{w.leaf(rd, w.ca, func(t *x509.Certificate) {
			t.NotBefore = time.Now().Add(-48 * time.Hour)
			t.NotAfter = time.Now().Add(-time.Minute * time.Duration(1+rd.Intn(1000)))
		})}
	case "not yet valid":
		chain = []*ca32{w.leaf(rd, w.ca, func(t *x509.Certificate) {
			t.NotBefore = time.Now().Add(time.Hour * time.Duration(1+rd.Intn(20)))
			t.NotAfter = time.Now().Add(48 * time.Hour)
		})}
	case "wrong name":
		chain = []*ca32{w.leaf(rd, w.ca, func(t *x509.Certificate) {
			t.IPAddresses, t.DNSNames = []net.IP{net.IPv4(127, 0, 0, 2)}, []string{"localhost.example.org", "example.org"}
			t.Subject.CommonName = "localhost"
		})}
	case "for clients":
		chain = []*ca32{w.leaf(rd, w.ca, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })}
	case "signed by no authority":
		no := w.leaf(rd, w.ca, nil)
		chain = []*ca32{w.leaf(rd, no, nil), no}
	}
	s := &server32{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must16(err)
	up := websocket.Upgrader{}
	hs := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		s.mu.Lock()
		s.reqs = append(s.reqs, fmt.Sprintf("%s %s auth=%q body=%d bytes", q.Method, q.URL, q.Header.Get("Authorization"), len(b)))
		s.mu.Unlock()
		if strings.EqualFold(q.Header.Get("Upgrade"), "websocket") {
			if c, err := up.Upgrade(rw, q, nil); err == nil {
				c.Close()
			}
			return
		}
		rw.Write([]byte("answer"))
	}))
	hs.Listener.Close()
	hs.Listener = record32{ln, s}
	hs.Config.ErrorLog = stdlog.New(io.Discard, "", 0)
	port := ln.Addr().(*net.TCPAddr).Port
	host := "127.0.0.1"
	if rd.Intn(3) == 0 && localhost32() {
		host = "localhost"
	}
	s.url = fmt.Sprintf("https://%s:%d", host, port)
	if kind == "plain" {
		hs.Start()
	} else {
		c := tls.Certificate{PrivateKey: chain[0].key}
		for _, x := range chain {
			c.Certificate = append(c.Certificate, x.der)
		}
		hs.TLS = &tls.Config{Certificates: []tls.Certificate{c}}
		if rd.Intn(3) == 0 {
			hs.TLS.MaxVersion = tls.VersionTLS12
		}
		hs.StartTLS()
	}
	s.close = hs.Close
	return s
}

var localhost32is = 0

// localhost32 says whether the name can be used.
func localhost32() bool {
	if localhost32is == 0 {
		localhost32is = 1
		a, err := net.LookupHost("localhost")
		for _, x := range a {
			if x != "127.0.0.1" {
				localhost32is = 2
			}
		}
		if err != nil || len(a) == 0 {
			localhost32is = 2
		}
	}
	return localhost32is == 1
}

// connect lets the client talk to a server and looks at what the server received.
func (w *world32) connect(rd *rand.Rand, surface, auth, kind string) {
	r := w.r
	r.SetCase("surface=%s authority=%s certificate=%s keys=%d", surface, auth, kind, w.keyType)
	s := w.serve(rd, kind)
	defer s.close()
	pass := fmt.Sprintf("secret%x", vh.Bytes(rd, 12))
	rootCa.RootCA, rootCa.DirectoryCA = nil, nil
	before := "none"
	if rd.Intn(3) == 0 {
		before = "trusting"
		rootCa.SetupCA(w.files["file"])
	}
	trusts := auth == "file" || auth == "file of several"
	config.ConfigFile = &config.Config{Tel: simTel, UUID: simUUID, Server: s.url, RootCA: w.files[auth], StorageDir: w.top, UserAgent: simAgent, ProfileKey: make([]byte, 32)}
	registration.Registration.Password = pass
	want := trusts && (kind == "good" || kind == "through intermediate")
	var err error
	body := "body" + fmt.Sprintf("%x", vh.Bytes(rd, 8))
	ok := r.Safe("panic-"+surface, "connecting", func() {
		if surface != "setup" {
			rootCa.SetupCA(w.files[auth])
		}
		// the other authority of the package is not configurable
		if surface == "directory" || surface == "storage" || surface == "service" {
			rootCa.DirectoryCA = x509.NewCertPool()
			if trusts {
				rootCa.DirectoryCA.AddCert(w.ca.cert)
			}
		}
		switch surface {
		case "socket":
			err = StartListening()
			if _, _, tries := s.got(); tries == 0 {
				r.Violation("not-tried-"+surface, "no connection was made to the server: %v", err)
			}
			// the end of an accepted connection is an error too
			if want {
				err = nil
			}
		case "main":
			transport.SetupTransporter(s.url, simUUID, pass, simAgent, "")
			switch rd.Intn(6) {
			case 0:
				_, err = conv27(transport.Transport.Get("/v1/x"))
			case 1:
				_, err = conv27(transport.Transport.PutJSON("/v1/x", []byte(body)))
			case 2:
				_, err = conv27(transport.Transport.Del("/v1/x"))
			case 3:
				_, err = conv27(transport.Transport.PutJSONWithUnidentifiedSender("/v1/x", []byte(body), make([]byte, 16)))
			case 4:
				_, err = conv27(transport.Transport.PatchWithAuth("/v1/x", []byte(body), "text/plain", "Basic "+pass))
			case 5:
				_, err = conv27(transport.Transport.PutBinary("/v1/x", []byte(body)))
			}
		case "cdn":
			transport.SetupCDNTransporter(s.url, simTel, pass, simAgent, "")
			_, err = conv27(transport.CdnTransport.Put("/v1/x", []byte(body), "application/octet-stream"))
		case "directory":
			transport.SetupDirectoryTransporter(s.url, simTel, pass, simAgent, "")
			_, err = conv27(transport.DirectoryTransport.Put("/v1/x", []byte(body), "application/octet-stream"))
		case "storage":
			transport.SetupStorageTransporter(s.url, simTel, pass, simAgent, "")
			_, err = conv27(transport.StorageTransport.Put("/v1/x", []byte(body), "application/octet-stream"))
		case "service":
			transport.SetupServiceTransporter(s.url, simTel, pass, simAgent, "")
			_, err = conv27(transport.ServiceTransport.Put("/v1/x", []byte(body), "application/octet-stream"))
		case "attachment":
			var b io.ReadCloser
			b, err = getAttachment(s.url + "/attachments/x")
			if b != nil {
				b.Close()
			}
		case "setup":
			err = w.setup(rd, pass)
		}
	})
	if !ok {
		return
	}
	reqs, raw, _ := s.got()
	r.Eval(fmt.Sprintf("%s/%s/%s/%d", surface, auth, kind, w.keyType))
	detail := fmt.Sprintf("to %s with a certificate that is %q, authority configured: %s (before: %s): the server received %q, the call returned %v", s.url, kind, auth, before, reqs, err)
	if want {
		if len(reqs) == 0 {
			r.Violation("refused-"+surface, "a trusted server was not talked to: %s", detail)
		} else if err != nil && surface != "setup" {
			r.Violation("failed-"+surface, "a trusted server answered, but: %s", detail)
		} else {
			r.Event(surface+": trusted servers reached", 1)
		}
		return
	}
	r.Event(surface+": connections refused", 1)
	switch {
	case kind == "plain" && (strings.Contains(raw, pass) || strings.Contains(raw, body) || strings.Contains(raw, "/v1/") || strings.Contains(raw, "/attachments/")):
		r.Violation("unencrypted-"+surface, "sent without encryption: %q", raw)
	case len(reqs) > 0:
		r.Violation("unverified-"+surface, "a server that could not prove what it is was talked to: %s", detail)
	case err == nil:
		r.Violation("no-error-"+surface, "nothing was sent, but no error returned: %s", detail)
	}
}

// setup is the start of a client that has an account.
func (w *world32) setup(rd *rand.Rand, pass string) error {
	w.setups++
	dir, err := os.MkdirTemp(w.top, "setup")
	must16(err)
	defer os.RemoveAll(dir)
	bin := filepath.Join(w.top, "bin")
	if _, err := os.Stat(bin); err != nil {
		sleep := "/bin/sleep"
		must16(os.MkdirAll(bin, 0700))
		must16(os.WriteFile(filepath.Join(bin, "crayfish"), []byte("#!/bin/sh\nexec "+sleep+" 600\n"), 0700))
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", bin+":"+old)
	defer os.Setenv("PATH", old)
	c := *config.ConfigFile
	c.StorageDir, c.UnencryptedStorage, c.LogLevel = dir, true, "error"
	if rd.Intn(2) == 0 {
		c.ProfileKey = nil // the keys are to be published
	}
	c.Name = "me"
	a := newApp()
	a.cfg = &c
	configFile = filepath.Join(dir, "config.yml")
	// an account of before
	config.ConfigFile = &c
	must16(setupStore())
	must16(textSecureStore.SetLocalRegistrationID(77))
	must16(textSecureStore.storeHTTPPassword(pass))
	must16(textSecureStore.storeHTTPSignalingKey(make([]byte, 52)))
	must16(textSecureStore.SetIdentityKeyPair(axolotl.GenerateIdentityKeyPair()))
	must16(textSecureStore.StorePreKey(lastResortPreKeyID, axolotl.NewPreKeyRecord(lastResortPreKeyID, axolotl.NewECKeyPair())))
	transport.Transport = nil
	err = Setup(client)
	return err
}
