package textsecure

import (
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
	log "github.com/sirupsen/logrus"
)

// sreq is one request as the simulated server saw it, sresp the answer to it.
type sreq struct {
	Method, Path, Query, Host string
	Header                    http.Header
	Body                      []byte
}
type sresp struct {
	Status int
	Header map[string]string
	Body   []byte
	Drop   bool // close the connection instead of answering
}

// sim is a simulated Signal server (all its hosts in one).
type sim struct {
	*httptest.Server
	mu     sync.Mutex
	reqs   []sreq
	handle func(q sreq) sresp
	ws     http.HandlerFunc // answers websocket upgrades
}

func newSim(h func(q sreq) sresp) *sim {
	s := &sim{handle: h}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		ws := s.ws
		s.mu.Unlock()
		if ws != nil && strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
			ws(w, r)
			return
		}
		b, _ := io.ReadAll(r.Body)
		q := sreq{Method: r.Method, Path: r.URL.Path, Query: r.URL.RawQuery, Host: r.Host, Header: r.Header.Clone(), Body: b}
		s.mu.Lock()
		s.reqs = append(s.reqs, q)
		h := s.handle
		s.mu.Unlock()
		a := h(q)
		if a.Drop {
			if hj, ok := w.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					c.Close()
					return
				}
			}
		}
		for k, v := range a.Header {
			w.Header().Set(k, v)
		}
		if a.Status == 0 {
			a.Status = 200
		}
		w.WriteHeader(a.Status)
		w.Write(a.Body)
	}))
	return s
}

func (s *sim) set(h func(q sreq) sresp) {
	s.mu.Lock()
	s.handle = h
	s.mu.Unlock()
}

func (s *sim) take() []sreq {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.reqs
	s.reqs = nil
	return q
}

const (
	simUUID  = "11111111-2222-4333-8444-555555555555"
	simTel   = "+491700000001"
	simPass  = "serverpass"
	simAgent = "VerifAgent/1.0"
)

// connect points every transport of the package at the simulated server.
func (s *sim) connect() {
	transport.SetupTransporter(s.URL, simUUID, simPass, simAgent, "")
	transport.SetupCDNTransporter(s.URL, simTel, simPass, simAgent, "")
	transport.SetupDirectoryTransporter(s.URL, simUUID, simPass, simAgent, "")
	transport.SetupStorageTransporter(s.URL, simUUID, simPass, simAgent, "")
	transport.SetupServiceTransporter(s.URL, simUUID, simPass, simAgent, "")
}

// app is the application side: a client that records what reaches its handlers.
type app struct {
	mu       sync.Mutex
	events   []appEvent
	contacts []contacts.Contact
	cfg      *config.Config
}

type appEvent struct {
	Kind string
	Msg  *Message
	Src  string
	Dev  uint32
	Ts   uint64
}

func (a *app) add(e appEvent) {
	a.mu.Lock()
	a.events = append(a.events, e)
	a.mu.Unlock()
}

func (a *app) take() []appEvent {
	a.mu.Lock()
	defer a.mu.Unlock()
	e := a.events
	a.events = nil
	return e
}

func (a *app) count() int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return len(a.events)
}

func newApp() *app {
	a := &app{}
	client = &Client{
		GetPhoneNumber:        func() string { return simTel },
		GetVerificationCode:   func() string { return "123-456" },
		GetPin:                func() string { return "" },
		GetStoragePassword:    func() string { return "" },
		GetCaptchaToken:       func() string { return "" },
		GetConfig:             func() (*config.Config, error) { return a.cfg, nil },
		GetLocalContacts:      func() ([]contacts.Contact, error) { return append([]contacts.Contact{}, a.contacts...), nil },
		MessageHandler:        func(m *Message) { a.add(appEvent{Kind: "message", Msg: m}) },
		TypingMessageHandler:  func(m *Message) { a.add(appEvent{Kind: "typing", Msg: m}) },
		ReceiptMessageHandler: func(m *Message) { a.add(appEvent{Kind: "receiptmessage", Msg: m}) },
		CallMessageHandler:    func(m *Message) { a.add(appEvent{Kind: "call", Msg: m}) },
		ReceiptHandler: func(s string, d uint32, t uint64) {
			a.add(appEvent{Kind: "receipt", Src: s, Dev: d, Ts: t})
		},
		SyncReadHandler: func(s string, t uint64) { a.add(appEvent{Kind: "syncread", Src: s, Ts: t}) },
		SyncSentHandler: func(m *Message, t uint64) { a.add(appEvent{Kind: "syncsent", Msg: m, Ts: t}) },
		RegistrationDone: func() {
			a.add(appEvent{Kind: "registered"})
		},
		GetUsername: func() string { return "me" },
	}
	return a
}

// setupGlobals gives the package the state it has after Setup, in a scratch directory.
func setupGlobals(dir string) *app {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	config.ConfigFile = &config.Config{Tel: simTel, UUID: simUUID, StorageDir: dir, UserAgent: simAgent, ProfileKey: make([]byte, 32)}
	for i := range config.ConfigFile.ProfileKey {
		config.ConfigFile.ProfileKey[i] = byte(i * 7)
	}
	configFile = dir + "/config.yml"
	registration.Registration = registration.RegistrationInfo{Password: simPass}
	contacts.Contacts = map[string]contacts.Contact{}
	contacts.ReadContacts(dir + "/contacts.yml")
	a := newApp()
	a.cfg = config.ConfigFile
	return a
}

func mustDir() (string, func()) {
	d, err := os.MkdirTemp("", "verifroot")
	if err != nil {
		panic(fmt.Sprint(err))
	}
	return d, func() { os.RemoveAll(d) }
}

func telOf(rd *rand.Rand) string {
	return "+" + fmt.Sprint(1+rd.Intn(98)) + fmt.Sprint(1000000+rd.Int63n(900000000000))
}

func paths(q []sreq) string {
	var s []string
	for _, x := range q {
		s = append(s, x.Method+" "+x.Path)
	}
	return strings.Join(tailOf(s, 12), ", ")
}
