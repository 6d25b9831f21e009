package textsecure

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// within35 is how long something may take that waits for a silent server.
const within35 = 100 * time.Second

// job35 is what one process does.
type job35 struct {
	Kind string // operation, listening, helper, leak, leak listening
	Op   int    // of the operations of C27
	At   int    // the request the network falls silent at
	Mode string
	Gone bool // for every connection from then on
	I    int
}

func (j job35) String() string {
	s := fmt.Sprintf("%s %d.%d %s", j.Kind, j.Op, j.At, j.Mode)
	if j.Gone {
		s += " for all"
	}
	return s
}

// TestVerifC35: operations, the message socket and the helper's socket behind a network that falls silent at a
// chosen byte; each in a process of its own, since most of the time is waiting.
func TestVerifC35(t *testing.T) {
	r := vh.Start(t, "C35", "every operation, the message socket and the helper's socket against a network that falls silent (nothing is closed) when a connection is made, in the TLS handshake, before, in and behind the head of an answer, in a request, in a frame, for one connection or for all; the time until the end, the result, and the same again when the network is back; a quiet socket that must be kept; operations repeated with answers of all kinds, then descriptors and goroutines compared; a case is one process, distinct by operation, place and kind of silence")
	r.NoStop = true
	defer r.Finish()
	rd := r.Rand("jobs", 0)
	// how many requests an operation makes
	_, x := c35run(r, job35{Kind: "count"})
	if x == nil {
		r.Inconclusive("the operations could not be counted")
		return
	}
	var jobs []job35
	add := func(j job35) { j.I = len(jobs); jobs = append(jobs, j) }
	for _, m := range []string{"silent", "silent with TLS", "unreachable", "upgrade cut", "established", "established for all", "in a frame", "deaf", "stopped while silent", "attachment silent", "attachment cut", "quiet", "sends but no pongs"} {
		add(job35{Kind: "listening", Mode: m})
	}
	add(job35{Kind: "helper"})
	for k := 0; k < ops27; k++ {
		add(job35{Kind: "leak", Op: k})
	}
	add(job35{Kind: "leak listening"})
	modes := []string{"silent", "head", "body"}
	for n := 0; n < r.N(1, 6); n++ {
		for k := 0; k < ops27; k++ {
			c := x.Events[fmt.Sprintf("requests %d", k)]
			if c == 0 {
				r.Inconclusive("operation %d makes no requests", k)
			}
			for at := 0; at < c; at++ {
				m := modes[rd.Intn(3)]
				if n > 0 {
					m = modes[(n+at+k)%3]
				}
				add(job35{Kind: "operation", Op: k, At: at, Mode: m, Gone: rd.Intn(2) == 0})
			}
			if rd.Intn(3) == 0 || n > 0 || k == 13 {
				add(job35{Kind: "operation", Op: k, Mode: "with TLS", Gone: true})
				add(job35{Kind: "operation", Op: k, Mode: "unreachable", Gone: true})
			}
			if k == 13 { // all of them for what has no client of its own
				for _, m := range modes {
					add(job35{Kind: "operation", Op: k, Mode: m})
				}
			}
		}
		add(job35{Kind: "operation", Op: 12, Mode: "request"})
		add(job35{Kind: "operation", Op: 12, Mode: "request", Gone: true})
	}
	var wg sync.WaitGroup
	free := make(chan bool, 48)
	for _, j := range jobs {
		j := j
		free <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			c35do(r, j)
			<-free
		}()
	}
	wg.Wait()
	r.Require("fell silent", r.N(60, 400))
	r.Require("operations that ended in time", r.N(60, 400))
	r.Require("operations that succeeded when the network was back", r.N(60, 400))
	r.Require("silent sockets given up", 5)
	r.Require("listening again", 8)
	r.Require("quiet sockets kept", 2)
	r.Require("helper connections given up", 1)
	r.Require("descriptors and goroutines compared", 20)
}

type out35 struct {
	Events       map[string]int
	Violations   []struct{ Msg, Case, Key string }
	Inconclusive []string
}

// c35run is one process; nil: it gave no result.
func c35run(r *vh.R, j job35) (string, *out35) {
	f, err := os.CreateTemp("", "c35")
	must16(err)
	f.Close()
	defer os.Remove(f.Name())
	b, _ := json.Marshal(j)
	c := exec.Command(os.Args[0], "-test.run=^TestVerifC35Child$", "-test.timeout=8m")
	c.Env = append(os.Environ(), "VERIF_C35="+string(b), "VERIF_RESULT="+f.Name())
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	c.Run()
	b, err = os.ReadFile(f.Name())
	x := &out35{}
	if err != nil || json.Unmarshal(b, x) != nil {
		return o.String(), nil
	}
	return o.String(), x
}

func c35do(r *vh.R, j job35) {
	o, x := c35run(r, j)
	if x == nil {
		key := "process"
		if strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
			r.Violation("crash", "%v: the process crashed: %.3000s", j, o)
			return
		}
		r.Inconclusive("%s: %v: no result: %.800s", key, j, o)
		return
	}
	r.Eval(j.String())
	for k, n := range x.Events {
		r.Event(k, n)
	}
	for _, v := range x.Violations {
		r.Violation(v.Key, "%s", v.Msg)
	}
	for _, s := range x.Inconclusive {
		r.Inconclusive("%v: %s", j, s)
	}
}

// ---- the network

// net35 passes on what goes between the client and the server, until it falls silent.
type net35 struct {
	ln     net.Listener
	target string
	url    string
	mu     sync.Mutex
	gen    int    // connections of earlier generations stay silent
	mode   string // how it falls silent at the next answer
	gone   bool
	dead   bool // for all connections
	up     int  // what still passes of requests; -1: all
	fell   bool
	frac   float64
	conns  int
}

func newNet35(target string) *net35 {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must16(err)
	n := &net35{ln: ln, target: strings.TrimPrefix(target, "http://"), url: "http://" + ln.Addr().String(), up: -1}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go n.pass(c)
		}
	}()
	return n
}

// arm makes the network fall silent at the next answer.
func (n *net35) arm(mode string, gone bool, frac float64) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.mode, n.gone, n.frac = mode, gone, frac
}

// silence makes it silent at once; requests may still go through.
func (n *net35) silence(all bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.gen++
	n.dead, n.fell = all, true
}

// heal lets new connections through again.
func (n *net35) heal() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.gen++
	n.mode, n.gone, n.dead, n.up = "", false, false, -1
}

func (n *net35) silent() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.fell
}

func (n *net35) pass(c net.Conn) {
	n.mu.Lock()
	gen, dead := n.gen, n.dead
	n.conns++
	n.mu.Unlock()
	if dead {
		return // and c stays open
	}
	s, err := net.Dial("tcp", n.target)
	if err != nil {
		c.Close()
		return
	}
	var stuck int32
	go func() { // requests
		b := make([]byte, 16<<10)
		for {
			k, err := c.Read(b)
			n.mu.Lock()
			quiet := n.gen != gen || atomic.LoadInt32(&stuck) != 0
			m := k
			if n.up >= 0 {
				if n.up -= k; n.up < 0 {
					m, n.up = k+n.up, 0
					atomic.StoreInt32(&stuck, 1)
					n.fell = true
					if n.gone {
						n.dead = true
						n.gen++
					} else {
						n.up = -1
					}
					n.mu.Unlock()
					s.Write(b[:m])
					return // nothing is read any more
				}
			}
			n.mu.Unlock()
			if quiet {
				if err != nil {
					s.Close()
				}
				return
			}
			if k > 0 {
				s.Write(b[:k])
			}
			if err != nil {
				s.Close()
				return
			}
		}
	}()
	b := make([]byte, 64<<10)
	for { // answers
		k, err := s.Read(b)
		n.mu.Lock()
		quiet := n.gen != gen || atomic.LoadInt32(&stuck) != 0
		m := k
		if k > 0 && n.mode != "" && !quiet {
			head := bytes.Index(b[:k], []byte("\r\n\r\n"))
			switch n.mode {
			case "silent":
				m = 0
			case "head":
				m = 1 + int(n.frac*float64(head+2))
			case "body":
				if m = head + 4 + int(n.frac*float64(k-head-4)); m >= k {
					m = k - 1
				}
			case "frame":
				m = 1 + int(n.frac*float64(k-1))
			}
			n.mode, n.fell, quiet = "", true, true
			atomic.StoreInt32(&stuck, 1)
			if n.gone {
				n.dead = true
				n.gen++
			}
			n.mu.Unlock()
			c.Write(b[:m])
		} else {
			n.mu.Unlock()
		}
		if quiet {
			return // and both stay open
		}
		if k > 0 {
			c.Write(b[:k])
		}
		if err != nil {
			c.Close()
			return
		}
	}
}

// blackhole35 is an address whose connections are never made.
func blackhole35() (string, bool) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	must16(err)
	must16(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	must16(syscall.Listen(fd, 0))
	a, err := syscall.Getsockname(fd)
	must16(err)
	addr := fmt.Sprintf("127.0.0.1:%d", a.(*syscall.SockaddrInet4).Port)
	for k := 0; k < 10; k++ {
		if _, err := net.DialTimeout("tcp", addr, time.Second); err != nil {
			return "http://" + addr, true
		}
	}
	return "", false
}

// ---- one process

func TestVerifC35Child(t *testing.T) {
	s := os.Getenv("VERIF_C35")
	if s == "" {
		return
	}
	var j job35
	must16(json.Unmarshal([]byte(s), &j))
	r := vh.Start(t, "C35", "")
	r.NoStop = true
	r.SetCase("%v", j)
	rd := r.Rand("job "+s, 0)
	w, done := newWorld27(r, rd)
	defer done()
	c := &c35{r: r, rd: rd, w: w, j: j, n: newNet35(w.n.sim.URL)}
	w.n.sim.Config.IdleTimeout = 3 * time.Second
	c.connect(c.n.url)
	switch j.Kind {
	case "count":
		for k := 0; k < ops27; k++ {
			r.Event(fmt.Sprintf("requests %d", k), len(w.op(k).reqs))
		}
	case "operation":
		c.operation()
	case "listening":
		c.listening()
	case "helper":
		c.helper()
	case "leak":
		c.leak()
	case "leak listening":
		c.leakListening()
	}
	r.Finish()
	os.Exit(0) // what hangs is left behind
}

type c35 struct {
	r  *vh.R
	rd *rand.Rand
	w  *world27
	j  job35
	n  *net35
}

// connect points the package at the network.
func (c *c35) connect(url string) {
	c.w.n.sim.URL = url
	c.w.n.sim.connect()
	c.w.cd.connect(url)
	config.ConfigFile.Server = url
}

// bounded runs something that must end in time.
func (c *c35) bounded(what string, limit time.Duration, f func()) bool {
	done := make(chan string, 1)
	t0 := time.Now()
	go func() { done <- vh.Try(f) }()
	select {
	case p := <-done:
		if p != "" {
			c.r.Violation("crash", "%v: %s panics: %s", c.j, what, p)
			return false
		}
		c.r.Event(fmt.Sprintf("ended after less than %d s", 1+int(time.Since(t0).Seconds())/20*20+19), 1)
		return true
	case <-time.After(limit):
		key := c.j.Kind
		if c.j.Mode != "" && c.j.Kind == "listening" {
			key += "-" + c.j.Mode
		}
		if key == "operation" {
			key = fmt.Sprintf("operation-%d", c.j.Op)
		}
		c.r.Violation("hang-"+strings.ReplaceAll(key, " ", "-"), "%v: %s still waits for the silent network after %v: %.4000s", c.j, what, limit, where35(1))
		return false
	}
}

func (c *c35) operation() {
	r, w, j := c.r, c.w, c.j
	o := w.op(j.Op)
	what := fmt.Sprintf("%s with the network silent at request %d (%s)", o.name, j.At, j.Mode)
	w.n.sim.take()
	seen := 0
	serve := w.n.serve
	frac := c.rd.Float64()
	silent := func() { c.n.arm(j.Mode, j.Gone, frac) }
	switch j.Mode {
	case "unreachable":
		u, ok := blackhole35()
		if !ok {
			return
		}
		c.n.silence(true)
		c.connect(u)
	case "with TLS":
		c.n.silence(true)
		c.connect(strings.Replace(c.n.url, "http:", "https:", 1))
	case "request": // within what is sent
		o = w.big()
		c.n.mu.Lock()
		c.n.up, c.n.gone = 200<<10+c.rd.Intn(4<<20), j.Gone
		c.n.mu.Unlock()
	default:
		w.n.sim.set(func(q sreq) sresp {
			a := serve(q)
			if seen++; seen == j.At+1 {
				silent()
			}
			return a
		})
	}
	var got string
	var made bool
	var err error
	if !c.bounded(what, within35, func() { got, made, err = o.run() }) {
		return
	}
	if !c.n.silent() {
		r.Event("not silent in time", 1)
		return
	}
	r.Event("fell silent", 1)
	r.Event("operations that ended in time", 1)
	needs := j.Mode != "body" || o.data[j.At]
	if needs && err == nil && !o.soft[j.At] {
		r.Violation("success", "%v: %s succeeded (%q %v) without the answer", j, what, got, made)
	}
	// and once more, with the network back
	c.n.heal()
	w.n.sim.set(serve)
	c.connect(c.n.url)
	o = w.op(j.Op)
	if !c.bounded("once more, "+o.name, within35, func() { got, made, err = o.run() }) {
		return
	}
	if err != nil || o.want != "" && got != o.want {
		r.Violation("after", "%v: after %s, %s failed although the network was back: %v (%q, want %q)", j, what, o.name, err, got, o.want)
		return
	}
	r.Event("operations that succeeded when the network was back", 1)
}

// big sends an attachment of several megabytes.
func (w *world27) big() *op27 {
	p := w.newPeer()
	b := vh.Bytes(w.rd, 12<<20)
	return &op27{name: "SendAttachment", data: []bool{true}, run: none27(func() error { _, err := SendAttachment(p.id, "hello", bytes.NewReader(b), 0); return err })}
}

// say has the server deliver a message, and sees it acknowledged and handed over.
func (c *c35) say(x *wsConn, id uint64, p *axh.Party, limit time.Duration, atts ...*signalservice.AttachmentPointer) bool {
	text := fmt.Sprintf("message %d", id)
	ts := 1600000000000 + id
	if !p.S.ContainsSession(simUUID, 1) {
		must16(p.Builder(c.w.l.party).BuildSenderSession(c.w.l.bundle(axh.PreKind(c.rd.Intn(3)))))
	}
	m, err := p.Encrypt(c.w.l.party, padded(contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts, Attachments: atts}})))
	must16(err)
	x.write(websocket.BinaryMessage, messageFrame(id, envelope(p, m, ts)), 1)
	if limit == 0 {
		return true
	}
	return c.acked(x, id, limit)
}

func (c *c35) acked(x *wsConn, id uint64, limit time.Duration) bool {
	return vh.WaitUntil(limit, func() bool {
		a, _ := x.ackList()
		for _, k := range a {
			if k == id {
				return true
			}
		}
		return false
	})
}

func (c *c35) heard(id uint64) bool {
	want := fmt.Sprintf("message %d", id)
	c.w.a.mu.Lock()
	defer c.w.a.mu.Unlock()
	for _, e := range c.w.a.events {
		if e.Msg != nil && e.Msg.Message() == want {
			return true
		}
	}
	return false
}

// again listens when the network is back.
func (c *c35) again(ws *wsServer, p *axh.Party) {
	c.n.heal()
	c.connect(c.n.url)
	for { // connections from before
		select {
		case <-ws.conns:
			continue
		default:
		}
		break
	}
	ls := listen()
	x := ws.accept(ls)
	if x == nil || !c.say(x, 900, p, 60*time.Second) || !c.heard(900) {
		c.r.Violation("listening-after", "%v: after the silence listening again does not receive a message", c.j)
		return
	}
	StopListening()
	if !c.bounded("StartListening, stopped", within35, func() { <-ls.done }) {
		return
	}
	c.r.Event("listening again", 1)
}

func (c *c35) listening() {
	r, rd, w, j := c.r, c.rd, c.w, c.j
	ws := w.n.sim.websocket()
	c.connect(c.n.url)
	peer := w.newPeer().devs[1]
	fails := func(ls *listener) bool {
		if !c.bounded("StartListening", within35, func() { <-ls.done }) {
			return false
		}
		if ls.err == nil {
			r.Violation("listening-success", "%v: StartListening ends without an error", j)
		}
		r.Event("fell silent", 1)
		r.Event("silent sockets given up", 1)
		return true
	}
	switch j.Mode {
	case "silent", "silent with TLS", "stopped while silent", "unreachable":
		c.n.silence(true)
		if j.Mode == "unreachable" {
			u, ok := blackhole35()
			if !ok {
				return
			}
			config.ConfigFile.Server = u
		}
		if j.Mode == "silent with TLS" {
			config.ConfigFile.Server = strings.Replace(c.n.url, "http:", "https:", 1)
		}
		ls := listen()
		if j.Mode == "stopped while silent" {
			time.Sleep(time.Duration(rd.Intn(2000)) * time.Millisecond)
			StopListening()
		}
		if !fails(ls) {
			return
		}
	case "upgrade cut":
		c.n.arm("head", rd.Intn(2) == 0, rd.Float64())
		if !fails(listen()) {
			return
		}
	default:
		ls := listen()
		x := ws.accept(ls)
		if x == nil || !c.say(x, 1, peer, 60*time.Second) || !c.heard(1) {
			r.Violation("listening", "%v: a message is not received", j)
			return
		}
		switch j.Mode {
		case "established", "established for all":
			c.n.silence(j.Mode != "established")
			if !fails(ls) {
				return
			}
		case "in a frame":
			c.n.arm("frame", false, rd.Float64())
			c.say(x, 2, peer, 0)
			if !fails(ls) {
				return
			}
		case "sends but no pongs": // a server that is there but does not answer pings
			x.c.SetPingHandler(func(string) error { return nil })
			if !fails(ls) {
				return
			}
		case "deaf": // it sends and sends, and takes no acknowledgement
			c.n.mu.Lock()
			c.n.up = 0
			c.n.mu.Unlock()
			go func() {
				for id := uint64(10); ; id++ {
					b := request(id, "/api/v1/queue/empty", nil)
					x.wmu.Lock()
					x.c.SetWriteDeadline(time.Now().Add(within35))
					err := x.c.WriteMessage(websocket.BinaryMessage, b)
					x.wmu.Unlock()
					if err != nil {
						return
					}
				}
			}()
			if !fails(ls) {
				return
			}
		case "attachment silent", "attachment cut":
			plain, key := vh.Bytes(rd, 60000), vh.Bytes(rd, 64)
			b, dg := sealBlob(plain, 0, key, vh.Bytes(rd, 16))
			w.cd.blobs["2/slow"] = b
			k, two, size := "slow", uint32(2), uint32(len(plain))
			ptr := &signalservice.AttachmentPointer{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: k}, CdnNumber: &two, Key: key, Digest: dg, Size: &size}
			serve := w.n.serve
			w.n.sim.set(func(q sreq) sresp {
				if strings.HasSuffix(q.Path, "/slow") {
					m := "silent"
					if j.Mode == "attachment cut" {
						m = "body"
					}
					c.n.arm(m, false, rd.Float64())
				}
				return serve(q)
			})
			c.say(x, 2, peer, 0, ptr)
			c.say(x, 3, peer, 0)
			lost := func() bool { _, closed := x.ackList(); return closed }
			ok := vh.WaitUntil(within35, func() bool { return lost() || c.heard(3) && c.acked(x, 3, time.Millisecond) })
			if !ok {
				c.bounded("the message behind one whose attachment does not come", time.Second, func() { time.Sleep(time.Hour) })
				return
			}
			r.Event("fell silent", 1)
			r.Event("messages behind an attachment that does not come", 1)
			StopListening()
			if !c.bounded("StartListening, stopped", within35, func() { <-ls.done }) {
				return
			}
		case "quiet": // the server has nothing to say, but is there
			for k := uint64(0); k < uint64(r.N(1, 4)); k++ {
				ended := false
				select {
				case <-ls.done:
					ended = true
				case <-time.After(125 * time.Second):
				}
				if ended || !c.say(x, 20+k, peer, 60*time.Second) || !c.heard(20+k) {
					r.Violation("quiet", "%v: a connection of a server that answers pings but has nothing to say is given up (%v)", j, ls.err)
					return
				}
			}
			r.Event("quiet sockets kept", 1)
			StopListening()
			if !c.bounded("StartListening, stopped", within35, func() { <-ls.done }) {
				return
			}
		}
	}
	c.again(ws, peer)
}

// helper: the helper freezes before the handshake and while it works on a request.
func (c *c35) helper() {
	r := c.r
	registration.Registration.SignalingKey[0] = 1
	dir, rm := mustDir()
	defer rm()
	must16(os.WriteFile(dir+"/crayfish", []byte("#!/bin/sh\nexec sleep 800\n"), 0700))
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	var ln net.Listener
	var err error
	for end := time.Now().Add(60 * time.Second); ; time.Sleep(200 * time.Millisecond) { // another check may be running
		if ln, err = net.Listen("tcp", "localhost:9081"); err == nil {
			break
		}
		if time.Now().After(end) {
			r.Inconclusive("the helper's port is taken: %v", err)
			return
		}
	}
	av := vh.Bytes(c.rd, 200)
	asked := make(chan bool, 100)
	var frozen int32
	up := websocket.Upgrader{}
	l := &frozen35{Listener: ln, got: make(chan bool, 100)}
	atomic.StoreInt32(&l.left, 1) // the first connection is never answered
	go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		k, err := up.Upgrade(rw, q, nil)
		if err != nil {
			return
		}
		k.SetPingHandler(func(s string) error {
			if atomic.LoadInt32(&frozen) == 0 {
				k.WriteControl(websocket.PongMessage, []byte(s), time.Now().Add(time.Second))
			}
			return nil
		})
		for {
			if _, _, err := k.ReadMessage(); err != nil {
				return
			}
			asked <- true
			if atomic.LoadInt32(&frozen) == 0 {
				k.WriteMessage(websocket.TextMessage, js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": map[string]interface{}{"avatar": av}}}))
			}
		}
	}))
	go crayfish.Run()
	select {
	case <-l.got:
	case <-time.After(60 * time.Second):
		r.Inconclusive("the helper was not connected to")
		return
	}
	if !c.bounded("the helper's connection whose handshake is not answered", within35, func() { <-l.got }) {
		return
	}
	r.Event("fell silent", 1)
	call := func() error {
		_, err := crayfish.Instance.DecryptAvatar([]byte("avatar"), vh.Bytes(c.rd, 32))
		return err
	}
	works := func() bool { return vh.WaitUntil(30*time.Second, func() bool { return call() == nil }) }
	if !works() {
		r.Violation("helper", "%v: the helper is not usable after one connection was not answered", c.j)
		return
	}
	// quiet, but there
	for len(l.got) > 0 {
		<-l.got
	}
	time.Sleep(125 * time.Second)
	if len(l.got) > 0 || call() != nil {
		r.Violation("helper-quiet", "%v: the connection of a helper that answers pings is given up", c.j)
	}
	r.Event("quiet sockets kept", 1)
	for i := 0; i < r.N(1, 2); i++ {
		atomic.StoreInt32(&frozen, 1)
		var err error
		if !c.bounded("a call of the helper that is frozen", within35, func() { err = call() }) {
			return
		}
		if err == nil {
			r.Violation("helper-success", "%v: a call of the frozen helper succeeds", c.j)
		}
		r.Event("fell silent", 1)
		r.Event("helper connections given up", 1)
		atomic.StoreInt32(&frozen, 0)
		if !works() {
			r.Violation("helper", "%v: the helper is not usable after it was frozen", c.j)
			return
		}
	}
}

// frozen35 takes its first connections and never answers them.
type frozen35 struct {
	net.Listener
	left int32
	got  chan bool
	keep []net.Conn
}

func (l *frozen35) Accept() (net.Conn, error) {
	for {
		k, err := l.Listener.Accept()
		if err != nil {
			return nil, err
		}
		l.got <- true
		if atomic.AddInt32(&l.left, -1) < 0 {
			return k, nil
		}
		l.keep = append(l.keep, k)
	}
}

// ---- what is given back

func open35() (fds, gos int) {
	e, _ := os.ReadDir("/proc/self/fd")
	return len(e), runtime.NumGoroutine()
}

// settled waits until descriptors and goroutines are at most these.
func settled35(limit time.Duration, fds, gos int) (int, int, bool) {
	var f, g int
	ok := vh.WaitUntil(limit, func() bool {
		runtime.GC()
		f, g = open35()
		return f <= fds && g <= gos
	})
	return f, g, ok
}

// rest35 is what is open when nothing moves any more.
func rest35() (fds, gos int) {
	fds, gos = open35()
	for same := 0; same < 5; same++ {
		time.Sleep(time.Second)
		if f, g := open35(); f != fds || g != gos {
			fds, gos, same = f, g, 0
		}
	}
	return fds, gos
}

// where35 is what goroutines of the code under test, at least n of a kind, are doing, and the kinds of descriptors.
func where35(n int) string {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	m := map[string]int{}
	for _, g := range strings.Split(string(b), "\n\n") {
		var fs []string
		for _, l := range strings.Split(g, "\n")[1:] {
			if !strings.HasPrefix(l, "\t") {
				fs = append(fs, strings.SplitN(l, "(0x", 2)[0])
			}
		}
		if len(fs) > 10 {
			fs = fs[:10]
		}
		m[strings.Join(fs, " < ")]++
	}
	var out []string
	for k, c := range m {
		if c >= n && !strings.Contains(k, "net35") && !strings.Contains(k, "verifharness") {
			out = append(out, fmt.Sprintf("%d x %s", c, k))
		}
	}
	sort.Slice(out, func(i, k int) bool {
		return strings.Contains(out[i], "textsecure") && !strings.Contains(out[k], "textsecure")
	})
	e, _ := filepath.Glob("/proc/self/fd/*")
	t := map[string]int{}
	for _, f := range e {
		s, _ := os.Readlink(f)
		t[strings.SplitN(s, ":", 2)[0]]++
	}
	return fmt.Sprintf("%v\n%s", t, strings.Join(out, "\n"))
}

const reps35 = 15

func (c *c35) leak() {
	r, rd, w, j := c.r, c.rd, c.w, c.j
	serve := w.n.serve
	once := func(fault string) {
		o := w.op(j.Op)
		at, n := rd.Intn(len(o.reqs)), 0
		w.n.sim.set(func(q sreq) sresp {
			a := serve(q)
			if n++; fault == "" || n-1 != at {
				return a
			}
			switch fault {
			case "status":
				return sresp{Status: []int{300, 401, 403, 404, 410, 429, 500, 503}[rd.Intn(8)], Body: []byte(strings.Repeat("x", []int{0, 100, 200 << 10}[rd.Intn(3)]))}
			case "long":
				return sresp{Status: a.Status, Header: a.Header, Body: append(append([]byte{}, a.Body...), bytes.Repeat([]byte(" "), 200<<10)...)}
			case "cut":
				return sresp{Status: a.Status, Header: map[string]string{"Content-Length": fmt.Sprint(len(a.Body) + 100)}, Body: a.Body}
			case "drop":
				return sresp{Drop: true}
			}
			return a
		})
		pan := vh.Try(func() { o.run() })
		if pan != "" {
			r.Event("panics", 1)
		}
		w.n.sim.set(serve)
		r.Event("operations repeated", 1)
	}
	// where the package keeps something for the process, it has it now
	once("")
	once("status")
	fds, gos := rest35()
	for _, fault := range []string{"", "status", "long", "cut", "drop"} {
		for k := 0; k < reps35; k++ {
			once(fault)
		}
		f, g, ok := settled35(75*time.Second, fds+4, gos+8)
		r.Event("descriptors and goroutines compared", 1)
		if !ok {
			r.Violation(fmt.Sprintf("leak-%d", j.Op), "%v: after %d times operation %d (%s) with answers %q, %d descriptors instead of %d and %d goroutines instead of %d are left more than a minute later: %.3000s", j, reps35, j.Op, w.op(j.Op).name, fault, f, fds, g, gos, where35(3))
			return
		}
	}
}

func (c *c35) leakListening() {
	r, rd, w := c.r, c.rd, c.w
	ws := w.n.sim.websocket()
	c.connect(c.n.url)
	peer := w.newPeer().devs[1]
	id := uint64(100)
	once := func(how string) bool {
		if how == "refused" {
			registration.Registration.Password = "wrong"
			defer func() { registration.Registration.Password = simPass }()
		}
		ls := listen()
		if how == "refused" {
			return ls.wait()
		}
		x := ws.accept(ls)
		if x == nil {
			return false
		}
		if id++; rd.Intn(2) == 0 && !c.say(x, id, peer, 30*time.Second) {
			return false
		}
		switch how {
		case "stopped":
			StopListening()
		case "closed":
			x.c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, ""), time.Now().Add(time.Second))
			x.drop()
		default:
			x.drop()
		}
		defer x.drop()
		return ls.wait()
	}
	once("stopped")
	once("dropped")
	fds, gos := rest35()
	for _, how := range []string{"stopped", "dropped", "closed", "refused"} {
		for k := 0; k < 2*reps35; k++ {
			if !once(how) {
				r.Violation("leak-listening", "%v: a connection that is %s does not end", c.j, how)
				return
			}
		}
		f, g, ok := settled35(75*time.Second, fds+4, gos+8)
		r.Event("descriptors and goroutines compared", 1)
		if !ok {
			r.Violation("leak-listening", "%v: after %d connections that were %s, %d descriptors instead of %d and %d goroutines instead of %d are left more than a minute later: %.3000s", c.j, 2*reps35, how, f, fds, g, gos, where35(3))
			return
		}
	}
}
