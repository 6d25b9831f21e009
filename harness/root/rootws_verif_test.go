package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// wsServer is the message socket of the simulated server.
type wsServer struct {
	conns chan *wsConn
	mu    sync.Mutex
	bad   []string // handshakes that were not what the server wants
	gate  func()   // called before a handshake is answered
}

// wsConn is one connection to it.
type wsConn struct {
	c      *websocket.Conn
	mu     sync.Mutex
	wmu    sync.Mutex
	acks   []uint64
	bad    []string // frames that are no acknowledgement
	pongs  int
	closed bool
	onAck  func(k int, id uint64)
	wake   chan struct{}
}

// websocket makes the simulated server accept the message socket.
func (s *sim) websocket() *wsServer {
	w := &wsServer{conns: make(chan *wsConn, 64)}
	up := websocket.Upgrader{ReadBufferSize: 2048, WriteBufferSize: 2048}
	h := func(rw http.ResponseWriter, q *http.Request) {
		v := q.URL.Query()
		if q.URL.Path != "/v1/websocket/" || v.Get("login") != simUUID || v.Get("password") != simPass || len(v) != 2 {
			w.mu.Lock()
			w.bad = append(w.bad, q.URL.String())
			w.mu.Unlock()
			rw.WriteHeader(403)
			return
		}
		w.mu.Lock()
		gate := w.gate
		w.mu.Unlock()
		if gate != nil {
			gate()
		}
		c, err := up.Upgrade(rw, q, nil)
		if err != nil {
			return
		}
		x := &wsConn{c: c, wake: make(chan struct{}, 1)}
		c.SetPongHandler(func(string) error {
			x.mu.Lock()
			x.pongs++
			x.mu.Unlock()
			return nil
		})
		w.conns <- x
		x.read()
	}
	s.mu.Lock()
	s.ws = h
	s.mu.Unlock()
	config.ConfigFile.Server = s.URL
	return w
}

func (x *wsConn) read() {
	defer func() {
		x.mu.Lock()
		x.closed = true
		x.mu.Unlock()
		x.poke()
	}()
	for {
		typ, b, err := x.c.ReadMessage()
		if err != nil {
			return
		}
		m := &signalservice.WebSocketMessage{}
		err = proto.Unmarshal(b, m)
		x.mu.Lock()
		switch {
		case err != nil, typ != websocket.BinaryMessage, m.GetType() != signalservice.WebSocketMessage_RESPONSE, m.Response == nil, m.Request != nil, m.GetResponse().GetStatus() != 200:
			x.bad = append(x.bad, fmt.Sprintf("%x (%v)", b, err))
			x.mu.Unlock()
			continue
		}
		id := m.GetResponse().GetId()
		k := len(x.acks)
		x.acks = append(x.acks, id)
		f := x.onAck
		x.mu.Unlock()
		if f != nil {
			f(k, id)
		}
		x.poke()
	}
}

func (x *wsConn) poke() {
	select {
	case x.wake <- struct{}{}:
	default:
	}
}

func (x *wsConn) ackList() ([]uint64, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]uint64{}, x.acks...), x.closed
}

// wait waits until there are n acknowledgements, the connection ends, or nothing moves for a long time.
func (x *wsConn) wait(n int) (acks []uint64, stuck bool) {
	last, at := -1, time.Now()
	for {
		a, closed := x.ackList()
		if len(a) >= n || closed {
			return a, false
		}
		if len(a) != last {
			last, at = len(a), time.Now()
		}
		if time.Since(at) > 90*time.Second {
			return a, true
		}
		select {
		case <-x.wake:
		case <-time.After(time.Second):
		}
	}
}

// write sends one message, in frag pieces.
func (x *wsConn) write(typ int, b []byte, frag int) {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	x.c.SetWriteDeadline(time.Now().Add(60 * time.Second))
	if frag < 2 || len(b) < 2*2048 {
		x.c.WriteMessage(typ, b)
		return
	}
	w, err := x.c.NextWriter(typ)
	if err != nil {
		return
	}
	for len(b) > 0 {
		n := 2048 + 17
		if n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
	}
	w.Close()
}

func (x *wsConn) ping() {
	x.c.WriteControl(websocket.PingMessage, []byte("p"), time.Now().Add(10*time.Second))
}

func (x *wsConn) drop() { x.c.Close() }

// listener is one run of StartListening.
type listener struct {
	done chan struct{}
	err  error
	pan  string
}

func listen() *listener {
	l := &listener{done: make(chan struct{})}
	go func() {
		defer close(l.done)
		l.pan = vh.Try(func() { l.err = StartListening() })
	}()
	return l
}

// accept is the connection a listener makes.
func (w *wsServer) accept(l *listener) *wsConn {
	select {
	case c := <-w.conns:
		return c
	case <-l.done:
		select {
		case c := <-w.conns:
			return c
		default:
		}
		return nil
	case <-time.After(60 * time.Second):
		return nil
	}
}

func (l *listener) wait() bool {
	select {
	case <-l.done:
		return true
	case <-time.After(90 * time.Second):
		return false
	}
}

// stack shows where the loops are.
func (l *listener) stack() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "StartListening") || strings.Contains(g, "writeWorker") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// request is a server request frame.
func request(id uint64, path string, body []byte) []byte {
	t := signalservice.WebSocketMessage_REQUEST
	verb := "PUT"
	rq := &signalservice.WebSocketRequestMessage{Id: &id, Verb: &verb, Path: &path, Body: body}
	switch id % 16 {
	case 3:
		rq.Verb = nil
	case 5:
		verb = "GET"
	case 9:
		rq.Headers = []string{"X-Signal-Timestamp: 5", ""}
	}
	b, err := proto.Marshal(&signalservice.WebSocketMessage{Type: &t, Request: rq})
	if err != nil {
		panic(err)
	}
	return b
}

func messageFrame(id uint64, env *signalservice.Envelope) []byte {
	b, err := proto.Marshal(env)
	if err != nil {
		panic(err)
	}
	return request(id, "/api/v1/message", b)
}

// wrap encrypts an envelope with the signaling key, as servers do for old accounts.
func wrap(rd *rand.Rand, key, plain []byte) []byte {
	n := 16 - len(plain)%16
	p := append([]byte{}, plain...)
	for i := 0; i < n; i++ {
		p = append(p, byte(n))
	}
	iv := vh.Bytes(rd, 16)
	blk, _ := aes.NewCipher(key[:32])
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	b := append(append([]byte{1}, iv...), p...)
	m := hmac.New(sha256.New, key[32:])
	m.Write(b)
	return append(b, m.Sum(nil)[:10]...)
}

// padded is what a client encrypts for a content.
func padded(b []byte) []byte {
	n := 160 - (len(b)+1)%160
	return append(append(append([]byte{}, b...), 0x80), make([]byte, n)...)
}

func contentBytes(c *signalservice.Content) []byte {
	b, err := proto.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

// envelope wraps an encrypted message of a device.
func envelope(p *axh.Party, m *axh.Msg, serverTs uint64) *signalservice.Envelope {
	t := signalservice.Envelope_CIPHERTEXT
	if m.Type == axh.TypePreKey {
		t = signalservice.Envelope_PREKEY_BUNDLE
	}
	u, d, dest := p.Name, p.Dev, simUUID
	return &signalservice.Envelope{Type: &t, SourceUuid: &u, SourceDevice: &d, DestinationUuid: &dest, Timestamp: &serverTs, ServerTimestamp: &serverTs, Content: m.Wire}
}
