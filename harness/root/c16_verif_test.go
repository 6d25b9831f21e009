package textsecure

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestVerifC16(t *testing.T) {
	r := vh.Start(t, "C16", "seeded sequences of frames pushed through a simulated message socket into the real receive loop: valid messages of several senders and devices in and out of order, replays, re-established sessions, receipts, foreign labels, altered, truncated and random contents, undecodable frames, lost connections with redelivery, restarts; the acknowledgements at the server and the application's callbacks are compared with what each frame should do")
	defer r.Finish()
	r.NoStop = true
	n := r.N(120, 1500)
	for i := 0; i < n && !r.Failed(); i++ {
		c16case(r, i)
	}
	for i := 0; i < r.N(10, 60) && !r.Failed(); i++ {
		c16number(r, i)
	}
	if !r.Failed() {
		c16sealed(r)
	}
	r.Require("acknowledged requests", n*40)
	r.Require("delivered messages", n*15)
	r.Require("replays ignored", n*2)
	r.Require("hostile frames survived", n*10)
	r.Require("messages that start a session", n*3)
	r.Require("lost connections", n/4)
	r.Require("redelivered frames", n)
	r.Require("restarts", n/8)
	r.Require("stops while connecting", n/4)
	r.Require("sealed messages delivered", r.N(100, 600))
	r.Require("sealed messages refused", r.N(50, 300))
}

// ev16 is what one frame must make the application see.
type ev16 struct {
	kind, uuid, text string
	dev              uint32
	ts               uint64
	optional         bool
}

type frame16 struct {
	typ    int
	raw    []byte
	frag   int
	id     uint64
	req    bool
	events []ev16
	what   string
	again  bool // sent more than once
}

type pending16 struct {
	p      *axh.Party
	m      *axh.Msg
	ev     []ev16
	seenTs uint64
}

type c16 struct {
	r     *vh.R
	rd    *rand.Rand
	l     *local
	a     *app
	ws    *wsServer
	accts []*account
	known map[string]bool // accounts whose identity the device under test has
	wait  []*pending16    // encrypted, not sent yet
	sent  []*pending16    // delivered
	seq   int
	id    uint64
	key   []byte
	trace []string
}

func (c *c16) devs() []*axh.Party {
	var d []*axh.Party
	for _, a := range c.accts {
		for _, i := range a.ids() {
			d = append(d, a.devs[i])
		}
	}
	return d
}

func (c *c16) pick() *axh.Party { d := c.devs(); return d[c.rd.Intn(len(d))] }

// content makes a content and what the application must see of it (sender filled in).
func (c *c16) content(uuid string, sts uint64) ([]byte, []ev16) {
	c.seq++
	ts := uint64(1600000000000 + c.rd.Int63n(1e11))
	switch c.rd.Intn(12) {
	case 0:
		x := signalservice.TypingMessage_Action(c.rd.Intn(2))
		return contentBytes(&signalservice.Content{TypingMessage: &signalservice.TypingMessage{Timestamp: &ts, Action: &x}}), []ev16{{kind: "typing", uuid: uuid, ts: sts}}
	case 1:
		x := signalservice.ReceiptMessage_Type(c.rd.Intn(2))
		text := []string{"deliveryReceiptMessage", "readReceiptMessage"}[x]
		var list []uint64
		var ev []ev16
		for k := 1 + c.rd.Intn(3); k > 0; k-- {
			list = append(list, ts+uint64(k))
			ev = append(ev, ev16{kind: "receiptmessage", uuid: uuid, ts: ts + uint64(k), text: text})
		}
		return contentBytes(&signalservice.Content{ReceiptMessage: &signalservice.ReceiptMessage{Timestamp: list, Type: &x}}), ev
	case 2:
		// a content that says nothing the application should hear, or nothing at all
		switch c.rd.Intn(6) {
		case 0:
			return append([]byte{7}, vh.Bytes(c.rd, c.rd.Intn(50))...), nil
		case 1:
			return nil, nil
		case 2:
			return contentBytes(&signalservice.Content{NullMessage: &signalservice.NullMessage{Padding: vh.Bytes(c.rd, c.rd.Intn(50))}}), nil
		case 3:
			return contentBytes(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Padding: vh.Bytes(c.rd, 10)}}), nil
		case 4:
			return contentBytes(&signalservice.Content{ReceiptMessage: &signalservice.ReceiptMessage{}}), []ev16{{kind: "receiptmessage", uuid: uuid, optional: true}}
		}
		return contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{}}), []ev16{{kind: "message", uuid: uuid, optional: true}}
	}
	body := fmt.Sprintf("message %d %x", c.seq, vh.Bytes(c.rd, c.rd.Intn(40)))
	if c.rd.Intn(25) == 0 {
		body += strings.Repeat("long ", 2000+12000*c.rd.Intn(2))
	}
	return contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &body, Timestamp: &ts}}), []ev16{{kind: "message", uuid: uuid, text: body, ts: ts}}
}

func (c *c16) compose(p *axh.Party) {
	if !p.S.ContainsSession(c.l.party.Name, 1) || c.rd.Intn(15) == 0 {
		if err := p.Builder(c.l.party).BuildSenderSession(c.l.bundle(axh.PreKind(c.rd.Intn(3)))); err != nil {
			panic(err)
		}
	}
	sts := uint64(1700000000000 + c.rd.Int63n(1e11))
	b, ev := c.content(p.Name, sts)
	m, err := p.Encrypt(c.l.party, padded(b))
	if err != nil {
		panic(err)
	}
	if m.Type == axh.TypePreKey {
		c.r.Event("messages that start a session", 1)
	}
	c.wait = append(c.wait, &pending16{p: p, m: m, ev: ev, seenTs: sts})
}

// frame turns an envelope into a request.
func (c *c16) frame(what string, env *signalservice.Envelope, ev []ev16) *frame16 {
	b, err := proto.Marshal(env)
	if err != nil {
		panic(err)
	}
	return c.body(what, b, ev)
}

func (c *c16) body(what string, b []byte, ev []ev16) *frame16 {
	c.id++
	if c.rd.Intn(20) == 0 {
		c.id += uint64(c.rd.Int63n(1 << 40))
	}
	if len(c.key) == 52 && ev != nil && c.rd.Intn(2) == 0 {
		b = wrap(c.rd, c.key, b)
		c.r.Event("envelopes under the signaling key", 1)
	}
	return &frame16{typ: websocket.BinaryMessage, raw: request(c.id, "/api/v1/message", b), id: c.id, req: true, events: ev, what: what, frag: c.rd.Intn(4)}
}

// next makes the next frame of the sequence.
func (c *c16) next() *frame16 {
	rd := c.rd
	for len(c.wait) < 3 {
		c.compose(c.pick())
	}
	k := rd.Intn(len(c.wait))
	if rd.Intn(3) > 0 {
		k = 0
	}
	x := c.wait[k]
	env := envelope(x.p, x.m, x.seenTs)
	c.r.Eval(fmt.Sprint(x.m.Wire))
	switch v := rd.Intn(30); {
	case v < 13:
		c.wait = append(c.wait[:k:k], c.wait[k+1:]...)
		c.known[x.p.Name] = true
		c.sent = append(c.sent, x)
		return c.frame("message", env, append([]ev16{}, x.ev...))
	case v < 16 && len(c.sent) > 0:
		y := c.sent[len(c.sent)-1-rd.Intn(min16(len(c.sent), 20))]
		c.r.Event("replays ignored", 1)
		return c.frame("replay", envelope(y.p, y.m, y.seenTs), nil)
	case v == 16:
		t := signalservice.Envelope_RECEIPT
		ts := uint64(rd.Int63())
		env.Type, env.Timestamp, env.Content = &t, &ts, nil
		return c.frame("receipt", env, []ev16{{kind: "receipt", uuid: x.p.Name, dev: x.p.Dev, ts: ts}})
	}
	c.r.Event("hostile frames survived", 1)
	v := rd.Intn(18)
	what := fmt.Sprint("hostile ", v)
	switch v {
	case 0: // under another sender's name
		o := c.pick()
		if o.Name == x.p.Name && (o.Dev == x.p.Dev || x.m.Type == axh.TypePreKey) || x.m.Type == axh.TypePreKey && !c.known[o.Name] {
			o = &axh.Party{Name: uuidOf(rd), Dev: 1}
			t := signalservice.Envelope_CIPHERTEXT
			env.Type = &t
		}
		env.SourceUuid, env.SourceDevice = &o.Name, &o.Dev
		return c.frame(what, env, nil)
	case 1: // altered, in the encrypted part or its MAC
		w := append([]byte{}, x.m.Wire...)
		k := len(w) - 1 - rd.Intn(36)
		if x.m.Type == axh.TypePreKey {
			k -= 12 // the ids at the end are not authenticated
		}
		w[k] ^= byte(1 << uint(rd.Intn(8)))
		env.Content = w
		return c.frame(what, env, nil)
	case 2: // cut
		env.Content = x.m.Wire[:rd.Intn(len(x.m.Wire))]
		return c.frame(what, env, nil)
	case 3: // as the other type
		t := signalservice.Envelope_PREKEY_BUNDLE
		if x.m.Type == axh.TypePreKey {
			t = signalservice.Envelope_CIPHERTEXT
		}
		env.Type = &t
		return c.frame(what, env, nil)
	case 4: // types nobody handles
		t := []signalservice.Envelope_Type{0, 2, 8, 9, 100, -1, signalservice.Envelope_UNIDENTIFIED_SENDER}[rd.Intn(7)]
		env.Type = &t
		if rd.Intn(3) == 0 {
			env.DestinationUuid = nil
		}
		return c.frame(what, env, nil)
	case 5:
		env.Type = nil
		return c.frame(what, env, nil)
	case 6:
		env.Content = nil
		return c.frame(what, env, nil)
	case 7:
		env.Content = []byte{}
		return c.frame(what, env, nil)
	case 8:
		env.SourceUuid = nil
		if rd.Intn(2) == 0 {
			e := ""
			env.SourceUuid = &e
		}
		return c.frame(what, env, nil)
	case 9:
		env.Content = vh.Bytes(rd, rd.Intn(300))
		if len(env.Content) > 0 && rd.Intn(2) == 0 {
			env.Content[0] = 0x33
		}
		return c.frame(what, env, nil)
	case 10: // bodies of any size, shorter than a MAC among them
		n := 1 + rd.Intn(12)
		if rd.Intn(3) == 0 {
			n = 1 + rd.Intn(2000)
		}
		if rd.Intn(30) == 0 {
			n = 100000 + rd.Intn(1000000)
		}
		b := vh.Bytes(rd, n)
		if n > 10 {
			b[0] = 0xff // no envelope
			for i := 1; i < 11; i++ {
				b[i] = 0xff
			}
		} else {
			b[0] = 7
		}
		return c.body(what, b, nil)
	case 11: // cut envelope
		b, _ := proto.Marshal(env)
		b = b[:len(b)-1-rd.Intn(len(b)/2)]
		b = append(b, 7)
		if proto.Unmarshal(b, &signalservice.Envelope{}) == nil {
			b = []byte{7}
		}
		return c.body(what, b, nil)
	case 12: // under the signaling key, but no envelope inside, or too short
		if len(c.key) != 52 {
			return c.body(what, []byte{7}, nil)
		}
		b := wrap(rd, c.key, append([]byte{7}, vh.Bytes(rd, rd.Intn(40))...))
		if rd.Intn(2) == 0 {
			b = macOnly(c.key, vh.Bytes(rd, rd.Intn(20)))
		}
		return c.body(what, b, nil)
	case 13: // no request at all
		c.id++
		t := signalservice.WebSocketMessage_RESPONSE
		id, st := c.id, uint32(200)
		m := &signalservice.WebSocketMessage{Type: &t, Response: &signalservice.WebSocketResponseMessage{Id: &id, Status: &st}}
		if rd.Intn(3) == 0 {
			m = &signalservice.WebSocketMessage{}
		}
		b, _ := proto.Marshal(m)
		return &frame16{typ: websocket.BinaryMessage, raw: b, what: what}
	case 14: // no protocol message
		b := append([]byte{7}, vh.Bytes(rd, rd.Intn(200))...)
		typ := websocket.BinaryMessage
		if rd.Intn(2) == 0 {
			typ, b = websocket.TextMessage, []byte("\aYou are not a protobuf")
		}
		return &frame16{typ: typ, raw: b, what: what}
	case 15: // no body
		c.id++
		path := []string{"/api/v1/queue/empty", "/api/v1/message", "", "/x"}[rd.Intn(4)]
		return &frame16{typ: websocket.BinaryMessage, raw: request(c.id, path, nil), id: c.id, req: true, what: what}
	case 16: // someone who says they are a known peer, with another identity
		p := x.p
		if !c.known[p.Name] {
			return c.body(what, []byte{7}, nil)
		}
		o := axh.NewParty(p.Name, p.Dev, rd)
		if err := o.Builder(c.l.party).BuildSenderSession(c.l.bundle(axh.NoPre)); err != nil {
			panic(err)
		}
		b, _ := c.content(p.Name, 1)
		m, err := o.Encrypt(c.l.party, padded(b))
		if err != nil {
			panic(err)
		}
		return c.frame(what, envelope(o, m, 1), nil)
	}
	// a plaintext content in place of a ciphertext
	b, _ := c.content(x.p.Name, 1)
	env.Content = b
	if len(b) > 0 && b[0] == 0x33 {
		env.Content = nil
	}
	return c.frame(what, env, nil)
}

func macOnly(key, b []byte) []byte {
	m := hmac.New(sha256.New, key[32:])
	m.Write(b)
	return append(append([]byte{}, b...), m.Sum(nil)[:10]...)
}

func min16(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c16case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, []string{"", "pw"}[rd.Intn(2)])
	defer done()
	config.ConfigFile.AlwaysTrustPeerID = false
	c := &c16{r: r, rd: rd, l: l, known: map[string]bool{}, id: []uint64{uint64(rd.Intn(1000)), 1<<64 - 1, 1<<63 - 4, 1<<32 - 4, 1<<31 - 4}[rd.Intn(5)]}
	switch rd.Intn(4) {
	case 0:
	case 1:
		c.key = vh.Bytes(rd, rd.Intn(52))
	default:
		c.key = vh.Bytes(rd, 52)
		c.key[0] = 1
	}
	registration.Registration.SignalingKey = c.key
	crayfish.Instance = nil
	c.a = newApp()
	slow := rd.Intn(2) == 0
	c.delay(slow, rand.New(rand.NewSource(rd.Int63())))
	for k := 1 + rd.Intn(3); k > 0; k-- {
		a := newAccount(rd, uuidOf(rd), 1)
		for d := rd.Intn(3); d > 0; d-- {
			a.add(uint32(2 + rd.Intn(5)))
		}
		c.accts = append(c.accts, a)
	}
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	c.ws = s.websocket()
	batches := 2 + rd.Intn(4)
	ls := listen()
	x := c.ws.accept(ls)
	for b := 0; b < batches && !r.Failed(); b++ {
		r.SetCase("case=%d batch=%d %s", i, b, strings.Join(tailOf(c.trace, 12), "; "))
		var fs []*frame16
		for k := 5 + rd.Intn(25); k > 0; k-- {
			fs = append(fs, c.next())
		}
		if b == batches-1 { // everybody is still heard
			for _, p := range c.wait {
				c.sent = append(c.sent, p)
				fs = append(fs, c.frame("pending", envelope(p.p, p.m, p.seenTs), append([]ev16{}, p.ev...)))
			}
			c.wait = nil
			for _, p := range c.devs() {
				c.compose(p)
			}
			for _, p := range c.wait {
				fs = append(fs, c.frame("last", envelope(p.p, p.m, p.seenTs), append([]ev16{}, p.ev...)))
			}
		}
		c.id++
		fs = append(fs, &frame16{typ: websocket.BinaryMessage, raw: request(c.id, "/api/v1/queue/empty", nil), id: c.id, req: true, what: "sentinel"})
		ls, x = c.push(ls, x, fs)
		if x == nil {
			return
		}
		c.replies()
	}
	StopListening()
	if !ls.wait() {
		r.Violation("stop", "the receive loop does not end when listening is stopped\n%s", ls.stack())
	} else if ls.pan != "" {
		r.Violation("panic", "the receive loop panics: %s", ls.pan)
	}
	if i%4 == 0 && !r.Failed() { // stopped at any moment of connecting
		c.ws.mu.Lock()
		asked, goOn := make(chan bool, 9), make(chan bool)
		c.ws.gate = func() { asked <- true; <-goOn }
		c.ws.mu.Unlock()
		ls = listen()
		select {
		case <-asked:
		case <-time.After(60 * time.Second):
			r.Violation("connect", "listening does not connect: %s", ls.stack())
		}
		StopListening()
		close(goOn)
		if !ls.wait() {
			r.Violation("stop", "the receive loop does not end when listening is stopped while it connects\n%s", ls.stack())
		} else if ls.pan != "" {
			r.Violation("panic", "stopped while connecting, the receive loop panics: %s", ls.pan)
		}
		r.Event("stops while connecting", 1)
	}
	if i%10 == 0 && !r.Failed() {
		end := time.Now().Add(30 * time.Second)
		for ls.stack() != "" && time.Now().Before(end) {
			time.Sleep(5 * time.Millisecond)
		}
		if st := ls.stack(); st != "" {
			r.Violation("leak", "30 s after the last receive loop ended this is still running:\n%s", st)
		}
		r.Event("checks for leftovers", 1)
	}
	if len(c.ws.bad) > 0 {
		r.Violation("handshake", "the socket was asked for as %s", c.ws.bad[0])
	}
	r.Sample(map[string]interface{}{"case": i, "history": tailOf(c.trace, 20)})
}

// delay makes the application's handlers slow now and then, so that an acknowledgement that does not wait
// for them overtakes them.
func (c *c16) delay(slow bool, rd *rand.Rand) {
	var mu sync.Mutex
	h := func(f func(*Message)) func(*Message) {
		return func(m *Message) {
			if slow {
				mu.Lock()
				d := rd.Intn(1500)
				mu.Unlock()
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			f(m)
		}
	}
	client.MessageHandler = h(client.MessageHandler)
	client.TypingMessageHandler = h(client.TypingMessageHandler)
	client.ReceiptMessageHandler = h(client.ReceiptMessageHandler)
}

// push sends the frames, possibly over several connections, and judges acknowledgements and callbacks.
func (c *c16) push(ls *listener, x *wsConn, fs []*frame16) (*listener, *wsConn) {
	r, rd := c.r, c.rd
	dropAt := -1
	if rd.Intn(3) == 0 {
		dropAt = rd.Intn(len(fs))
	}
	todo := fs
	var got []appEvent
	for x != nil {
		var reqs []*frame16
		for _, f := range todo {
			if f.req {
				reqs = append(reqs, f)
			}
		}
		// an acknowledgement comes after what its frame (and all before it) had to make known
		need := make([]int, len(reqs))
		sum := 0
		for k, f := range reqs {
			for _, e := range f.events {
				if !e.optional {
					sum++
				}
			}
			need[k] = sum
		}
		first := len(todo) == len(fs)
		x.mu.Lock()
		base := len(x.acks)
		x.onAck = func(k int, id uint64) {
			k -= base
			if first && k >= 0 && k < len(need) && id == reqs[k].id {
				if n := c.a.count(); n < need[k] {
					r.Violation("early", "request %d (%s) was acknowledged when the application had seen %d of at least %d events", id, reqs[k].what, n, need[k])
				}
			}
		}
		x.mu.Unlock()
		go func(x *wsConn, todo []*frame16, rr *rand.Rand) {
			for _, f := range todo {
				x.write(f.typ, f.raw, f.frag)
				if rr.Intn(10) == 0 {
					x.ping()
				}
			}
		}(x, todo, rand.New(rand.NewSource(rd.Int63())))
		wantAcks := len(reqs)
		drop := dropAt >= 0
		if drop && dropAt < wantAcks {
			wantAcks = dropAt
		}
		dropAt = -1
		acks, stuck := x.wait(base + wantAcks)
		if stuck {
			st := "it is still running"
			select {
			case <-ls.done:
				st = fmt.Sprintf("it returned %v %s", ls.err, ls.pan)
			default:
			}
			r.Violation("stuck", "no acknowledgement for 90 s after %d of %d requests (next: %s); the loop: %s", len(acks)-base, wantAcks, reqs[len(acks)-base].what, st)
			return ls, nil
		}
		if drop {
			c.r.Event("lost connections", 1)
			if rd.Intn(2) == 0 {
				x.drop()
			} else {
				StopListening()
			}
			if !ls.wait() {
				r.Violation("hang", "the receive loop does not end when the connection does\n%s", ls.stack())
				return ls, nil
			}
			x.wait(1 << 30) // everything that was acknowledged on the way
			acks, _ = x.ackList()
		}
		acks = acks[base:]
		for k, id := range acks {
			if k >= len(reqs) || id != reqs[k].id {
				var w []uint64
				for _, f := range reqs {
					w = append(w, f.id)
				}
				r.Violation("acks", "acknowledgements %v for requests %v", acks, w)
				return ls, nil
			}
		}
		r.Event("acknowledged requests", len(acks))
		x.mu.Lock()
		bad := x.bad
		x.mu.Unlock()
		if len(bad) > 0 {
			r.Violation("noack", "the client sent %s", bad[0])
		}
		if !drop {
			if _, closed := x.ackList(); closed {
				ls.wait()
			}
			select {
			case <-ls.done:
				what := ""
				if len(acks) < len(reqs) {
					what = reqs[len(acks)].what
				}
				if ls.pan != "" {
					r.Violation("panic", "the receive loop panics after %d of %d acknowledgements (next: %s): %s", len(acks), len(reqs), what, ls.pan)
				} else {
					r.Violation("ended", "the receive loop ended after %d of %d acknowledgements (next: %s): %v", len(acks), len(reqs), what, ls.err)
				}
				return ls, nil
			default:
			}
			if len(acks) < len(reqs) {
				r.Violation("acks", "%d acknowledgements for %d requests", len(acks), len(reqs))
				return ls, nil
			}
			break
		}
		if ls.pan != "" {
			r.Violation("panic", "the receive loop panics: %s", ls.pan)
			return ls, nil
		}
		// the server keeps what was not acknowledged
		at := 0
		if len(acks) > 0 {
			for k, f := range todo {
				if f == reqs[len(acks)-1] {
					at = k + 1
				}
			}
		}
		todo = todo[at:]
		for _, f := range todo {
			f.again = true
		}
		r.Event("redelivered frames", len(todo))
		if rd.Intn(2) == 0 {
			c.l.restart()
			c.trace = append(c.trace, "restart")
			r.Event("restarts", 1)
		}
		ls = listen()
		x = c.ws.accept(ls)
	}
	if x == nil {
		r.Violation("connect", "listening does not connect: %v %s", ls.err, ls.pan)
		return ls, nil
	}
	got = append(got, c.a.take()...)
	c.judge(fs, got)
	return ls, x
}

func (c *c16) judge(fs []*frame16, got []appEvent) {
	var want []ev16
	var from []string
	for _, f := range fs {
		for _, e := range f.events {
			want = append(want, e)
			from = append(from, f.what)
		}
	}
	c.trace = append(c.trace, fmt.Sprintf("%d frames, %d events", len(fs), len(got)))
	k := 0
	for _, g := range got {
		j := k
		for j < len(want) && want[j].optional && !want[j].is(g) {
			j++
		}
		if g.Kind == "receipt" && (j >= len(want) || !want[j].is(g)) && again16(fs, g) {
			continue // the server's own receipts carry nothing to tell a repetition by
		}
		for k < len(want) && want[k].optional && !want[k].is(g) {
			k++
		}
		if k >= len(want) || !want[k].is(g) {
			exp := "nothing"
			if k < len(want) {
				exp = fmt.Sprintf("%.300s (%s)", fmt.Sprint(want[k]), from[k])
			}
			c.r.Violation("events", "event %d is %s, should be %s; frames: %s", k, showEvent(g), exp, list16(fs))
			return
		}
		if want[k].kind == "message" {
			c.r.Event("delivered messages", 1)
		} else {
			c.r.Event("other contents delivered", 1)
		}
		k++
	}
	for ; k < len(want); k++ {
		if !want[k].optional {
			c.r.Violation("lost", "the application never saw %.300s (frame: %s); frames: %s", fmt.Sprint(want[k]), from[k], list16(fs))
			return
		}
	}
}

func again16(fs []*frame16, g appEvent) bool {
	for _, f := range fs {
		if f.again && len(f.events) == 1 && f.events[0].is(g) {
			return true
		}
	}
	return false
}

// list16 is the sequence of frames, shortened.
func list16(fs []*frame16) string {
	var s []string
	for _, f := range fs {
		t := f.what
		for _, e := range f.events {
			t += fmt.Sprintf(" [%s %.12s from %.8s]", e.kind, e.text, e.uuid)
		}
		s = append(s, t)
	}
	return strings.Join(s, ", ")
}

func (e ev16) is(g appEvent) bool {
	if g.Kind != e.kind {
		return false
	}
	if g.Kind == "receipt" {
		return g.Src == e.uuid && g.Dev == e.dev && g.Ts == e.ts
	}
	m := g.Msg
	if m == nil || m.SourceUUID() != e.uuid || m.ChatID() != e.uuid {
		return false
	}
	if e.optional {
		return m.Timestamp() == 0
	}
	if g.Kind != "typing" && m.Message() != e.text {
		return false
	}
	return m.Timestamp() == e.ts
}

func showEvent(g appEvent) string {
	if g.Msg == nil {
		return fmt.Sprintf("%s from %s device %d at %d", g.Kind, g.Src, g.Dev, g.Ts)
	}
	return fmt.Sprintf("%s %.80q from %s at %d", g.Kind, g.Msg.Message(), g.Msg.SourceUUID(), g.Msg.Timestamp())
}

// replies lets some devices hear from us, so that their sessions move on.
func (c *c16) replies() {
	for _, p := range c.devs() {
		if c.rd.Intn(2) == 0 || !c.l.st.ContainsSession(p.Name, p.Dev) {
			continue
		}
		m, err := c.l.encrypt(p, []byte("reply"))
		if err != nil {
			c.r.Violation("reply", "no reply to %s/%d: %v", p.Name, p.Dev, err)
			return
		}
		if b, err := p.Decrypt(c.l.party, m.Type, m.Wire); err != nil || string(b) != "reply" {
			c.r.Violation("reply", "%s/%d cannot read our reply: %v", p.Name, p.Dev, err)
			return
		}
		c.r.Event("replies", 1)
	}
}

// c16number is a peer known by its number: we wrote first (to the number without its plus sign), it answers
// from the number with it.
func c16number(r *vh.R, i int) {
	rd := r.Rand("number", i)
	r.SetCase("number=%d", i)
	l, done := ownDevice(rd, "")
	defer done()
	crayfish.Instance = nil
	c := &c16{r: r, rd: rd, l: l, a: newApp(), known: map[string]bool{}}
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	c.ws = s.websocket()
	tel := telOf(rd)
	p := axh.NewParty(tel[1:], 1, rd)
	if err := l.build(p, p.Bundle(axh.OneTime)); err != nil {
		panic(err)
	}
	m, err := l.encrypt(p, []byte("first"))
	if err != nil {
		panic(err)
	}
	if _, err := p.Decrypt(l.party, m.Type, m.Wire); err != nil {
		panic(err)
	}
	ls := listen()
	x := c.ws.accept(ls)
	var fs []*frame16
	for k := 0; k < 6; k++ {
		b, ev := c.content(tel, 7)
		m, err := p.Encrypt(l.party, padded(b))
		if err != nil {
			panic(err)
		}
		env := envelope(p, m, 7)
		env.SourceUuid = &tel
		fs = append(fs, c.frame("from a number", env, ev))
		r.Event("messages from a number", 1)
	}
	c.id++
	fs = append(fs, &frame16{typ: websocket.BinaryMessage, raw: request(c.id, "/api/v1/queue/empty", nil), id: c.id, req: true, what: "sentinel"})
	ls, _ = c.push(ls, x, fs)
	StopListening()
	ls.wait()
}

// c16sealed sends sealed-sender envelopes through a stand-in for the helper process.
func c16sealed(r *vh.R) {
	r.SetCase("sealed")
	rd := r.Rand("sealed", 0)
	l, done := ownDevice(rd, "")
	defer done()
	registration.Registration.SignalingKey = append([]byte{1}, make([]byte, 51)...)
	a := newApp()
	dir, rm := mustDir()
	defer rm()
	if err := os.WriteFile(dir+"/crayfish", []byte("#!/bin/sh\nexec sleep 800\n"), 0700); err != nil {
		panic(err)
	}
	path := os.Getenv("PATH")
	os.Setenv("PATH", dir+":"+path)
	defer os.Setenv("PATH", path)
	ln, err := net.Listen("tcp", "localhost:9081")
	if err != nil {
		r.Inconclusive("the helper's port is taken: %v", err)
		return
	}
	type answer struct {
		raw  []byte
		drop bool
	}
	var mu sync.Mutex
	answers := map[string]answer{} // by envelope
	connected := make(chan bool, 100)
	up := websocket.Upgrader{}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		c, err := up.Upgrade(w, q, nil)
		if err != nil {
			return
		}
		connected <- true
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			var m struct {
				Request struct {
					Message struct {
						Message string `json:"message"`
					} `json:"message"`
				} `json:"request"`
			}
			json.Unmarshal(b, &m)
			env, _ := base64.StdEncoding.DecodeString(m.Request.Message.Message)
			e := &signalservice.Envelope{}
			proto.Unmarshal(env, e)
			mu.Lock()
			ans, ok := answers[string(e.GetContent())]
			if ok { // the helper decrypts a message once
				answers[string(e.GetContent())] = answer{raw: []byte(`{"type":2,"response":{"type":3}}`)}
			}
			mu.Unlock()
			if !ok {
				r.Violation("sealed", "the helper was given an unknown envelope %x", env)
			}
			if ans.drop {
				c.Close()
				return
			}
			c.WriteMessage(websocket.TextMessage, ans.raw)
		}
	})}
	go srv.Serve(ln)
	defer srv.Close()
	go crayfish.Run()
	select {
	case <-connected:
	case <-time.After(60 * time.Second):
		r.Inconclusive("the helper was not connected to")
		return
	}
	time.Sleep(100 * time.Millisecond)
	defer func() {
		crayfish.Instance.Stop()
		time.Sleep(100 * time.Millisecond)
		crayfish.Instance = nil
	}()
	s := newSim(func(q sreq) sresp { return sresp{Status: 404} })
	defer s.Close()
	s.connect()
	c := &c16{r: r, rd: rd, l: l, a: a, known: map[string]bool{}}
	c.ws = s.websocket()
	ls := listen()
	x := c.ws.accept(ls)
	drops := 0
	for b := 0; b < r.N(12, 70) && !r.Failed() && x != nil; b++ {
		var fs []*frame16
		for k := 25; k > 0; k-- {
			uuid := uuidOf(rd)
			sts := uint64(1650000000000 + rd.Int63n(1e11))
			content, ev := c.content(uuid, sts)
			if len(ev) == 1 && ev[0].kind == "typing" || len(content) == 0 {
				continue
			}
			sealed := vh.Bytes(rd, 20+rd.Intn(100))
			t := signalservice.Envelope_UNIDENTIFIED_SENDER
			dest := simUUID
			env := &signalservice.Envelope{Type: &t, DestinationUuid: &dest, Content: sealed, ServerTimestamp: &sts}
			if rd.Intn(8) == 0 {
				env.DestinationUuid = nil
			}
			msg := map[string]interface{}{"message": base64.StdEncoding.EncodeToString(content), "timestamp": sts, "sender_device": 1, "sender": map[string]interface{}{"uuid": uuid}}
			resp := map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": msg}}
			an := answer{}
			bad := rd.Intn(3) == 0
			if bad {
				ev = nil
				r.Event("sealed messages refused", 1)
				switch v := rd.Intn(8); {
				case v == 7:
					msg["sender"] = map[string]interface{}{"uuid": ""}
				case v == 0:
					msg["message"] = ""
				case v == 1:
					msg["message"] = "no base64!"
				case v == 2:
					resp["response"] = map[string]interface{}{"type": 3}
				case v == 3:
					resp["response"] = map[string]interface{}{"type": 3, "message": "decryption failed"}
				case v == 4:
					resp["response"] = map[string]interface{}{"type": 3, "message": []int{1, 2}}
				case v == 5 && drops < 3 && k == 1: // the helper goes away
					drops++
					an.drop = true
				default:
					msg["message"] = base64.StdEncoding.EncodeToString(append([]byte{7}, content...))
				}
			} else {
				r.Event("sealed messages delivered", 1)
			}
			an.raw = js(resp)
			mu.Lock()
			answers[string(sealed)] = an
			mu.Unlock()
			fs = append(fs, c.frame("sealed", env, ev))
			if an.drop {
				break
			}
		}
		c.id++
		fs = append(fs, &frame16{typ: websocket.BinaryMessage, raw: request(c.id, "/api/v1/queue/empty", nil), id: c.id, req: true, what: "sentinel"})
		ls, x = c.push(ls, x, fs)
		if len(connected) > 0 || drops > 0 {
			for i := 0; i < drops; i++ {
				select {
				case <-connected:
				case <-time.After(60 * time.Second):
					r.Inconclusive("the helper was not connected to again")
					return
				}
				time.Sleep(100 * time.Millisecond)
			}
			drops = 0
		}
	}
	StopListening()
	ls.wait()
}

// TestVerifC16Race listens while the application sends to the same devices and keeps restarting the loop
// (race detector build). The server redelivers what was not acknowledged.
func TestVerifC16Race(t *testing.T) {
	r := vh.Start(t, "C16", "listening while other goroutines send to the same devices and listening is stopped and started again at any moment, under the race detector; every message reaches the application exactly once and every send is decrypted by its devices")
	defer r.Finish()
	r.NoStop = true
	end := time.Now().Add(time.Duration(r.N(12, 90)) * time.Second)
	round := 0
	for time.Now().Before(end) && !r.Failed() {
		c16race(r, round)
		round++
	}
	r.Require("messages under churn", 300)
	r.Require("loops under churn", 20)
	r.Require("sends under churn", 50)
}

func c16race(r *vh.R, i int) {
	rd := r.Rand("race", i)
	r.SetCase("race round=%d", i)
	l, done := ownDevice(rd, "")
	defer done()
	crayfish.Instance = nil
	var mu sync.Mutex
	seen := map[string]int{}
	hr := rand.New(rand.NewSource(rd.Int63()))
	client.MessageHandler = func(m *Message) {
		mu.Lock()
		d := hr.Intn(3000)
		if d > 1000 {
			d = 0
		}
		mu.Unlock()
		time.Sleep(time.Duration(d) * time.Microsecond)
		mu.Lock()
		seen[m.SourceUUID()+" "+m.Message()]++
		mu.Unlock()
	}
	as := rand.New(rand.NewSource(rd.Int63()))
	own := &account{id: simUUID, ident: l.party.S.Identity, devs: map[uint32]*axh.Party{1: l.party}, rd: as}
	all := []*account{own}
	var peers []*account
	for k := 0; k < 2; k++ {
		a := newAccount(as, uuidOf(rd), 1, 2)
		peers = append(peers, a)
		all = append(all, a)
	}
	n := newNetwork(r, as, l.party, all...)
	defer n.Close()
	n.connect()
	ws := n.websocket()

	// the server's mailbox
	var box []*frame16
	var cur *wsConn
	sent := 0 // of box, on cur
	boxChanged := make(chan bool, 1)
	poke := func() {
		select {
		case boxChanged <- true:
		default:
		}
	}
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // accepts and feeds connections
		defer wg.Done()
		for {
			mu.Lock()
			var f *frame16
			x := cur
			if x != nil && sent < len(box) {
				f = box[sent]
				sent++
			}
			mu.Unlock()
			if f != nil {
				x.write(f.typ, f.raw, f.frag)
				continue
			}
			select {
			case x := <-ws.conns:
				mu.Lock()
				cur, sent = x, 0
				mu.Unlock()
				x.mu.Lock()
				x.onAck = func(k int, id uint64) {
					mu.Lock()
					defer mu.Unlock()
					for j, f := range box {
						if f.id == id {
							box = append(append([]*frame16{}, box[:j]...), box[j+1:]...)
							if cur != nil && j < sent {
								sent--
							}
							break
						}
					}
				}
				x.mu.Unlock()
			case <-boxChanged:
			case <-stop:
				return
			}
		}
	}()

	want := map[string]bool{}
	var work sync.WaitGroup
	for g := 0; g < 2; g++ {
		gr := rand.New(rand.NewSource(rd.Int63()))
		a := peers[g]
		work.Add(2)
		go func() { // a device of the peer sends
			defer work.Done()
			for k := 0; k < 30; k++ {
				n.locked(func() {
					p := a.devs[uint32(1+gr.Intn(2))]
					if !p.S.ContainsSession(l.party.Name, 1) {
						if err := p.Builder(l.party).BuildSenderSession(l.bundle(axh.NoPre)); err != nil {
							panic(err)
						}
					}
					body := fmt.Sprintf("%s %d", a.id, k)
					ts := uint64(k + 1)
					m, err := p.Encrypt(l.party, padded(contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &body, Timestamp: &ts}})))
					if err != nil {
						panic(err)
					}
					mu.Lock()
					id := uint64(len(want) + 1)
					want[a.id+" "+body] = true
					b, _ := proto.Marshal(envelope(p, m, 5))
					box = append(box, &frame16{typ: websocket.BinaryMessage, raw: request(id, "/api/v1/message", b), id: id, req: true})
					mu.Unlock()
					poke()
					r.Event("messages under churn", 1)
					r.Eval(fmt.Sprint(m.Wire))
				})
				time.Sleep(time.Duration(gr.Intn(4000)) * time.Microsecond)
			}
		}()
		gs := rand.New(rand.NewSource(rd.Int63()))
		go func() { // we send to it
			defer work.Done()
			for k := 0; k < 10; k++ {
				r.Safe("panic", "sending while listening", func() {
					if _, err := SendMessage(a.id, fmt.Sprintf("to %d", k), 0); err != nil {
						r.Violation("send", "a send while listening fails: %v", err)
					}
				})
				r.Event("sends under churn", 1)
				time.Sleep(time.Duration(gs.Intn(6000)) * time.Microsecond)
			}
		}()
	}
	worked := make(chan bool)
	go func() { work.Wait(); close(worked) }()
	asked := make(chan bool, 1000)
	ws.mu.Lock()
	ws.gate = func() { asked <- true }
	ws.mu.Unlock()
	var loops []*listener
	begin := func() *listener { // a loop that has got as far as asking for the socket
		x := listen()
		select {
		case <-asked:
		case <-x.done:
		case <-time.After(60 * time.Second):
			r.Violation("connect", "listening does not connect: %s", x.stack())
		}
		loops = append(loops, x)
		return x
	}
	begin()
	churn := true
	for churn {
		select {
		case <-worked:
			churn = false
		case <-time.After(time.Duration(2+rd.Intn(15)) * time.Millisecond):
			StopListening()
			if rd.Intn(3) == 0 {
				loops[len(loops)-1].wait()
			}
			begin()
		}
	}
	// one last loop takes what is left
	StopListening()
	for _, x := range loops {
		if !x.wait() {
			r.Violation("hang", "a receive loop does not end\n%s", x.stack())
		}
		if x.pan != "" {
			r.Violation("panic", "a receive loop panics: %s", x.pan)
		}
	}
	r.Event("loops under churn", len(loops))
	last := begin()
	deadline := time.Now().Add(90 * time.Second)
	for {
		mu.Lock()
		left := len(box)
		mu.Unlock()
		if left == 0 || time.Now().After(deadline) || r.Failed() {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	mu.Lock()
	for k := range want {
		if seen[k] != 1 {
			r.Violation("once", "%q reached the application %d times (%d requests not acknowledged)", k, seen[k], len(box))
			break
		}
	}
	for k := range seen {
		if !want[k] {
			r.Violation("alien", "the application was given %q, which nobody sent", k)
		}
	}
	mu.Unlock()
	time.Sleep(10 * time.Millisecond)
	StopListening()
	last.wait()
	close(stop)
	wg.Wait()
}
