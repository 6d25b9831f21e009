package crayfish

import (
	"crypto/sha256"
	b64 "encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/vh"
	log "github.com/sirupsen/logrus"
)

// helper is a simulated helper process: a websocket server whose answers are functions of the requests.
type helper struct {
	mu       sync.Mutex
	conn     *websocket.Conn
	conns    int32
	requests int32
	// on is called for every request, in its own goroutine unless fast; it answers with h.write
	on   func(h *helper, c *websocket.Conn, q *hreq)
	fast bool
	wmu  sync.Mutex
	pong chan struct{}
}

type hreq struct {
	kind int
	raw  []byte
	msg  map[string]interface{}
}

func (h *helper) set(fast bool, on func(h *helper, c *websocket.Conn, q *hreq)) {
	h.mu.Lock()
	h.on, h.fast = on, fast
	h.mu.Unlock()
}

func (h *helper) write(c *websocket.Conn, b []byte) {
	h.wmu.Lock()
	defer h.wmu.Unlock()
	c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	c.WriteMessage(websocket.TextMessage, b)
}

func (h *helper) cur() *websocket.Conn {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.conn
}

// flush waits until the other side has read everything written so far.
func (h *helper) flush(c *websocket.Conn) bool {
	h.wmu.Lock()
	err := c.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(5*time.Second))
	h.wmu.Unlock()
	if err != nil {
		return false
	}
	select {
	case <-h.pong:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func (h *helper) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	c.SetPongHandler(func(string) error {
		select {
		case h.pong <- struct{}{}:
		default:
		}
		return nil
	})
	h.mu.Lock()
	h.conn = c
	h.mu.Unlock()
	atomic.AddInt32(&h.conns, 1)
	for {
		_, b, err := c.ReadMessage()
		if err != nil {
			c.Close()
			return
		}
		q := &hreq{raw: b}
		var m struct {
			Type    int
			Request struct {
				Type    int
				Message map[string]interface{}
			}
		}
		if json.Unmarshal(b, &m) == nil {
			q.kind, q.msg = m.Request.Type, m.Request.Message
		}
		atomic.AddInt32(&h.requests, 1)
		h.mu.Lock()
		on, fast := h.on, h.fast
		h.mu.Unlock()
		if fast {
			on(h, c, q)
		} else {
			go on(h, c, q)
		}
	}
}

// truth is the answer to a request: type and message.
func truth(q *hreq) []byte {
	s := func(k string) string { x, _ := q.msg[k].(string); return x }
	var typ int
	var m interface{}
	switch q.kind {
	case 2:
		h := sha256.Sum256([]byte("uuid" + s("number") + verification(q.msg["confirm_code"], s("password"), q.msg["signaling_key"])))
		var a []int
		for _, x := range h[:16] {
			a = append(a, int(x))
		}
		typ, m = 2, map[string]interface{}{"uuid": a, "storage_capable": true}
	case 3:
		h := sha256.Sum256([]byte(s("message")))
		typ, m = 3, map[string]interface{}{"message": "answer " + s("message"), "timestamp": int64(h[0])<<32 | 5, "sender_device": int(h[1]), "sender": map[string]interface{}{"uuid": fmt.Sprintf("%x", h[:8])}}
	case 4:
		in, _ := b64.StdEncoding.DecodeString(s("avatar"))
		typ, m = 3, map[string]interface{}{"avatar": b64.StdEncoding.EncodeToString(append([]byte("plain "+keyOf(q.msg["key"])), in...))}
	case 1:
		typ, m = 1, map[string]interface{}{"status": "ok"}
	}
	b, _ := json.Marshal(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": typ, "message": m}})
	return b
}

var serial int64

// verification is what a request to verify says, apart from the number.
func verification(code interface{}, password string, key interface{}) string {
	x, _ := code.(float64)
	return fmt.Sprintf("|%.0f|%s|%s", x, password, keyOf(key))
}

// keyOf is an array of bytes of a request.
func keyOf(v interface{}) string {
	l, _ := v.([]interface{})
	s := ""
	for _, x := range l {
		f, _ := x.(float64)
		s += fmt.Sprintf("%02x", int(f))
	}
	return s
}

func keyOf52(b []byte) interface{} {
	var l []interface{}
	for _, x := range b {
		l = append(l, float64(x))
	}
	return l
}

func text23(n int64) string { return fmt.Sprintf("pass \"<%d&é\\", n) }

// call makes one call of a random kind; it returns the error and what is wrong with the answer.
func call(c *CrayfishInstance, kind int) (what string, err error) {
	n := atomic.AddInt64(&serial, 1)
	id := fmt.Sprintf("request %d", n)
	switch kind {
	case 2:
		num := "+4917" + strconv.FormatInt(n, 10)
		// codes may begin with zeros, keys end with them
		x := sha256.Sum256([]byte(num))
		v := (int(x[0])<<8 | int(x[1])) * 16 % []int{1000000, 10000, 1000}[x[2]%3]
		code := fmt.Sprintf("%06d", v)
		k52 := append(append([]byte{}, x[:]...), make([]byte, 20)...)
		var g *CrayfishRegistration
		g, err = c.CrayfishRegisterWithCode(&registration.RegistrationInfo{Password: text23(n), SignalingKey: k52}, num, "", code)
		if err != nil {
			return "", err
		}
		h := sha256.Sum256([]byte("uuid" + num + verification(float64(v), text23(n), keyOf52(k52))))
		want := fmt.Sprintf("%x-%x-%x-%x-%x", h[:4], h[4:6], h[6:8], h[8:10], h[10:16])
		if g == nil || g.UUID != want || g.Tel != num {
			return fmt.Sprintf("verification of %s was answered with %+v, not %s", num, g, want), nil
		}
	case 3:
		var g *CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE
		g, err = c.HandleEnvelope([]byte(id))
		if err != nil {
			return "", err
		}
		in := b64.StdEncoding.EncodeToString([]byte(id))
		h := sha256.Sum256([]byte(in))
		if g == nil || g.Message != "answer "+in || g.Timestamp != int64(h[0])<<32|5 || g.SenderDevice != int32(h[1]) || g.Sender.UUID != fmt.Sprintf("%x", h[:8]) {
			return fmt.Sprintf("envelope %q was answered with %+v", id, g), nil
		}
	case 4:
		var g []byte
		key := sha256.Sum256([]byte(id))
		key[31] = 0
		g, err = c.DecryptAvatar([]byte(id), key[:])
		if err != nil {
			return "", err
		}
		if string(g) != fmt.Sprintf("plain %x", key)+id {
			return fmt.Sprintf("avatar %q was answered with %q", id, g), nil
		}
	}
	return "", nil
}

func TestVerifC23(t *testing.T) {
	r := vh.Start(t, "C23", "a case is one call or batch of concurrent calls to a simulated helper process with given answer speed, order, noise frames, error answers or connection loss; key: scenario, callers and kind")
	defer r.Finish()
	r.NoStop = true
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	h := &helper{pong: make(chan struct{}, 1)}
	var ln net.Listener
	var err error
	for i := 0; i < 60; i++ {
		if ln, err = net.Listen("tcp", "localhost:9081"); err == nil {
			break
		}
		time.Sleep(time.Second)
	}
	if err != nil {
		r.Inconclusive("port 9081 is not free: %v", err)
		return
	}
	srv := &http.Server{Handler: h}
	go srv.Serve(ln)
	defer srv.Close()
	cmd := exec.Command("sleep", "3600")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		r.Inconclusive("no process for the helper: %v", err)
		return
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	Instance = &CrayfishInstance{cmd: cmd, LocalUUID: "me", LocalDeviceID: 1}
	c := Instance
	honest := func(h *helper, c *websocket.Conn, q *hreq) { h.write(c, truth(q)) }

	// bounded makes one call that must come back
	bounded := func(what string, kind int) (bad string, err error, back bool) {
		back = r.Bounded("hang", what, func() {
			if p := vh.Try(func() { bad, err = call(c, kind) }); p != "" {
				r.Violation("crash", "%s: %s", what, p)
				err = fmt.Errorf("panic")
			}
		})
		return
	}

	// before any connection
	for kind := 2; kind <= 4; kind++ {
		r.SetCase("no connection, kind %d", kind)
		_, err, back := bounded("a call without a connection", kind)
		if back && err == nil {
			r.Violation("none", "a call without a connection succeeded")
		}
		r.Eval(fmt.Sprint("no connection ", kind))
	}
	r.Bounded("hang", "register without a connection", func() {
		if p := vh.Try(func() { err = c.CrayfishRegister(&registration.RegistrationInfo{}, "+1", "") }); p != "" {
			r.Violation("crash", "CrayfishRegister without a connection: %s", p)
		} else if err == nil {
			r.Violation("none", "a registration without a connection succeeded")
		}
	})

	wsDone := make(chan struct{})
	dead := false
	connect := func() bool {
		n := atomic.LoadInt32(&h.conns)
		wsDone = make(chan struct{})
		go func(d chan struct{}) {
			defer close(d)
			if p := vh.Try(func() { c.StartWebsocket() }); p != "" {
				r.Violation("crash", "the reader of helper frames died: %s", p)
			}
		}(wsDone)
		if !vh.WaitUntil(20*time.Second, func() bool { return atomic.LoadInt32(&h.conns) > n }) {
			r.Inconclusive("the helper was not connected to")
			dead = true
			return false
		}
		// the first call that gets through
		h.set(false, honest)
		for i := 0; i < 400; i++ {
			bad, err, back := bounded("the first call on a new connection", 3)
			if !back {
				dead = true
				return false
			}
			if bad != "" {
				r.Violation("wrong", "%s", bad)
			}
			if err == nil {
				return true
			}
			time.Sleep(5 * time.Millisecond)
		}
		r.Violation("never", "no call succeeds on a new connection")
		dead = true
		return false
	}
	disconnect := func() {
		if cc := h.cur(); cc != nil {
			cc.Close()
		}
		select {
		case <-wsDone:
		case <-time.After(30 * time.Second):
			r.Violation("hang", "the reader of helper frames does not end when the connection is closed")
			dead = true
		}
	}
	if !connect() {
		return
	}

	// concurrent and sequential callers, answers at any speed and in any order
	for i, n := 0, r.N(60, 1500); i < n && !dead; i++ {
		rd := r.Rand("calls", i)
		callers, each := 1+rd.Intn(6), 1+rd.Intn(8)
		speed := rd.Intn(4)
		r.SetCase("calls/%d: %d callers, %d calls each, speed %d", i, callers, each, speed)
		var dmu sync.Mutex
		drd := rand.New(rand.NewSource(int64(i)))
		var held []func()
		slow := func(h *helper, c *websocket.Conn, q *hreq) {
			dmu.Lock()
			d := time.Duration(drd.Intn(3000)) * time.Microsecond
			dmu.Unlock()
			time.Sleep(d)
			h.write(c, truth(q))
		}
		// answers are collected for a while and given in reverse
		reverse := func(h *helper, c *websocket.Conn, q *hreq) {
			dmu.Lock()
			held = append(held, func() { h.write(c, truth(q)) })
			first := len(held) == 1
			dmu.Unlock()
			if first {
				time.Sleep(2 * time.Millisecond)
				dmu.Lock()
				hs := held
				held = nil
				dmu.Unlock()
				for j := len(hs) - 1; j >= 0; j-- {
					hs[j]()
				}
			}
		}
		switch speed {
		case 0:
			h.set(true, honest)
		case 1:
			h.set(false, honest)
		case 2:
			h.set(false, slow)
		case 3:
			h.set(false, reverse)
		}
		kinds := make([][]int, callers)
		for a := range kinds {
			for b := 0; b < each; b++ {
				kinds[a] = append(kinds[a], 2+rd.Intn(3))
			}
		}
		var wg sync.WaitGroup
		for a := 0; a < callers; a++ {
			wg.Add(1)
			go func(ks []int) {
				defer wg.Done()
				for _, k := range ks {
					bad, err, back := bounded("a call", k)
					if !back {
						return
					}
					if err != nil {
						r.Violation("failed", "a call of kind %d with a helper that answers everything: %v", k, err)
						return
					}
					if bad != "" {
						r.Violation("wrong", "%s", bad)
					}
					r.Event("own answers", 1)
				}
			}(kinds[a])
		}
		wg.Wait()
		r.Eval(fmt.Sprintf("calls %d callers speed %d", callers, speed))
		if r.Failed() {
			dead = true
		}
	}

	// frames nobody asked for: before the answer, after it, and a second time
	noise := []string{`{}`, `{"type":0}`, `{"type":1}`, `{"type":2}`, `{"type":3}`, `{"type":-1}`, `{"type":1,"request":null}`, `{"type":1,"request":{}}`, `{"type":1,"request":{"type":3,"message":{}}}`,
		`{"type":2,"response":null}`, `{"type":2,"response":{}}`, `{"type":2,"response":{"type":0,"message":{}}}`, `{"type":2,"response":{"type":1,"message":{"status":"ok"}}}`, `{"type":2,"response":{"type":null,"message":"x"}}`, `null`, `{"response":{"type":3,"message":{"message":"bad"}}}`}
	for i, n := 0, r.N(60, 1000); i < n && !dead; i++ {
		rd := r.Rand("noise", i)
		kind := 2 + rd.Intn(3)
		var pre []string
		for j := 0; j < 1+rd.Intn(4); j++ {
			pre = append(pre, noise[rd.Intn(len(noise))])
		}
		r.SetCase("noise/%d kind %d: %s", i, kind, strings.Join(pre, " "))
		dup, stray := rd.Intn(3), rd.Intn(2) == 0
		written := make(chan struct{}, 100)
		h.set(false, func(h *helper, c *websocket.Conn, q *hreq) {
			defer func() { written <- struct{}{} }()
			for _, p := range pre {
				h.write(c, []byte(p))
			}
			for d := 0; d <= dup; d++ {
				if d > 0 && stray { // right behind the answer, an answer nobody asked for
					h.write(c, truth(&hreq{kind: kind, msg: map[string]interface{}{"message": "stray", "avatar": "c3RyYXk=", "number": "stray"}}))
					continue
				}
				h.write(c, truth(q))
			}
		})
		bad, err, back := bounded("a call among noise", kind)
		if !back {
			dead = true
			break
		}
		if err != nil || bad != "" {
			r.Violation("noise", "a call among frames nobody asked for: %v %s", err, bad)
		}
		<-written
		// unsolicited answers while nobody waits
		cc := h.cur()
		for j := 0; j < rd.Intn(4); j++ {
			h.write(cc, truth(&hreq{kind: 2 + rd.Intn(3), msg: map[string]interface{}{"message": "stale", "avatar": "c3RhbGU=", "number": "stale"}}))
		}
		if !h.flush(cc) {
			r.Violation("stuck", "the reader of helper frames does not read on after frames nobody asked for")
			dead = true
			break
		}
		r.Event("noise frames", len(pre)+dup)
		h.set(false, honest)
		bad, err, back = bounded("a call after noise", 2+rd.Intn(3))
		if !back {
			dead = true
			break
		}
		if err != nil || bad != "" {
			r.Violation("noise", "a call after frames nobody asked for: %v %s", err, bad)
		}
		r.Eval(fmt.Sprintf("noise %s dup %d", pre[0], dup))
		if r.Failed() {
			dead = true
		}
	}

	// error answers: never data
	for i, m := range []string{`"error"`, `5`, `[]`, `[1,2]`, `true`, `null`, ``, `{"message":5,"avatar":5,"uuid":"x"}`, `{"message":{},"avatar":{},"uuid":{}}`, `{"timestamp":"x","avatar":"*","uuid":[300]}`,
		`{"sender":5,"avatar":"a","uuid":[-1]}`} {
		for kind := 2; kind <= 4 && !dead; kind++ {
			typ := 3
			if kind == 2 {
				typ = 2
			}
			body := `{"type":2,"response":{"type":` + fmt.Sprint(typ) + `,"message":` + m + `}}`
			if m == "" {
				body = `{"type":2,"response":{"type":` + fmt.Sprint(typ) + `}}`
			}
			r.SetCase("error answer %s to kind %d", m, kind)
			h.set(false, func(h *helper, c *websocket.Conn, q *hreq) { h.write(c, []byte(body)) })
			_, err, back := bounded("a call with an error answer", kind)
			if !back {
				dead = true
				break
			}
			if err == nil {
				r.Violation("error", "the answer %s to a call of kind %d was taken for data", m, kind)
			}
			h.set(false, honest)
			if bad, err, back := bounded("a call after an error answer", 3); !back {
				dead = true
			} else if bad != "" || err != nil {
				r.Violation("error", "after an error answer: %v %s", err, bad)
			}
			r.Event("error answers", 1)
			r.Eval(fmt.Sprint("error ", i, kind))
		}
	}
	if !dead {
		r.SetCase("verification answered without a uuid")
		for _, m := range []string{`{}`, `{"error":"wrong code"}`, `{"uuid":null}`, `{"uuid":[]}`} {
			h.set(false, func(h *helper, c *websocket.Conn, q *hreq) {
				h.write(c, []byte(`{"type":2,"response":{"type":2,"message":`+m+`}}`))
			})
			if _, err, back := bounded("a verification answered without a uuid", 2); back && err == nil {
				r.Violation("error", "the answer %s to a verification was taken for a registration", m)
			}
			r.Eval("no uuid " + m)
		}
	}

	// connection loss at every point; afterwards a new connection works
	for i, n := 0, r.N(48, 600); i < n && !dead; i++ {
		rd := r.Rand("loss", i)
		kind, how := 2+rd.Intn(3), i%6
		waiters := 1 + rd.Intn(3)
		r.SetCase("loss/%d kind %d how %d waiters %d", i, kind, how, waiters)
		wait := time.Duration(rd.Intn(2000)) * time.Microsecond
		h.set(false, func(h *helper, c *websocket.Conn, q *hreq) {
			switch how {
			case 0: // closed with the request unanswered
				c.Close()
			case 1: // with a close frame
				h.wmu.Lock()
				c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
				h.wmu.Unlock()
				time.Sleep(wait)
				c.Close()
			case 2: // a reset
				if tc, ok := c.UnderlyingConn().(*net.TCPConn); ok {
					tc.SetLinger(0)
				}
				c.Close()
			case 3: // a frame that is no JSON
				h.write(c, []byte("{"))
			case 4: // half a frame
				h.wmu.Lock()
				c.UnderlyingConn().Write([]byte{0x81, 0x7e, 0x10})
				h.wmu.Unlock()
				c.Close()
			case 5: // nothing: the caller's side stops listening
				time.Sleep(wait)
				Instance.StopListening()
			}
		})
		var wg sync.WaitGroup
		for w := 0; w < waiters; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad, err, back := bounded("a call whose connection is lost", kind)
				if back && err == nil {
					r.Violation("loss", "an unanswered call returned without an error %s", bad)
				}
			}()
		}
		wg.Wait()
		if r.Failed() {
			break
		}
		r.Event("lost connections", 1)
		select {
		case <-wsDone:
		case <-time.After(30 * time.Second):
			r.Violation("hang", "the reader of helper frames does not end when the connection is lost")
			dead = true
			continue
		}
		// while there is no connection
		if _, err, back := bounded("a call after the connection was lost", kind); !back {
			break
		} else if err == nil {
			r.Violation("loss", "a call after the connection was lost returned without an error")
		}
		r.Eval(fmt.Sprintf("loss kind %d how %d", kind, how))
		if !connect() {
			break
		}
	}
	if !dead {
		// the registration request reaches the helper as given
		var got sync.Map
		h.set(false, func(h *helper, c *websocket.Conn, q *hreq) {
			if q.kind == 1 {
				got.Store("m", q.msg)
			}
			h.write(c, truth(q))
		})
		if err := c.CrayfishRegister(&registration.RegistrationInfo{Password: "pw"}, "+49", "cap"); err != nil {
			r.Violation("register", "%v", err)
		}
		vh.WaitUntil(10*time.Second, func() bool { _, ok := got.Load("m"); return ok })
		m, _ := got.Load("m")
		if mm, ok := m.(map[string]interface{}); !ok || mm["number"] != "+49" || mm["password"] != "pw" || mm["captcha"] != "cap" {
			r.Violation("register", "the helper was asked to register %v", m)
		}
		disconnect()
	}

	// the listening loop reconnects by itself and ends when stopped
	if !dead && !r.Failed() {
		r.SetCase("listening loop")
		h.set(false, honest)
		n := atomic.LoadInt32(&h.conns)
		done := make(chan struct{})
		go func() { c.StartListening(); close(done) }()
		for round := int32(1); round <= 2; round++ {
			if !vh.WaitUntil(30*time.Second, func() bool { return atomic.LoadInt32(&h.conns) >= n+round }) {
				r.Violation("reconnect", "no connection %d in the listening loop", round)
				break
			}
			ok := vh.WaitUntil(20*time.Second, func() bool {
				bad, err, back := bounded("a call in the listening loop", 3)
				if bad != "" {
					r.Violation("wrong", "%s", bad)
				}
				return back && err == nil
			})
			if !ok {
				r.Violation("reconnect", "no call succeeds after connection %d", round)
				break
			}
			if round == 1 {
				h.cur().Close()
			}
		}
		if err := c.Stop(); err != nil {
			r.Violation("stop", "%v", err)
		}
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			r.Violation("stop", "the listening loop does not end when stopped")
		}
		r.Eval("listening loop")
	}
	r.Require("own answers", 200)
	r.Require("noise frames", 60)
	r.Require("error answers", 20)
	r.Require("lost connections", 30)
	r.Assume("answers carry no request id: an unsolicited answer that arrives between a request and its answer cannot be told apart, and is not generated")
}
