package textsecure

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-yaml/yaml"
	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	zkgroup "github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
	log "github.com/sirupsen/logrus"
)

// ---- the client process: the real Setup, told what to do over stdin

type op29 struct {
	Op, To, Text string
	Keys         []byte
}

type res29 struct {
	Err, Pan, Text string
	Done           int // how often the application was told that it is registered
	Identity       []byte
	Password       string
	Signaling      []byte
	RegID          uint32
	UUID           string
	Events         []string
}

const mark29 = "C29RES "

// TestVerifC29Child is the application.
func TestVerifC29Child(t *testing.T) {
	dir := os.Getenv("VERIF_C29_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	var mu sync.Mutex
	var events []string
	done := 0
	attached := func() error {
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			if i := crayfish.Instance; i != nil {
				if _, err := i.HandleEnvelope([]byte("probe:" + os.Getenv("VERIF_C29_ID"))); err == nil {
					return nil
				}
			}
		}
		return fmt.Errorf("the helper was not connected to")
	}
	c := &Client{
		GetPhoneNumber:      func() string { return os.Getenv("VERIF_C29_TEL") },
		GetVerificationCode: func() string { return os.Getenv("VERIF_C29_CODE") },
		GetPin:              func() string { return "" },
		GetStoragePassword:  func() string { return os.Getenv("VERIF_C29_PW") },
		GetCaptchaToken: func() string {
			if err := attached(); err != nil {
				fmt.Println(err)
			}
			if os.Getenv("VERIF_C29_SAY") != "" {
				fmt.Printf("\n%s\n", "C29ASKED")
			}
			return "captcha-" + os.Getenv("VERIF_C29_ID")
		},
		GetConfig:             func() (*config.Config, error) { return ReadConfig(dir + "/config.yml") },
		GetLocalContacts:      func() ([]contacts.Contact, error) { return nil, nil },
		MessageHandler:        func(m *Message) { mu.Lock(); events = append(events, m.SourceUUID()+"|"+m.Message()); mu.Unlock() },
		TypingMessageHandler:  func(m *Message) {},
		ReceiptMessageHandler: func(m *Message) {},
		CallMessageHandler:    func(m *Message) {},
		ReceiptHandler:        func(string, uint32, uint64) {},
		SyncReadHandler:       func(string, uint64) {},
		SyncSentHandler:       func(*Message, uint64) {},
		RegistrationDone:      func() { mu.Lock(); done++; mu.Unlock() },
		GetUsername:           func() string { return os.Getenv("VERIF_C29_NAME") },
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var o op29
		must16(json.Unmarshal(line, &o))
		var res res29
		res.Pan = vh.Try(func() {
			var err error
			switch o.Op {
			case "setup":
				err = Setup(c)
				if err == nil {
					contacts.Contacts = map[string]contacts.Contact{}
					contacts.ReadContacts(dir + "/contacts.yml")
				}
			case "state":
				res.Identity = MyIdentityKey()
				res.Password, res.RegID, res.Signaling = registration.Registration.Password, registration.Registration.RegistrationID, registration.Registration.SignalingKey
				res.UUID = config.ConfigFile.UUID
			case "keys":
				res.Text = keys29(o.Keys)
			case "listen":
				go StartListening()
			case "attach":
				err = attached()
			case "send":
				_, err = SendMessage(o.To, o.Text, 0)
			case "events":
				for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
					mu.Lock()
					n := len(events)
					mu.Unlock()
					if n > 0 {
						break
					}
				}
				mu.Lock()
				res.Events, events = events, nil
				mu.Unlock()
			}
			if err != nil {
				res.Err = "error " + err.Error()
			}
		})
		mu.Lock()
		res.Done = done
		mu.Unlock()
		fmt.Printf("\n%s%s\n", mark29, js(res))
	}
}

// upload29 is what the client publishes.
type upload29 struct {
	IdentityKey   string  `json:"identityKey"`
	PreKeys       []pub29 `json:"preKeys"`
	LastResortKey *pub29  `json:"lastResortKey"`
	SignedPreKey  *spub29 `json:"signedPreKey"`
}
type pub29 struct {
	ID        uint32 `json:"keyId"`
	PublicKey string `json:"publicKey"`
}
type spub29 struct {
	ID        uint32 `json:"keyId"`
	PublicKey string `json:"publicKey"`
	Signature string `json:"signature"`
}

// keys29 says which of the published keys the store lacks.
func keys29(b []byte) string {
	var u upload29
	must16(json.Unmarshal(b, &u))
	for _, k := range append(u.PreKeys, *u.LastResortKey) {
		r, err := textSecureStore.LoadPreKey(k.ID)
		if err != nil {
			return fmt.Sprintf("prekey %d is not in the store: %v", k.ID, err)
		}
		if encodeKey(r.Pkrs.PublicKey) != k.PublicKey {
			return fmt.Sprintf("prekey %d is another one in the store", k.ID)
		}
	}
	s, err := textSecureStore.LoadSignedPreKey(u.SignedPreKey.ID)
	if err != nil {
		return fmt.Sprintf("the signed prekey is not in the store: %v", err)
	}
	if encodeKey(s.Spkrs.PublicKey) != u.SignedPreKey.PublicKey {
		return "the signed prekey is another one in the store"
	}
	return ""
}

// ---- the helper process' socket, shared by all the clients that run at the time

type helper29 struct {
	ln     net.Listener
	mu     sync.Mutex
	worlds map[string]*c29
}

func (h *helper29) world(id string) *c29 {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.worlds[id]
}

func (h *helper29) serve(w http.ResponseWriter, q *http.Request) {
	up := websocket.Upgrader{}
	ws, err := up.Upgrade(w, q, nil)
	if err != nil {
		return
	}
	defer ws.Close()
	var c *c29
	for {
		_, b, err := ws.ReadMessage()
		if err != nil {
			return
		}
		var m struct {
			Request struct {
				Type    int             `json:"type"`
				Message json.RawMessage `json:"message"`
			} `json:"request"`
		}
		json.Unmarshal(b, &m)
		var ans []byte
		switch m.Request.Type {
		case 1, 2:
			if c == nil {
				return
			}
			ans = c.register(m.Request.Type, m.Request.Message)
			if ans == nil {
				return
			}
		case 3:
			var e struct {
				Message string `json:"message"`
				UUID    string `json:"local_uuid"`
			}
			json.Unmarshal(m.Request.Message, &e)
			env, _ := base64.StdEncoding.DecodeString(e.Message)
			if strings.HasPrefix(string(env), "probe:") {
				c = h.world(string(env[6:]))
				ans = []byte(`{"type":2,"response":{"type":3,"message":{"message":""}}}`)
			} else if c != nil {
				ans = c.sealed(e.UUID, env)
			}
		}
		if len(ans) > 0 {
			ws.WriteMessage(websocket.TextMessage, ans)
		}
	}
}

// ---- one account: its number, server and the processes that use it

type fault29 struct {
	stage, kind string
	skip        int // requests of the stage that are let through
	hit         bool
	k           int // for "prekeys": how many files
}

func (f *fault29) String() string {
	if f == nil {
		return "none"
	}
	return fmt.Sprintf("%s:%s/%d/%d", f.stage, f.kind, f.skip, f.k)
}

type c29 struct {
	r    *vh.R
	rd   *rand.Rand
	h    *helper29
	gs   *groupServer
	id   string
	dir  string
	tel  string
	name string
	pw   string
	cfg  config.Config // the initial configuration
	n    *network
	ch   *proc29

	mu        sync.Mutex
	fault     *fault29
	uuid      string            // what the server calls the account of the number
	creds     map[string]string // of the server's accounts
	signaling map[string][]byte
	uploads   map[string][]byte // the published keys
	uploaded  bool              // this process published keys
	after     bool              // and a later request shows that it saw the answer
	starts    int               // registrations begun and finished by this process
	verifies  int
	unauth    []string
	version   map[string]string
	commit    map[string][]byte
	nameCT    map[string][]byte
	cert      []byte
	certs     int // certificates given to this process
	expired   bool
	keep      bool // the account id stays with the number
	wsConn    chan *wsConn
	seals     map[string][]byte
	envUUID   []string

	complete bool
	acct     res29 // what the account was when it was completed
	peers    []*axh.Party
	used     map[uint32]bool
	seq      int
	trace    []string
	dead     bool
}

func (c *c29) step(f string, a ...interface{}) {
	c.trace = append(c.trace, fmt.Sprintf(f, a...))
}

func (c *c29) bad(key, f string, a ...interface{}) {
	c.r.Violation(key, "%s (number %s, steps: %s)", fmt.Sprintf(f, a...), c.tel, strings.Join(tailOf(c.trace, 14), "; "))
	c.dead = true
}

// act says what happens to a request of a stage.
func (c *c29) act(stage string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	f := c.fault
	if f == nil || f.stage != stage {
		return ""
	}
	if f.skip > 0 {
		f.skip--
		return ""
	}
	f.hit = true
	return f.kind
}

func (c *c29) kill() {
	if p := c.ch; p != nil {
		p.killed.Do(func() {
			p.wasKilled = true
			p.cmd.Process.Kill()
		})
	}
}

// register answers the helper's two registration requests; nil closes the connection, empty is no answer.
func (c *c29) register(typ int, b []byte) []byte {
	var m struct {
		Number, Password, Captcha, Name string
		Code                            uint64  `json:"confirm_code"`
		Key                             []uint8 `json:"-"`
		RawKey                          []int   `json:"signaling_key"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		c.r.Violation("helper", "request %d to the helper: %v", typ, err)
		return nil
	}
	for _, x := range m.RawKey {
		m.Key = append(m.Key, byte(x))
	}
	stage := []string{"", "start", "verify"}[typ]
	kind := c.act(stage)
	if kind == "kill-before" {
		c.kill()
		return nil
	}
	if kind == "drop" {
		return nil
	}
	if m.Number != c.tel || m.Password == "" {
		c.r.Violation("helper", "registration of number %q (want %s) with password %q", m.Number, c.tel, m.Password)
	}
	if typ == 1 {
		c.mu.Lock()
		c.starts++
		c.mu.Unlock()
		if m.Captcha != "captcha-"+c.id {
			c.r.Violation("helper", "registration with captcha %q", m.Captcha)
		}
		if kind == "kill-after" {
			c.kill()
			return nil
		}
		return []byte{}
	}
	switch kind {
	case "error":
		return []byte(`{"type":2,"response":{"type":2,"message":"registration failed"}}`)
	case "nouuid":
		return []byte(`{"type":2,"response":{"type":2,"message":{"storage_capable":true}}}`)
	case "garbage":
		return []byte("{\x00]")
	}
	if m.Code != 123456 || len(m.Key) != 52 {
		c.r.Violation("helper", "verification with code %d and a signaling key of %d bytes", m.Code, len(m.Key))
	}
	c.mu.Lock()
	c.verifies++
	if c.uuid == "" || !c.keep {
		c.uuid = uuidOf(c.rd)
	}
	u := c.uuid
	c.creds[u], c.signaling[u] = m.Password, m.Key
	delete(c.uploads, u)
	c.mu.Unlock()
	c.n.locked(func() { c.n.me.Name = u })
	if kind == "kill-after" {
		c.kill()
		return nil
	}
	var ub []int
	for _, x := range uuidBytes(u) {
		ub = append(ub, int(x))
	}
	return js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 2, "message": map[string]interface{}{"uuid": ub, "storage_capable": false}}})
}

// sealed answers for the helper's decryption.
func (c *c29) sealed(uuid string, env []byte) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.envUUID = append(c.envUUID, uuid)
	e := &signalservice.Envelope{}
	proto.Unmarshal(env, e)
	a := c.seals[string(e.GetContent())]
	if a == nil {
		return []byte(`{"type":2,"response":{"type":3}}`)
	}
	return a
}

// serve is the account's part of the server.
func (c *c29) serve(n *network, q sreq) (sresp, bool) {
	p := strings.Split(strings.Trim(q.Path, "/"), "/")
	stage := ""
	switch {
	case q.Method == "PUT" && q.Path == "/v2/keys/":
		stage = "keys"
	case q.Method == "PUT" && strings.HasPrefix(q.Path, "/v1/profile"):
		stage = "putprofile"
	case q.Method == "GET" && len(p) == 5 && p[1] == "profile":
		stage = "credential"
	case q.Method == "GET" && len(p) == 3 && p[1] == "profile":
		stage = "getprofile"
	case q.Path == "/v1/certificate/delivery":
		stage = "certificate"
	case q.Method == "GET" && len(p) == 4 && p[1] == "keys", q.Method == "PUT" && len(p) == 3 && p[1] == "messages":
		stage = "message"
	default:
		return sresp{Status: 404}, true
	}
	user, pass, _ := q.BasicAuth()
	c.mu.Lock()
	ok := user != "" && user == c.uuid && c.creds[user] == pass
	if _, with := q.Header["Authorization"]; stage == "getprofile" && !with { // by access key
		ok, user = true, p[2]
	}
	if stage != "keys" && c.uploaded {
		c.after = true
	}
	c.mu.Unlock()
	kind := c.act(stage)
	switch kind {
	case "kill-before":
		c.kill()
		return sresp{Drop: true}, true
	case "drop":
		return sresp{Drop: true}, true
	case "401", "403", "404", "413", "500", "503":
		var st int
		fmt.Sscan(kind, &st)
		return sresp{Status: st}, true
	case "garbage":
		return sresp{Body: []byte("{\"certificate\": [1,")}, true
	}
	if !ok {
		c.mu.Lock()
		c.unauth = append(c.unauth, fmt.Sprintf("%s %s by %q", q.Method, q.Path, user))
		c.mu.Unlock()
		return sresp{Status: 401}, true
	}
	ans, handled := sresp{}, true
	c.mu.Lock()
	switch stage {
	case "keys":
		var u upload29
		if err := json.Unmarshal(q.Body, &u); err != nil || u.LastResortKey == nil || u.SignedPreKey == nil {
			ans = sresp{Status: 422}
			break
		}
		c.uploads[user] = q.Body
		c.uploaded = true
	case "putprofile":
		var s struct {
			Version          string
			Commitment, Name []byte
		}
		if json.Unmarshal(q.Body, &s) != nil || s.Version == "" || len(s.Commitment) == 0 {
			ans = sresp{Status: 422}
			break
		}
		c.version[user], c.commit[user], c.nameCT[user] = s.Version, s.Commitment, s.Name
	case "getprofile":
		ans.Body = c.profile(user, nil)
	case "credential":
		if p[2] != user || p[3] != c.version[user] {
			ans = sresp{Status: 404}
			break
		}
		rq, _ := hex.DecodeString(p[4])
		cr, err := zkgroup.NewServerZkProfileOperations(c.gs.secret).IssueProfileKeyCredential(rq, uuidBytes(user), c.commit[user])
		if err != nil {
			ans = sresp{Status: 400}
			break
		}
		ans.Body = c.profile(user, cr)
	case "certificate":
		c.certs++
		exp := uint64(time.Now().Add(24*time.Hour).UnixNano() / 1e6)
		if c.expired {
			exp = uint64(time.Now().Add(-time.Hour).UnixNano() / 1e6)
		}
		dev := uint32(1)
		cert, _ := proto.Marshal(&signalservice.SenderCertificate_Certificate{SenderUuid: &user, SenderDevice: &dev, Expires: &exp, IdentityKey: vh.Bytes(c.rd, 33)})
		c.cert, _ = proto.Marshal(&signalservice.SenderCertificate{Certificate: cert, Signature: vh.Bytes(c.rd, 64)})
		ans.Body = js(map[string]interface{}{"certificate": c.cert})
	case "message":
		handled = false
	}
	c.mu.Unlock()
	if kind == "kill-after" {
		c.kill()
		return sresp{Drop: true}, true
	}
	return ans, handled
}

func (c *c29) profile(user string, credential []byte) []byte {
	m := map[string]interface{}{"uuid": user, "identityKey": base64.StdEncoding.EncodeToString(make([]byte, 33)), "capabilities": map[string]interface{}{"gv2": true, "announcementGroup": true}}
	if n := c.nameCT[user]; n != nil {
		m["name"] = base64.StdEncoding.EncodeToString(n)
	}
	if credential != nil {
		m["credential"] = credential
	}
	return js(m)
}

// socket is the message socket.
func (c *c29) socket(rw http.ResponseWriter, q *http.Request) {
	v := q.URL.Query()
	c.mu.Lock()
	ok := v.Get("login") == c.uuid && c.uuid != "" && v.Get("password") == c.creds[c.uuid]
	if !ok {
		c.unauth = append(c.unauth, fmt.Sprintf("message socket by %q", v.Get("login")))
	}
	c.mu.Unlock()
	if !ok {
		rw.WriteHeader(403)
		return
	}
	up := websocket.Upgrader{}
	ws, err := up.Upgrade(rw, q, nil)
	if err != nil {
		return
	}
	x := &wsConn{c: ws, wake: make(chan struct{}, 1)}
	c.wsConn <- x
	x.read()
}

// ---- processes

type proc29 struct {
	cmd       *exec.Cmd
	in        io.WriteCloser
	lines     chan []byte
	errOut    bytes.Buffer
	killed    sync.Once
	wasKilled bool
	gone      bool
	asked     chan bool
}

// start runs a new application process.
func (c *c29) start(f *fault29, env ...string) {
	c.mu.Lock()
	c.fault, c.uploaded, c.after, c.starts, c.verifies, c.unauth, c.certs, c.envUUID = f, false, false, 0, 0, nil, 0, nil
	c.mu.Unlock()
	p := &proc29{cmd: exec.Command(os.Args[0], "-test.run=^TestVerifC29Child$", "-test.timeout=10m"), lines: make(chan []byte, 100), asked: make(chan bool, 10)}
	p.cmd.Dir = c.dir
	code := "123456"
	if f != nil && f.stage == "code" {
		code = f.kind
	}
	p.cmd.Env = append(os.Environ(), "VERIF_C29_DIR="+c.dir, "VERIF_C29_ID="+c.id, "VERIF_C29_TEL="+c.tel, "VERIF_C29_PW="+c.pw, "VERIF_C29_NAME="+c.name, "VERIF_C29_CODE="+code, "VERIF_C29_SAY=1")
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Stderr = &p.errOut
	var err error
	p.in, err = p.cmd.StdinPipe()
	must16(err)
	out, err := p.cmd.StdoutPipe()
	must16(err)
	must16(p.cmd.Start())
	c.mu.Lock()
	c.ch = p
	c.mu.Unlock()
	c.step("start with fault %v %v", f, env)
	c.r.Event("processes started", 1)
	go func() {
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if bytes.Contains(l, []byte("C29ASKED")) {
				p.asked <- true
			}
			if i := bytes.Index(l, []byte(mark29)); i >= 0 {
				p.lines <- l[i+len(mark29):]
			}
			if err != nil {
				close(p.lines)
				return
			}
		}
	}()
	if f != nil {
		go c.watch(p, f)
	}
}

// watch kills the process when something is on disk, or at some time.
func (c *c29) watch(p *proc29, f *fault29) {
	hit := func() {
		c.mu.Lock()
		f.hit = true
		c.mu.Unlock()
		c.kill()
	}
	switch f.stage {
	case "time":
		if f.k < 0 {
			select {
			case <-p.asked:
			case <-time.After(60 * time.Second):
				return
			}
			f.k = -f.k
		}
		time.Sleep(time.Duration(f.k) * 100 * time.Microsecond)
		c.mu.Lock()
		same := c.ch == p
		c.mu.Unlock()
		if same {
			hit()
		}
	case "prekeys", "signed_prekeys", "identity":
		dir := filepath.Join(c.store(), f.stage)
		n0, _ := os.ReadDir(dir)
		for !p.gone {
			if l, _ := os.ReadDir(dir); len(l)-len(n0) >= f.k {
				hit()
				return
			}
		}
	case "config":
		was, _ := os.ReadFile(c.dir + "/config.yml")
		for !p.gone {
			if b, _ := os.ReadFile(c.dir + "/config.yml"); !bytes.Equal(b, was) {
				if f.k--; f.k <= 0 {
					hit()
					return
				}
				was = b
			}
		}
	}
}

func (c *c29) store() string { return filepath.Join(c.dir, "store") }

// do gives the process an operation; killed tells that the process was killed by us meanwhile.
func (c *c29) do(o op29) (res res29, killed bool) {
	p := c.ch
	if p == nil {
		return res, true
	}
	c.r.SetCase("number %s: %s %s", c.tel, strings.Join(tailOf(c.trace, 8), "; "), o.Op)
	p.in.Write(append(js(o), '\n'))
	select {
	case l, ok := <-p.lines:
		if !ok {
			c.reap()
			if p.wasKilled {
				return res, true
			}
			e := p.errOut.String()
			if len(e) > 1500 {
				e = e[:1500]
			}
			c.bad("crash", "the process ended by itself at %s: %s", o.Op, e)
			return res, true
		}
		must16(json.Unmarshal(l, &res))
	case <-time.After(120 * time.Second):
		c.bad("hang", "%s does not come back", o.Op)
		c.kill()
		c.reap()
		return res, true
	}
	if res.Pan != "" {
		c.bad("panic", "%s panics: %s", o.Op, res.Pan)
	}
	return res, false
}

func (c *c29) reap() {
	p := c.ch
	if p == nil {
		return
	}
	p.in.Close()
	for range p.lines {
	}
	p.cmd.Wait()
	p.gone = true
	c.mu.Lock()
	c.ch = nil
	c.mu.Unlock()
}

// stop ends the process, politely or not.
func (c *c29) stop() {
	if c.ch == nil {
		return
	}
	if c.rd.Intn(2) == 0 {
		c.kill()
	}
	c.reap()
}

func (c *c29) readConfig() (*config.Config, error) {
	b, err := os.ReadFile(c.dir + "/config.yml")
	if err != nil {
		return nil, err
	}
	cfg := &config.Config{}
	return cfg, yaml.Unmarshal(b, cfg)
}

func (c *c29) writeConfig() {
	b, err := yaml.Marshal(&c.cfg)
	must16(err)
	must16(os.WriteFile(c.dir+"/config.yml", b, 0600))
}

// begin runs Setup in a new process and judges what came of it. It reports whether the setup succeeded.
func (c *c29) begin(f *fault29, env ...string) bool {
	blocked := ""
	if f != nil && f.stage == "unwritable" {
		blocked = filepath.Join(c.store(), f.kind)
		if _, err := os.Lstat(blocked); err == nil || c.complete {
			f, blocked = nil, ""
		} else {
			must16(os.MkdirAll(blocked+"/x", 0700))
			f.hit = true
		}
	}
	c.start(f, env...)
	res, killed := c.do(op29{Op: "setup"})
	if blocked != "" {
		must16(os.RemoveAll(blocked))
	}
	if f != nil && f.stage == "code" && res.Err != "" {
		// the helper may not have read the request yet
		vh.WaitUntil(3*time.Second, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.starts > 0 })
	}
	c.mu.Lock()
	starts, verifies, uploaded, after, unauth := c.starts, c.verifies, c.uploaded, c.after, c.unauth
	hit := f != nil && (f.hit || f.stage == "code" && starts > 0)
	up := c.uploads[c.uuid] != nil
	c.mu.Unlock()
	if c.dead {
		return false
	}
	if starts > 1 || verifies > 1 {
		c.bad("twice", "one start registers %d times (%d verified)", starts, verifies)
		return false
	}
	if c.complete && starts+verifies > 0 {
		c.bad("again", "an account that is set up is registered again")
		return false
	}
	if strings.HasPrefix(blocked, c.store()+"/identity/") && starts+verifies > 0 {
		c.bad("lost", "an account was registered although its %s could not be stored", f.kind)
		return false
	}
	if len(unauth) > 0 {
		c.bad("auth", "requests with credentials that are not the account's: %v", unauth)
		return false
	}
	if cfg, err := c.readConfig(); err != nil {
		c.bad("config", "the configuration cannot be read afterwards: %v", err)
		return false
	} else if c.complete && (cfg.UUID != c.acct.UUID || cfg.Tel != c.tel || cfg.Server != c.n.URL) {
		c.bad("config", "the configuration of account %s is %q, number %q, server %q afterwards", c.acct.UUID, cfg.UUID, cfg.Tel, cfg.Server)
		return false
	}
	if killed {
		c.step("killed at %v", f)
		c.r.Event("processes killed during setup", 1)
		if uploaded && after { // it knew that it was done with the registration
			c.taken()
		}
		return false
	}
	if !c.complete && !up && res.Done > 0 {
		c.bad("done", "the application is told that it is registered although no keys are published (setup: %s)", res.Err)
		return false
	}
	if res.Err != "" {
		c.step("setup: %s", res.Err)
		if !hit {
			c.bad("setup", "setup fails without a fault: %s", res.Err)
			return false
		}
		c.r.Event("setups that report a fault", 1)
		if uploaded && after {
			c.taken()
		}
		c.stop()
		return false
	}
	if hit && (f.kind != "kill-before" && f.kind != "kill-after") {
		switch f.stage {
		case "verify", "keys", "certificate", "credential", "code", "unwritable":
			c.bad("success", "setup succeeds although %v failed", f)
			return false
		}
	}
	if !up {
		c.bad("unreachable", "setup succeeds but no keys are published for account %s", c.uuid)
		return false
	}
	c.r.Event("setups that succeed", 1)
	return c.judge()
}

// taken notes that the account exists from now on, though its setup was not finished.
func (c *c29) taken() {
	if c.complete {
		return
	}
	cfg, err := c.readConfig()
	if err != nil {
		c.bad("config", "the configuration cannot be read: %v", err)
		return
	}
	if cfg.UUID != c.uuid {
		c.bad("config", "keys were published for account %s, the configuration says %q", c.uuid, cfg.UUID)
		return
	}
	c.complete = true
	c.acct = res29{UUID: c.uuid, Password: c.creds[c.uuid], Signaling: c.signaling[c.uuid]}
	c.acct.Identity = c.published().identity
	c.r.Event("accounts complete before their setup was finished", 1)
}

type published29 struct {
	identity []byte
	up       upload29
}

func dec29(s string) []byte {
	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
	if err != nil || len(b) != 33 || b[0] != 5 {
		return nil
	}
	return b
}

func (c *c29) published() *published29 {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := &published29{}
	if json.Unmarshal(c.uploads[c.uuid], &p.up) != nil {
		return p
	}
	p.identity = dec29(p.up.IdentityKey)
	return p
}

// judge compares what the process has, what is on disk and what the server knows.
func (c *c29) judge() bool {
	st, killed := c.do(op29{Op: "state"})
	if killed || c.dead {
		return false
	}
	c.mu.Lock()
	u, body := c.uuid, c.uploads[c.uuid]
	pass, sig, cert, certs := c.creds[u], c.signaling[u], c.cert, c.certs
	c.mu.Unlock()
	pub := c.published()
	switch {
	case st.UUID != u:
		c.bad("state", "the process runs as account %q, the server's is %s", st.UUID, u)
	case st.Password != pass:
		c.bad("state", "the process has password %q, the server %q", st.Password, pass)
	case !bytes.Equal(st.Signaling, sig):
		c.bad("state", "the process has signaling key %x, the server %x", st.Signaling, sig)
	case !bytes.Equal(st.Identity, pub.identity):
		c.bad("state", "the process has identity %x, the published one is %x", st.Identity, pub.identity)
	case c.complete && (!bytes.Equal(st.Identity, c.acct.Identity) || st.Password != c.acct.Password || st.UUID != c.acct.UUID || c.acct.RegID != 0 && st.RegID != c.acct.RegID):
		c.bad("changed", "the account is %+v, it was %+v", st, c.acct)
	case len(st.Password) < 8 || st.RegID > 1<<14:
		c.bad("state", "password %q, registration id %d", st.Password, st.RegID)
	}
	if c.dead {
		return false
	}
	if !c.complete { // the uploaded keys are all there at first
		if k, killed := c.do(op29{Op: "keys", Keys: body}); !killed && k.Text != "" {
			c.bad("keys", "%s", k.Text)
		}
	}
	c.complete = true
	c.acct = st
	cfg, err := c.readConfig()
	if err != nil {
		c.bad("config", "the configuration cannot be read: %v", err)
		return false
	}
	switch {
	case cfg.UUID != u || cfg.Tel != c.tel || cfg.Name == "" || cfg.Server != c.n.URL:
		c.bad("config", "the configuration says account %q, number %q, name %q, server %q", cfg.UUID, cfg.Tel, cfg.Name, cfg.Server)
	case len(cfg.ProfileKey) != 32:
		c.bad("config", "the profile key has %d bytes", len(cfg.ProfileKey))
	case certs > 0 && !bytes.Equal(cfg.Certificate, cert):
		c.bad("certificate", "the configuration has certificate %x, the one given last is %x", cfg.Certificate, cert)
	case certs == 0 && !valid29(cfg.Certificate):
		c.bad("expired", "the stored certificate is expired or missing, and none was asked for")
	}
	if c.dead {
		return false
	}
	if certs > 0 {
		c.r.Event("certificates renewed", 1)
	} else {
		c.r.Event("certificates kept", 1)
	}
	// the credential is one for the profile key
	sp, err := zkgroup.NewGroupSecretParams(bytes.Repeat([]byte{7}, 32))
	must16(err)
	pres, err := c.gs.pub.CreateProfileKeyCredentialPresentation(sp, cfg.ProfileKeyCredential)
	if err != nil {
		c.bad("credential", "the profile key credential of %d bytes is not usable: %v", len(cfg.ProfileKeyCredential), err)
		return false
	}
	pp, err := zkgroup.NewProfileKeyCredentialPresentation(pres)
	must16(err)
	ct, err := pp.ProfileKeyCiphertext()
	must16(err)
	pk, err := zkgroup.NewClientZkGroupCipher(sp).DecryptProfileKey(ct, uuidBytes(u))
	if err != nil || !bytes.Equal(pk, cfg.ProfileKey) {
		c.bad("credential", "the credential is for profile key %x, the profile key is %x (%v)", []byte(pk), cfg.ProfileKey, err)
		return false
	}
	v, err := zkgroup.ProfileKeyGetProfileKeyVersion(cfg.ProfileKey, uuidBytes(u))
	must16(err)
	c.mu.Lock()
	ver := c.version[u]
	c.mu.Unlock()
	if ver != string(v[:]) && (c.fault == nil || c.fault.stage != "putprofile") {
		c.bad("profile", "the published profile has version %s, that of the profile key is %s", ver, v)
		return false
	}
	c.r.Event("accounts compared", 1)
	return true
}

// talk sends and receives as a user does.
func (c *c29) talk() {
	if _, killed := c.do(op29{Op: "listen"}); killed || c.dead {
		return
	}
	var x *wsConn
	select {
	case x = <-c.wsConn:
	case <-time.After(60 * time.Second):
		c.bad("socket", "the process does not connect to the message socket (refused: %v)", c.unauth)
		return
	}
	defer x.drop()
	for k := 1 + c.rd.Intn(2); k > 0 && !c.dead; k-- {
		var p *axh.Party
		if len(c.peers) == 0 || c.rd.Intn(3) == 0 {
			p = axh.NewParty(uuidOf(c.rd), 1, c.rd)
			if err := c.meet(p); err != nil {
				c.bad("bundle", "no session can be started with the published keys: %v", err)
				return
			}
			c.peers = append(c.peers, p)
			a := &account{id: p.Name, ident: p.S.Identity, devs: map[uint32]*axh.Party{1: p}, rd: c.rd}
			c.n.locked(func() { c.n.acct[p.Name] = a })
		} else {
			p = c.peers[c.rd.Intn(len(c.peers))]
			c.r.Event("sessions continued", 1)
		}
		c.seq++
		text := fmt.Sprintf("message %d to %s", c.seq, c.tel)
		ts := uint64(1650000000000 + int64(c.seq))
		content := contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}})
		m, err := p.Encrypt(c.n.me, padded(content))
		if err != nil {
			c.bad("peer", "the peer cannot encrypt: %v", err)
			return
		}
		x.write(websocket.BinaryMessage, messageFrame(uint64(c.seq), envelope(p, m, ts)), 0)
		ev, killed := c.do(op29{Op: "events"})
		if killed || c.dead {
			return
		}
		if len(ev.Events) != 1 || ev.Events[0] != p.Name+"|"+text {
			c.bad("receive", "a message from %s arrives as %q", p.Name, ev.Events)
			return
		}
		c.n.takeAccepted()
		back := fmt.Sprintf("answer %d from %s", c.seq, c.tel)
		s, killed := c.do(op29{Op: "send", To: p.Name, Text: back})
		if killed || c.dead {
			return
		}
		acc := c.n.takeAccepted()
		if s.Err != "" || len(acc) != 1 || len(acc[0].del) != 1 || acc[0].del[0].content.GetDataMessage().GetBody() != back {
			c.bad("send", "an answer to %s: %q, arrives as %+v", p.Name, s.Err, acc)
			return
		}
		c.r.Event("messages and answers exchanged", 1)
	}
	if c.rd.Intn(3) > 0 {
		return
	}
	// one through the helper, which must know whose it is
	if a, killed := c.do(op29{Op: "attach"}); killed || c.dead || a.Err != "" {
		return
	}
	c.seq++
	from, text := uuidOf(c.rd), fmt.Sprintf("sealed %d to %s", c.seq, c.tel)
	ts := uint64(1650000000000 + int64(c.seq))
	content := contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}})
	sealed := vh.Bytes(c.rd, 100)
	c.mu.Lock()
	c.seals[string(sealed)] = js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": map[string]interface{}{
		"message": base64.StdEncoding.EncodeToString(content), "timestamp": ts, "sender_device": 1, "sender": map[string]interface{}{"uuid": from}}}})
	c.envUUID = nil
	u := c.uuid
	c.mu.Unlock()
	t := signalservice.Envelope_UNIDENTIFIED_SENDER
	env := &signalservice.Envelope{Type: &t, DestinationUuid: &u, Content: sealed, ServerTimestamp: &ts, Timestamp: &ts}
	x.write(websocket.BinaryMessage, messageFrame(uint64(c.seq), env), 0)
	ev, killed := c.do(op29{Op: "events"})
	if killed || c.dead {
		return
	}
	if len(ev.Events) != 1 || ev.Events[0] != from+"|"+text {
		c.bad("receive", "a sealed message from %s arrives as %q", from, ev.Events)
		return
	}
	c.mu.Lock()
	eu := append([]string{}, c.envUUID...)
	c.mu.Unlock()
	if len(eu) != 1 || eu[0] != u {
		c.bad("helper", "the helper is told to decrypt for account %q, ours is %s", eu, u)
		return
	}
	c.r.Event("sealed messages received", 1)
}

// meet starts a session of a peer with the published keys.
func (c *c29) meet(p *axh.Party) error {
	pub := c.published()
	var id uint32
	var pk *axolotl.ECPublicKey
	var free []pub29
	for _, k := range pub.up.PreKeys {
		if !c.used[k.ID] {
			free = append(free, k)
		}
	}
	if c.rd.Intn(5) == 0 || len(free) == 0 {
		free = []pub29{*pub.up.LastResortKey}
		c.r.Event("sessions with the last-resort key", 1)
	}
	if c.rd.Intn(6) > 0 {
		k := free[c.rd.Intn(len(free))]
		id = k.ID
		c.used[id] = true
		b := dec29(k.PublicKey)
		if b == nil {
			return fmt.Errorf("prekey %q", k.PublicKey)
		}
		pk = axolotl.NewECPublicKey(b[1:])
	}
	sb := dec29(pub.up.SignedPreKey.PublicKey)
	sig, _ := base64.RawStdEncoding.DecodeString(strings.TrimRight(pub.up.SignedPreKey.Signature, "="))
	if sb == nil || len(pub.identity) == 0 {
		return fmt.Errorf("signed prekey %q, identity %q", pub.up.SignedPreKey.PublicKey, pub.up.IdentityKey)
	}
	b, err := axolotl.NewPreKeyBundle(c.acct.RegID, 1, id, pk, int32(pub.up.SignedPreKey.ID), axolotl.NewECPublicKey(sb[1:]), sig, axolotl.NewIdentityKey(pub.identity[1:]))
	if err != nil {
		return err
	}
	c.r.Event("sessions started", 1)
	return p.Builder(c.n.me).BuildSenderSession(b)
}

func regFault29(rd *rand.Rand) *fault29 {
	pick := func(l ...string) string { return l[rd.Intn(len(l))] }
	switch rd.Intn(14) {
	case 12:
		return &fault29{stage: "unwritable", kind: pick("identity/regid", "identity/http_password", "identity/http_signaling_key", "identity/identity_key", "prekeys/016777215")}
	case 0:
		return &fault29{stage: "start", kind: pick("kill-before", "kill-after", "drop")}
	case 1, 2:
		return &fault29{stage: "verify", kind: pick("kill-before", "kill-after", "drop", "error", "nouuid", "garbage")}
	case 3, 4, 5:
		return &fault29{stage: "keys", kind: pick("kill-before", "kill-before", "kill-after", "drop", "500", "401", "413", "503")}
	case 6:
		return &fault29{stage: pick("putprofile", "getprofile"), kind: pick("kill-before", "kill-after", "drop", "500"), skip: rd.Intn(3)}
	case 7:
		return &fault29{stage: "certificate", kind: pick("kill-before", "kill-after", "drop", "500", "garbage")}
	case 8:
		return &fault29{stage: "credential", kind: pick("kill-before", "kill-after", "drop", "404", "500", "garbage")}
	case 9, 10:
		if rd.Intn(3) == 0 {
			return &fault29{stage: pick("signed_prekeys", "identity"), kind: "kill", k: 1 + rd.Intn(4)}
		}
		return &fault29{stage: "prekeys", kind: "kill", k: []int{1, 2, 1 + rd.Intn(101), 100, 101, 101}[rd.Intn(6)]}
	case 11:
		if rd.Intn(3) == 0 {
			return &fault29{stage: "code", kind: pick("", "12a", "99999999999999999999", "-1")}
		}
		return &fault29{stage: "config", kind: "kill", k: 1 + rd.Intn(4)}
	}
	return &fault29{stage: "time", kind: "kill", k: -1 - rd.Intn(4000)}
}

func startFault29(rd *rand.Rand) *fault29 {
	pick := func(l ...string) string { return l[rd.Intn(len(l))] }
	switch rd.Intn(6) {
	case 0:
		return &fault29{stage: pick("putprofile", "getprofile"), kind: pick("kill-before", "kill-after", "drop", "500"), skip: rd.Intn(2)}
	case 1:
		return &fault29{stage: "certificate", kind: pick("kill-before", "kill-after", "drop", "500", "garbage")}
	case 2:
		return &fault29{stage: "credential", kind: pick("kill-before", "kill-after", "drop", "404", "500", "garbage")}
	case 3:
		return &fault29{stage: "config", kind: "kill", k: 1 + rd.Intn(3)}
	}
	return &fault29{stage: "time", kind: "kill", k: rd.Intn(1500)}
}

// spoiled starts the application on an account part of which cannot be read.
func (c *c29) spoiled() {
	enc := !c.cfg.UnencryptedStorage
	type spoil struct {
		what string
		do   func() // changes the files
		env  []string
	}
	del := func(f string) spoil { return spoil{"without " + f, func() { os.Remove(c.store() + "/" + f) }, nil} }
	cut := func(f string) spoil {
		return spoil{"with a cut " + f, func() {
			b, _ := os.ReadFile(c.store() + "/" + f)
			if len(b) > 3 {
				b = b[:len(b)-1-c.rd.Intn(len(b)-2)]
			}
			os.WriteFile(c.store()+"/"+f, b, 0600)
		}, nil}
	}
	l := []spoil{del("identity/identity_key"), del("identity/regid"), del("identity/http_password"), del("identity/http_signaling_key"), cut("identity/identity_key"),
		{"without a configuration", func() { os.Remove(c.dir + "/config.yml") }, nil},
		{"with a configuration that is no YAML", func() { os.WriteFile(c.dir+"/config.yml", []byte("tel: [1\n\t: {"), 0600) }, nil},
		{"with a configuration of another kind", func() { os.WriteFile(c.dir+"/config.yml", []byte("profileKey: {a: 1}\n"), 0600) }, nil}}
	if enc {
		l = append(l, cut("identity/regid"), cut("identity/http_password"), cut("identity/http_signaling_key"), cut("salt"), del("salt"))
		if c.cfg.StoragePassword == "" {
			l = append(l, spoil{"with another password", func() {}, []string{"VERIF_C29_PW=other"}}, spoil{"with another password", func() {}, []string{"VERIF_C29_PW=" + c.pw + " "}})
		}
	}
	s := l[c.rd.Intn(len(l))]
	keep := c.dir + ".keep"
	os.RemoveAll(keep)
	must16(exec.Command("cp", "-a", c.dir, keep).Run())
	defer os.RemoveAll(keep)
	before := tree29(c.dir)
	s.do()
	// sometimes there is no certificate yet either
	if b := c.dir + "/config.yml"; c.rd.Intn(2) == 0 && !strings.Contains(s.what, "configuration") {
		if cfg, err := c.readConfig(); err == nil {
			cfg.Certificate = nil
			y, _ := yaml.Marshal(cfg)
			os.WriteFile(b, y, 0600)
		}
	}
	c.step("start %s", s.what)
	c.start(nil, s.env...)
	res, killed := c.do(op29{Op: "setup"})
	c.mu.Lock()
	reg := c.starts + c.verifies
	c.mu.Unlock()
	if c.dead {
		return
	}
	if killed {
		return
	}
	if res.Err == "" {
		c.bad("spoiled", "setup %s succeeds", s.what)
		return
	}
	// Setup returned at once; give what it left running the time to fail
	time.Sleep(30 * time.Millisecond)
	if _, killed := c.do(op29{Op: "none"}); killed {
		return
	}
	if reg > 0 {
		c.bad("again", "a start %s registers the account again", s.what)
		return
	}
	c.reap()
	// nothing else was changed
	for f, b := range tree29(c.dir) {
		if w, ok := before[f]; ok && w != b && strings.Contains(f, "store/") && !strings.Contains(s.what, filepath.Base(f)) {
			c.bad("spoiled", "a start %s changes %s", s.what, f)
			return
		}
	}
	c.r.Event("starts on what cannot be read", 1)
	must16(os.RemoveAll(c.dir))
	must16(os.Rename(keep, c.dir))
}

func tree29(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			m[p[len(dir):]] = string(b)
		}
		return nil
	})
	return m
}

// expire makes the stored certificate one that is no longer valid.
func (c *c29) expire(f *fault29) {
	cfg, err := c.readConfig()
	if err != nil {
		return
	}
	exp := uint64(time.Now().Add(-time.Duration(1+c.rd.Intn(1000))*time.Minute).UnixNano() / 1e6)
	switch c.rd.Intn(4) {
	case 0:
		cfg.Certificate = nil
	case 1:
		cfg.Certificate = []byte("no certificate")
	default:
		cert, _ := proto.Marshal(&signalservice.SenderCertificate_Certificate{SenderUuid: &c.uuid, Expires: &exp})
		cfg.Certificate, _ = proto.Marshal(&signalservice.SenderCertificate{Certificate: cert, Signature: vh.Bytes(c.rd, 64)})
	}
	y, _ := yaml.Marshal(cfg)
	os.WriteFile(c.dir+"/config.yml", y, 0600)
	c.step("certificate taken away")
}

// valid29 tells whether a certificate can still be used (the server counts milliseconds).
func valid29(b []byte) bool {
	sc := &signalservice.SenderCertificate{}
	in := &signalservice.SenderCertificate_Certificate{}
	if len(b) == 0 || proto.Unmarshal(b, sc) != nil || proto.Unmarshal(sc.GetCertificate(), in) != nil {
		return false
	}
	return in.GetExpires() > uint64(time.Now().Add(-time.Minute).UnixNano()/1e6)
}

func (c *c29) drop() {
	if cfg, err := c.readConfig(); err == nil {
		cfg.ProfileKeyCredential = nil
		y, _ := yaml.Marshal(cfg)
		os.WriteFile(c.dir+"/config.yml", y, 0600)
		c.step("credential taken away")
	}
}

func c29life(r *vh.R, h *helper29, gs *groupServer, i int) {
	rd := r.Rand("life", i)
	dir, done := mustDir()
	defer done()
	defer os.RemoveAll(dir + ".keep")
	c := &c29{r: r, rd: rd, h: h, gs: gs, id: fmt.Sprint("w", i), dir: dir, tel: fmt.Sprintf("+4917%08d", i*7+rd.Intn(7)), name: "Name " + fmt.Sprint(i), creds: map[string]string{}, signaling: map[string][]byte{}, uploads: map[string][]byte{},
		version: map[string]string{}, commit: map[string][]byte{}, nameCT: map[string][]byte{}, wsConn: make(chan *wsConn, 100), seals: map[string][]byte{}, used: map[uint32]bool{}, keep: rd.Intn(2) == 0}
	c.n = newNetwork(r, rd, axh.NewParty("", 1, rd))
	defer c.n.Close()
	c.n.override = c.serve
	c.n.sim.ws = c.socket
	c.cfg = config.Config{Server: c.n.URL, StorageDir: c.store(), UserAgent: "V/1"}
	switch rd.Intn(4) {
	case 0:
		c.cfg.UnencryptedStorage = true
	case 1:
		c.cfg.StoragePassword = "in the file"
	default:
		c.pw = fmt.Sprint("secret ", rd.Intn(1000))
	}
	c.writeConfig()
	h.mu.Lock()
	h.worlds[c.id] = c
	h.mu.Unlock()
	defer func() {
		c.kill()
		c.reap()
		h.mu.Lock()
		delete(h.worlds, c.id)
		h.mu.Unlock()
	}()
	// the setup, with faults first
	ok := false
	for k := rd.Intn(3); k >= 0 && !c.dead && !ok; k-- {
		var f *fault29
		if k > 0 {
			f = regFault29(rd)
			if c.complete {
				f = startFault29(rd)
			}
		}
		c.expired = rd.Intn(3) == 0
		ok = c.begin(f)
		r.Eval(fmt.Sprintf("setup %v", f))
	}
	if c.dead {
		return
	}
	if !ok {
		c.bad("setup", "the setup was not completed without a fault")
		return
	}
	c.talk()
	c.stop()
	// further starts
	for k := 2 + rd.Intn(4); k > 0 && !c.dead; k-- {
		if rd.Intn(4) == 0 {
			c.spoiled()
			if c.dead {
				return
			}
			r.Eval("spoiled")
		}
		if rd.Intn(3) == 0 {
			c.expire(nil)
		}
		if rd.Intn(4) == 0 {
			c.drop()
		}
		var f *fault29
		if rd.Intn(2) == 0 {
			f = startFault29(rd)
		}
		c.expired = rd.Intn(4) == 0
		if c.begin(f) {
			r.Event("accounts taken up again", 1)
			if f == nil {
				c.talk()
			}
		}
		c.stop()
		r.Eval(fmt.Sprintf("start %v", f))
	}
}

// TestVerifC29 runs the real Setup in processes of their own against a simulated helper and server, fails or
// kills it at every stage, and compares what the process, its files and the server have.
func TestVerifC29(t *testing.T) {
	r := vh.Start(t, "C29", "accounts from their registration through several starts, each in a process of its own, with failing requests, kills and unreadable files; a case is one start and the fault it met, distinct by stage, kind and moment")
	defer r.Finish()
	r.NoStop = true
	gs := newGroupServer(r.Rand("gs", 0))
	if !gs.usable() {
		r.Inconclusive("the simulated server's parameters were not built in")
		return
	}
	bin, rm := mustDir()
	defer rm()
	must16(os.WriteFile(bin+"/crayfish", []byte("#!/bin/sh\nexec sleep 800\n"), 0700))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	h := &helper29{worlds: map[string]*c29{}}
	var err error
	for k := 0; k < 100; k++ {
		if h.ln, err = net.Listen("tcp", "localhost:9081"); err == nil {
			break
		}
		time.Sleep(300 * time.Millisecond)
	}
	if err != nil {
		r.Inconclusive("the helper's port is taken: %v", err)
		return
	}
	srv := &http.Server{Handler: http.HandlerFunc(h.serve)}
	go srv.Serve(h.ln)
	defer srv.Close()
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if p := vh.Try(func() { c29life(r, h, gs, i) }); p != "" {
					r.Inconclusive("harness: %s", p)
				}
			}
		}()
	}
	for i, n := 0, r.N(150, 1500); i < n && !r.Failed(); i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	r.Require("setups that succeed", 60)
	r.Require("accounts taken up again", 30)
	r.Require("processes killed during setup", 15)
	r.Require("setups that report a fault", 15)
	r.Require("messages and answers exchanged", 40)
	r.Require("starts on what cannot be read", 10)
	r.Require("sealed messages received", 5)
	r.Require("certificates renewed", 20)
}
