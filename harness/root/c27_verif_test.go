package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestVerifC27(t *testing.T) {
	r := vh.Start(t, "C27", "every kind of request of the transports with random accounts, paths, bodies and content types, and every operation of the package against a simulated server, undisturbed and with each of its requests answered in turn with other status codes (with and without the body of a good answer), broken off, cut short or garbled; requests are compared with what the account, unidentified access or the directory demand")
	defer r.Finish()
	if !newGroupServer(rand.New(rand.NewSource(1))).usable() {
		t.Fatal("not built with the simulated group server's parameters")
	}
	r.NoStop = true
	n := r.N(400, 6000)
	for i := 0; i < n && !r.Failed(); i++ {
		c27transport(r, i)
	}
	m := r.N(20, 300)
	for i := 0; i < m && !r.Failed(); i++ {
		c27ops(r, i)
	}
	r.Require("requests compared", n*3/4)
	r.Require("unidentified requests", n/10)
	r.Require("error answers", n/10)
	r.Require("connections broken off", n/20)
	r.Require("operations", m*30)
	r.Require("operations that fail", m*20)
	r.Require("operations with a good answer of another status", m)
	for _, f := range []string{"status with the good body", "status", "broken off", "cut short", "garbled"} {
		r.Require("fault: "+f, m/2)
	}
}

type resp27 struct {
	status  int
	isError bool
	body    []byte
	bodyErr error
	cookies string
	header  http.Header
}

func text27(rd *rand.Rand) string {
	return []string{"a", "user", "longer name with spaces", "x-y.z", fmt.Sprintf("%x", vh.Bytes(rd, 20))}[rd.Intn(5)]
}

// c27transport sends one request of a random kind.
func c27transport(r *vh.R, i int) {
	rd := r.Rand("transport", i)
	user, pass, agent := uuidOf(rd), fmt.Sprintf("%x", vh.Bytes(rd, 16)), []string{"", "Agent/1.0", "Signal-Android/5 x"}[rd.Intn(3)]
	status := []int{200, 200, 200, 201, 202, 206, 299, 300, 301, 302, 303, 304, 305, 307, 308, 399, 400, 401, 402, 403, 404, 409, 410, 411, 413, 417, 422, 423, 428, 429, 499, 500, 502, 503, 508, 599, 600, 999}[rd.Intn(38)]
	if rd.Intn(8) == 0 {
		status = 200 + rd.Intn(800)
	}
	answer := vh.Bytes(rd, rd.Intn(2000))
	if status == 204 || status == 304 {
		answer = nil
	}
	fault := rd.Intn(8)
	base := []string{"", "/base", "/a/b"}[rd.Intn(3)]
	s := newSim(func(q sreq) sresp {
		switch fault {
		case 0:
			return sresp{Drop: true}
		case 1:
			if len(answer) > 0 {
				return sresp{Status: status, Header: map[string]string{"Content-Length": fmt.Sprint(len(answer) + 1 + rd.Intn(50))}, Body: answer}
			}
		}
		return sresp{Status: status, Body: answer, Header: map[string]string{"Set-Cookie": "session=abc", "X-Answer": "yes"}}
	})
	defer s.Close()
	if fault == 2 { // nobody there
		s.Close()
	}
	switch rd.Intn(5) { // all of them are the same
	case 0:
		transport.SetupTransporter(s.URL+base, user, pass, agent, "")
	}
	transport.SetupCDNTransporter(s.URL+base, user, pass, agent, "")
	transport.SetupDirectoryTransporter(s.URL+base, user, pass, agent, "")
	transport.SetupStorageTransporter(s.URL+base, user, pass, agent, "")
	transport.SetupServiceTransporter(s.URL+base, user, pass, agent, "")
	transport.SetupTransporter(s.URL+base, user, pass, agent, "")
	ht := transport.CdnTransport
	switch rd.Intn(5) {
	case 0:
		ht = transport.DirectoryTransport
	case 1:
		ht = transport.StorageTransport
	case 2:
		ht = transport.ServiceTransport
	case 3:
		ht = transport.CdnTransport.Duplicate()
	}
	path := []string{"/", "/v1/things/", "/v2/keys/" + user + "/1", "/v1/a?x=1&y=%20z", "/v1/x%2Fy"}[rd.Intn(5)]
	var body []byte
	ct := ""
	auth := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	own := "Basic " + base64.StdEncoding.EncodeToString(vh.Bytes(rd, 30))
	key := vh.Bytes(rd, 16)
	cookie := "c=" + fmt.Sprint(rd.Intn(1000))
	wantKey, wantCookie, method := "", "", ""
	var extra map[string]string
	kind := rd.Intn(13)
	if kind != 0 && kind != 1 && kind != 2 && kind != 3 {
		body = vh.Bytes(rd, []int{0, 1, 300, 70000}[rd.Intn(4)])
	}
	given := []string{"application/json", "application/x-protobuf", "text/plain; charset=utf-8"}[rd.Intn(3)]
	var f func() (resp27, error)
	iface := rd.Intn(2) == 0 // through the interface the package uses
	T := transport.Transport
	switch kind {
	case 0:
		method = "GET"
		f = func() (resp27, error) {
			if iface {
				return conv27(T.Get(path))
			}
			return conv27(ht.Get(path))
		}
	case 1:
		method, auth = "GET", own
		f = func() (resp27, error) { return conv27(ht.GetWithAuth(path, own)) }
	case 2:
		method = "DELETE"
		f = func() (resp27, error) {
			if iface {
				return conv27(T.Del(path))
			}
			return conv27(ht.Del(path))
		}
	case 3:
		method, auth, wantKey = "GET", "", base64.StdEncoding.EncodeToString(key)
		f = func() (resp27, error) {
			if iface {
				return conv27(T.GetWithUnidentifiedAccessKey(path, key))
			}
			return conv27(ht.GetWithUnidentifiedAccessKey(path, key))
		}
	case 4:
		method, ct = "POST", given
		extra = map[string]string{"X-Signed": text27(rd), "X-Other": "1"}
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PostWithHeaders(path, body, given, extra))
			}
			return conv27(ht.PostWithHeaders(path, body, given, extra))
		}
	case 5:
		method, ct = "PUT", given
		f = func() (resp27, error) {
			if iface {
				return conv27(T.Put(path, body, given))
			}
			return conv27(ht.Put(path, body, given))
		}
	case 6:
		method, ct, auth = "PUT", given, own
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PutWithAuth(path, body, given, own))
			}
			return conv27(ht.PutWithAuth(path, body, given, own))
		}
	case 7:
		method, ct, auth, wantKey = "PUT", "application/json; charset=utf-8", "", base64.StdEncoding.EncodeToString(key)
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PutJSONWithUnidentifiedSender(path, body, key))
			}
			return conv27(ht.PutJSONWithUnidentifiedSender(path, body, key))
		}
	case 8:
		method, ct, auth, wantCookie = "PUT", "application/json; charset=utf-8", own, cookie
		f = func() (resp27, error) { return conv27(ht.PutJSONWithAuthCookies(path, body, own, cookie)) }
	case 9:
		method, ct = "PUT", "application/json"
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PutJSON(path, body))
			}
			return conv27(ht.PutJSON(path, body))
		}
	case 10:
		method, ct, auth = "PUT", "application/json; charset=utf-8", own
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PutJSONWithAuth(path, body, own))
			}
			return conv27(ht.PutJSONWithAuth(path, body, own))
		}
	case 11:
		method, ct = "PUT", "application/octet-stream"
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PutBinary(path, body))
			}
			return conv27(ht.PutBinary(path, body))
		}
	default:
		method, ct, auth = "PATCH", given, own
		f = func() (resp27, error) {
			if iface {
				return conv27(T.PatchWithAuth(path, body, given, own))
			}
			return conv27(ht.PatchWithAuth(path, body, given, own))
		}
	}
	r.SetCase("transport=%d %s %s kind %d status %d fault %d", i, method, path, kind, status, fault)
	var a resp27
	var err error
	keep := append([]byte{}, body...)
	if !r.Safe("panic", "a request", func() { a, err = f() }) {
		return
	}
	if !bytes.Equal(keep, body) {
		r.Violation("body", "the body that was given is changed")
	}
	qs := s.take()
	what := fmt.Sprintf("a %s request (kind %d)", method, kind)
	if fault == 0 || fault == 2 {
		if err == nil {
			r.Violation("failure", "%s to a server that does not answer: no error, status %d", what, a.status)
		}
		r.Event("connections broken off", 1)
	} else {
		if err != nil {
			r.Violation("failure", "%s that was answered with status %d fails: %v", what, status, err)
			return
		}
		if a.status != status || a.isError != (status < 200 || status >= 300) {
			r.Violation("status", "%s that was answered with status %d has status %d, error %v", what, status, a.status, a.isError)
		}
		if fault == 1 && len(answer) > 0 {
			if a.bodyErr == nil {
				r.Violation("body", "%s whose answer of %d bytes was cut short gives %d bytes and no error", what, len(answer), len(a.body))
			}
		} else if a.bodyErr != nil || !bytes.Equal(a.body, answer) {
			r.Violation("body", "%s was answered with %d bytes; it gives %d (%v)", what, len(answer), len(a.body), a.bodyErr)
		}
		if a.isError {
			r.Event("error answers", 1)
		}
	}
	if fault == 2 {
		return
	}
	if len(qs) == 0 {
		r.Violation("request", "%s is not sent", what)
		return
	}
	for _, q := range qs {
		p := base + path
		if q.Query != "" {
			p = strings.SplitN(p, "?", 2)[0]
			if !strings.HasSuffix(path, q.Query) {
				r.Violation("request", "%s to %s has the query %q", what, path, q.Query)
			}
		}
		if q.Method != method || q.Path != strings.ReplaceAll(p, "%2F", "/") {
			r.Violation("request", "%s to %s arrives as %s %s", what, p, q.Method, q.Path)
		}
		if !bytes.Equal(q.Body, body) {
			r.Violation("request", "%s with a body of %d bytes arrives with %d", what, len(body), len(q.Body))
		}
		one := func(name, want string) {
			have := q.Header.Values(name)
			if want == "" && len(have) == 0 || len(have) == 1 && have[0] == want {
				return
			}
			r.Violation("header", "%s has %s %q, want %q", what, name, have, want)
		}
		one("Authorization", auth)
		one("Content-Type", ct)
		one("X-Signal-Agent", agent)
		one("Cookie", wantCookie)
		if h := q.Header.Values("Unidentified-Access-Key"); wantKey == "" && len(h) > 0 || wantKey != "" && (len(h) != 1 || strings.TrimRight(h[0], "=") != strings.TrimRight(wantKey, "=")) {
			r.Violation("header", "%s has the access key %q, want %q", what, h, wantKey)
		}
		for k, v := range extra {
			one(k, v)
		}
		for k, v := range q.Header { // nothing else that tells who we are
			for _, x := range v {
				if auth == "" && (strings.Contains(x, user) || strings.Contains(x, pass)) {
					r.Violation("header", "%s without credentials has %s: %s", what, k, x)
				}
			}
		}
		if auth == "" {
			r.Event("unidentified requests", 1)
		}
		r.Event("requests compared", 1)
	}
	r.Eval(fmt.Sprint(kind, status, fault, len(body), iface))
}

// conv27 makes an answer comparable. The type of an answer is not exported.
func conv27(a interface{}, err error) (resp27, error) {
	if err != nil {
		return resp27{}, err
	}
	v := reflect.ValueOf(a)
	if v.IsNil() {
		return resp27{}, nil
	}
	o := resp27{isError: a.(interface{ IsError() bool }).IsError()}
	e := v.Elem()
	o.status = int(e.FieldByName("Status").Int())
	if b, ok := e.FieldByName("Body").Interface().(io.ReadCloser); ok && b != nil {
		o.body, o.bodyErr = io.ReadAll(b)
		b.Close()
	}
	return o, nil
}

// want27 is a request as it has to be.
type want27 struct {
	method, path, query string
	auth                string // what Authorization has to be; "group" when the group server judges it
	key                 bool   // unidentified access instead
	ct                  string // of the body
	body                func(b []byte) string
}

// op27 is one operation of the package.
type op27 struct {
	name string
	reqs []want27
	// run gives the result, shown, and whether there is one.
	run   func() (string, bool, error)
	want  string
	state func() string // must not change when the operation fails
	data  []bool        // which answers matter
	good  map[int][]int // statuses of a request that mean something of their own
	bad   map[int][]string
	empty string       // what counts as garbled where an empty answer is a good one
	soft  map[int]bool // requests whose failure the operation copes with
}

type world27 struct {
	r    *vh.R
	rd   *rand.Rand
	l    *local
	a    *app
	n    *network
	cd   *cdn
	gs   *groupServer
	e    *enclave
	peer *account
	g    *sgroup
	seq  int
	made map[string][]byte // path -> answer
}

func (w *world27) account() string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(simUUID+":"+simPass))
}

func (w *world27) cdnAuth() string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(simTel+":"+simPass))
}

func dirAuth27() string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte("dir-user:dir-pass"))
}

func newWorld27(r *vh.R, rd *rand.Rand) (*world27, func()) {
	l, done := ownDevice(rd, "")
	config.ConfigFile.AlwaysTrustPeerID = false
	registration.Registration = registration.RegistrationInfo{RegistrationID: 77, Password: simPass, SignalingKey: vh.Bytes(rd, 52)}
	identityKey = l.party.S.Identity
	w := &world27{r: r, rd: rd, l: l, a: newApp(), cd: newCDN(), gs: newGroupServer(rd), made: map[string][]byte{}}
	w.e = &enclave{rd: rd, users: map[int64][16]byte{}, n: 1, cookie: "c=1", seen: map[string]bool{}}
	setupGroupsV2(l.dir)
	own := &account{id: simUUID, ident: l.party.S.Identity, devs: map[uint32]*axh.Party{1: l.party}, rd: rd}
	w.n = newNetwork(r, rd, l.party, own)
	w.n.override = func(n *network, q sreq) (sresp, bool) {
		if b, ok := w.made[q.Method+" "+q.Path]; ok {
			return sresp{Body: b}, true
		}
		if a, ok := w.cd.serve(q); ok {
			return a, true
		}
		if a, ok := w.gs.serve(q); ok {
			return a, true
		}
		if strings.HasPrefix(q.Path, "/v1/directory/") || strings.HasPrefix(q.Path, "/v1/attestation/") || strings.HasPrefix(q.Path, "/v1/discovery/") {
			return w.e.answer(q), true
		}
		return sresp{}, false
	}
	w.n.sim.connect()
	w.cd.connect(w.n.sim.URL)
	contacts.Contacts = map[string]contacts.Contact{}
	must16(contacts.WriteContactsToPath())
	return w, func() { w.n.Close(); done() }
}

func (w *world27) newPeer() *account {
	w.peer = newAccount(w.rd, uuidOf(w.rd), 1)
	w.n.locked(func() { w.n.acct[w.peer.id] = w.peer })
	return w.peer
}

func isJSON27(b []byte) string {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return fmt.Sprintf("no JSON: %v", err)
	}
	return ""
}

func jsonWith(k string, want interface{}) func(b []byte) string {
	return func(b []byte) string {
		m := map[string]interface{}{}
		if err := json.Unmarshal(b, &m); err != nil {
			return err.Error()
		}
		if fmt.Sprint(m[k]) != fmt.Sprint(want) {
			return fmt.Sprintf("%s is %v, want %v", k, m[k], want)
		}
		return ""
	}
}

func none27(f func() error) func() (string, bool, error) {
	return func() (string, bool, error) { return "", false, f() }
}

// op makes an operation and what the server needs for it.
func (w *world27) op(kind int) *op27 {
	rd, acct := w.rd, w.account()
	json27 := "application/json"
	switch kind {
	case 0:
		m := []string{"sms", "voice"}[rd.Intn(2)]
		tel := telOf(rd)
		p := "/v1/accounts/" + m + "/code/" + tel
		w.made["GET "+p] = nil
		q, cap := "client=android", ""
		if rd.Intn(2) == 0 {
			cap = "signalcaptcha123"
			q += "&captcha=" + cap
		}
		return &op27{name: "requestCode", reqs: []want27{{method: "GET", path: p, query: q, auth: acct}}, data: []bool{false},
			run: none27(func() error { _, _, err := requestCode(tel, m, cap); return err })}
	case 1:
		w.made["PUT /v1/accounts/code/123456"] = js(map[string]string{"uuid": simUUID})
		return &op27{name: "verifyCode", reqs: []want27{{method: "PUT", path: "/v1/accounts/code/123456", auth: acct, ct: json27, body: jsonWith("registrationId", 77)}}, data: []bool{false},
			run:   none27(func() error { _, err := verifyCode("123-456", nil, nil); return err }),
			state: func() string { return fmt.Sprint(config.ConfigFile.AccountCapabilities) }}
	case 2:
		w.made["PUT /v1/accounts/ups/"] = nil
		tok := text27(rd)
		return &op27{name: "RegisterWithUPS", reqs: []want27{{method: "PUT", path: "/v1/accounts/ups/", auth: acct, ct: json27, body: jsonWith("upsRegistrationId", tok)}}, data: []bool{false},
			run: none27(func() error { return RegisterWithUPS(tok) })}
	case 3:
		key := config.ConfigFile.ProfileKey
		w.made["PUT /v1/accounts/attributes/"] = nil
		w.made["GET /v1/profile/"+simUUID] = w.profile(simUUID, key, nil)
		return &op27{name: "SetAccountCapabilities", reqs: []want27{
			{method: "PUT", path: "/v1/accounts/attributes/", auth: acct, ct: json27, body: jsonWith("registrationId", 77)},
			{method: "GET", path: "/v1/profile/" + simUUID, key: true}, {method: "GET", path: "/v1/profile/" + simUUID, key: true}},
			data: []bool{false, true, true},
			run: none27(func() error {
				config.ConfigFile.AccountCapabilities = config.AccountCapabilities{}
				return SetAccountCapabilities(config.AccountCapabilities{Gv2: true})
			}),
			state: func() string { return fmt.Sprint(config.ConfigFile.AccountCapabilities.Gv2) }}
	case 4:
		u := uuidOf(rd)
		w.made["GET /v1/accounts/whoami"] = js(map[string]string{"uuid": u, "number": simTel})
		return &op27{name: "GetMyUUID", reqs: []want27{{method: "GET", path: "/v1/accounts/whoami", auth: acct}}, data: []bool{true}, want: u,
			run: func() (string, bool, error) { s, err := GetMyUUID(); return s, s != "", err },
			bad: map[int][]string{0: {`{}`, `{"uuid":""}`, `{"uuid":7}`, `null`}}}
	case 5:
		code := fmt.Sprint(100000 + rd.Intn(900000))
		w.made["GET /v1/devices/provisioning/code"] = js(map[string]string{"verificationCode": code})
		return &op27{name: "NewDeviceVerificationCode", reqs: []want27{{method: "GET", path: "/v1/devices/provisioning/code", auth: acct}}, data: []bool{true}, want: code,
			run: func() (string, bool, error) { s, err := NewDeviceVerificationCode(); return s, s != "", err },
			bad: map[int][]string{0: {`{}`, `{"verificationCode":""}`, `null`}}}
	case 6:
		w.made["GET /v1/devices/"] = []byte(`{"devices":[{"id":1,"name":"a","created":5,"lastSeen":6},{"id":2,"name":"b","created":7,"lastSeen":8}]}`)
		return &op27{name: "LinkedDevices", reqs: []want27{{method: "GET", path: "/v1/devices/", auth: acct}}, data: []bool{true}, want: "[{1 a 5 6} {2 b 7 8}]",
			run: func() (string, bool, error) { l, err := LinkedDevices(); return fmt.Sprint(l), len(l) > 0, err },
			bad: map[int][]string{0: {`{"devices":7}`}}}
	case 7:
		id := 2 + rd.Intn(5)
		p := fmt.Sprint("/v1/devices/", id)
		w.made["DELETE "+p] = nil
		return &op27{name: "UnlinkDevice", reqs: []want27{{method: "DELETE", path: p, auth: acct}}, data: []bool{false}, run: none27(func() error { return UnlinkDevice(id) })}
	case 8:
		eph := fmt.Sprintf("%x", vh.Bytes(rd, 12))
		w.made["PUT /v1/provisioning/"+eph] = nil
		pk := base64.StdEncoding.EncodeToString(axolotl.NewECKeyPair().PublicKey.Serialize())
		return &op27{name: "AddDevice", reqs: []want27{{method: "PUT", path: "/v1/provisioning/" + eph, auth: acct, ct: json27, body: isJSON27}}, data: []bool{false},
			run: none27(func() error { return AddDevice(eph, pk, "123456") })}
	case 9:
		w.made["PUT /v2/keys/"] = nil
		return &op27{name: "registerPreKeys", reqs: []want27{{method: "PUT", path: "/v2/keys/", auth: acct, ct: json27, body: isJSON27}}, data: []bool{false}, run: none27(registerPreKeys)}
	case 10:
		p := w.newPeer()
		return &op27{name: "makePreKeyBundle", reqs: []want27{{method: "GET", path: "/v2/keys/" + p.id + "/1", auth: acct}}, data: []bool{true}, want: "true",
			run: func() (string, bool, error) {
				b, err := makePreKeyBundle(p.id, 1)
				return fmt.Sprint(b != nil), b != nil, err
			},
			bad: map[int][]string{0: {`{}`, `null`, `{"devices":[]}`, `{"identityKey":"AAAA","devices":[{}]}`, `{"devices":[null]}`}}}
	case 11:
		p := w.newPeer()
		return &op27{name: "SendMessage", reqs: []want27{{method: "GET", path: "/v2/keys/" + p.id + "/1", auth: acct}, {method: "PUT", path: "/v1/messages/" + p.id, auth: acct, ct: json27, body: jsonWith("destination", p.id)}},
			data: []bool{true, false}, good: map[int][]int{1: {409, 410}},
			run: none27(func() error { _, err := SendMessage(p.id, "hello", 0); return err })}
	case 12:
		p := w.newPeer()
		blob := vh.Bytes(rd, 200)
		return &op27{name: "SendAttachment", reqs: []want27{{method: "GET", path: "/v3/attachments/form/upload", auth: acct},
			{method: "POST", path: "/signed/", query: "sig=1", auth: w.cdnAuth(), ct: "application/octet-stream"},
			{method: "PUT", path: "/resumable/", query: "upload_id=7", auth: w.cdnAuth(), ct: "application/octet-stream"},
			{method: "GET", path: "/v2/keys/" + p.id + "/1", auth: acct}, {method: "PUT", path: "/v1/messages/" + p.id, auth: acct, ct: json27}},
			data: []bool{true, false, false, true, false}, good: map[int][]int{4: {409, 410}},
			run: none27(func() error { _, err := SendAttachment(p.id, "hello", bytes.NewReader(blob), 0); return err }),
			bad: map[int][]string{0: {`{}`, `null`, `{"signedUploadLocation":""}`, `{"signedUploadLocation":"x"}`}}}
	case 13:
		plain := vh.Bytes(rd, 100+rd.Intn(2000))
		key := vh.Bytes(rd, 64)
		b, dg := sealBlob(plain, 0, key, vh.Bytes(rd, 16))
		w.seq++
		k := fmt.Sprint("blob", w.seq)
		w.cd.blobs["2/"+k] = b
		two, size := uint32(2), uint32(len(plain))
		ptr := &signalservice.AttachmentPointer{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: k}, CdnNumber: &two, Key: key, Digest: dg, Size: &size}
		return &op27{name: "an attachment", reqs: []want27{{method: "GET", path: "/cdn2/attachments/" + k}}, data: []bool{true}, want: fmt.Sprintf("%x", plain),
			run: func() (string, bool, error) {
				a, err := handleSingleAttachment(ptr)
				if a == nil {
					return "", false, err
				}
				o, _ := io.ReadAll(a.R)
				return fmt.Sprintf("%x", o), true, err
			}}
	case 14:
		cert := vh.Bytes(rd, 150)
		w.made["GET /v1/certificate/delivery"] = js(map[string]interface{}{"certificate": cert})
		return &op27{name: "renewSenderCertificate", reqs: []want27{{method: "GET", path: "/v1/certificate/delivery", auth: acct}}, data: []bool{true}, want: fmt.Sprintf("%x", cert),
			run: func() (string, bool, error) {
				old := vh.Bytes(rd, 5)
				config.ConfigFile.Certificate = old
				err := renewSenderCertificate()
				return fmt.Sprintf("%x", config.ConfigFile.Certificate), !bytes.Equal(config.ConfigFile.Certificate, old), err
			},
			bad: map[int][]string{0: {`{"certificate":7}`, `{"certificate":"***"}`}}}
	case 15:
		d := w.gs.today()
		p := fmt.Sprintf("/v1/certificate/group/%d/%d", d, d+7)
		return &op27{name: "GetGroupAuthCredentials", reqs: []want27{{method: "GET", path: p, auth: acct}}, data: []bool{true}, want: "8",
			run: func() (string, bool, error) {
				groupsv2.Credentials = nil
				err := groupsv2.GetGroupAuthCredentials(d, d+7)
				if groupsv2.Credentials == nil {
					return "", false, err
				}
				return fmt.Sprint(len(groupsv2.Credentials.Credentials)), true, err
			},
			bad: map[int][]string{0: {`{"credentials":7}`, `[]`}}}
	case 16, 17:
		g := w.gs.create("title "+fmt.Sprint(w.seq), simUUID, uuidOf(rd), uuidOf(rd))
		w.seq++
		d := w.gs.today()
		cred := want27{method: "GET", path: fmt.Sprintf("/v1/certificate/group/%d/%d", d, d+7), auth: acct}
		fetch := want27{method: "GET", path: "/v1/groups/", auth: "group"}
		bad := map[int][]string{0: {`{}`, `{"credentials":[]}`, fmt.Sprintf(`{"credentials":[{"credential":"","redemptionTime":%d}]}`, d), fmt.Sprintf(`{"credentials":[{"redemptionTime":%d}]}`, d),
			fmt.Sprintf(`{"credentials":[{"credential":"AAAA","redemptionTime":%d}]}`, d), fmt.Sprintf(`{"credentials":[{"credential":"%s","redemptionTime":%d}]}`, base64.StdEncoding.EncodeToString(vh.Bytes(rd, 361)), d)}}
		x := &groupsv2.GroupV2{MasterKey: g.master, Hexid: g.hexid()}
		if kind == 16 {
			return &op27{name: "UpdateGroupFromServer", reqs: []want27{cred, fetch}, data: []bool{true, true}, want: g.title, bad: bad,
				run: func() (string, bool, error) {
					groupsv2.Credentials = nil
					err := x.UpdateGroupFromServer()
					f := groupsv2.FindGroup(g.hexid())
					if f == nil || f.DecryptedGroup == nil {
						return "", false, err
					}
					return f.DecryptedGroup.Title, true, err
				}}
		}
		g.pending = append(g.pending, gmember{uuid: simUUID})
		g.members = g.members[1:]
		w.n.sim.set(w.n.serve)
		groupsv2.Credentials = nil
		must16(x.UpdateGroupFromServer())
		config.ConfigFile.ProfileKeyCredential = w.gs.credential(simUUID, config.ConfigFile.ProfileKey)
		return &op27{name: "JoinGroup", reqs: []want27{cred, fetch, {method: "PATCH", path: "/v1/groups/", auth: "group", ct: "application/x-protobuf"}, fetch}, data: []bool{true, true, false, true}, bad: bad,
			soft: map[int]bool{3: true},
			run: none27(func() error {
				groupsv2.Credentials = nil
				g.mustWait(w.gs)
				return groupsv2.FindGroup(g.hexid()).JoinGroup()
			})}
	case 18:
		key := vh.Bytes(rd, 32)
		u := uuidOf(rd)
		w.made["GET /v1/profile/"+u] = w.profile(u, key, nil)
		return &op27{name: "GetProfile", reqs: []want27{{method: "GET", path: "/v1/profile/" + u, key: true}, {method: "GET", path: "/v1/profile/" + u, key: true}}, data: []bool{true, true}, want: "Name About",
			run: func() (string, bool, error) { p, err := GetProfile(u, key); return show27(p), p != nil, err }}
	case 19:
		key := vh.Bytes(rd, 32)
		u := uuidOf(rd)
		o := &op27{name: "GetProfileAndCredential", reqs: []want27{{method: "GET", path: "/v1/profile/" + u + "/", auth: acct}}, data: []bool{true}, want: "Name About",
			run: func() (string, bool, error) {
				p, err := GetProfileAndCredential(u, key)
				return show27(p), p != nil, err
			},
			bad: map[int][]string{0: {`{}`, `{"credential":""}`, `{"credential":"AAAA"}`, `{"credential":null}`, `{"credential":"` + base64.StdEncoding.EncodeToString(vh.Bytes(rd, 497)) + `"}`}}}
		w.n.override = w.credentials(u, key, w.n.override)
		return o
	case 20:
		u := uuidOf(rd)
		w.made["GET /v1/profile/"+u] = js(map[string]interface{}{"uuid": u, "name": "n", "about": "x"})
		return &op27{name: "GetProfileByUUID", reqs: []want27{{method: "GET", path: "/v1/profile/" + u, auth: acct}}, data: []bool{true}, want: "n x",
			run:   func() (string, bool, error) { p, err := GetProfileByUUID(u); return show27(p), p != nil, err },
			state: func() string { return fmt.Sprint(contacts.Contacts[u]) }}
	case 21:
		key := config.ConfigFile.ProfileKey
		w.made["PUT /v1/profile/"] = nil
		w.made["GET /v1/profile/"+simUUID] = w.profile(simUUID, key, nil)
		return &op27{name: "UpdateProfile", reqs: []want27{{method: "PUT", path: "/v1/profile/", auth: acct, ct: json27, body: isJSON27},
			{method: "GET", path: "/v1/profile/" + simUUID, key: true}, {method: "GET", path: "/v1/profile/" + simUUID, key: true}}, data: []bool{false, true, true},
			run: none27(func() error { return profiles.UpdateProfile(key, simUUID, "me") })}
	case 22:
		b := vh.Bytes(rd, 300)
		w.made["GET /profiles/avatar"] = b
		return &op27{name: "GetRemoteAvatar", reqs: []want27{{method: "GET", path: "/profiles/avatar", auth: w.cdnAuth()}}, data: []bool{false}, want: fmt.Sprintf("%x", b),
			run: func() (string, bool, error) {
				x, err := profiles.GetRemoteAvatar("/profiles/avatar")
				if err != nil {
					return "", x != nil, err
				}
				o, err := io.ReadAll(x)
				return fmt.Sprintf("%x", o), true, err
			}}
	case 23:
		tel := telOf(rd)
		var num int64
		fmt.Sscan(tel[1:], &num)
		u := [16]byte{1, 2, 3, byte(rd.Intn(256)), 5, 6, 0x40, 8, 0x80}
		w.e.users[num] = u
		w.a.contacts = []contacts.Contact{{Tel: tel, Name: "Ann"}}
		return &op27{name: "GetRegisteredContacts", reqs: []want27{{method: "GET", path: "/v1/directory/auth", auth: acct},
			{method: "PUT", path: "/v1/attestation/" + CDS_MRENCLAVE, auth: dirAuth27(), ct: "application/json; charset=utf-8", body: isJSON27},
			{method: "PUT", path: "/v1/discovery/" + CDS_MRENCLAVE, auth: dirAuth27(), ct: "application/json; charset=utf-8", body: isJSON27}},
			data: []bool{true, true, true}, want: hex16(u),
			run: func() (string, bool, error) {
				l, err := GetRegisteredContacts()
				if len(l) == 0 {
					return "", false, err
				}
				return strings.ToLower(l[0].UUID), true, err
			},
			state: func() string { return fmt.Sprint(contacts.Contacts) },
			bad:   map[int][]string{1: {`{}`, `{"attestations":{}}`, `{"attestations":{"a":{}}}`, `{"attestations":{"a":null}}`}, 2: {`{}`, `null`}}}
	default:
		d := w.gs.today()
		w.made["GET /v1/groups/token"] = pbBytes(&signalservice.GroupExternalCredential{Token: "token"})
		_ = d
		return &op27{name: "GetGroupExternalCredential", reqs: []want27{{method: "GET", path: "/v1/groups/token", auth: acct}}, data: []bool{true}, want: "token", empty: "{",
			run: func() (string, bool, error) {
				c, err := groupsv2.GetGroupExternalCredential(nil)
				return c.GetToken(), c != nil, err
			}}
	}
}

const ops27 = 25

func show27(p *profiles.Profile) string {
	if p == nil {
		return ""
	}
	return p.Name + " " + p.About
}

// boundary27 is where a field of an encoded message ends.
func boundary27(rd *rand.Rand, b []byte) int {
	ends := []int{0}
	for i := 0; i < len(b); {
		tag, k := binary.Uvarint(b[i:])
		v, k2 := binary.Uvarint(b[i+k:])
		i += k + k2
		if tag&7 == 2 {
			i += int(v)
		}
		if i < len(b) {
			ends = append(ends, i)
		}
	}
	return ends[rd.Intn(len(ends))]
}

// mustWait makes the account one that is invited again.
func (g *sgroup) mustWait(s *groupServer) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var m []gmember
	for _, x := range g.members {
		if x.uuid != simUUID {
			m = append(m, x)
		}
	}
	g.members, g.pending = m, []gmember{{uuid: simUUID}}
}

// seal27 encrypts a text of a profile.
func seal27(rd *rand.Rand, key []byte, s string) string {
	iv := vh.Bytes(rd, 12)
	p := append([]byte(s), make([]byte, 53-len(s))...)
	return base64.StdEncoding.EncodeToString(append(iv, gcm20(key).Seal(nil, iv, p, nil)...))
}

func (w *world27) profile(u string, key []byte, cred []byte) []byte {
	m := map[string]interface{}{"uuid": u, "identityKey": base64.StdEncoding.EncodeToString(vh.Bytes(w.rd, 33)), "name": seal27(w.rd, key, "Name"), "about": seal27(w.rd, key, "About"),
		"unidentifiedAccess": base64.StdEncoding.EncodeToString(vh.Bytes(w.rd, 32)), "capabilities": map[string]bool{"gv2": true}}
	if cred != nil {
		m["credential"] = cred
	}
	return js(m)
}

// credentials answers requests for the profile with its credential, as the server issues it.
func (w *world27) credentials(u string, key []byte, next func(n *network, q sreq) (sresp, bool)) func(n *network, q sreq) (sresp, bool) {
	return func(n *network, q sreq) (sresp, bool) {
		p := strings.Split(strings.Trim(q.Path, "/"), "/")
		if q.Method != "GET" || len(p) != 5 || p[1] != "profile" || p[2] != u {
			return next(n, q)
		}
		b, err := w.gs.issue(u, key, p[3], p[4])
		if err != nil {
			w.r.Violation("request", "the credential request for %s: %v", u, err)
			return sresp{Status: 400}, true
		}
		return sresp{Body: w.profile(u, key, b)}, true
	}
}

func c27ops(r *vh.R, i int) {
	rd := r.Rand("ops", i)
	r.SetCase("ops=%d", i)
	w, done := newWorld27(r, rd)
	defer done()
	for _, kind := range rd.Perm(ops27) {
		o := w.op(kind)
		w.check(o, -1, "", 0)
		for k := range o.reqs {
			for n := 2; n > 0 && !r.Failed(); n-- {
				o = w.op(kind)
				w.check(o, k, []string{"status with the good body", "status", "status", "broken off", "cut short", "garbled", "another good status"}[rd.Intn(7)], 0)
			}
		}
	}
	r.Eval(fmt.Sprint(i))
}

// check runs an operation with one of its requests disturbed.
func (w *world27) check(o *op27, at int, fault string, _ int) {
	r, rd := w.r, w.rd
	status := []int{300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 409, 410, 413, 422, 423, 428, 429, 499, 500, 501, 502, 503, 504, 508, 600, 999}[rd.Intn(29)]
	if rd.Intn(6) == 0 {
		status = 300 + rd.Intn(700)
	}
	garbage := []string{o.empty, "{", "nope", "\xff\xff\xff\xff", "[[]]", "<html></html>", `"text"`, "7"}[rd.Intn(8)]
	if at >= 0 && fault == "garbled" && len(o.bad[at]) > 0 && rd.Intn(2) == 0 {
		garbage = o.bad[at][rd.Intn(len(o.bad[at]))]
	}
	n, disturbed, applied := 0, "", false
	var effective bool
	w.n.sim.set(func(q sreq) sresp {
		a := w.n.serve(q)
		if a.Drop || a.Status >= 300 && a.Status != 409 {
			return a
		}
		// a client may try again when a connection breaks
		mine := n == at || n > at && fault == "broken off" && disturbed == q.Method+" "+q.Path
		n++
		if !mine {
			return a
		}
		applied = true
		disturbed = q.Method + " " + q.Path
		switch fault {
		case "status with the good body":
			effective = true
			if status == 304 {
				a.Body = nil
			}
			a.Status = status
		case "status":
			effective = true
			a = sresp{Status: status, Body: []byte([]string{"", "{}", "error", "[]"}[rd.Intn(4)])}
			if status == 304 {
				a.Body = nil
			}
		case "broken off":
			effective = true
			a = sresp{Drop: true}
		case "cut short":
			effective = o.data[at] && len(a.Body) > 0
			if a.Header == nil {
				a.Header = map[string]string{}
			}
			if len(a.Body) > 0 {
				a.Header["Content-Length"] = fmt.Sprint(len(a.Body))
				k := rd.Intn(len(a.Body))
				if q.Path == "/v1/groups/" && rd.Intn(3) > 0 { // what is left may look complete
					k = boundary27(rd, a.Body)
				}
				a.Body = a.Body[:k]
			}
		case "garbled":
			effective = o.data[at]
			a.Body = []byte(garbage)
		default:
			a.Status = []int{201, 202, 203, 206, 250, 299}[rd.Intn(6)]
		}
		return a
	})
	before := ""
	w.n.sim.take()
	if o.state != nil {
		before = o.state()
	}
	var res string
	var has bool
	var err error
	what := o.name
	if at >= 0 {
		what = fmt.Sprintf("%s whose request %d of %d has the fault %q (status %d, body %q)", o.name, at+1, len(o.reqs), fault, status, garbage)
	}
	r.SetCase("%s", what)
	if !r.Safe("panic", what, func() { res, has, err = o.run() }) {
		return
	}
	qs := w.n.sim.take()
	r.Event("operations", 1)
	if at < 0 || !effective {
		if at >= 0 && !applied {
			r.Violation("request", "%s: only %d requests", what, n)
			return
		}
		if fault == "cut short" || fault == "garbled" {
			return // an answer nobody needs
		}
		if fault == "another good status" {
			r.Event("operations with a good answer of another status", 1)
		}
		if err != nil || o.want != res {
			r.Violation("success", "%s gives %q (%v), want %q; the server saw %s; group server: %v", what, res, err, o.want, paths(qs), w.gs.bad)
			return
		}
		w.compare(o, what, qs)
		return
	}
	r.Event("fault: "+fault, 1)
	if len(qs) > 40 {
		r.Violation("requests", "%s makes %d requests", what, len(qs))
	}
	if err == nil {
		if o.soft[at] {
			return
		}
		for _, g := range o.good[at] {
			if status == g && strings.HasPrefix(fault, "status") && strings.Contains(paths(qs[at+1:]), disturbed) {
				return // it was tried again
			}
		}
		r.Violation("failure", "%s: no error (result %q); the server saw %s", what, res, paths(qs))
		return
	}
	if has {
		r.Violation("failure", "%s: %v, but there is a result %q", what, err, res)
	}
	if o.state != nil && o.state() != before && o.name != "SetAccountCapabilities" {
		r.Violation("state", "%s: %v, but the state changes from %.300s to %.300s", what, err, before, o.state())
	}
	if o.name == "SetAccountCapabilities" && o.state() == "true" {
		r.Violation("state", "%s: %v, but the capabilities are kept", what, err)
	}
	if fault == "broken off" {
		qs = qs[:at+1]
	}
	w.compare(o, what, qs)
	r.Event("operations that fail", 1)
}

// compare compares the requests with what they have to be.
func (w *world27) compare(o *op27, what string, qs []sreq) {
	r := w.r
	if len(w.gs.bad) > 0 {
		r.Violation("request", "%s: the group server saw: %s", what, w.gs.bad[0])
	}
	if len(w.e.faults) > 0 {
		r.Violation("request", "%s: the directory saw: %s", what, w.e.faults[0])
	}
	if len(w.cd.bad) > 0 {
		r.Violation("request", "%s: the upload server saw: %s", what, w.cd.bad[0])
	}
	for k, q := range qs {
		if k >= len(o.reqs) {
			break // tried again
		}
		e := o.reqs[k]
		name := fmt.Sprintf("request %d of %s (%s %s)", k+1, o.name, q.Method, q.Path)
		if q.Method != e.method || q.Path != e.path && !(strings.HasSuffix(e.path, "/") && strings.HasPrefix(q.Path, e.path) && len(e.path) > 5 && (e.path == "/signed/" || e.path == "/resumable/" || strings.HasPrefix(e.path, "/v1/profile/"))) {
			r.Violation("request", "%s: want %s %s", name, e.method, e.path)
			return
		}
		if q.Query != e.query {
			r.Violation("request", "%s has the query %q, want %q", name, q.Query, e.query)
		}
		h := q.Header.Values("Authorization")
		switch {
		case e.auth == "group":
		case e.auth == "" && len(h) == 0, len(h) == 1 && h[0] == e.auth:
		default:
			r.Violation("header", "%s has the authorization %q, want %q", name, h, e.auth)
		}
		if u := q.Header.Values("Unidentified-Access-Key"); e.key != (len(u) == 1 && u[0] != "") {
			r.Violation("header", "%s has the access key %q, want one: %v", name, u, e.key)
		}
		if ct := strings.Join(q.Header.Values("Content-Type"), "|"); ct != e.ct && !strings.HasPrefix(e.path, "/cdn2/") {
			r.Violation("header", "%s has the content type %q, want %q", name, ct, e.ct)
		}
		if a := q.Header.Get("X-Signal-Agent"); a != simAgent && !strings.HasPrefix(e.path, "/cdn2/") {
			r.Violation("header", "%s has the agent %q", name, a)
		}
		if e.body != nil {
			if m := e.body(q.Body); m != "" {
				r.Violation("body", "%s has a body %.200q: %s", name, q.Body, m)
			}
		} else if e.ct == "" && len(q.Body) > 0 {
			r.Violation("body", "%s has a body", name)
		}
		r.Event("requests compared", 1)
	}
}
