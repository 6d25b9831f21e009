package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/groupsv2"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
	log "github.com/sirupsen/logrus"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// TestVerifC34: everything that must not be seen is marked with random bytes; whatever leaves the package is
// searched for them.
func TestVerifC34(t *testing.T) {
	r := vh.Start(t, "C34", "texts, attachments, names, titles, numbers, keys, passwords and all key material in the store are random marks; every operation of the package, undisturbed and with requests answered with errors, broken off or garbled, and messages received, good and altered; all requests, the log at the finest level and the standard outputs are searched for any eight aligned bytes of a mark, also inside base64, hexadecimal, percent and backslash escapes and decimal lists, nested; files and directories for access by others, under a permissive umask; a case is one operation, distinct by operation and fault")
	defer r.Finish()
	if !newGroupServer(rand.New(rand.NewSource(1))).usable() {
		t.Fatal("not built with the simulated group server's parameters")
	}
	r.NoStop = true
	old := syscall.Umask(0)
	defer syscall.Umask(old)
	selfTest34(r)
	top, done := mustDir()
	defer done()
	n := r.N(8, 120)
	for i := 0; i < n && !r.Failed(); i++ {
		if c34case(r, i, top); i == 0 {
			modes34(r, "avatars", top)
		}
	}
	helper34(r)
	r.Require("lost helper connections", 3)
	r.Require("operations", n*60)
	r.Require("operations that succeed", n*35)
	r.Require("requests searched", n*150)
	r.Require("lines of the log searched", n*100)
	r.Require("secrets of the store", n*100)
	r.Require("files looked at", n*100)
	for _, s := range ops34 {
		r.Require("done: "+s, 1)
	}
}

var ops34 = []string{"message", "attachment", "voice note", "end of session", "legacy group", "legacy group message", "legacy group update", "legacy group left", "group message", "group attachment", "link", "sync contacts", "profile", "receive", "receive attachment", "receive transcript", "receive group", "discovery", "publish keys", "verify", "verify with a pin", "restart", "fetch profile", "receive anything", "helper avatar", "helper message", "helper registration"}

// ---- marks

type mark34 struct {
	name string
	wire bool // must not be sent
	log  bool // must not be logged
}

type marks34 struct {
	m map[uint64]*mark34
	n int
}

// add registers every eighth sequence of eight bytes.
func (s *marks34) add(name string, b []byte, wire, inLog bool) {
	k := &mark34{name, wire, inLog}
	for i := 0; i+8 <= len(b); i += 8 {
		v := binary.BigEndian.Uint64(b[i:])
		if v == 0 || bytes.Equal(b[i:i+8], bytes.Repeat(b[i:i+1], 8)) {
			continue
		}
		if s.m[v] == nil {
			s.m[v] = k
			s.n++
		}
	}
}

func (s *marks34) search(b []byte) (found []*mark34) {
	seen := map[*mark34]bool{}
	for i := 0; i+8 <= len(b); i++ {
		if k := s.m[binary.BigEndian.Uint64(b[i:])]; k != nil && !seen[k] {
			seen[k] = true
			found = append(found, k)
		}
	}
	return
}

var (
	b64re = regexp.MustCompile(`[A-Za-z0-9+/_-]{14,}`)
	hexre = regexp.MustCompile(`[0-9a-fA-F]{16,}`)
	decre = regexp.MustCompile(`(?:\b\d{1,3}\b[ ,]+){7,}\d{1,3}`)
	numre = regexp.MustCompile(`\d+`)
	pctre = regexp.MustCompile(`%[0-9a-fA-F]{2}`)
	escre = regexp.MustCompile(`\\(?:x[0-9a-fA-F]{2}|[0-7]{3}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|["\\/'abfnrtv])`)
)

// forms34 are the readings of a text, itself first.
func forms34(b []byte, depth int) [][]byte {
	out := [][]byte{b}
	if depth == 0 {
		return out
	}
	add := func(x []byte) {
		if len(x) >= 8 {
			out = append(out, forms34(x, depth-1)...)
		}
	}
	if bytes.IndexByte(b, '%') >= 0 {
		x := pctre.ReplaceAllFunc(b, func(m []byte) []byte { v, _ := hex.DecodeString(string(m[1:])); return v })
		if !bytes.Equal(x, b) {
			add(x)
		}
	}
	if bytes.IndexByte(b, '\\') >= 0 {
		x := escre.ReplaceAllFunc(b, func(m []byte) []byte {
			switch {
			case m[1] == 'x':
				v, _ := hex.DecodeString(string(m[2:]))
				return v
			case m[1] == 'u':
				v, _ := hex.DecodeString(string(m[2:]))
				return []byte(string(rune(int(v[0])<<8 | int(v[1]))))
			case m[1] == 'U':
				v, _ := hex.DecodeString(string(m[2:]))
				return []byte(string(rune(binary.BigEndian.Uint32(v))))
			case strings.IndexByte("abfnrtv", m[1]) >= 0:
				return []byte{"\a\b\f\n\r\t\v"[strings.IndexByte("abfnrtv", m[1])]}
			case m[1] >= '0' && m[1] <= '7':
				return []byte{(m[1]-'0')<<6 | (m[2]-'0')<<3 | (m[3] - '0')}
			}
			return m[1:]
		})
		add(x)
	}
	for _, t := range b64re.FindAll(b, -1) {
		s := strings.NewReplacer("-", "+", "_", "/").Replace(string(t))
		for k := 0; k < 4 && k < len(s); k++ { // it may stand behind other letters
			u := s[k:]
			if len(u)%4 == 1 {
				u = u[:len(u)-1]
			}
			if v, err := base64.RawStdEncoding.DecodeString(u); err == nil {
				add(v)
			}
		}
	}
	for _, t := range hexre.FindAll(b, -1) {
		for k := 0; k < 2; k++ {
			u := t[k:]
			u = u[:len(u)/2*2]
			if v, err := hex.DecodeString(string(u)); err == nil {
				add(v)
			}
		}
	}
	for _, t := range decre.FindAll(b, -1) {
		var v []byte
		for _, x := range numre.FindAll(t, -1) {
			n := 0
			fmt.Sscan(string(x), &n)
			v = append(v, byte(n))
		}
		add(v)
	}
	return out
}

// selfTest34 makes sure that the search finds what it should.
func selfTest34(r *vh.R) {
	rd := r.Rand("self", 0)
	for i := 0; i < 50; i++ {
		k := vh.Bytes(rd, 32)
		s := &marks34{m: map[uint64]*mark34{}}
		s.add("x", k, true, true)
		var list []string
		for _, x := range k {
			list = append(list, fmt.Sprint(x))
		}
		pre := vh.Bytes(rd, rd.Intn(40))
		for _, f := range []string{string(k), hex.EncodeToString(k), strings.ToUpper(hex.EncodeToString(append(pre, k...))), base64.StdEncoding.EncodeToString(append(pre, k...)), "abc" + base64.URLEncoding.EncodeToString(k), fmt.Sprint(k), fmt.Sprint(list), fmt.Sprintf("%q", k), fmt.Sprintf(" %+v", struct{ A []byte }{k}),
			fmt.Sprintf(`{"a":"%s"}`, base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(k)))), strings.Join(list, ", "), strings.ReplaceAll(fmt.Sprintf("% x", k), " ", ""),
			fmt.Sprint(&signalservice.Content{SenderKeyDistributionMessage: k}), fmt.Sprintf("%q", fmt.Sprint(&signalservice.Content{SenderKeyDistributionMessage: k}))} {
			ok := false
			for _, x := range forms34([]byte(f), 3) {
				ok = ok || len(s.search(x)) > 0
			}
			if !ok {
				r.Inconclusive("the search does not find a mark in %.200q", f)
			}
		}
	}
}

// ---- what is observed

type buf34 struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf34) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}
func (b *buf34) take() []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	x := append([]byte{}, b.b.Bytes()...)
	b.b.Reset()
	return x
}

type world34 struct {
	*world27
	marks *marks34
	logs  *buf34
	out   *os.File
	own   *account
	seen  map[string]bool // store contents already taken in
	ws    *wsServer
	id    uint64
}

// mark is a text nobody may see.
func (w *world34) mark(name string, inLog bool) string {
	s := strings.ToLower(strings.ReplaceAll(strings.ReplaceAll(base64.RawURLEncoding.EncodeToString(vh.Bytes(w.rd, 24)), "-", "q"), "_", "z"))[:24]
	w.marks.add(name, []byte(s), true, inLog)
	return s
}

func (w *world34) key(name string, n int, wire, inLog bool) []byte {
	b := vh.Bytes(w.rd, n)
	w.marks.add(name, b, wire, inLog)
	return b
}

// collect takes in the key material of the store: the private fields of the records.
func (w *world34) collect() {
	w.marks.add("the identity's private key", w.l.party.S.Identity.PrivateKey.Key()[:], true, true)
	before := w.marks.n
	for _, sub := range []string{"prekeys", "signed_prekeys", "sessions"} {
		filepath.Walk(filepath.Join(w.l.dir, sub), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			b, err := w.l.st.readFile(p)
			if err != nil || w.seen[string(b)] {
				return nil
			}
			w.seen[string(b)] = true
			for _, k := range keys34(b, sub, "") {
				w.marks.add("key material in "+sub, k, true, true)
			}
			return nil
		})
	}
	w.r.Event("secrets of the store", w.marks.n-before)
}

// keys34 are the secret fields of an encoded record: at the paths given, "*" leading on.
func keys34(b []byte, kind string, path string) (out [][]byte) {
	for i := 0; i < len(b); {
		tag, k := binary.Uvarint(b[i:])
		if k <= 0 {
			return out
		}
		i += k
		switch tag & 7 {
		case 0:
			_, k := binary.Uvarint(b[i:])
			if k <= 0 {
				return out
			}
			i += k
		case 1:
			i += 8
		case 5:
			i += 4
		case 2:
			n, k := binary.Uvarint(b[i:])
			if k <= 0 || n > uint64(len(b)-i-k) {
				return out
			}
			f := b[i+k : i+k+int(n)]
			i += k + int(n)
			p := fmt.Sprintf("%s.%d", path, tag>>3)
			switch secret34[kind][p] {
			case 1:
				out = append(out, f)
			case 2:
				out = append(out, keys34(f, kind, p)...)
			}
		default:
			return out
		}
		if i > len(b) {
			return out
		}
	}
	return out
}

// secret34 says where the stored records have secrets (1) and parts with secrets (2).
var secret34 = func() map[string]map[string]int {
	s := map[string]int{}
	for _, ss := range []string{".1", ".2"} {
		s[ss] = 2
		s[ss+".4"] = 1
		for _, c := range []string{".6", ".7"} {
			s[ss+c] = 2
			s[ss+c+".2"] = 1
			s[ss+c+".3"] = 2
			s[ss+c+".3.2"] = 1
			s[ss+c+".4"] = 2
			s[ss+c+".4.2"] = 1
			s[ss+c+".4.3"] = 1
		}
	}
	k := map[string]int{".3": 1}
	return map[string]map[string]int{"sessions": s, "prekeys": k, "signed_prekeys": k}
}()

func newWorld34(r *vh.R, rd *rand.Rand) (*world34, func()) {
	x, done := newWorld27(r, rd)
	w := &world34{world27: x, marks: &marks34{m: map[uint64]*mark34{}}, logs: &buf34{}, seen: map[string]bool{}}
	w.own = w.n.acct[simUUID]
	w.own.add(2)
	w.ws = w.n.sim.websocket()
	config.ConfigFile.ProfileKey = w.key("the profile key", 32, true, true)
	registration.Registration.SignalingKey = w.key("the signaling key", 52, false, true)
	w.marks.add("the password of the account", []byte(simPass), false, true)
	w.collect()
	f, err := os.CreateTemp(w.l.dir, "stdout")
	must16(err)
	os.Remove(f.Name())
	w.out = f
	return w, func() { f.Close(); done() }
}

// observed runs an operation and searches what left the package.
func (w *world34) observed(what, op string, f func() error) (err error) {
	r := w.r
	r.SetCase("%s", what)
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w.out, w.out
	log.SetOutput(w.logs)
	log.SetLevel(log.TraceLevel)
	stdlog.SetOutput(w.logs)
	pan := vh.Try(func() { err = f() })
	os.Stdout, os.Stderr = so, se
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	stdlog.SetOutput(io.Discard)
	if pan != "" {
		err = fmt.Errorf("panic %s", pan) // decided by other properties
		r.Event("panics", 1)
	}
	w.collect()
	r.Event("operations", 1)
	if err == nil {
		r.Event("operations that succeed", 1)
		if op != "" {
			r.Event("done: "+op, 1)
		}
	} else if os.Getenv("VERIF_DEBUG34") != "" && op != "" {
		fmt.Println("failed", what, err)
	}
	for _, q := range w.n.sim.take() {
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s?%s %s\n", q.Method, q.Path, q.Query, q.Host)
		var hs []string
		for k, v := range q.Header {
			for _, x := range v {
				hs = append(hs, k+": "+x)
			}
		}
		sort.Strings(hs)
		b.WriteString(strings.Join(hs, "\n") + "\n\n")
		b.Write(q.Body)
		r.Event("requests searched", 1)
		w.search(what, fmt.Sprintf("the request %s %s", q.Method, q.Path), b.Bytes(), true)
	}
	lg := w.logs.take()
	r.Event("lines of the log searched", bytes.Count(lg, []byte("\n")))
	for _, line := range bytes.Split(lg, []byte("\n")) {
		w.search(what, "the log", line, false)
	}
	w.out.Seek(0, 0)
	o, _ := io.ReadAll(w.out)
	w.out.Truncate(0)
	w.out.Seek(0, 0)
	w.search(what, "the output", o, false)
	return err
}

func (w *world34) search(what, where string, b []byte, wire bool) {
	for _, x := range forms34(b, 3) {
		for _, k := range w.marks.search(x) {
			if wire && k.wire || !wire && k.log {
				kind := "log"
				if wire {
					kind = "wire"
				}
				at := ""
				for i := 0; i+8 <= len(x); i++ {
					if w.marks.m[binary.BigEndian.Uint64(x[i:])] == k {
						at = fmt.Sprintf("%x [%x] %x", x[:i], x[i:i+8], x[i+8:])
						break
					}
				}
				w.r.Violation(kind+"/"+strings.ReplaceAll(k.name, " ", "-"), "%s: %s contains %s: %.400q (%.1200s)", what, where, k.name, b, at)
			}
		}
	}
}

// modes looks at who may access what is stored.
func modes34(r *vh.R, when, dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		r.Event("files looked at", 1)
		if m := fi.Mode().Perm(); m&0077 != 0 {
			rel, _ := filepath.Rel(dir, p)
			r.Violation("access", "%s: %s can be accessed by others (%v)", when, rel, m)
		}
		return nil
	})
}

// disturb answers the request number at of an operation with a fault.
func (w *world34) disturb(at int, fault string) {
	n := 0
	status := []int{400, 401, 403, 404, 409, 410, 413, 422, 423, 428, 429, 500, 503, 508}[w.rd.Intn(14)]
	w.n.sim.set(func(q sreq) sresp {
		a := w.n.serve(q)
		n++
		if n-1 != at {
			return a
		}
		switch fault {
		case "status":
			return sresp{Status: status, Body: []byte([]string{"", "{}", "error", `{"missingDevices":[1],"extraDevices":[2],"staleDevices":[1]}`}[w.rd.Intn(4)])}
		case "echo": // what was sent comes back
			return sresp{Status: status, Body: q.Body}
		case "broken off":
			return sresp{Drop: true}
		case "garbled":
			return sresp{Status: a.Status, Body: []byte([]string{"", "{", "nope", "\xff\xff\xff\xff", "[[]]", `"text"`}[w.rd.Intn(6)])}
		}
		return a
	})
}

func (w *world34) quiet() { w.n.sim.set(w.n.serve) }

// do runs an operation undisturbed and with faults. made prepares one.
func (w *world34) do(op string, made func() func() error) {
	w.quiet()
	f := made()
	w.n.sim.take()
	w.observed(op, op, f)
	for k := 1 + w.rd.Intn(2); k > 0; k-- {
		w.quiet()
		f := made()
		w.n.sim.take()
		fault := []string{"status", "echo", "broken off", "garbled"}[w.rd.Intn(4)]
		at := w.rd.Intn(4)
		w.disturb(at, fault)
		w.observed(fmt.Sprintf("%s with request %d %s", op, at, fault), "", f)
		w.r.Eval(op + "/" + fault)
	}
	w.quiet()
	w.r.Eval(op)
}

func (w *world34) receive(p *axh.Party, c *signalservice.Content, damage bool) error {
	if !p.S.ContainsSession(simUUID, 1) || w.rd.Intn(6) == 0 {
		must16(p.Builder(w.l.party).BuildSenderSession(w.l.bundle(axh.PreKind(w.rd.Intn(3)))))
	}
	b := contentBytes(c)
	if damage && w.rd.Intn(2) == 0 { // the content itself is not well formed
		b = append(b, 0xff)
		damage = false
	}
	m, err := p.Encrypt(w.l.party, padded(b))
	must16(err)
	if damage {
		m.Wire[w.rd.Intn(len(m.Wire))] ^= 1
	}
	env := envelope(p, m, uint64(1600000000000+w.rd.Intn(1e9)))
	err = w.deliver(env)
	if w.rd.Intn(3) == 0 {
		w.deliver(env) // once more
	}
	return err
}

// deliver hands over an envelope, half of the time through the socket.
func (w *world34) deliver(env *signalservice.Envelope) error {
	if w.rd.Intn(2) == 0 {
		return handleReceivedMessage(env)
	}
	w.r.Event("messages over the socket", 1)
	ls := listen()
	x := w.ws.accept(ls)
	if x == nil {
		return errors.New("no connection")
	}
	for k := 1 + w.rd.Intn(2); k > 0; k-- {
		w.id++
		x.write(websocket.BinaryMessage, messageFrame(w.id, env), 1)
		x.wait(1)
	}
	x.write(websocket.BinaryMessage, request(w.id+1000, "/api/v1/queue/empty", vh.Bytes(w.rd, w.rd.Intn(2)*30)), 1)
	x.wait(2)
	StopListening()
	if !ls.wait() {
		return errors.New("does not stop")
	}
	return nil
}

// top holds what is in one place for the whole process: the avatars.
func c34case(r *vh.R, i int, top string) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	w, done := newWorld34(r, rd)
	defer done()
	peer := func() *account { return w.newPeer() }
	known := peer() // one with contact data
	contacts.Contacts[known.id] = contacts.Contact{UUID: known.id, Tel: w.number(), Name: w.mark("the name of a contact", false), ProfileKey: w.key("the profile key of a contact", 32, true, true)}
	// contacts with a profile
	pr := &world31{r: r, rd: rd, gs: w.gs}
	over := w.n.override
	w.n.override = func(n *network, q sreq) (sresp, bool) {
		if a := pr.serve(q); a.Status != 404 {
			return a, true
		}
		return over(n, q)
	}
	var steps []func()
	add := func(op string, made func() func() error) { steps = append(steps, func() { w.do(op, made) }) }

	add("message", func() func() error {
		p, text := peer(), w.mark("the text of a message", true)
		return func() error { _, err := SendMessage(p.id, text, uint32(rd.Intn(2)*3600)); return err }
	})
	add("message", func() func() error {
		text := w.mark("the text of a message", true)
		return func() error { _, err := SendMessage(known.id, text, 0); return err }
	})
	blob := func() []byte { return w.key("an attachment", 64+rd.Intn(3000), true, true) }
	add("attachment", func() func() error {
		p, text, b := peer(), w.mark("the text of a message", true), blob()
		return func() error { _, err := SendAttachment(p.id, text, bytes.NewReader(b), 0); return err }
	})
	add("voice note", func() func() error {
		p, text, b := peer(), w.mark("the text of a message", true), blob()
		return func() error { _, err := SendVoiceNote(p.id, text, bytes.NewReader(b), 0); return err }
	})
	add("end of session", func() func() error {
		p, text := peer(), w.mark("the text of a message", true)
		return func() error { _, err := EndSession(p.id, text); return err }
	})
	// groups of the first kind
	legacy := func() string {
		w.quiet()
		g, err := NewGroup(w.mark("the name of a group", false), []string{peer().id, known.id})
		must16(err)
		return g.Hexid
	}
	add("legacy group", func() func() error {
		name, a := w.mark("the name of a group", false), peer()
		return func() error { _, err := NewGroup(name, []string{a.id}); return err }
	})
	add("legacy group message", func() func() error {
		id, text := legacy(), w.mark("the text of a message", true)
		return func() error { _, err := SendGroupMessage(id, text, 0); return err }
	})
	add("legacy group update", func() func() error {
		id, name, a := legacy(), w.mark("the name of a group", false), peer()
		return func() error { _, err := UpdateGroup(id, name, []string{a.id}); return err }
	})
	add("legacy group left", func() func() error {
		id := legacy()
		return func() error { return LeaveGroup(id) }
	})
	// groups of the second kind
	v2 := func(others ...*account) *sgroup {
		ids := []string{simUUID}
		for _, a := range others {
			ids = append(ids, a.id)
		}
		g := w.gs.create(w.mark("the title of a group", false), ids...)
		w.marks.add("the master key of a group", g.master, true, false)
		return g
	}
	fetched := func() *sgroup {
		w.quiet()
		g := v2(peer(), known)
		groupsv2.Credentials = nil
		must16((&groupsv2.GroupV2{MasterKey: g.master, Hexid: g.hexid()}).UpdateGroupFromServer())
		return g
	}
	add("group message", func() func() error {
		g, text := fetched(), w.mark("the text of a message", true)
		return func() error { _, err := SendGroupMessage(g.hexid(), text, 0); return err }
	})
	add("group attachment", func() func() error {
		g, text, b := fetched(), w.mark("the text of a message", true), blob()
		return func() error { _, err := SendGroupAttachment(g.hexid(), text, bytes.NewReader(b), 0); return err }
	})
	// the account
	add("link", func() func() error {
		d := newNewDevice22(rd)
		w.made["PUT /v1/provisioning/"+d.id] = nil
		w.made["GET /v1/devices/provisioning/code"] = js(map[string]string{"verificationCode": "123456"})
		return func() error { return AddNewLinkedDevice(d.id, d.code()) }
	})
	add("sync contacts", func() func() error { return SyncContacts })
	add("publish keys", func() func() error {
		w.made["PUT /v2/keys/"] = nil
		return func() error {
			if err := generatePreKeys(); err != nil {
				return err
			}
			w.collect()
			if err := generatePreKeyState(); err != nil {
				return err
			}
			return registerPreKeys()
		}
	})
	add("verify", func() func() error {
		w.made["PUT /v1/accounts/code/123456"] = js(map[string]string{"uuid": simUUID})
		return func() error { _, err := verifyCode("123-456", nil, nil); return err }
	})
	add("verify with a pin", func() func() error {
		pin, pw := w.key("a pin", 16, false, true), fmt.Sprintf("%x", vh.Bytes(rd, 16))
		w.marks.add("the password of the backup", []byte(pw), false, true)
		w.marks.add("a pin", []byte(fmt.Sprintf("%x", pin)), false, true)
		w.made["PUT /v1/accounts/code/123456"] = js(map[string]string{"uuid": simUUID})
		locked := rd.Intn(2) == 0
		return func() error {
			if locked {
				serve := w.n.serve
				w.n.sim.set(func(q sreq) sresp {
					if strings.HasPrefix(q.Path, "/v1/accounts/code/") {
						return sresp{Status: 423, Body: js(map[string]interface{}{"timeRemaining": 5, "backupCredentials": map[string]string{"username": "u", "password": pw}})}
					}
					return serve(q)
				})
			}
			s := fmt.Sprintf("%x", pin)
			cr, err := verifyCode("123-456", &s, &transport.AuthCredentials{Username: "u", Password: pw})
			if locked && cr != nil && err != nil {
				return nil
			} else if locked {
				return errors.New("the account's lock is not reported")
			}
			return err
		}
	})
	add("profile", func() func() error {
		key := config.ConfigFile.ProfileKey
		name := w.mark("the own name", false)
		w.made["PUT /v1/profile/"] = nil
		w.made["GET /v1/profile/"+simUUID] = w.profile(simUUID, key, nil)
		return func() error { return profiles.UpdateProfile(key, simUUID, name) }
	})
	add("discovery", func() func() error {
		tel := w.number()
		var num int64
		fmt.Sscan(tel[1:], &num)
		w.e.users[num] = [16]byte{1, 2, 3, byte(rd.Intn(256)), 5, 6, 0x40, 8, 0x80}
		w.a.contacts = []contacts.Contact{{Tel: tel, Name: w.mark("the name of a contact", false)}}
		return func() error { _, err := GetRegisteredContacts(); return err }
	})
	add("restart", func() func() error {
		dir, err := os.MkdirTemp(w.l.dir, "second")
		must16(err)
		pw := w.mark("the password of the storage", true)
		return func() error {
			s, err := newStore(pw, dir)
			if err != nil {
				return err
			}
			if err = s.SetIdentityKeyPair(axolotl.GenerateIdentityKeyPair()); err != nil {
				return err
			}
			if _, err = newStore(pw, dir); err != nil {
				return err
			}
			newStore(pw+"x", dir)
			c := *config.ConfigFile
			c.StorageDir = dir
			return WriteConfig(filepath.Join(dir, "config.yml"), &c)
		}
	})
	// incoming
	data := func() *signalservice.DataMessage {
		text := w.mark("the text of a message received", true)
		ts := uint64(1600000000000 + rd.Intn(1e9))
		d := &signalservice.DataMessage{Body: &text, Timestamp: &ts}
		if rd.Intn(2) == 0 {
			d.ProfileKey = w.key("the profile key of a contact", 32, true, true)
		}
		if rd.Intn(2) == 0 {
			q := w.mark("a text quoted", true)
			d.Quote = &signalservice.DataMessage_Quote{Id: &ts, Text: &q}
		}
		return d
	}
	for _, damage := range []bool{false, true} {
		damage := damage
		op := func(s string) string {
			if damage {
				return s + " damaged"
			}
			return s
		}
		from := known.devs[1]
		add(op("receive"), func() func() error {
			c := &signalservice.Content{DataMessage: data()}
			return func() error { return w.receive(from, c, damage) }
		})
		add(op("receive attachment"), func() func() error {
			plain, key := blob(), w.key("the key of an attachment", 64, true, true)
			b, dg := sealBlob(plain, 0, key, vh.Bytes(rd, 16))
			w.seq++
			k := fmt.Sprint("blob", w.seq)
			w.n.locked(func() { w.cd.blobs["2/"+k] = b })
			two, size := uint32(2), uint32(len(plain))
			c := &signalservice.Content{DataMessage: data()}
			c.DataMessage.Attachments = []*signalservice.AttachmentPointer{{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: k}, CdnNumber: &two, Key: key, Digest: dg, Size: &size}}
			return func() error { return w.receive(from, c, damage) }
		})
		add(op("receive transcript"), func() func() error {
			d := data()
			to := known.id
			c := &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{DestinationUuid: &to, Timestamp: d.Timestamp, Message: d}}}
			return func() error { return w.receive(w.own.devs[2], c, damage) }
		})
		add(op("receive group"), func() func() error {
			g := v2(known)
			c := &signalservice.Content{DataMessage: data()}
			rev := g.revision
			c.DataMessage.GroupV2 = &signalservice.GroupContextV2{MasterKey: g.master, Revision: &rev}
			return func() error { return w.receive(from, c, damage) }
		})
	}
	for k := 0; k < 6; k++ {
		k := k
		from := known.devs[1]
		op := "receive anything"
		if k%2 == 1 {
			from = w.own.devs[2]
		}
		add(op, func() func() error {
			c := &signalservice.Content{}
			w.fill(c.ProtoReflect(), []float64{0.1, 0.4, 0.8}[rd.Intn(3)], 1+rd.Intn(4))
			switch k { // a content of one kind
			case 0:
				c = &signalservice.Content{StoryMessage: c.StoryMessage, SenderKeyDistributionMessage: w.key("a sender key", 70, true, true), DecryptionErrorMessage: c.DecryptionErrorMessage}
			case 1:
				if c.SyncMessage == nil {
					c.SyncMessage = &signalservice.SyncMessage{}
				}
				c = &signalservice.Content{SyncMessage: c.SyncMessage}
			case 2:
				c = &signalservice.Content{NullMessage: &signalservice.NullMessage{Padding: w.key("padding", 20, true, false)}, SenderKeyDistributionMessage: w.key("a sender key", 70, true, true)}
			case 4: // of a kind to come
				c = &signalservice.Content{}
				text := w.mark("the text of a message of an unknown kind", true)
				c.ProtoReflect().SetUnknown(append([]byte{15<<3 | 2, byte(len(text))}, text...))
			}
			return func() error {
				err := w.receive(from, c, false)
				if k == 0 || k == 2 || k == 4 {
					return err
				}
				return nil
			}
		})
	}
	add("fetch profile", func() func() error {
		p := &peer31{uuid: uuidOf(rd), key: w.key("the profile key of a contact", 32, true, true), name: w.mark("the profile name of a contact", false), about: w.mark("what a contact says about itself", false), emoji: "x",
			avatar: "profiles/" + strings.ToLower(vh.Hex(vh.Bytes(rd, 6))), img: w.key("an avatar", 300, true, true)}
		pr.peers = append(pr.peers, p)
		if rd.Intn(4) > 0 {
			pr.fault, pr.afault = "", ""
		} else if pr.fault = faults31[rd.Intn(len(faults31))]; rd.Intn(2) == 0 {
			pr.fault, pr.afault = "", avatarFaults31[rd.Intn(len(avatarFaults31))]
		}
		pr.status = 403
		contacts.Contacts[p.uuid] = contacts.Contact{UUID: p.uuid, Tel: w.number(), Name: w.mark("the name of a contact", false), ProfileKey: p.key}
		return func() error {
			d := config.ConfigFile.StorageDir
			config.ConfigFile.StorageDir = top // where avatars go is settled once
			defer func() { config.ConfigFile.StorageDir = d }()
			_, err := GetProfileByUUID(p.uuid)
			return err
		}
	})
	// everything else the package can do
	for k := 0; k < ops27; k++ {
		k := k
		add("", func() func() error {
			o := w.op(k)
			return func() error { _, _, err := o.run(); return err }
		})
	}
	for _, k := range rd.Perm(len(steps)) {
		steps[k]()
	}
	modes34(r, "at the end", w.l.dir)
	r.Sample(map[string]interface{}{"case": i, "marks": w.marks.n, "operations": len(steps)})
}

// open34 are the fields that may appear in the log: identifiers, names and what the server is shown.
var open34 = regexp.MustCompile(`(?i)uuid|e164|^id$|name|title|contenttype|cdnkey|groupid|masterkey|padding|emoji|number|digest|label|blurhash`)

// fill gives a message random fields; what is secret is marked.
func (w *world34) fill(m protoreflect.Message, p float64, depth int) {
	rd := w.rd
	scalar := func(f protoreflect.FieldDescriptor) protoreflect.Value {
		name := string(f.Name())
		inLog := !open34.MatchString(name)
		switch f.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(rd.Intn(2) == 0)
		case protoreflect.EnumKind:
			vs := f.Enum().Values()
			return protoreflect.ValueOfEnum(vs.Get(rd.Intn(vs.Len())).Number())
		case protoreflect.StringKind:
			if strings.Contains(strings.ToLower(name), "uuid") {
				return protoreflect.ValueOfString(uuidOf(rd))
			}
			if name == "cdnKey" { // shown to the server
				return protoreflect.ValueOfString(fmt.Sprintf("%x", vh.Bytes(rd, 12)))
			}
			return protoreflect.ValueOfString(w.mark("the received field "+name, inLog))
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes(w.key("the received field "+name, []int{16, 32, 64}[rd.Intn(3)], inLog, inLog))
		case protoreflect.Int32Kind:
			return protoreflect.ValueOfInt32(rd.Int31())
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(rd.Int63())
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(rd.Uint32())
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(rd.Uint64())
		}
		return f.Default()
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Cardinality() != protoreflect.Required && rd.Float64() > p || f.ContainingOneof() != nil && m.WhichOneof(f.ContainingOneof()) != nil {
			continue
		}
		switch {
		case f.IsMap() || f.Message() != nil && depth <= 0:
		case f.IsList():
			l := m.Mutable(f).List()
			if f.Message() != nil {
				e := l.NewElement()
				w.fill(e.Message(), p, depth-1)
				l.Append(e)
			} else {
				l.Append(scalar(f))
			}
		case f.Message() != nil:
			w.fill(m.Mutable(f).Message(), p, depth-1)
		default:
			m.Set(f, scalar(f))
		}
	}
}

// helper34 is a stand-in for the helper process: what is exchanged with it must not be logged either.
func helper34(r *vh.R) {
	rd := r.Rand("helper", 0)
	w, done := newWorld34(r, rd)
	defer done()
	registration.Registration.SignalingKey[0] = 1
	dir, rm := mustDir()
	defer rm()
	must16(os.WriteFile(dir+"/crayfish", []byte("#!/bin/sh\nexec sleep 800\n"), 0700))
	path := os.Getenv("PATH")
	os.Setenv("PATH", dir+":"+path)
	defer os.Setenv("PATH", path)
	var ln net.Listener
	var err error
	for end := time.Now().Add(60 * time.Second); ; time.Sleep(200 * time.Millisecond) { // another check may be running
		if ln, err = net.Listen("tcp", "localhost:9081"); err == nil {
			break
		}
		if time.Now().After(end) {
			r.Inconclusive("the helper's port is taken: %v", err)
			return
		}
	}
	connected := make(chan bool, 1000)
	var mu sync.Mutex
	var answer []byte
	var hangUp bool // the answer is nothing that is understood: the call has to be ended
	set := func(b []byte, h bool) { mu.Lock(); answer, hangUp = b, h; mu.Unlock() }
	up := websocket.Upgrader{}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		c, err := up.Upgrade(rw, q, nil)
		if err != nil {
			return
		}
		connected <- true
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			mu.Lock()
			a, h := answer, hangUp
			mu.Unlock()
			if bytes.Contains(b, []byte(`"captcha"`)) { // starting is not answered
				continue
			}
			c.WriteMessage(websocket.TextMessage, a)
			if h {
				time.Sleep(20 * time.Millisecond)
				c.Close()
				return
			}
		}
	})}
	go srv.Serve(ln)
	defer srv.Close()
	log.SetOutput(w.logs)
	log.SetLevel(log.TraceLevel)
	go crayfish.Run()
	wait := func() bool {
		select {
		case <-connected:
			time.Sleep(30 * time.Millisecond)
			return true
		case <-time.After(60 * time.Second):
			r.Inconclusive("the helper was not connected to")
			return false
		}
	}
	if !wait() {
		return
	}
	time.Sleep(100 * time.Millisecond)
	defer func() {
		crayfish.Instance.Stop()
		time.Sleep(100 * time.Millisecond)
		crayfish.Instance = nil
	}()
	lost := 0
	for i := 0; i < r.N(150, 3000) && !r.Failed(); i++ {
		var resp map[string]interface{}
		var f func() error
		var op string
		switch rd.Intn(4) {
		case 0:
			op = "helper avatar"
			key, av := w.key("the profile key of a contact", 32, true, true), w.key("an avatar", 200, true, true)
			resp = map[string]interface{}{"avatar": base64.StdEncoding.EncodeToString(av)}
			f = func() error { _, err := crayfish.Instance.DecryptAvatar(vh.Bytes(rd, 200), key); return err }
		case 1, 2:
			op = "helper message"
			text := w.mark("the text of a message received", true)
			ts := uint64(1600000000000 + rd.Intn(1e9))
			c := &signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}}
			if rd.Intn(3) == 0 {
				c = &signalservice.Content{SenderKeyDistributionMessage: w.key("a sender key", 70, true, true)}
			}
			resp = map[string]interface{}{"message": base64.StdEncoding.EncodeToString(contentBytes(c)), "timestamp": ts, "sender_device": 1, "sender": map[string]interface{}{"uuid": uuidOf(rd)}}
			t := signalservice.Envelope_UNIDENTIFIED_SENDER
			dest := simUUID
			env := &signalservice.Envelope{Type: &t, DestinationUuid: &dest, Content: vh.Bytes(rd, 100), ServerTimestamp: &ts}
			if rd.Intn(3) == 0 { // decrypted, but not to be handled
				op = "helper message failing"
				if c.DataMessage != nil && rd.Intn(2) == 0 {
					k, two := "none", uint32(2)
					c.DataMessage.Attachments = []*signalservice.AttachmentPointer{{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: k}, CdnNumber: &two, Key: w.key("the key of an attachment", 64, true, true)}}
					resp["message"] = base64.StdEncoding.EncodeToString(contentBytes(c))
				} else {
					resp["message"] = base64.StdEncoding.EncodeToString(append(contentBytes(c), 0xff))
				}
			}
			f = func() error { return w.deliver(env) }
		case 3:
			op = "helper registration"
			var ub []int
			for _, x := range vh.Bytes(rd, 16) {
				ub = append(ub, int(x))
			}
			resp = map[string]interface{}{"uuid": ub, "storage_capable": false}
			info := &registration.RegistrationInfo{Password: w.mark("the password of the account", true), SignalingKey: w.key("the signaling key", 52, false, true)}
			f = func() error {
				if err := crayfish.Instance.CrayfishRegister(info, "+491701234567", "captcha"); err != nil {
					return err
				}
				_, err := crayfish.Instance.CrayfishRegisterWithCode(info, "+491701234567", "captcha", "123456")
				return err
			}
		}
		a := js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": resp}})
		what, good, hang := op, true, false
		if rd.Intn(3) == 0 {
			switch v := rd.Intn(6); {
			case v == 0 && lost < r.N(6, 40): // no kind
				a = js(map[string]interface{}{"response": map[string]interface{}{"type": 3, "message": resp}})
				lost, hang = lost+1, true
			case v == 1 && lost < r.N(6, 40):
				a = append([]byte("x"), a...)
				lost, hang = lost+1, true
			case v == 2 && lost < r.N(6, 40):
				a = js(map[string]interface{}{"type": 7, "response": map[string]interface{}{"type": 3, "message": resp}})
				lost, hang = lost+1, true
			case v == 3:
				a = js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": []interface{}{resp}}})
			default:
				a = js(map[string]interface{}{"type": 2, "response": map[string]interface{}{"type": 3, "message": fmt.Sprint(resp)}})
			}
			what, good = op+" with a bad answer", false
		}
		set(a, hang)
		done := op
		if !good {
			done = ""
		}
		w.observed(what, done, f)
		log.SetOutput(w.logs)
		log.SetLevel(log.TraceLevel)
		r.Eval(what)
		if hang {
			r.Event("lost helper connections", 1)
		}
		if hang && !wait() {
			return
		}
	}
}

// number is the number of a contact, as text and as the directory would be asked for it.
func (w *world34) number() string {
	s := "+4917"
	for len(s) < 15 {
		s += fmt.Sprint(w.rd.Intn(10))
	}
	w.marks.add("the number of a contact", []byte(s)[1:9], true, false)
	w.marks.add("the number of a contact", []byte(s)[7:15], true, false)
	return s
}
