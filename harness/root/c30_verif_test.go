package textsecure

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	goyaml "github.com/go-yaml/yaml"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
	"gopkg.in/yaml.v2"
)

// The state files a client keeps besides its keys. Version n of each is a function of n and the seed; version n
// is written by the client's own functions, in a process that is watched, starved or killed meanwhile.

type world30 struct {
	seed  int64
	gid   []byte // of the legacy group
	big   int    // size class
	plain bool   // no v2 group
}

func newWorld30(seed int64) *world30 {
	rd := rand.New(rand.NewSource(seed))
	return &world30{seed: seed, gid: vh.Bytes(rd, 16), big: []int{3, 40, 400, 3000}[rd.Intn(4)]}
}

func (w *world30) rd(n int) *rand.Rand { return rand.New(rand.NewSource(w.seed*1000003 + int64(n))) }

func (w *world30) config(n int) *config.Config {
	rd := w.rd(n)
	c := &config.Config{Tel: "+15550001", UUID: simUUID, Server: "https://example.org", RootCA: "ca", StorageDir: "store", LogLevel: "debug",
		UserAgent: strings.Repeat("agent ", rd.Intn(w.big)), Name: fmt.Sprintf("version %d", n), ProfileKey: vh.Bytes(rd, 32),
		UnidentifiedAccessKey: vh.Bytes(rd, 16), Certificate: vh.Bytes(rd, 20*(1+rd.Intn(w.big))), ProfileKeyCredential: vh.Bytes(rd, 145)}
	c.AccountCapabilities.Gv2 = n%2 == 0
	return c
}

func (w *world30) contacts(n int) []contacts.Contact {
	rd := w.rd(n)
	var l []contacts.Contact
	for i := 0; i <= rd.Intn(w.big); i++ {
		l = append(l, contacts.Contact{UUID: uuidString(vh.Bytes(rd, 16)), Tel: telOf(rd), Name: fmt.Sprintf("version %d", n), ProfileKey: vh.Bytes(rd, 32), Blocked: rd.Intn(2) == 0, ExpireTimer: uint32(i)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].UUID < l[j].UUID })
	return l
}

func (w *world30) group(n int) *Group {
	rd := w.rd(n)
	g := &Group{ID: w.gid, Hexid: hex.EncodeToString(w.gid), Name: fmt.Sprintf("version %d", n), Avatar: []byte{}}
	for i := 0; i <= rd.Intn(w.big); i++ {
		g.Members = append(g.Members, telOf(rd))
	}
	return g
}

func (w *world30) v2members(n int) int { return 1 + w.rd(n).Intn(1+min30(w.big, 12)) }

func min30(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var kinds30 = []string{"config", "saved config", "contacts", "contacts in place", "legacy group", "left legacy group", "group"}

// file30 is where a kind is kept.
func (w *world30) file(dir, kind, master string) string {
	switch kind {
	case "config", "saved config":
		return dir + "/config.yml"
	case "contacts", "contacts in place":
		return dir + "/contacts.yml"
	case "legacy group", "left legacy group":
		return filepath.Join(dir, "store", "groups", hex.EncodeToString(w.gid))
	}
	return filepath.Join(dir, "store", "groupsv2", master)
}

// version tells which version of the kind the bytes are.
func (w *world30) version(kind string, b []byte) (int, error) {
	num := func(s string) (int, error) {
		if !strings.HasPrefix(s, "version ") {
			return 0, fmt.Errorf("no version: it holds %q", s)
		}
		return strconv.Atoi(s[8:])
	}
	switch kind {
	case "config", "saved config":
		c := &config.Config{}
		if err := goyaml.Unmarshal(b, c); err != nil {
			return 0, err
		}
		return w.isConfig(c)
	case "contacts", "contacts in place":
		var l struct{ Contacts []contacts.Contact }
		if err := yaml.Unmarshal(b, &l); err != nil {
			return 0, err
		}
		return w.areContacts(l.Contacts)
	case "legacy group", "left legacy group":
		g := &Group{}
		if err := yaml.Unmarshal(b, g); err != nil {
			return 0, err
		}
		return w.isGroup(g)
	}
	g := &groupsv2.GroupV2{}
	if err := yaml.Unmarshal(b, g); err != nil {
		return 0, err
	}
	if g.Hexid == "" {
		return 0, fmt.Errorf("it has no id")
	}
	if g.DecryptedGroup == nil {
		return 0, nil // as it was when it was first heard of
	}
	n, err := num(g.DecryptedGroup.Title)
	if err != nil {
		return 0, err
	}
	if len(g.DecryptedGroup.Members) != w.v2members(n) || g.DecryptedGroup.Revision != uint32(n) {
		return 0, fmt.Errorf("it is called version %d, but has revision %d and %d members", n, g.DecryptedGroup.Revision, len(g.DecryptedGroup.Members))
	}
	return n, nil
}

func num30(s string) (int, error) {
	if !strings.HasPrefix(s, "version ") {
		return 0, fmt.Errorf("it is incomplete: it holds %q", s)
	}
	return strconv.Atoi(s[8:])
}

func (w *world30) isConfig(c *config.Config) (int, error) {
	n, err := num30(c.Name)
	if err != nil {
		return 0, err
	}
	if !reflect.DeepEqual(c, w.config(n)) {
		return 0, fmt.Errorf("it is called version %d, but does not hold that", n)
	}
	return n, nil
}

func (w *world30) areContacts(l []contacts.Contact) (int, error) {
	if len(l) == 0 {
		return 0, fmt.Errorf("it is incomplete: there are no contacts")
	}
	n, err := num30(l[0].Name)
	if err != nil {
		return 0, err
	}
	sort.Slice(l, func(i, j int) bool { return l[i].UUID < l[j].UUID })
	want := w.contacts(n)
	if len(l) != len(want) {
		return 0, fmt.Errorf("it is called version %d, but holds %d contacts for %d", n, len(l), len(want))
	}
	for i := range l {
		a, b := l[i], want[i]
		if a.UUID != b.UUID || a.Tel != b.Tel || a.Name != b.Name || !bytes.Equal(a.ProfileKey, b.ProfileKey) || a.Blocked != b.Blocked || a.ExpireTimer != b.ExpireTimer {
			return 0, fmt.Errorf("it is called version %d, but contact %s differs from that", n, a.UUID)
		}
	}
	return n, nil
}

func (w *world30) isGroup(g *Group) (int, error) {
	n, err := num30(g.Name)
	if err != nil {
		return 0, err
	}
	want := w.group(n)
	if g.Hexid != want.Hexid || !bytes.Equal(g.ID, want.ID) || !reflect.DeepEqual(g.Members, want.Members) {
		return 0, fmt.Errorf("it is called version %d, but does not hold that", n)
	}
	return n, nil
}

// ---- the client process

type op30 struct {
	Op, Kind, Fault string
	N, To, Limit    int
}

type res30 struct {
	Err, Pan string
	Versions map[string]string
	Keys     []string
}

const mark30 = "C30RES "

func (w *world30) write(kind, dir, url string, master []byte, n int) error {
	switch kind {
	case "config":
		return WriteConfig(dir+"/config.yml", w.config(n))
	case "saved config":
		return saveConfig(w.config(n))
	case "contacts":
		return contacts.WriteContacts(dir+"/contacts.yml", w.contacts(n))
	case "contacts in place":
		m := map[string]contacts.Contact{}
		for _, c := range w.contacts(n) {
			m[c.UUID] = c
		}
		contacts.Contacts = m
		return contacts.WriteContactsToPath()
	case "legacy group":
		g := w.group(n)
		t := signalservice.GroupContext_UPDATE
		return updateGroup(&signalservice.GroupContext{Id: g.ID, Type: &t, Name: &g.Name, MembersE164: g.Members})
	case "left legacy group":
		g := w.group(n)
		at := w.rd(-n).Intn(len(g.Members) + 1)
		g.Members = append(g.Members[:at:at], append([]string{"+19999"}, g.Members[at:]...)...)
		groups[g.Hexid] = g
		return quitGroup("+19999", g.Hexid)
	}
	return groupsv2.FindGroup(hex.EncodeToString(master)).UpdateGroupFromServer()
}

// TestVerifC30Child writes what it is told to.
func TestVerifC30Child(t *testing.T) {
	dir, url := os.Getenv("VERIF_C30_DIR"), os.Getenv("VERIF_C30_URL")
	if dir == "" {
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_C30_SEED"), 10, 64)
	master, _ := hex.DecodeString(os.Getenv("VERIF_C30_MASTER"))
	w := newWorld30(seed)
	setupGlobals(dir)
	config.ConfigFile.StorageDir = dir + "/store"
	must16(os.MkdirAll(dir+"/store", 0700))
	st, err := newStore("", dir+"/store")
	must16(err)
	textSecureStore = st
	if k, err := st.GetIdentityKeyPair(); err == nil {
		identityKey = k
	} else {
		must16(st.SetIdentityKeyPair(axolotl.GenerateIdentityKeyPair()))
		identityKey, err = st.GetIdentityKeyPair()
		must16(err)
	}
	(&sim{Server: &httptest.Server{URL: url}}).connect()
	must16(setupGroups())
	version := func(kind string, n int) {
		if kind == "group" {
			resp, err := http.Get(fmt.Sprintf("%s/verif/%d", url, n))
			must16(err)
			resp.Body.Close()
		}
	}
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var o op30
		must16(json.Unmarshal(line, &o))
		var res res30
		res.Pan = vh.Try(func() {
			var err error
			switch o.Op {
			case "meet":
				_, err = groupsv2.HandleGroupsV2("", &signalservice.DataMessage{GroupV2: &signalservice.GroupContextV2{MasterKey: master}})
			case "loop": // writes versions N, N+1, ... To-1 and says so
				for n := o.N; n < o.To && err == nil; n++ {
					version(o.Kind, n)
					os.Stdout.WriteString(fmt.Sprintf("@start %d\n", n))
					err = w.write(o.Kind, dir, url, master, n)
					if err == nil {
						os.Stdout.WriteString(fmt.Sprintf("@done %d\n", n))
					}
				}
			case "one":
				version(o.Kind, o.N)
				switch o.Fault {
				case "":
					err = w.write(o.Kind, dir, url, master, o.N)
				case "limit":
					signal.Ignore(syscall.SIGXFSZ)
					limited30(syscall.RLIMIT_FSIZE, uint64(o.Limit), func() { err = w.write(o.Kind, dir, url, master, o.N) })
				case "files":
					limited30(syscall.RLIMIT_NOFILE, 3, func() { err = w.write(o.Kind, dir, url, master, o.N) })
				case "death": // SIGXFSZ is fatal
					var old syscall.Rlimit
					must16(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
					os.Stdout.WriteString(fmt.Sprintf("@start %d\n", o.N))
					fatalXFSZ()
					must16(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(o.Limit), Max: old.Max}))
					if err = w.write(o.Kind, dir, url, master, o.N); err == nil {
						os.Stdout.WriteString(fmt.Sprintf("@done %d\n", o.N))
					}
					must16(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
				}
			case "load": // what a start finds
				res.Versions = map[string]string{}
				say := func(kind string, n int, err error) {
					res.Versions[kind] = fmt.Sprint(n)
					if err != nil {
						res.Versions[kind] = err.Error()
					}
				}
				if c, err := ReadConfig(dir + "/config.yml"); err == nil {
					n, err := w.isConfig(c)
					say("config", n, err)
				} else {
					say("config", 0, err)
				}
				contacts.Contacts = map[string]contacts.Contact{}
				if l, err := contacts.ReadContacts(dir + "/contacts.yml"); err == nil {
					n, err := w.areContacts(l)
					say("contacts", n, err)
				} else {
					say("contacts", 0, err)
				}
				for k, g := range groups {
					res.Keys = append(res.Keys, k)
					if k == hex.EncodeToString(w.gid) {
						n, err := w.isGroup(g)
						say("legacy group", n, err)
					}
				}
				if g := groupsv2.FindGroup(hex.EncodeToString(master)); g != nil {
					b, err := yaml.Marshal(g)
					must16(err)
					n, err := w.version("group", b)
					say("group", n, err)
				}
			}
			if err != nil {
				res.Err = err.Error()
			}
		})
		b, _ := json.Marshal(res)
		os.Stdout.WriteString(mark30 + string(b) + "\n")
	}
}

func limited30(what int, n uint64, f func()) {
	var old syscall.Rlimit
	must16(syscall.Getrlimit(what, &old))
	must16(syscall.Setrlimit(what, &syscall.Rlimit{Cur: n, Max: old.Max}))
	defer syscall.Setrlimit(what, &old)
	f()
}

// ---- the observer

type c30 struct {
	r      *vh.R
	rd     *rand.Rand
	w      *world30
	dir    string
	url    string
	seed   int64
	gs     *groupServer
	g      *sgroup
	people []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	acked  int64 // the last version the process reported as written
	begun  int64 // the last version it reported as begun
	trace  []string
	now    map[string]int // version of each file
}

func (c *c30) bad(key, f string, a ...interface{}) {
	c.r.Violation(key, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(tailOf(c.trace, 20), "\n"))
}

func (c *c30) step(f string, a ...interface{}) { c.trace = append(c.trace, fmt.Sprintf(f, a...)) }

func (c *c30) serve(q sreq) sresp {
	if strings.HasPrefix(q.Path, "/verif/") {
		n, _ := strconv.Atoi(q.Path[len("/verif/"):])
		c.setGroup(n)
		return sresp{Status: 200}
	}
	if a, ok := c.gs.serve(q); ok {
		return a
	}
	return sresp{Status: 404}
}

// setGroup makes version n what the group is on the server.
func (c *c30) setGroup(n int) {
	c.gs.mu.Lock()
	defer c.gs.mu.Unlock()
	c.g.title, c.g.revision = fmt.Sprintf("version %d", n), uint32(n)
	for len(c.g.members) < c.w.v2members(n) {
		c.g.members = append(c.g.members, gmember{uuid: uuidString(vh.Bytes(c.gs.rd, 16)), key: vh.Bytes(c.gs.rd, 32), role: signalservice.Member_DEFAULT})
	}
	c.g.members = c.g.members[:c.w.v2members(n)]
}

func (c *c30) start() {
	c.cmd = exec.Command(os.Args[0], "-test.run=^TestVerifC30Child$", "-test.timeout=10m")
	c.cmd.Env = append(os.Environ(), "VERIF_C30_DIR="+c.dir, "VERIF_C30_URL="+c.url, fmt.Sprintf("VERIF_C30_SEED=%d", c.seed), "VERIF_C30_MASTER="+hex.EncodeToString(c.g.master))
	c.cmd.Stderr = io.Discard
	var err error
	c.in, err = c.cmd.StdinPipe()
	must16(err)
	out, err := c.cmd.StdoutPipe()
	must16(err)
	c.out = bufio.NewReaderSize(out, 1<<16)
	must16(c.cmd.Start())
}

func (c *c30) stop() {
	c.in.Close()
	io.Copy(io.Discard, c.out)
	c.cmd.Wait()
}

// do has the process do something; false: it died.
func (c *c30) do(o op30) (res res30, ok bool) {
	b, _ := json.Marshal(o)
	c.in.Write(append(b, '\n'))
	for {
		line, err := c.out.ReadString('\n')
		if strings.HasSuffix(line, "\n") {
			var n int64
			if k, _ := fmt.Sscanf(line, "@start %d", &n); k == 1 {
				atomic.StoreInt64(&c.begun, n)
			} else if k, _ := fmt.Sscanf(line, "@done %d", &n); k == 1 {
				atomic.StoreInt64(&c.acked, n)
			} else if strings.HasPrefix(line, mark30) {
				must16(json.Unmarshal([]byte(line[len(mark30):]), &res))
				if res.Pan != "" {
					c.bad("panic", "%s of a %s panicked: %s", o.Op, o.Kind, res.Pan)
				}
				return res, true
			}
		}
		if err != nil {
			return res, false
		}
	}
}

func kindOf30(kind string) string {
	return map[string]string{"saved config": "config", "contacts in place": "contacts", "left legacy group": "legacy group"}[kind] + map[string]string{"config": "config", "contacts": "contacts", "legacy group": "legacy group", "group": "group"}[kind]
}

func (c *c30) path(kind string) string { return c.w.file(c.dir, kind, hex.EncodeToString(c.g.master)) }

// look reads the file of a kind as it is now.
func (c *c30) look(kind string) (int, []byte, error) {
	b, err := os.ReadFile(c.path(kind))
	if err != nil {
		return 0, nil, err
	}
	n, err := c.w.version(kind, b)
	return n, b, err
}

// sweep: a reader looks at the file all the time while it is rewritten again and again; then perhaps the process
// is killed.
func (c *c30) sweep(kind string, writes int, kill bool) {
	from := c.now[kindOf30(kind)]
	atomic.StoreInt64(&c.acked, int64(from))
	atomic.StoreInt64(&c.begun, int64(from))
	stop := make(chan struct{})
	var wg sync.WaitGroup
	path := c.path(kind)
	var torn string
	looks, seen := 0, 0
	wg.Add(1)
	go func() {
		defer wg.Done()
		var last []byte
		at := from
		for {
			select {
			case <-stop:
				return
			default:
			}
			min := int(atomic.LoadInt64(&c.acked))
			b, err := os.ReadFile(path)
			looks++
			if err != nil {
				torn = "the file is not there: " + err.Error()
				return
			}
			if last != nil && bytes.Equal(b, last) {
				if at < min {
					torn = fmt.Sprintf("version %d was reported as written, but the file still holds version %d", min, at)
					return
				}
				continue
			}
			n, err := c.w.version(kind, b)
			if err != nil {
				torn = fmt.Sprintf("the file of %d bytes is no version of it: %v", len(b), err)
				return
			}
			if n < at || n < min {
				torn = fmt.Sprintf("the file went back to version %d from %d (reported as written: %d)", n, at, min)
				return
			}
			at, last = n, b
			seen++
		}
	}()
	if kill {
		d := time.Duration(c.rd.Intn(30000)) * time.Microsecond
		time.AfterFunc(d, func() { c.cmd.Process.Kill() })
	}
	to := from + 1 + writes
	if kill {
		to = from + 100000
	}
	res, alive := c.do(op30{Op: "loop", Kind: kind, N: from + 1, To: to})
	close(stop)
	wg.Wait()
	acked, begun := int(atomic.LoadInt64(&c.acked)), int(atomic.LoadInt64(&c.begun))
	c.step("%s: versions %d to %d written, process alive %v", kind, from+1, acked, alive)
	c.r.Event("writes", acked-from)
	c.r.Event("looks", looks)
	c.r.Event("versions seen", seen)
	if torn != "" {
		c.bad("torn "+kindOf30(kind), "while a %s was being replaced: %s", kind, torn)
	}
	if alive && res.Err != "" {
		c.bad("write fails", "a %s could not be written: %s", kind, res.Err)
	}
	if alive && !kill && acked != to-1 {
		c.bad("write fails", "only version %d of %d was written", acked, to-1)
	}
	if !alive {
		c.cmd.Wait()
		c.r.Event("kills", 1)
	}
	n, _, err := c.look(kind)
	if err != nil {
		c.bad("torn "+kindOf30(kind), "after the process was killed the %s is broken: %v", kind, err)
	} else if n < acked || n > begun {
		c.bad("lost "+kindOf30(kind), "version %d of the %s was reported as written and version %d begun, the file holds version %d", acked, kind, begun, n)
	}
	c.now[kindOf30(kind)] = n
	c.r.Eval(fmt.Sprintf("%s|%v|%d", kind, !alive, c.w.big))
	if !alive {
		c.start()
		c.load()
	}
}

// load: a start finds everything as it was.
func (c *c30) load() {
	res, ok := c.do(op30{Op: "load"})
	if !ok {
		c.bad("start", "the next start failed")
		return
	}
	for k, n := range c.now {
		if res.Versions[k] != fmt.Sprint(n) {
			c.bad("loaded "+k, "a start finds %q for the %s, version %d was stored", res.Versions[k], k, n)
		}
	}
	if len(res.Keys) != 1 || res.Keys[0] != hex.EncodeToString(c.w.gid) {
		c.bad("other groups", "a start finds the legacy groups %q, there is only %x", res.Keys, c.w.gid)
	}
	c.r.Event("starts", 1)
}

// starve: one write that fails (or not), in a process that lives on or dies of it.
func (c *c30) starve(kind, fault string) {
	k := kindOf30(kind)
	was := c.now[k]
	n := was + 1
	_, before, err := c.look(kind)
	if err != nil {
		c.bad("torn "+k, "the %s is broken: %v", kind, err)
		return
	}
	size := len(before)
	lim := c.rd.Intn(size + 1)
	if c.rd.Intn(4) == 0 {
		lim = c.rd.Intn(2)
	}
	tree := tree30(c.dir)
	atomic.StoreInt64(&c.acked, int64(was))
	res, alive := c.do(op30{Op: "one", Kind: kind, N: n, Fault: fault, Limit: lim})
	if fault == "death" && alive {
		// Go's runtime may also turn the signal into an error
		c.r.Event("survived", 1)
	}
	now, after, err := c.look(kind)
	what := fmt.Sprintf("%s (%d bytes) with the fault %q (limit %d)", kind, size, fault, lim)
	c.step("%s: error %q, alive %v", what, res.Err, alive)
	c.r.Event("fault "+fault, 1)
	if err != nil {
		c.bad("torn "+k, "after a write of the %s: the file is broken: %v", what, err)
		return
	}
	switch {
	case !alive:
		c.r.Event("deaths", 1)
		if now != was && now != n {
			c.bad("lost "+k, "after a write of the %s: the file holds version %d, not %d or %d", what, now, was, n)
		}
	case res.Err != "":
		c.r.Event("failed writes", 1)
		if !bytes.Equal(before, after) {
			c.bad("failed write "+k, "a write of the %s failed (%s), and the file is another one", what, res.Err)
		}
		if t := tree30(c.dir); !reflect.DeepEqual(t, tree) {
			c.bad("leftover", "a write of the %s failed (%s) and left other files: %q, before %q", what, res.Err, t, tree)
		}
	case now != n && kind != "group":
		c.bad("unreported "+k, "a write of the %s was reported as done, but the file holds version %d, not %d", what, now, n)
	case now != n && now != was:
		c.bad("lost "+k, "after a write of the %s: the file holds version %d, not %d or %d", what, now, was, n)
	}
	c.now[k] = now
	c.r.Eval(fmt.Sprintf("%s|%s|%d", kind, fault, lim*8/(size+1)))
	if !alive {
		c.cmd.Wait()
		c.start()
		c.load()
		return
	}
	// the process works on
	if fault != "" && !c.r.Failed() {
		res, alive = c.do(op30{Op: "one", Kind: kind, N: n + 1})
		if !alive || res.Err != "" {
			c.bad("write fails", "after a failed write of the %s the next one failed, too: %s", what, res.Err)
		}
		m, _, err := c.look(kind)
		if err != nil || m != n+1 {
			c.bad("lost "+k, "after a failed write of the %s and a good one the file holds version %d, not %d (%v)", what, m, n+1, err)
		}
		c.now[k] = m
	}
}

// tree30 lists the files.
func tree30(dir string) []string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			l = append(l, p[len(dir):])
		}
		return nil
	})
	return l
}

func life30(r *vh.R, i int) {
	rd := r.Rand("life", i)
	seed := rd.Int63n(1 << 40)
	dir, done := mustDir()
	defer done()
	c := &c30{r: r, rd: rd, w: newWorld30(seed), seed: seed, dir: dir, now: map[string]int{}}
	c.gs = newGroupServer(rd)
	c.g = c.gs.create("version 0", simUUID)
	c.setGroup(0)
	s := newSim(c.serve)
	defer s.Close()
	c.url = s.URL
	if !c.gs.usable() {
		r.Inconclusive("the group server's parameters could not be replaced")
		return
	}
	c.step("client %d of size class %d", i, c.w.big)
	c.start()
	defer func() {
		c.cmd.Process.Kill()
		c.stop()
	}()
	for _, kind := range []string{"config", "contacts", "legacy group"} {
		res, ok := c.do(op30{Op: "one", Kind: kind})
		if !ok || res.Err != "" {
			c.bad("write fails", "the first %s could not be written: %v %s", kind, ok, res.Err)
			return
		}
		c.now[kind] = 0
	}
	if res, ok := c.do(op30{Op: "meet"}); !ok || res.Err != "" {
		c.bad("write fails", "the first group could not be written: %v %s", ok, res.Err)
		return
	}
	c.now["group"] = 0
	link := rd.Intn(3) == 0
	if link {
		// the file may lie elsewhere
		for _, f := range []string{"config.yml", "contacts.yml"} {
			must16(os.MkdirAll(dir+"/elsewhere", 0700))
			must16(os.Rename(dir+"/"+f, dir+"/elsewhere/"+f))
			must16(os.Symlink("elsewhere/"+f, dir+"/"+f))
		}
		c.step("config and contacts are links")
	}
	c.load()
	for step := 0; step < r.N(8, 16) && !r.Failed(); step++ {
		kind := kinds30[rd.Intn(len(kinds30))]
		switch rd.Intn(6) {
		case 0:
			c.sweep(kind, 40, false)
		case 1, 2:
			c.sweep(kind, 0, true)
		case 3:
			c.starve(kind, "limit")
		case 4:
			c.starve(kind, "files")
		case 5:
			c.starve(kind, "death")
		}
	}
	if link {
		for _, f := range []string{"config.yml", "contacts.yml"} {
			if fi, err := os.Lstat(dir + "/" + f); err != nil || fi.Mode()&os.ModeSymlink == 0 {
				c.bad("link", "the link %s was replaced by a file", f)
			}
		}
	}
}

func TestVerifC30(t *testing.T) {
	r := vh.Start(t, "C30", "a client process rewrites its configuration, contacts and groups while a reader looks at the files all the time, file size and file descriptors run out, and the process is killed at random or dies at a byte offset; whatever is read must be one complete version, never one before the last reported as written, a failed write must report it, keep the file and leave no other, and the next start must find the stored versions and only the stored groups")
	defer r.Finish()
	r.NoStop = true
	var wg sync.WaitGroup
	next := int64(-1)
	n := r.N(40, 400)
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.Failed() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if p := vh.Try(func() { life30(r, i) }); p != "" {
					r.Inconclusive("harness: %s", p)
				}
			}
		}()
	}
	wg.Wait()
	r.Require("writes", 2000)
	r.Require("looks", 5000)
	r.Require("versions seen", 500)
	r.Require("kills", 20)
	r.Require("deaths", 5)
	r.Require("failed writes", 20)
}
