package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/groupsv2"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
	"gopkg.in/yaml.v2"
)

// TestVerifC36: everything an application does at the same time, under the race detector; rounds in processes of
// their own, since concurrent accesses of a map end a process.
func TestVerifC36(t *testing.T) {
	r := vh.Start(t, "C36", "an application that listens and at the same time, from a dozen goroutines, sends messages and attachments to people and groups, makes, changes and leaves groups, fetches profiles, refreshes its contacts, and reads, while peers and linked devices send messages, profile keys, group updates and requests for synchronisation; race detector, messages compared on both sides, memory and files compared with what was done; a case is one round, all are different")
	r.NoStop = true
	defer r.Finish()
	if !newGroupServer(rand.New(rand.NewSource(1))).usable() {
		t.Fatal("not built with the simulated group server's parameters")
	}
	n := r.N(40, 800)
	var wg sync.WaitGroup
	free := make(chan bool, 4)
	for i := 0; i < n; i++ {
		i := i
		free <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			c36do(r, i)
			<-free
		}()
	}
	wg.Wait()
	for _, k := range []string{"messages sent to people", "attachments sent", "messages sent to groups", "messages sent to new groups", "messages received", "profile keys received", "group updates received", "groups synchronised", "groups made", "groups changed", "groups left", "profiles fetched", "contacts looked up", "identities looked up", "sessions ended", "operations on the account", "messages sent around the end of a session"} {
		r.Require(k, n*2)
	}
	r.Require("contacts refreshed", n/4)
	r.Require("contacts with a profile", n)
	r.Require("fields of one contact changed", n*5)
}

func c36do(r *vh.R, i int) {
	f, err := os.CreateTemp("", "c36")
	must16(err)
	f.Close()
	defer os.Remove(f.Name())
	c := exec.Command(os.Args[0], "-test.run=^TestVerifC36Child$", "-test.timeout=4m")
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_C36=%d", i), "VERIF_RESULT="+f.Name())
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	c.Run()
	b, err := os.ReadFile(f.Name())
	x := &out35{}
	if err != nil || json.Unmarshal(b, x) != nil {
		s := o.String()
		for _, k := range []string{"fatal error:", "panic:"} {
			if p := strings.Index(s, k); p >= 0 {
				r.Violation("crash", "round %d: the process ended: %.2500s", i, s[p:])
				return
			}
		}
		r.Inconclusive("round %d: no result: %.800s", i, s)
		return
	}
	r.Eval(fmt.Sprint(i))
	for k, n := range x.Events {
		r.Event(k, n)
	}
	for _, v := range x.Violations {
		r.Violation(v.Key, "%s", v.Msg)
	}
	for _, s := range x.Inconclusive {
		r.Inconclusive("round %d: %s", i, s)
	}
}

func TestVerifC36Child(t *testing.T) {
	s := os.Getenv("VERIF_C36")
	if s == "" {
		return
	}
	r := vh.Start(t, "C36", "")
	r.NoStop = true
	var i int
	fmt.Sscan(s, &i)
	r.SetCase("round=%d", i)
	c36round(r, i)
	r.Finish()
	os.Exit(0)
}

type peer36 struct {
	*account
	tel  string
	keys [][]byte // profile keys it has had
	told []byte   // the last one it told us
}

type world36 struct {
	*world27
	mu      sync.Mutex
	peers   []*peer36
	hearer  *account       // sends nothing
	bundles map[uint32]int // handed out for it
	took    time.Duration  // EndSession
	x       *wsConn
	id      uint64
	fed     map[string]bool // texts we have to hear
	sent    map[string]map[string]bool
	read    map[string]bool   // profiles that could be read
	blobs   map[string][]byte // text -> its attachment
	v1      map[string]*Group // as they have to be, nil: left
}

func c36round(r *vh.R, i int) {
	rd := r.Rand("round", i)
	w27, done := newWorld27(r, r.Rand("world", i))
	defer done()
	crayfish.Instance = nil
	w := &world36{world27: w27, fed: map[string]bool{}, sent: map[string]map[string]bool{}, blobs: map[string][]byte{}, read: map[string]bool{}, took: time.Millisecond, bundles: map[uint32]int{}, v1: map[string]*Group{}}
	refresh := i%4 == 3
	w.e.sessions = map[string]map[string]*enclaveKeys{}
	own := w.n.acct[simUUID]
	own.add(2)
	for k := 0; k < 5; k++ {
		p := &peer36{account: newAccount(rd, uuidOf(rd), []uint32{1, 2}[:1+rd.Intn(2)]...), tel: telOf(rd)}
		p.keys = [][]byte{vh.Bytes(rd, 32)}
		w.peers = append(w.peers, p)
		w.n.acct[p.id] = p.account
		if k%2 == 0 {
			p.told = p.keys[0]
		}
		contacts.Contacts[p.id] = contacts.Contact{UUID: p.id, Tel: p.tel, Name: "contact " + p.tel, Color: fmt.Sprint("color ", k), ProfileKey: p.told}
		var num int64
		fmt.Sscan(p.tel[1:], &num)
		var u [16]byte
		copy(u[:], uuidBytes(p.id))
		w.e.users[num] = u
		w.a.contacts = append(w.a.contacts, contacts.Contact{Tel: p.tel, Name: "local " + p.tel})
	}
	w.hearer = newAccount(rd, uuidOf(rd), 1, 2)
	w.n.acct[w.hearer.id] = w.hearer
	must16(contacts.WriteContactsToPath())
	setupGroups()
	groups = map[string]*Group{}
	next := w.n.override
	w.n.override = func(n *network, q sreq) (sresp, bool) {
		if f := strings.Split(q.Path, "/v2/keys/"+w.hearer.id+"/"); q.Method == "GET" && len(f) == 2 {
			var d uint32
			fmt.Sscan(f[1], &d)
			w.bundles[d]++
		}
		for _, p := range w.peers {
			if q.Method == "GET" && q.Path == "/v1/profile/"+p.id {
				return sresp{Body: w.profile(p.id, p.keys[len(p.keys)-1], nil)}, true
			}
			f := strings.Split(strings.Trim(q.Path, "/"), "/")
			if q.Method == "GET" && len(f) == 5 && f[1] == "profile" && f[2] == p.id {
				for _, key := range p.keys {
					if b, err := w.gs.issue(p.id, key, f[3], f[4]); err == nil {
						return sresp{Body: w.profile(p.id, key, b)}, true
					}
				}
				r.Violation("profile key", "the profile of %s is asked for with a key that was never its own", p.id)
				return sresp{Status: 400}, true
			}
		}
		return next(n, q)
	}
	ids := func(k int) []string {
		var l []string
		for _, j := range rd.Perm(len(w.peers))[:k] {
			l = append(l, w.peers[j].id)
		}
		return l
	}
	// groups of before
	old, err := newGroup("old", ids(3))
	must16(err)
	w.v1[old.Hexid] = &Group{Name: "old", Members: old.Members}
	g2 := w.gs.create("second", append([]string{simUUID}, ids(3)...)...)
	must16((&groupsv2.GroupV2{MasterKey: g2.master, Hexid: g2.hexid()}).UpdateGroupFromServer())
	groupsv2.Credentials = nil
	ws := w.n.sim.websocket()
	config.ConfigFile.Server = w.n.sim.URL
	ls := listen()
	if w.x = ws.accept(ls); w.x == nil {
		r.Violation("connect", "listening does not connect: %s", ls.stack())
		return
	}
	stop := make(chan bool)
	var work, readers sync.WaitGroup
	seeds := func() *rand.Rand { return rand.New(rand.NewSource(rd.Int63())) }
	// each does something again and again
	worker := func(name string, n int, f func(rd *rand.Rand, k int)) {
		g := seeds()
		work.Add(1)
		go func() {
			defer work.Done()
			for k := 0; k < n; k++ {
				if p := vh.Try(func() { f(g, k) }); p != "" {
					r.Violation("panic", "%s: %s", name, p)
					return
				}
				time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
			}
		}()
	}
	reader := func(name string, f func(rd *rand.Rand)) {
		g := seeds()
		readers.Add(1)
		go func() {
			defer readers.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if p := vh.Try(func() { f(g) }); p != "" {
					r.Violation("panic", "%s: %s", name, p)
					return
				}
				time.Sleep(time.Duration(g.Intn(1000)) * time.Microsecond)
			}
		}()
	}
	n := r.N(25, 60)
	for s := 0; s < 2; s++ {
		s := s
		worker("sending", n, func(rd *rand.Rand, k int) {
			p := w.peers[rd.Intn(len(w.peers))]
			text := fmt.Sprintf("to person %d %d", s, k)
			w.expect(text, p.id)
			if rd.Intn(5) == 0 {
				b := vh.Bytes(rd, 1+rd.Intn(2000))
				w.mu.Lock()
				w.blobs[text] = b
				w.mu.Unlock()
				if _, err := SendAttachment(p.id, text, bytes.NewReader(b), 0); err != nil {
					r.Violation("send", "sending an attachment fails: %v", err)
				}
				r.Event("attachments sent", 1)
			} else if _, err := SendMessage(p.id, text, 0); err != nil {
				r.Violation("send", "sending a message fails: %v", err)
			}
			r.Event("messages sent to people", 1)
		})
	}
	worker("sending to groups", n, func(rd *rand.Rand, k int) {
		text := fmt.Sprintf("to group %d", k)
		hexid := old.Hexid
		if rd.Intn(2) == 0 {
			hexid = g2.hexid()
			var to []string
			w.n.locked(func() {
				for _, m := range g2.members {
					if m.uuid != simUUID {
						to = append(to, m.uuid)
					}
				}
			})
			w.expect(text, to...)
			r.Event("messages sent to new groups", 1)
		} else {
			w.expect(text, without36(old.Members)...)
		}
		if _, err := SendGroupMessage(hexid, text, 0); err != nil {
			r.Violation("send", "sending to a group fails: %v", err)
		}
		r.Event("messages sent to groups", 1)
	})
	worker("groups", n/2, func(rd *rand.Rand, k int) {
		var l []string
		for _, j := range rd.Perm(len(w.peers))[:1+rd.Intn(3)] {
			l = append(l, w.peers[j].id)
		}
		name := fmt.Sprintf("group %d", k)
		g, err := NewGroup(name, l)
		if err != nil {
			r.Violation("group", "NewGroup fails: %v", err)
			return
		}
		hexid := g.Hexid
		w.set(hexid, &Group{Name: name, Members: append(l, simTel)})
		r.Event("groups made", 1)
		if rd.Intn(3) > 0 {
			name += " changed"
			if _, err = UpdateGroup(hexid, name, l[:1]); err != nil {
				r.Violation("group", "UpdateGroup fails: %v", err)
				return
			}
			w.set(hexid, &Group{Name: name, Members: []string{l[0], simTel}})
			r.Event("groups changed", 1)
		}
		if rd.Intn(3) == 0 {
			if err = LeaveGroup(hexid); err != nil {
				r.Violation("group", "LeaveGroup fails: %v", err)
				return
			}
			w.set(hexid, nil)
			r.Event("groups left", 1)
		}
	})
	worker("profiles", n, func(rd *rand.Rand, k int) {
		p := w.peers[rd.Intn(len(w.peers))]
		f, err := profiles.GetProfileUUID(p.id)
		if err != nil {
			r.Violation("profile", "GetProfileUUID fails: %v", err)
		} else if f.Name == "Name" { // it could be read
			w.mu.Lock()
			w.read[p.id] = true
			w.mu.Unlock()
		}
		r.Event("profiles fetched", 1)
	})
	w.n.locked(func() {
		w.made["GET /v1/devices/"] = []byte(`{"devices":[{"id":1,"name":"a","created":5,"lastSeen":6},{"id":2,"name":"b","created":7,"lastSeen":8}]}`)
		w.made["PUT /v1/accounts/attributes/"] = nil
		w.made["GET /v1/profile/"+simUUID] = w.profile(simUUID, config.ConfigFile.ProfileKey, nil)
		w.made["PUT /v1/provisioning/ephemeral"] = nil
		w.made["PUT /v1/profile/"] = nil
	})
	account := func(rd *rand.Rand, _ int) {
		var err error
		k := rd.Intn(7)
		switch k {
		case 0:
			var l []DeviceInfo
			if l, err = LinkedDevices(); err == nil && len(l) != 2 {
				err = fmt.Errorf("%v", l)
			}
		case 1:
			err = AddDevice("ephemeral", base64.StdEncoding.EncodeToString(axolotl.NewECKeyPair().PublicKey.Serialize()), "123456")
		case 2:
			err = SetAccountCapabilities(config.AccountCapabilities{Gv2: rd.Intn(2) == 0})
		case 3:
			err = WriteConfig(filepath.Join(w.l.dir, "config.yml"), config.ConfigFile)
		case 4:
			var l []*signalservice.DecryptedMember
			if l, err = groupsv2.GetGroupV2MembersForGroup(g2.hexid()); err == nil && len(l) != 4 {
				err = fmt.Errorf("%v", l)
			}
		case 5:
			err = profiles.UpdateProfile(config.ConfigFile.ProfileKey, simUUID, "name")
		case 6:
			if _, err = groupsv2.GetCredentialForToday(); err == nil {
				d := time.Now().Unix() / 86400
				err = groupsv2.GetGroupAuthCredentials(d, d+7)
			}
		}
		if err != nil {
			r.Violation("account", "using the account (%d) fails: %v", k, err)
		}
		r.Event("operations on the account", 1)
	}
	worker("the account", n, account)
	worker("ending sessions", n, func(rd *rand.Rand, k int) {
		w.endSession(rd, k)
	})
	if refresh {
		worker("refreshing contacts", n/5, func(rd *rand.Rand, k int) {
			l, err := GetRegisteredContacts()
			if err != nil || len(l) != len(w.peers) {
				r.Violation("contacts", "GetRegisteredContacts gives %d contacts, %v", len(l), err)
			}
			r.Event("contacts refreshed", 1)
		})
	}
	reader("looking up", func(rd *rand.Rand) {
		p := w.peers[rd.Intn(len(w.peers))]
		if c := contacts.GetContact(p.id); !refresh && (c.UUID != p.id || c.Tel != p.tel || c.Color == "") {
			r.Violation("contact", "the contact of %s is %v", p.id, c)
		}
		if c := GetContactForTel(p.tel); !refresh && (c == nil || c.UUID != p.id) {
			r.Violation("contact", "the contact with the number of %s is %v", p.id, c)
		}
		if g, err := GetGroupById(old.Hexid); err != nil || g.Hexid != old.Hexid || len(g.Members) != 4 {
			r.Violation("group", "the group of before is %v, %v", g, err)
		}
		groupsv2.FindGroup(g2.hexid())
		r.Event("contacts looked up", 1)
		if MyIdentityKey() == nil {
			r.Violation("identity", "there is no identity key")
		}
		ContactIdentityKey(p.id)
		GetFingerprint(p.id, p.tel)
		r.Event("identities looked up", 1)
	})
	for s := 0; s < 2; s++ {
		worker("the others", n, func(rd *rand.Rand, k int) { w.feed(rd, old, g2, refresh) })
	}
	worked := make(chan bool)
	go func() { work.Wait(); close(worked) }()
	select {
	case <-worked:
	case <-time.After(100 * time.Second):
		r.Violation("hang", "the goroutines of the application do not end: %.3000s", where35(1))
		return
	}
	if _, stuck := w.x.wait(int(w.id)); stuck {
		a, _ := w.x.ackList()
		r.Violation("acks", "%d of %d messages are acknowledged: %.2000s", len(a), w.id, ls.stack())
	}
	close(stop)
	readers.Wait()
	StopListening()
	if !ls.wait() {
		r.Violation("hang", "the receive loop does not end\n%s", ls.stack())
	}
	w.judge(refresh)
	if !refresh {
		w.oneContact(rd)
	}
}

// oneContact has the fields of one contact changed at the same time: its profile key, as its messages do, and what is
// in its profile.
func (w *world36) oneContact(rd *rand.Rand) {
	r := w.r
	for k := 0; k < r.N(10, 40); k++ {
		p := w.peers[rd.Intn(len(w.peers))]
		key := p.keys[len(p.keys)-1]
		contacts.Contacts[p.id] = contacts.Contact{UUID: p.id, Tel: p.tel, Name: "n", Color: "c", ProfileKey: key}
		told := key
		if k%2 == 0 {
			told = vh.Bytes(rd, 32)
			p.keys = append(p.keys, told)
		}
		var changing, others sync.WaitGroup
		done := make(chan bool)
		for j := 0; j < 3; j++ {
			others.Add(1)
			go func() { // holds the contacts up
				defer others.Done()
				for {
					select {
					case <-done:
						return
					default:
						contacts.WriteContactsToPath()
					}
				}
			}()
		}
		var name string
		var err error
		changing.Add(1)
		fetched := make(chan bool)
		go func() {
			defer changing.Done()
			defer close(fetched)
			var f *profiles.Profile
			if f, err = profiles.GetProfileUUID(p.id); err == nil {
				name = f.Name
			}
		}()
		for j := 0; j < 3; j++ {
			changing.Add(1)
			go func() {
				defer changing.Done()
				for first := true; ; first = false {
					select {
					case <-fetched:
						if !first {
							return
						}
					default:
					}
					if err := contacts.UpdateProfileKey(p.id, told); err != nil {
						r.Violation("contacts", "UpdateProfileKey fails: %v", err)
					}
				}
			}()
		}
		changing.Wait()
		close(done)
		others.Wait()
		if err != nil {
			r.Violation("profile", "GetProfileUUID fails while the profile key is told: %v", err)
			continue
		}
		c := contacts.GetContact(p.id)
		if !bytes.Equal(c.ProfileKey, told) {
			r.Violation("contacts", "reading a profile undoes the profile key that was told meanwhile")
		}
		if name == "Name" && (c.Username != "Name" || c.About != "About") {
			r.Violation("contacts", "telling a profile key undoes the profile that was read meanwhile: %+v", c)
		}
		if c.Tel != p.tel || c.Color != "c" || c.Name != "n" {
			r.Violation("contacts", "the contact of %s is %+v", p.id, c)
		}
		r.Event("fields of one contact changed", 1)
	}
}

// endSession ends the sessions with an account while messages are sent to it. All get there, and no session is there
// afterwards but one made from a bundle got since.
func (w *world36) endSession(rd *rand.Rand, k int) {
	r := w.r
	send := func(text string) {
		w.expect(text, w.hearer.id)
		if _, err := SendMessage(w.hearer.id, text, 0); err != nil {
			r.Violation("session", "sending a message while the session is ended fails: %v", err)
		}
		r.Event("messages sent around the end of a session", 1)
	}
	send(fmt.Sprintf("to the hearer %d before", k))
	w.n.locked(func() { w.bundles = map[uint32]int{} })
	var wg sync.WaitGroup
	for j := 0; j < 3; j++ {
		j, d := j, time.Duration(rd.Int63n(int64(w.took)*5/4))
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			send(fmt.Sprintf("to the hearer %d %d", k, j))
		}()
	}
	t := time.Now()
	if _, err := EndSession(w.hearer.id, ""); err != nil {
		r.Violation("session", "EndSession fails: %v", err)
	}
	w.took = (w.took + time.Since(t)) / 2
	wg.Wait()
	w.n.locked(func() {
		for d := range w.hearer.devs {
			if w.bundles[d] == 0 && textSecureStore.ContainsSession(w.hearer.id, d) {
				r.Violation("ended", "a session was ended, and is there all the same, though no new one was made")
			} else if w.bundles[d] > 0 {
				r.Event("sessions made anew", 1)
			}
		}
	})
	r.Event("sessions ended", 1)
}

func without36(l []string) []string {
	var o []string
	for _, m := range l {
		if m != simTel && m != simUUID {
			o = append(o, m)
		}
	}
	return o
}

func (w *world36) set(hexid string, g *Group) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.v1[hexid] = g
}

// expect says who has to get a text.
func (w *world36) expect(text string, to ...string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.sent[text] = map[string]bool{}
	for _, p := range to {
		w.sent[text][p] = true
	}
}

// feed has a peer or our other device send something.
func (w *world36) feed(rd *rand.Rand, old *Group, g2 *sgroup, refresh bool) {
	p := w.peers[rd.Intn(len(w.peers))]
	w.n.locked(func() {
		w.id++
		id := w.id
		text := fmt.Sprintf("from %s %d", p.id, id)
		ts := 1600000000000 + id
		dm := &signalservice.DataMessage{Body: &text, Timestamp: &ts}
		c := &signalservice.Content{DataMessage: dm}
		from := p.devs[uint32(1+rd.Intn(len(p.devs)))]
		w.mu.Lock()
		w.fed[text] = true
		w.mu.Unlock()
		w.r.Event("messages received", 1)
		switch rd.Intn(7) {
		case 0:
			key := vh.Bytes(rd, 32)
			p.keys = append(p.keys, key)
			p.told = key
			dm.ProfileKey = key
			fl := uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
			dm.Flags = &fl
			w.r.Event("profile keys received", 1)
		case 1, 2:
			g2.revision++
			g2.title = fmt.Sprintf("second %d", id)
			rev := g2.revision
			dm.GroupV2 = &signalservice.GroupContextV2{MasterKey: g2.master, Revision: &rev}
			w.r.Event("group updates received", 1)
		case 3:
			typ := signalservice.SyncMessage_Request_GROUPS
			if refresh && rd.Intn(2) == 0 {
				typ = signalservice.SyncMessage_Request_CONTACTS // which refreshes them
			}
			c = &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &typ}}}
			from = w.n.acct[simUUID].devs[2]
			w.mu.Lock()
			delete(w.fed, text)
			w.mu.Unlock()
			w.r.Event("groups synchronised", 1)
		}
		if !from.S.ContainsSession(simUUID, 1) {
			must16(from.Builder(w.l.party).BuildSenderSession(w.l.bundle(axh.NoPre)))
		}
		m, err := from.Encrypt(w.l.party, padded(contentBytes(c)))
		must16(err)
		w.x.write(websocket.BinaryMessage, messageFrame(id, envelope(from, m, ts)), 1)
	})
}

// judge compares what came of it.
func (w *world36) judge(refresh bool) {
	r := w.r
	heard := map[string]int{}
	for _, e := range w.a.take() {
		if e.Msg != nil {
			heard[e.Msg.Message()]++
		}
	}
	for k := range w.fed {
		if heard[k] != 1 {
			r.Violation("received", "%q was handed over %d times", k, heard[k])
		}
	}
	for k := range heard {
		if !w.fed[k] {
			r.Violation("received", "%q was handed over, which nobody sent", k)
		}
	}
	got := map[string]map[string]int{}
	for _, a := range w.n.takeAccepted() {
		for _, d := range a.del {
			t := d.content.GetDataMessage().GetBody()
			if t == "" {
				continue
			}
			if got[t] == nil {
				got[t] = map[string]int{}
			}
			got[t][fmt.Sprint(d.acct, ".", d.dev)]++
			as := d.content.GetDataMessage().GetAttachments()
			if want, ok := w.blobs[t]; ok != (len(as) == 1) {
				r.Violation("attachment", "%q has %d attachments (one is meant: %v)", t, len(as), ok)
			} else if ok {
				if b, err := w.cd.open(as[0]); err != nil || !bytes.Equal(b, want) {
					r.Violation("attachment", "the attachment of %q is not what was sent with it: %v", t, err)
				}
			}
		}
	}
	for t, to := range w.sent {
		all := []*account{w.hearer}
		for _, p := range w.peers {
			all = append(all, p.account)
		}
		for _, p := range all {
			for d := range p.devs {
				k := got[t][fmt.Sprint(p.id, ".", d)]
				if to[p.id] && k != 1 || !to[p.id] && k != 0 {
					r.Violation("delivered", "%q reached device %d of %s %d times (meant for it: %v)", t, d, p.id, k, to[p.id])
				}
			}
		}
	}
	// groups
	mem := groups
	for h, g := range w.v1 {
		m := mem[h]
		f := &Group{}
		b, err := os.ReadFile(filepath.Join(groupDir, h))
		if g == nil {
			if m != nil || err == nil {
				r.Violation("groups", "a group that was left is there: %v %s", m, b)
			}
			continue
		}
		if err == nil {
			err = yaml.Unmarshal(b, f)
		}
		for _, x := range []*Group{m, f} {
			if err != nil || x == nil || x.Name != g.Name || fmt.Sprint(x.Members) != fmt.Sprint(g.Members) {
				r.Violation("groups", "a group is %v in memory and %v in its file (%v), want %v", m, f, err, g)
				break
			}
		}
	}
	if len(mem) > len(w.v1) {
		r.Violation("groups", "%d groups instead of %d", len(mem), len(w.v1))
	}
	// contacts
	b, err := os.ReadFile(filepath.Join(w.l.dir, "contacts.yml"))
	must16(err)
	var file struct{ Contacts []contacts.Contact }
	must16(yaml.Unmarshal(b, &file))
	fm := map[string]contacts.Contact{}
	for _, c := range file.Contacts {
		fm[c.UUID] = c
	}
	for _, p := range w.peers {
		m, f := contacts.Contacts[p.id], fm[p.id]
		if fmt.Sprintf("%+v", m) != fmt.Sprintf("%+v", f) {
			r.Violation("contacts", "the contact of %s is %+v in memory and %+v in the file", p.id, m, f)
		}
		if m.UUID != p.id || !refresh && (m.Tel != p.tel || m.Color == "") {
			r.Violation("contacts", "the contact of %s is %+v", p.id, m)
		}
		if !refresh && w.read[p.id] {
			if m.Username != "Name" || m.About != "About" {
				r.Violation("contacts", "the contact of %s is %+v, though its profile was read", p.id, m)
			}
			r.Event("contacts with a profile", 1)
		}
		if !refresh && !bytes.Equal(m.ProfileKey, p.told) {
			r.Violation("contacts", "the profile key of %s is %s, it told %s", p.id, base64.StdEncoding.EncodeToString(m.ProfileKey), base64.StdEncoding.EncodeToString(p.told))
		}
	}
	if len(w.e.faults) > 0 {
		r.Violation("contacts", "the contact discovery is asked wrongly: %s", w.e.faults)
	}
	w.cd.mu.Lock()
	defer w.cd.mu.Unlock()
	if len(w.cd.bad) > 0 {
		r.Violation("attachment", "the attachments are uploaded wrongly: %s", w.cd.bad)
	}
	r.Event("states compared", 1)
}
