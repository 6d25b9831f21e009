package textsecure

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// op18 is what the client process is told to do, res18 what came of it.
type op18 struct {
	Op, Hex, Name, Text string
	Members             []string
	Timer               uint32
	Data                []byte
	Credential          []byte
	Contacts            []contacts.Contact
}

type v2info struct {
	Title    string
	Revision uint32
	Members  []string
	Pending  int
	Status   int
	None     bool // nothing decrypted
	Action   []byte
	HasAct   bool
}

type v1info struct {
	Hex, Name string
	ID        string
	Members   []string
}

type res18 struct {
	Err, Pan string
	Ts       uint64
	V1       *v1info
	List     []v1info
	V2       *v2info
}

func memberText(u string, role signalservice.Member_Role, key []byte, joined uint32) string {
	return fmt.Sprintf("%s role %v key %x joined %d", u, role, key, joined)
}

func infoOf(g *groupsv2.GroupV2) *v2info {
	if g == nil {
		return nil
	}
	i := &v2info{Pending: len(g.GroupContext.PendingMembers)}
	if g.GroupAction != nil {
		b, _ := proto.Marshal(g.GroupAction)
		i.Action, i.HasAct = b, true
	}
	d := g.DecryptedGroup
	if d == nil {
		i.None = true
		return i
	}
	i.Title, i.Revision, i.Status = d.Title, d.Revision, g.JoinStatus
	for _, m := range d.Members {
		i.Members = append(i.Members, memberText(uuidString(m.Uuid), m.Role, m.ProfileKey, m.JoinedAtRevision))
	}
	return i
}

func v1Of(g *Group) *v1info {
	if g == nil {
		return nil
	}
	return &v1info{Hex: g.Hexid, Name: g.Name, ID: hex.EncodeToString(g.ID), Members: append([]string{}, g.Members...)}
}

// TestVerifC18Child is the client process: it starts from what is on disk and does what it is told.
func TestVerifC18Child(t *testing.T) {
	dir, url := os.Getenv("VERIF_C18_DIR"), os.Getenv("VERIF_C18_URL")
	if dir == "" {
		return
	}
	setupGlobals(dir)
	st, err := newStore("", dir)
	must16(err)
	textSecureStore = st
	identityKey, err = st.GetIdentityKeyPair()
	must16(err)
	deviceLists = map[string][]uint32{}
	(&sim{Server: &httptest.Server{URL: url}}).connect()
	newCDN().connect(url)
	must16(setupGroups())
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var o op18
		must16(json.Unmarshal(line, &o))
		var res res18
		res.Pan = vh.Try(func() { res = do18(o) })
		fmt.Printf("C18RES %s\n", js(res))
	}
}

func do18(o op18) (res res18) {
	var err error
	switch o.Op {
	case "config":
		config.ConfigFile.ProfileKeyCredential = o.Credential
		for _, c := range o.Contacts {
			contacts.Contacts[c.UUID] = c
		}
	case "send":
		res.Ts, err = SendGroupMessage(o.Hex, o.Text, o.Timer)
	case "attach":
		res.Ts, err = SendGroupAttachment(o.Hex, o.Text, bytes.NewReader(o.Data), o.Timer)
	case "voice":
		res.Ts, err = SendGroupVoiceNote(o.Hex, o.Text, bytes.NewReader(o.Data), o.Timer)
	case "new":
		var g *Group
		// a caller's list is the caller's: there may be more behind it
		l := make([]string, len(o.Members), len(o.Members)+3)
		copy(l, o.Members)
		g, err = NewGroup(o.Name, l)
		res.V1 = v1Of(g)
		if !reflect.DeepEqual(l, append([]string{}, o.Members...)) && len(l) > 0 {
			panic("the caller's list of members was changed")
		}
		for i := range l {
			l[i] = "changed later"
		}
		_ = append(l, "changed later")
	case "update":
		var g *Group
		l := make([]string, len(o.Members), len(o.Members)+3)
		copy(l, o.Members)
		g, err = UpdateGroup(o.Hex, o.Name, l)
		res.V1 = v1Of(g)
		_ = append(l, "changed later")
		for i := range l {
			l[i] = "changed later"
		}
	case "leave":
		err = LeaveGroup(o.Hex)
	case "info":
		var g *Group
		if g, err = GetGroupById(o.Hex); err == nil {
			err = RequestGroupInfo(g)
		}
	case "forget":
		err = RemoveGroupKey(o.Hex)
	case "list":
		for _, h := range o.Members {
			if g, err := GetGroupById(h); err == nil {
				res.List = append(res.List, *v1Of(g))
			}
		}
	case "handle":
		dm := &signalservice.DataMessage{}
		must16(proto.Unmarshal(o.Data, dm))
		var g *groupsv2.GroupV2
		g, err = groupsv2.HandleGroupsV2("", dm)
		res.V2 = infoOf(g)
	case "find":
		res.V2 = infoOf(groupsv2.FindGroup(o.Hex))
	case "members":
		var l []*signalservice.DecryptedMember
		l, err = groupsv2.GetGroupV2MembersForGroup(o.Hex)
		res.V2 = &v2info{}
		for _, m := range l {
			res.V2.Members = append(res.V2.Members, memberText(uuidString(m.Uuid), m.Role, m.ProfileKey, m.JoinedAtRevision))
		}
	case "join":
		var g *groupsv2.GroupV2
		g, err = JoinGroup(o.Hex)
		res.V2 = infoOf(g)
	case "age": // the credentials are of days gone by
		if c := groupsv2.Credentials; c != nil {
			for i := range c.Credentials {
				c.Credentials[i].RedemptionTime -= 9
			}
		}
	}
	if err != nil {
		res.Err = err.Error()
		if res.Err == "" {
			res.Err = "error"
		}
	}
	return res
}

// child is a running client process.
type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startChild(dir, url string) *child {
	c := &child{cmd: exec.Command(os.Args[0], "-test.run=^TestVerifC18Child$", "-test.timeout=10m")}
	c.cmd.Env = append(os.Environ(), "VERIF_C18_DIR="+dir, "VERIF_C18_URL="+url)
	c.cmd.Stderr = os.Stderr
	var err error
	c.in, err = c.cmd.StdinPipe()
	must16(err)
	out, err := c.cmd.StdoutPipe()
	must16(err)
	c.out = bufio.NewReaderSize(out, 1<<20)
	must16(c.cmd.Start())
	return c
}

func (c *child) stop() {
	c.in.Close()
	io.Copy(io.Discard, c.out)
	c.cmd.Wait()
}

type g1 struct {
	hex, name string
	members   []string // the others
	gone      bool
}

type c18 struct {
	r      *vh.R
	rd     *rand.Rand
	l      *local
	n      *network
	cd     *cdn
	gs     *groupServer
	ch     *child
	v1     []*g1
	v2     []*sgroup
	met    map[*sgroup]bool // the client was told of the group
	kicks  map[*sgroup]bool
	people []string // accounts
	tels   []string // accounts known by number
	byTel  map[string]string
	down   map[string]bool // accounts that no longer exist
	trace  []string
	dead   bool
	seq    int
}

func (c *c18) do(o op18) res18 {
	d := fmt.Sprintf("%s %.8s %q %v", o.Op, o.Hex, o.Name, o.Members)
	if o.Op == "list" || o.Op == "config" {
		d = o.Op
	}
	c.trace = append(c.trace, d)
	c.r.SetCase("%s", strings.Join(tailOf(c.trace, 12), "; "))
	var res res18
	if _, err := c.ch.in.Write(append(js(o), '\n')); err != nil {
		c.r.Violation("crash", "the client ended at %s", d)
		c.dead = true
		return res
	}
	for {
		line, err := c.ch.out.ReadBytes('\n')
		if err != nil {
			c.r.Violation("crash", "the client ended at %s", d)
			c.dead = true
			return res
		}
		if i := bytes.Index(line, []byte("C18RES ")); i >= 0 {
			must16(json.Unmarshal(line[i+7:], &res))
			break
		}
	}
	if res.Pan != "" {
		c.r.Violation("panic", "%s panics: %s", d, res.Pan)
		c.dead = true
	}
	return res
}

func (c *c18) list() []v1info {
	var h []string
	for _, g := range c.v1 {
		h = append(h, g.hex)
	}
	return c.do(op18{Op: "list", Members: h}).List
}

func sortedCopy(l []string) []string {
	s := append([]string{}, l...)
	sort.Strings(s)
	return s
}

// checkList compares the legacy groups with what was done to them.
func (c *c18) checkList(when string) []v1info {
	l := c.list()
	have := map[string]v1info{}
	for _, g := range l {
		have[g.Hex] = g
	}
	for _, g := range c.v1 {
		h, ok := have[g.hex]
		switch {
		case g.gone && ok:
			c.r.Violation("v1list", "%s: group %s, which was left, is still there: %+v", when, g.hex, h)
		case !g.gone && !ok:
			c.r.Violation("v1list", "%s: group %s (%q) is not there", when, g.hex, g.name)
		case !g.gone && (h.Name != g.name || h.ID != g.hex || !reflect.DeepEqual(sortedCopy(h.Members), sortedCopy(append([]string{simTel}, g.members...)))):
			c.r.Violation("v1list", "%s: group %s is %+v, should be %q with %v and us", when, g.hex, h, g.name, g.members)
		}
		c.r.Event("legacy groups compared", 1)
	}
	return l
}

func (c *c18) restart() {
	var l0 []v1info
	var f0 []*v2info
	if !c.dead {
		l0 = c.checkList("before a restart")
		for _, g := range c.v2 {
			f0 = append(f0, c.do(op18{Op: "find", Hex: g.hexid()}).V2)
		}
	}
	c.ch.stop()
	c.trace = append(c.trace, "RESTART")
	c.ch = startChild(c.l.dir, c.n.URL)
	c.do(c.setup())
	if c.dead {
		return
	}
	c.r.Event("restarts", 1)
	// groups are looked up in any order
	for _, i := range c.rd.Perm(len(c.v2)) {
		g := c.v2[i]
		f := c.do(op18{Op: "find", Hex: g.hexid()}).V2
		a, b := js(f0[i]), js(f)
		if f0[i] != nil {
			f0[i].Action, f0[i].HasAct = nil, false
			a = js(f0[i])
		}
		if f != nil {
			f.Action, f.HasAct = nil, false
			b = js(f)
		}
		if !bytes.Equal(a, b) {
			c.r.Violation("v2restart", "group %s is %s before a restart and %s after it", g.hexid(), a, b)
		}
		c.r.Event("current groups compared across a restart", 1)
	}
	l1 := c.checkList("after a restart")
	if !reflect.DeepEqual(l0, l1) {
		c.r.Violation("v1restart", "the legacy groups are %+v before a restart and %+v after it", l0, l1)
	}
}

func (c *c18) setup() op18 {
	o := op18{Op: "config", Credential: c.gs.credential(simUUID, config.ConfigFile.ProfileKey)}
	for tel, u := range c.byTel {
		o.Contacts = append(o.Contacts, contacts.Contact{UUID: u, Tel: tel, Name: "n"})
	}
	return o
}

// fanout compares the messages that arrived with the ones that should have: one for each of want.
func (c *c18) fanout(what string, res res18, want []string, check func(dm *signalservice.DataMessage) string) {
	r := c.r
	got := map[string]int{}
	var first *signalservice.DataMessage
	ts := uint64(0)
	var trans []*signalservice.SyncMessage_Sent
	for _, a := range c.n.takeAccepted() {
		data := false
		for _, d := range a.del {
			if s := d.content.GetSyncMessage().GetSent(); s != nil {
				trans = append(trans, s)
			}
			dm := d.content.GetDataMessage()
			if dm == nil {
				if a.acct != simUUID {
					r.Violation("content", "%s: %s gets %v", what, a.acct, d.content)
				}
				continue
			}
			data = true
			if check == nil { // a notice
				continue
			}
			if d := check(dm); d != "" {
				r.Violation("content", "%s: %s gets %s", what, a.acct, d)
			}
			if first == nil {
				first, ts = dm, dm.GetTimestamp()
			} else if !proto.Equal(first, dm) {
				r.Violation("content", "%s: the copies differ: %v and %v", what, first, dm)
			}
			if a.ts != dm.GetTimestamp() {
				r.Violation("timestamp", "%s: sent with timestamp %d, has %d", what, a.ts, dm.GetTimestamp())
			}
		}
		if data {
			got[a.acct]++
			r.Event("copies received", 1)
		}
	}
	if check != nil && first != nil {
		c.transcripts(what, trans, got, first)
	}
	failed := false
	for _, w := range want {
		if c.down[w] {
			failed = true
			if got[w] != 0 {
				panic("delivered to nobody")
			}
			continue
		}
		if got[w] != 1 {
			r.Violation("fanout", "%s: member %s gets it %d times (members %v, not there %v; result %q)", what, w, got[w], want, c.down, res.Err)
		}
		delete(got, w)
	}
	for a, k := range got {
		r.Violation("fanout", "%s: %s, who is not among %v, gets it (%d)", what, a, want, k)
	}
	if failed && res.Err == "" {
		r.Violation("unreported", "%s: some of %v are not there (%v), but no error is reported", what, want, c.down)
	}
	if !failed && res.Err != "" {
		r.Violation("error", "%s to %v fails: %s", what, want, res.Err)
	}
	if !failed && len(want) > 0 && res.Ts != 0 && res.Ts != ts {
		r.Violation("timestamp", "%s: reported timestamp %d, sent %d", what, res.Ts, ts)
	}
}

// transcripts compares what our linked device was told of with the copies that arrived.
func (c *c18) transcripts(what string, trans []*signalservice.SyncMessage_Sent, got map[string]int, first *signalservice.DataMessage) {
	told := map[string]int{}
	for _, s := range trans {
		told[s.GetDestinationUuid()+s.GetDestinationE164()]++
		if !proto.Equal(s.GetMessage(), first) || s.GetTimestamp() != first.GetTimestamp() {
			c.r.Violation("transcript", "%s: our linked device is told of %v, sent was %v", what, s, first)
		}
		c.r.Event("transcripts", 1)
	}
	for a, k := range got {
		if want := map[bool]int{true: k}[c.n.needsSync(a)]; told[a] != want {
			c.r.Violation("transcript", "%s: our linked device gets %d transcripts of what %s got, the server asked for %d", what, told[a], a, want)
		}
	}
}

// none: nothing must have been sent, and an error reported.
func (c *c18) none(what string, res res18) {
	if res.Err == "" {
		c.r.Violation("unreported", "%s reports no error", what)
	}
	for _, a := range c.n.takeAccepted() {
		if a.acct != simUUID {
			c.r.Violation("fanout", "%s sends to %s", what, a.acct)
		}
	}
	c.r.Event("messages not sent", 1)
}

func has(l []gmember, u string) bool {
	for _, m := range l {
		if m.uuid == u {
			return true
		}
	}
	return false
}

func others18(l []gmember) []string {
	var o []string
	for _, m := range l {
		if m.uuid != simUUID {
			o = append(o, m.uuid)
		}
	}
	return o
}

// knows compares what the client has of a group with what it was last given.
func (c *c18) knows(what string, g *sgroup, i *v2info) {
	if i == nil {
		c.r.Violation("v2state", "%s: group %s is not there", what, g.hexid())
		return
	}
	if g.given == nil || g.refused {
		return
	}
	var m []string
	for _, x := range g.given.members {
		m = append(m, memberText(x.uuid, x.role, x.key, x.joined))
	}
	if i.None || i.Title != g.given.title || i.Revision != g.given.revision || !reflect.DeepEqual(i.Members, m) {
		c.r.Violation("v2state", "%s: group %s is %+v, the server gave title %q, revision %d, members %v", what, g.hexid(), *i, g.given.title, g.given.revision, m)
	}
	c.r.Event("current groups compared", 1)
}

var names18 = []string{"friends", "", "héllo", "~", "true", "0x1f", "a: b", "- x", "#c", "line\nline", " lead", "\"q\"", "日本", strings.Repeat("n", 300), "\u0085", "\xff\xfe", "1e3", "null", "avatar"}

func (c *c18) pick(from []string, n int) []string {
	p := c.rd.Perm(len(from))
	var l []string
	for i := 0; i < n && i < len(p); i++ {
		l = append(l, from[p[i]])
	}
	return l
}

func (c *c18) live() *g1 {
	var l []*g1
	for _, g := range c.v1 {
		if !g.gone {
			l = append(l, g)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[c.rd.Intn(len(l))]
}

func dedup(l []string) []string {
	var o []string
	m := map[string]bool{simTel: true}
	for _, x := range l {
		if !m[x] {
			o = append(o, x)
		}
		m[x] = true
	}
	return o
}

// send sends a message to a group; want nil: nothing must be sent.
func (c *c18) send(hexid string, want []string, v2 *sgroup) {
	rd := c.rd
	c.seq++
	o := op18{Op: []string{"send", "send", "attach", "voice"}[rd.Intn(4)], Hex: hexid, Text: fmt.Sprint([]string{"", "hi ", "日本 "}[rd.Intn(3)], c.seq), Timer: []uint32{0, 1000, 2000, 65535, 65536, 604800, 1<<24 + 1, 1<<32 - 1}[rd.Intn(8)]}
	if o.Op == "voice" || o.Op == "attach" && rd.Intn(4) == 0 {
		o.Text = ""
	}
	if o.Op != "send" {
		o.Data = vh.Bytes(rd, 1+rd.Intn(3000))
	}
	res := c.do(o)
	if c.dead {
		return
	}
	what := fmt.Sprintf("%s to group %.8s", o.Op, hexid)
	if want == nil {
		c.none(what, res)
		return
	}
	c.fanout(what, res, want, func(dm *signalservice.DataMessage) string {
		if dm.GetBody() != o.Text || dm.GetExpireTimer() != o.Timer || dm.GetFlags() != 0 {
			return fmt.Sprintf("%v for %q timer %d", dm, o.Text, o.Timer)
		}
		if (len(dm.Attachments) == 1) != (o.Op != "send") || len(dm.Attachments) > 1 {
			return fmt.Sprintf("%d attachments", len(dm.Attachments))
		}
		if len(dm.Attachments) == 1 {
			if b, err := c.cd.open(dm.Attachments[0]); err != nil || !bytes.Equal(b, o.Data) {
				return fmt.Sprintf("an attachment of %d bytes (%v), not %d", len(b), err, len(o.Data))
			}
		}
		if v2 == nil {
			if dm.GroupV2 != nil {
				return "a message of another group"
			}
			return ""
		}
		if !bytes.Equal(dm.GetGroupV2().GetMasterKey(), v2.master) || dm.GetGroupV2().GetRevision() != v2.given.revision || len(dm.GetGroupV2().GetGroupChange()) != 0 {
			return fmt.Sprintf("group %v instead of key %x revision %d", dm.GroupV2, v2.master, v2.given.revision)
		}
		return ""
	})
	c.r.Event("group messages sent", 1)
}

func (c *c18) legacy() {
	rd, r := c.rd, c.r
	g := c.live()
	switch v := rd.Intn(10); {
	case v < 2 || g == nil:
		m := c.pick(c.tels, rd.Intn(len(c.tels)+1))
		if rd.Intn(4) == 0 && len(m) > 0 {
			m = append(m, m[0])
		}
		if rd.Intn(4) == 0 {
			m = append(m, simTel)
		}
		name := names18[rd.Intn(len(names18))]
		res := c.do(op18{Op: "new", Name: name, Members: m})
		if c.dead {
			return
		}
		if res.V1 == nil {
			r.Violation("v1list", "creating a group with %v gives none: %s", m, res.Err)
			return
		}
		if res.V1.Hex != res.V1.ID || res.V1.Name != jsonString(name) {
			r.Violation("v1list", "creating group %q gives %+v", name, *res.V1)
		}
		for _, o := range c.v1 {
			if o.hex == res.V1.Hex {
				r.Violation("v1list", "a new group has the id of another: %s", o.hex)
			}
		}
		c.v1 = append(c.v1, &g1{hex: res.V1.Hex, name: jsonString(name), members: dedup(m)})
		c.fanout("creating a group", res, dedup(m), nil)
		r.Event("legacy groups created", 1)
	case v < 4:
		m := append([]string{}, g.members...)
		if rd.Intn(2) == 0 {
			m = c.pick(c.tels, rd.Intn(len(c.tels)+1))
		}
		if rd.Intn(3) == 0 {
			m = append(m, simTel)
		}
		name := names18[rd.Intn(len(names18))]
		blocked := rd.Intn(6) == 0
		path := filepath.Join(c.l.dir, "groups", g.hex)
		var old []byte
		if blocked { // the state cannot be written
			old, _ = os.ReadFile(path)
			os.Remove(path)
			must16(os.MkdirAll(filepath.Join(path, "x"), 0700))
		}
		res := c.do(op18{Op: "update", Hex: g.hex, Name: name, Members: m})
		if c.dead {
			return
		}
		if blocked {
			must16(os.RemoveAll(path))
			must16(os.WriteFile(path, old, 0600))
			if res.Err == "" {
				r.Violation("unreported", "updating group %s, whose state cannot be stored, reports no error", g.hex)
			}
			c.n.takeAccepted()
			// once more, so that the state is a known one
			res = c.do(op18{Op: "update", Hex: g.hex, Name: name, Members: m})
			if c.dead {
				return
			}
			r.Event("states that cannot be stored", 1)
		}
		g.name, g.members = jsonString(name), dedup(m)
		c.fanout("updating a group", res, g.members, nil)
		r.Event("legacy groups updated", 1)
	case v == 4:
		res := c.do(op18{Op: "leave", Hex: g.hex})
		if c.dead {
			return
		}
		c.fanout("leaving a group", res, g.members, nil)
		if res.Err == "" {
			g.gone = true
			r.Event("legacy groups left", 1)
		}
	case v == 5 && rd.Intn(2) == 0:
		if res := c.do(op18{Op: "info", Hex: g.hex}); !c.dead {
			c.fanout("asking about a group", res, g.members, nil)
			r.Event("legacy groups asked about", 1)
		}
	case v == 5 && rd.Intn(3) == 0:
		if res := c.do(op18{Op: "forget", Hex: g.hex}); res.Err != "" {
			r.Violation("error", "removing group %s: %s", g.hex, res.Err)
		}
		g.gone = true
	case v == 6: // unknown, or left
		h := hex.EncodeToString(vh.Bytes(rd, 16))
		for _, o := range c.v1 {
			if o.gone && rd.Intn(2) == 0 {
				h = o.hex
			}
		}
		if rd.Intn(3) > 0 {
			c.send(h, nil, nil)
			return
		}
		op := []string{"update", "leave"}[rd.Intn(2)]
		res := c.do(op18{Op: op, Hex: h, Name: "n", Members: c.tels})
		if !c.dead {
			c.none(op+" of unknown group "+h, res)
		}
	default:
		want := []string{}
		for _, m := range g.members {
			if u, ok := c.byTel[m]; ok && u != "" && u != "0" {
				m = u
			}
			want = append(want, m)
		}
		c.send(g.hex, want, nil)
	}
}

// jsonString is what becomes of a string on its way through JSON.
func jsonString(s string) string {
	var o string
	must16(json.Unmarshal(js(s), &o))
	return o
}

// mutate changes a group at the server and gives the change.
func (c *c18) mutate(g *sgroup) (*signalservice.GroupChange_Actions, *signalservice.DecryptedGroupChange) {
	rd, gs := c.rd, c.gs
	g.revision++
	by := g.members[0].uuid
	a := &signalservice.GroupChange_Actions{SourceUuid: g.sealUUID(by), Revision: g.revision}
	d := &signalservice.DecryptedGroupChange{Revision: g.revision}
	for k := 1 + rd.Intn(3); k > 0; k-- {
		switch rd.Intn(5) {
		case 0: // somebody is added
			u := c.people[rd.Intn(len(c.people))]
			if has(g.members, u) || has(g.pending, u) {
				continue
			}
			m := gmember{uuid: u, role: signalservice.Member_Role(1 + rd.Intn(2)), key: vh.Bytes(rd, 32), joined: g.revision}
			g.members = append(g.members, m)
			x := &signalservice.Member{Role: m.role, JoinedAtRevision: g.revision}
			if rd.Intn(2) == 0 {
				x.Presentation = gs.presentation(g, u, m.key)
			} else {
				x.UserId, x.ProfileKey = g.sealUUID(u), gs.sealKey(g, u, m.key)
			}
			a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: x})
			d.NewMembers = append(d.NewMembers, &signalservice.DecryptedMember{Uuid: uuidBytes(u), Role: m.role, ProfileKey: m.key, JoinedAtRevision: g.revision})
		case 1: // somebody is removed
			if len(g.members) < 2 {
				continue
			}
			i := 1 + rd.Intn(len(g.members)-1)
			u := g.members[i].uuid
			if u == simUUID && rd.Intn(3) > 0 {
				continue
			}
			touched := false
			for _, x := range d.NewMembers {
				touched = touched || bytes.Equal(x.Uuid, uuidBytes(u))
			}
			for _, x := range d.ModifyMemberRoles {
				touched = touched || bytes.Equal(x.Uuid, uuidBytes(u))
			}
			if touched {
				continue
			}
			g.members = append(append([]gmember{}, g.members[:i]...), g.members[i+1:]...)
			a.DeleteMembers = append(a.DeleteMembers, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: g.sealUUID(u)})
			d.DeleteMembers = append(d.DeleteMembers, uuidBytes(u))
		case 2:
			i := rd.Intn(len(g.members))
			ro := signalservice.Member_Role(1 + rd.Intn(2))
			g.members = append([]gmember{}, g.members...)
			g.members[i].role = ro
			u := g.members[i].uuid
			a.ModifyMemberRoles = append(a.ModifyMemberRoles, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: g.sealUUID(u), Role: ro})
			d.ModifyMemberRoles = append(d.ModifyMemberRoles, &signalservice.DecryptedModifyMemberRole{Uuid: uuidBytes(u), Role: ro})
		case 3:
			u := uuidOf(rd)
			if rd.Intn(3) == 0 && !has(g.members, simUUID) && !has(g.pending, simUUID) {
				u = simUUID
			}
			g.pending = append(append([]gmember{}, g.pending...), gmember{uuid: u, role: 1})
			x := &signalservice.PendingMember{Member: &signalservice.Member{UserId: g.sealUUID(u), Role: 1}, AddedByUserId: g.sealUUID(by), Timestamp: uint64(rd.Int63())}
			a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: x})
			d.NewPendingMembers = append(d.NewPendingMembers, &signalservice.DecryptedPendingMember{Uuid: uuidBytes(u), Role: 1, AddedByUuid: uuidBytes(by), Timestamp: x.Timestamp, UuidCipherText: x.Member.UserId})
		case 4:
			g.title = title18(rd, fmt.Sprint("title ", rd.Intn(1000), strings.Repeat(" long", rd.Intn(30))))
			a.ModifyTitle = &signalservice.GroupChange_Actions_ModifyTitleAction{Title: g.blob(&signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_Title{Title: g.title}})}
		}
	}
	return a, d
}

// title18 makes a title an unusual one, now and then.
func title18(rd *rand.Rand, t string) string {
	switch rd.Intn(8) {
	case 0:
		return " " + t + " "
	case 1:
		return strings.ReplaceAll(t, " ", "\u3000")
	case 2:
		return "\u00a0" + t + "\u00a0"
	case 3:
		return "👪🏽 " + t + " é e\u0301"
	case 4:
		return "\"" + t + "\": ~ #"
	}
	return t
}

// outage lets the group server fail: the group stays what it was.
func (c *c18) outage(g *sgroup) {
	rd, r := c.rd, c.r
	k := rd.Intn(7)
	a := sresp{Status: []int{401, 404, 409, 429, 500, 503, 0}[k], Drop: k == 6}
	g.answer = func() (sresp, bool) { return a, true }
	defer func() { g.answer = nil }()
	was, q := g.given, g.queries
	var l []string
	for _, x := range was.members {
		l = append(l, memberText(x.uuid, x.role, x.key, x.joined))
	}
	if rd.Intn(2) == 0 {
		res := c.do(op18{Op: "members", Hex: g.hexid()})
		if c.dead {
			return
		}
		if res.Err == "" && !reflect.DeepEqual(res.V2.Members, l) {
			r.Violation("v2state", "the members of %s are %v while the group server answers %+v, it gave %v before", g.hexid(), res.V2, a, l)
		}
	} else {
		rev := was.revision + 1
		res := c.do(op18{Op: "handle", Hex: g.hexid(), Data: pbBytes(&signalservice.DataMessage{GroupV2: &signalservice.GroupContextV2{MasterKey: g.master, Revision: &rev}})})
		if c.dead {
			return
		}
		c.n.takeAccepted()
		if res.Err == "" {
			c.knows(fmt.Sprintf("after a message while the group server answers %+v", a), g, res.V2)
		}
	}
	if g.queries > q {
		r.Event("group server out of order", 1)
	}
	want := others18(was.members)
	if len(want) == 0 {
		want = []string{}
	}
	c.send(g.hexid(), want, g)
}

// sameAction compares the parts of a change that are reported.
func sameAction(have, want *signalservice.DecryptedGroupChange) string {
	if have.GetRevision() != want.GetRevision() {
		return fmt.Sprintf("revision %d, not %d", have.GetRevision(), want.GetRevision())
	}
	for _, x := range []struct {
		n    string
		a, b proto.Message
	}{
		{"new members", &signalservice.DecryptedGroupChange{NewMembers: have.NewMembers}, &signalservice.DecryptedGroupChange{NewMembers: want.NewMembers}},
		{"removed members", &signalservice.DecryptedGroupChange{DeleteMembers: have.DeleteMembers}, &signalservice.DecryptedGroupChange{DeleteMembers: want.DeleteMembers}},
		{"roles", &signalservice.DecryptedGroupChange{ModifyMemberRoles: have.ModifyMemberRoles}, &signalservice.DecryptedGroupChange{ModifyMemberRoles: want.ModifyMemberRoles}},
		{"invited", &signalservice.DecryptedGroupChange{NewPendingMembers: have.NewPendingMembers}, &signalservice.DecryptedGroupChange{NewPendingMembers: want.NewPendingMembers}},
	} {
		if !proto.Equal(x.a, x.b) {
			return fmt.Sprintf("%s: %v, not %v", x.n, x.a, x.b)
		}
	}
	return ""
}

func (c *c18) current() {
	rd, r := c.rd, c.r
	g := c.v2[rd.Intn(len(c.v2))]
	switch v := rd.Intn(13); {
	case v == 12:
		if c.met[g] && g.given != nil && !g.refused && has(g.given.members, simUUID) && c.gs.usable() {
			c.outage(g)
		}
	case v < 4: // a message of the group arrives
		rev := g.revision
		cx := &signalservice.GroupContextV2{MasterKey: g.master, Revision: &rev}
		var want *signalservice.DecryptedGroupChange
		forged := false
		if rd.Intn(2) == 0 {
			var a *signalservice.GroupChange_Actions
			a, want = c.mutate(g)
			rev = g.revision
			cx.GroupChange = c.gs.change(a)
			if rd.Intn(6) == 0 { // somebody else signed it, or it was altered
				forged = true
				x := &signalservice.GroupChange{}
				must16(proto.Unmarshal(cx.GroupChange, x))
				switch rd.Intn(4) {
				case 0:
					x.ServerSignature = nil
				case 1:
					x.ServerSignature[rd.Intn(len(x.ServerSignature))] ^= 1 << uint(rd.Intn(8))
				case 2:
					x.ServerSignature = vh.Bytes(rd, len(x.ServerSignature))
				case 3:
					x.Actions = append(x.Actions, pbBytes(&signalservice.GroupChange_Actions{DeleteMembers: []*signalservice.GroupChange_Actions_DeleteMemberAction{{DeletedUserId: g.sealUUID(g.members[0].uuid)}}})...)
				}
				cx.GroupChange = pbBytes(x)
			}
		} else if rd.Intn(2) == 0 {
			c.mutate(g)
			rev = g.revision
		}
		if rd.Intn(8) == 0 && rev > 0 {
			rev-- // from somebody who does not know of the last change yet
		}
		q, before := g.queries, g.given
		res := c.do(op18{Op: "handle", Hex: g.hexid(), Data: pbBytes(&signalservice.DataMessage{GroupV2: cx})})
		if c.dead {
			return
		}
		c.met[g] = true
		c.n.takeAccepted()
		if forged {
			if res.Err == "" {
				r.Violation("signature", "a change of group %s that the server did not sign is accepted: %+v", g.hexid(), res.V2)
			}
			r.Event("changes that the server did not sign", 1)
			return
		}
		if res.Err != "" {
			r.Violation("error", "a message of group %s (revision %d, change %v) fails: %s", g.hexid(), rev, want, res.Err)
			return
		}
		if g.queries == q && (before == nil || before.revision != rev) && c.gs.usable() {
			r.Violation("v2state", "a message of revision %d of group %s, known in revision %v, does not bring it up to date", rev, g.hexid(), before)
		}
		if c.gs.usable() {
			c.knows("after a message", g, res.V2)
		}
		if want == nil {
			if res.V2 != nil && res.V2.HasAct {
				r.Violation("action", "a message of group %s without a change is reported with change %x", g.hexid(), res.V2.Action)
			}
			r.Event("messages without a change", 1)
			return
		}
		have := &signalservice.DecryptedGroupChange{}
		if res.V2 == nil || !res.V2.HasAct || proto.Unmarshal(res.V2.Action, have) != nil {
			r.Violation("action", "change %v of group %s is not reported", want, g.hexid())
			return
		}
		if d := sameAction(have, want); d != "" {
			r.Violation("action", "a change of group %s is reported with %s", g.hexid(), d)
		}
		r.Event("changes reported", 1)
	case v == 4:
		c.mutate(g) // nobody tells
	case v == 5:
		if !c.met[g] {
			return
		}
		res := c.do(op18{Op: "members", Hex: g.hexid()})
		if c.dead || g.given == nil || g.refused {
			return
		}
		var m []string
		for _, x := range g.given.members {
			m = append(m, memberText(x.uuid, x.role, x.key, x.joined))
		}
		if res.Err != "" || !reflect.DeepEqual(res.V2.Members, m) {
			r.Violation("v2state", "the members of %s are %v (%s), the server gave %v", g.hexid(), res.V2, res.Err, m)
		}
	case v == 6:
		for _, o := range c.v2 {
			if c.met[o] && has(o.pending, simUUID) {
				g = o
			}
		}
		c.join(g)
	case v == 7 && rd.Intn(2) == 0:
		c.do(op18{Op: "age"})
		r.Event("credentials that have run out", 1)
	default:
		if !c.met[g] {
			c.send(g.hexid(), nil, g)
			return
		}
		if g.given == nil || g.refused || !has(g.given.members, simUUID) {
			c.send(g.hexid(), nil, g)
			if g.refused {
				r.Event("messages to groups we were removed from", 1)
			}
			return
		}
		want := others18(g.given.members)
		if len(want) == 0 {
			want = []string{}
		}
		c.send(g.hexid(), want, g)
	}
}

// join accepts an invitation.
func (c *c18) join(g *sgroup) {
	rd, r := c.rd, c.r
	invited := has(g.pending, simUUID)
	fail := rd.Intn(4) == 0
	if fail {
		c.gs.patch = func() (sresp, bool) { return sresp{Status: []int{400, 403, 409, 500}[rd.Intn(4)]}, true }
	}
	n := len(g.patches)
	res := c.do(op18{Op: "join", Hex: g.hexid()})
	c.gs.patch = nil
	if c.dead {
		return
	}
	what := "joining group " + g.hexid()
	switch {
	case !c.met[g], !invited, fail:
		if res.Err == "" {
			r.Violation("unreported", "%s reports no error (known %v, invited %v, refused by the server %v)", what, c.met[g], invited, fail)
		}
		if len(g.patches) != n {
			r.Violation("join", "%s without an invitation changes the group", what)
		}
		if fail && invited && c.met[g] && res.V2 != nil && res.V2.Status == groupsv2.GroupV2JoinsStatusMember {
			r.Violation("join", "%s is refused by the server, but we are a member of it", what)
		}
		r.Event("groups not joined", 1)
	default:
		if res.Err != "" {
			r.Violation("error", "%s fails: %s", what, res.Err)
			return
		}
		if len(g.patches) != n+1 || !has(g.members, simUUID) {
			r.Violation("join", "%s makes %d changes, and we are a member: %v", what, len(g.patches)-n, has(g.members, simUUID))
		}
		c.knows("after joining", g, res.V2)
		if res.V2 != nil && res.V2.Status != groupsv2.GroupV2JoinsStatusMember {
			r.Violation("join", "%s leaves us with status %d", what, res.V2.Status)
		}
		r.Event("groups joined", 1)
	}
}

func c18case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, "")
	defer done()
	if rd.Intn(4) == 0 { // wherever the storage directory is
		d := filepath.Join(l.dir, []string{"avatars", "my groups", "groupsv2", "日本"}[rd.Intn(4)])
		must16(os.Mkdir(d, 0700))
		for _, e := range []string{"identity", "prekeys", "signed_prekeys", "sessions", "sendersessions", "verifkeep"} {
			os.Rename(filepath.Join(l.dir, e), filepath.Join(d, e))
		}
		es, _ := os.ReadDir(l.dir)
		for _, e := range es {
			if e.Name() != filepath.Base(d) {
				os.Rename(filepath.Join(l.dir, e.Name()), filepath.Join(d, e.Name()))
			}
		}
		l.dir = d
		config.ConfigFile.StorageDir = d
		r.Event("unusual storage directories", 1)
	}
	c := &c18{r: r, rd: rd, l: l, cd: newCDN(), gs: newGroupServer(rd), met: map[*sgroup]bool{}, byTel: map[string]string{}, down: map[string]bool{}}
	var accts []*account
	for k := 3 + rd.Intn(4); k > 0; k-- {
		id := []byte(uuidOf(rd))
		switch rd.Intn(6) {
		case 0:
			id[0], id[len(id)-1] = '0', '0'
		case 1:
			id[0] = '0'
		}
		a := newAccount(rd, string(id), 1)
		if rd.Intn(3) == 0 {
			a.add(uint32(2 + rd.Intn(4)))
		}
		accts = append(accts, a)
		c.people = append(c.people, a.id)
	}
	for k := 2 + rd.Intn(3); k > 0; k-- {
		a := newAccount(rd, telOf(rd), 1)
		accts = append(accts, a)
		c.tels = append(c.tels, a.id)
		if rd.Intn(2) == 0 && k < len(c.people) { // an account has one number
			c.byTel[a.id] = c.people[k]
		} else if rd.Intn(3) == 0 {
			c.byTel[a.id] = []string{"0", ""}[rd.Intn(2)]
		}
	}
	if rd.Intn(2) == 0 { // an account that is no more
		d := c.people[rd.Intn(len(c.people))]
		c.down[d] = true
	}
	if rd.Intn(4) == 0 {
		c.down[c.tels[0]] = true
	}
	me2 := newAccount(rd, simUUID, 2)
	me2.ident = l.party.S.Identity
	me2.devs[2].S.Identity = l.party.S.Identity
	me2.devs[2].NewSigned()
	me2.devs[1] = l.party
	accts = append(accts, me2)
	c.n = newNetwork(r, rd, l.party, accts...)
	defer c.n.Close()
	linked := rd.Intn(2) == 0
	c.n.needsSync = func(a string) bool { return linked && a != simUUID }
	for d := range c.down {
		delete(c.n.acct, d)
	}
	c.n.override = func(n *network, q sreq) (sresp, bool) {
		if a, ok := c.cd.serve(q); ok {
			return a, true
		}
		return c.gs.serve(q)
	}
	c.cd.connect(c.n.URL)
	for k := 1 + rd.Intn(3); k > 0; k-- {
		m := c.pick(c.people, 1+rd.Intn(len(c.people)))
		in := rd.Intn(4)
		if in > 0 {
			m = append(m, simUUID)
			rd.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		}
		g := c.gs.create(title18(rd, fmt.Sprint("group ", k)), m...)
		if in == 0 && rd.Intn(3) > 0 {
			g.pending = append(g.pending, gmember{uuid: simUUID, role: 1})
		}
		c.v2 = append(c.v2, g)
	}
	c.ch = startChild(c.l.dir, c.n.URL)
	defer func() { c.ch.stop() }()
	c.do(c.setup())
	for k, lives := 0, 2+rd.Intn(3); k < lives && !c.dead && !r.Failed(); k++ {
		for s := 6 + rd.Intn(12); s > 0 && !c.dead && !r.Failed(); s-- {
			if rd.Intn(5) < 2 {
				c.legacy()
			} else {
				c.current()
			}
		}
		if !c.dead && !r.Failed() {
			c.restart()
		}
	}
	sort.Strings(c.gs.bad)
	if len(c.gs.bad) > 0 {
		r.Violation("groupserver", "the group server saw: %s", c.gs.bad[0])
	}
	if len(c.cd.bad) > 0 {
		r.Violation("upload", "the upload server saw: %s", c.cd.bad[0])
	}
	r.Eval(strings.Join(c.trace, ";"))
	r.Sample(map[string]interface{}{"case": i, "steps": len(c.trace), "groups": len(c.v2), "legacy": len(c.v1)})
}

func TestVerifC18(t *testing.T) {
	r := vh.Start(t, "C18", "histories of creating, updating, leaving and using legacy groups and of messages, signed changes, invitations and removals of current groups, in client processes that are restarted in between; every copy is decrypted by its recipients' devices and compared with the members the group server (a real one, with its own parameters) last told the client of")
	defer r.Finish()
	r.NoStop = true
	n := r.N(40, 500)
	for i := 0; i < n && !r.Failed(); i++ {
		c18case(r, i)
	}
	r.Require("copies received", n*10)
	r.Require("group messages sent", n*3)
	r.Require("transcripts", n)
	r.Require("messages not sent", n)
	r.Require("restarts", n)
	r.Require("legacy groups created", n)
	r.Require("legacy groups updated", n/2)
	r.Require("legacy groups left", n/4)
	r.Require("current groups compared", n)
	r.Require("changes reported", n/2)
	r.Require("group server out of order", n/8)
	r.Require("legacy groups asked about", n/4)
	r.Require("groups joined", n/20)
	r.Require("messages to groups we were removed from", n/20)
	r.Require("credentials that have run out", n/4)
}
