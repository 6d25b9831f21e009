package textsecure

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestVerifC25(t *testing.T) {
	r := vh.Start(t, "C25", "histories in which linked devices of the account ask for contacts and groups over the message socket, send transcripts, read markers and malformed synchronisation messages, while contacts, registrations and groups change and uploads, discoveries and messages fail now and then; every blob is decrypted at the delivery network and read record by record by the devices, and compared with what the application and the discovery enclaves hold")
	defer r.Finish()
	r.NoStop = true
	n := r.N(40, 600)
	for i := 0; i < n && !r.Failed(); i++ {
		c25case(r, i)
	}
	r.Require("contact requests answered", n)
	r.Require("contacts synchronised", n*5)
	r.Require("group requests answered", n)
	r.Require("groups synchronised", n)
	r.Require("requests that fail", n/2)
	r.Require("requests for something else", n/4)
	r.Require("transcripts", n/2)
	r.Require("read markers", n/4)
	r.Require("malformed synchronisation messages", n)
	r.Require("transcripts of our own messages", n)
	r.Require("requests to our other devices", n/8)
	r.Require("encoded names", n/2)
}

type c25 struct {
	*c26
	n  *network
	e  *enclave
	gr map[string]*v1g // by id

	decoded map[string]string // names as the address book has them
}

type v1g struct {
	name    string
	members []string
}

// text25 is a text that can be in a protocol message.
func text25(rd *rand.Rand) string {
	if rd.Intn(12) == 0 { // records around and beyond the lengths at which their prefix grows
		return strings.Repeat("x", []int{60, 100, 120, 16200, 16350, 40000, 65400, 70000}[rd.Intn(8)]+rd.Intn(120))
	}
	return strings.ToValidUTF8([]string{"", "Ann", "héllo wörld", "日本語", "👩‍👩‍👧", "a=41b", "1=41=42", "=20=", "a\nb", "\x00", " x ", strings.Repeat("long ", rd.Intn(400)), fmt.Sprintf("%x", vh.Bytes(rd, rd.Intn(80)))}[rd.Intn(13)], "?")
}

// quoted is a name the way some address books export it, and the name it stands for.
func quoted(rd *rand.Rand) (string, string) {
	plain := []string{"Jürgen Müßig Öst", "日本", "ééé"}[rd.Intn(3)]
	s := ""
	for _, b := range []byte(plain) {
		if b >= 0x80 {
			s += fmt.Sprintf("=%02X", b)
		} else {
			s += string(rune(b))
		}
	}
	return s, plain
}

// mine are the linked devices.
func (c *c25) mine() (l []uint32) {
	for _, d := range c.me.ids() {
		if d != 1 {
			l = append(l, d)
		}
	}
	return l
}

func (c *c25) book() {
	rd := c.rd
	c.a.contacts = nil
	for j, n := 0, []int{0, 1, 3, 12, 60}[rd.Intn(5)]; j < n; j++ {
		x := contacts.Contact{Tel: telOf(rd), Name: text25(rd), Color: []string{"", "red", "blue"}[rd.Intn(3)], Blocked: rd.Intn(2) == 0, ExpireTimer: []uint32{0, 1, 604800, 1<<32 - 1}[rd.Intn(4)]}
		if rd.Intn(4) == 0 {
			st := signalservice.Verified_State(rd.Intn(3))
			u := uuidOf(rd)
			x.Verified = &signalservice.Verified{State: &st, IdentityKey: vh.Bytes(rd, 33), DestinationUuid: &u}
		}
		switch rd.Intn(16) {
		case 2, 3:
			var plain string
			if x.Name, plain = quoted(rd); rd.Intn(3) == 0 {
				x.Name, plain = "1=zz, 2=yy, 3=xx", "" // no such encoding
			}
			if plain != "" {
				c.decoded[x.Name] = plain
			}
			c.r.Event("encoded names", 1)
		case 0:
			x.Tel = []string{"", "no number", "abc"}[rd.Intn(3)]
		case 1:
			if j > 0 { // somebody is in the address book twice
				x.Tel = c.a.contacts[rd.Intn(j)].Tel
			}
		}
		c.a.contacts = append(c.a.contacts, x)
	}
	c.users()
}

// users decides who is registered; some lose and some get accounts.
func (c *c25) users() {
	rd := c.rd
	for _, x := range c.a.contacts {
		var num int64
		if _, err := fmt.Sscan(strings.TrimPrefix(x.Tel, "+"), &num); err != nil {
			continue
		}
		switch {
		case rd.Intn(8) == 0:
			delete(c.e.users, num)
		case rd.Intn(3) > 0 && c.e.users[num] == [16]byte{}:
			var u [16]byte
			copy(u[:], uuidBytes(uuidOf(rd)))
			c.e.users[num] = u
		}
	}
	if rd.Intn(2) == 0 { // the application keeps what it was told last
		for i, x := range c.a.contacts {
			for _, k := range contacts.Contacts {
				if k.Tel == x.Tel {
					c.a.contacts[i].UUID, c.a.contacts[i].Registered = k.UUID, k.Registered
				}
			}
		}
	}
}

// want is what a linked device has to get: the first entry of every registered number.
func (c *c25) want() (recs []string, any bool) {
	seen := map[string]bool{}
	for _, x := range c.a.contacts {
		var num int64
		if !strings.HasPrefix(x.Tel, "+") || seen[x.Tel] {
			continue
		}
		if _, err := fmt.Sscan(x.Tel[1:], &num); err != nil {
			continue
		}
		seen[x.Tel], any = true, true
		u, ok := c.e.users[num]
		if !ok {
			continue
		}
		name := x.Name
		if p, ok := c.decoded[name]; ok {
			name = p
		}
		recs = append(recs, rec25(x.Tel, hex16(u), name, x.Color, x.Verified, x.Blocked, x.ExpireTimer))
	}
	sort.Strings(recs)
	return recs, any
}

func rec25(tel, uuid, name, color string, v *signalservice.Verified, blocked bool, timer uint32) string {
	return fmt.Sprintf("%s %s %q %q verified %v %v blocked %v timer %d", tel, strings.ToLower(uuid), name, color, v != nil, v, blocked, timer)
}

// records splits a blob into its length-delimited records, as a linked device does.
func records(b []byte) ([][]byte, error) {
	var l [][]byte
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		if k <= 0 || uint64(len(b)-k) < n {
			return nil, fmt.Errorf("record %d: length %d in %d bytes", len(l), n, len(b))
		}
		l = append(l, b[k:k+int(n)])
		b = b[k+int(n):]
	}
	return l, nil
}

// diff25 is what only one of the lists has.
func diff25(a, b []string) (string, string) {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	var more, less []string
	for x, k := range n {
		if k > 0 {
			more = append(more, x)
		} else if k < 0 {
			less = append(less, x)
		}
	}
	sort.Strings(more)
	sort.Strings(less)
	return strings.Join(more, "\n  "), strings.Join(less, "\n  ")
}

// ask lets a linked device send a request and gives what the linked devices got for it.
func (c *c25) ask(p *axh.Party, t signalservice.SyncMessage_Request_Type, sts uint64) ([]*signalservice.SyncMessage, bool) {
	r := c.r
	c.n.takeAccepted()
	ev, ok := c.say(p, contentBytes(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &t}}}), sts)
	if !ok {
		return nil, false
	}
	what := fmt.Sprintf("a request for %v of device %d", t, p.Dev)
	if len(ev) != 0 {
		r.Violation("dispatch", "%s is reported as %s", what, show26(ev))
	}
	var out []*signalservice.SyncMessage
	for _, a := range c.n.takeAccepted() {
		if a.acct != simUUID {
			r.Violation("leak", "%s makes us write to %s", what, a.acct)
			continue
		}
		if !reflect.DeepEqual(sortU(a.devs), sortU(c.mine())) {
			r.Violation("devices", "%s is answered to devices %v of %v", what, a.devs, c.mine())
		}
		var first *signalservice.Content
		for _, d := range a.del {
			if d.content.SyncMessage == nil {
				r.Violation("answer", "%s is answered with %v", what, d.content)
				continue
			}
			if first == nil {
				first = d.content
				out = append(out, first.SyncMessage)
			} else if !proto.Equal(first, d.content) {
				r.Violation("answer", "%s is answered to the devices differently: %v and %v", what, first, d.content)
			}
		}
	}
	return out, true
}

func sortU(l []uint32) []uint32 {
	o := append([]uint32{}, l...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// blob opens what a pointer points to, which must have been uploaded.
func (c *c25) blob(what string, p *signalservice.AttachmentPointer) ([][]byte, bool) {
	b, err := c.cd.open(p)
	if err != nil {
		c.r.Violation("blob", "%s: the blob %v cannot be opened: %v", what, p, err)
		return nil, false
	}
	l, err := records(b)
	if err != nil {
		c.r.Violation("blob", "%s: the blob of %d bytes cannot be read: %v", what, len(b), err)
		return nil, false
	}
	return l, true
}

func (c *c25) contactsReq(p *axh.Party, sts uint64, fail bool) {
	r := c.r
	want, any := c.want()
	out, ok := c.ask(p, signalservice.SyncMessage_Request_CONTACTS, sts)
	if !ok {
		return
	}
	what := fmt.Sprintf("a request for contacts (%d in the book, %d registered)", len(c.a.contacts), len(want))
	for _, f := range c.e.faults {
		r.Violation("request", "%s", f)
	}
	if fail || !any {
		if len(out) != 0 {
			r.Violation("answer", "%s whose answer cannot be given is answered with %v", what, out)
		}
		r.Event("requests that fail", 1)
		return
	}
	if len(out) != 1 || out[0].GetContacts().GetBlob() == nil {
		r.Violation("answer", "%s is answered with %v", what, out)
		return
	}
	l, ok := c.blob(what, out[0].Contacts.Blob)
	if !ok {
		return
	}
	var have []string
	for _, b := range l {
		d := &signalservice.ContactDetails{}
		if err := proto.Unmarshal(b, d); err != nil {
			r.Violation("blob", "%s: record %x: %v", what, b, err)
			return
		}
		have = append(have, rec25(d.GetNumber(), d.GetUuid(), d.GetName(), d.GetColor(), d.Verified, d.GetBlocked(), d.GetExpireTimer()))
	}
	sort.Strings(have)
	if !reflect.DeepEqual(have, want) && len(have)+len(want) > 0 {
		more, less := diff25(have, want)
		r.Violation("contacts", "%s is answered with\n  %s\ninstead of\n  %s", what, more, less)
	}
	r.Event("contact requests answered", 1)
	r.Event("contacts synchronised", len(want))
}

func (c *c25) groupsReq(p *axh.Party, sts uint64, fail bool) {
	r := c.r
	out, ok := c.ask(p, signalservice.SyncMessage_Request_GROUPS, sts)
	if !ok {
		return
	}
	what := fmt.Sprintf("a request for groups (%d)", len(c.gr))
	if fail {
		if len(out) != 0 {
			r.Violation("answer", "%s whose answer cannot be given is answered with %v", what, out)
		}
		r.Event("requests that fail", 1)
		return
	}
	if len(out) != 1 || out[0].GetGroups().GetBlob() == nil {
		r.Violation("answer", "%s is answered with %v", what, out)
		return
	}
	l, ok := c.blob(what, out[0].Groups.Blob)
	if !ok {
		return
	}
	show := func(id, name string, m []string) string {
		m = append([]string{}, m...)
		sort.Strings(m)
		return fmt.Sprintf("%s %q %v", id, name, m)
	}
	var have, want []string
	for _, b := range l {
		d := &signalservice.GroupDetails{}
		if err := proto.Unmarshal(b, d); err != nil {
			r.Violation("blob", "%s: record %x: %v", what, b, err)
			return
		}
		have = append(have, show(idToHexOf(d.Id), d.GetName(), d.MembersE164))
	}
	for id, g := range c.gr {
		want = append(want, show(id, g.name, append([]string{simTel}, g.members...)))
	}
	sort.Strings(have)
	sort.Strings(want)
	if !reflect.DeepEqual(have, want) && len(have)+len(want) > 0 {
		more, less := diff25(have, want)
		r.Violation("groups", "%s is answered with\n  %s\ninstead of\n  %s", what, more, less)
	}
	r.Event("group requests answered", 1)
	r.Event("groups synchronised", len(want))
}

func idToHexOf(b []byte) string { return fmt.Sprintf("%x", b) }

// groupsChange creates, changes and leaves legacy groups.
func (c *c25) groupsChange() {
	rd := c.rd
	var ids []string
	for id := range c.gr {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var m []string
	for k := []int{0, 1, 2, 5, 80}[rd.Intn(5)]; k > 0; k-- {
		m = append(m, telOf(rd))
	}
	name := text25(rd)
	switch {
	case len(ids) == 0 || rd.Intn(3) > 0:
		g, _ := NewGroup(name, m) // the members need not exist
		c.gr[g.Hexid] = &v1g{name, m}
	case rd.Intn(2) == 0:
		id := ids[rd.Intn(len(ids))]
		UpdateGroup(id, name, m)
		c.gr[id] = &v1g{name, m}
	default:
		id := ids[rd.Intn(len(ids))]
		if err := RemoveGroupKey(id); err != nil {
			c.r.Violation("groups", "group %s cannot be removed: %v", id, err)
		}
		delete(c.gr, id)
	}
	c.n.takeAccepted()
}

// failing makes one part of answering fail.
func (c *c25) failing() func() {
	bad := sresp{Status: []int{400, 401, 403, 404, 429, 500, 503}[c.rd.Intn(7)], Body: []byte("{}")}
	switch c.rd.Intn(3) {
	case 0:
		c.cd.form = func(map[string]interface{}) sresp { return bad }
	case 1:
		c.cd.alloc = func(string) sresp { return bad }
	default:
		c.cd.stored = func() sresp { return bad }
	}
	return func() { c.cd.form, c.cd.alloc, c.cd.stored = nil, nil, nil }
}

// malformed synchronisation messages of our own devices neither end the loop nor write to strangers.
func (c *c25) malformed(p *axh.Party, sts uint64) {
	r, rd := c.r, c.rd
	sm := &signalservice.SyncMessage{}
	c.random(sm, true)
	switch rd.Intn(6) {
	case 0:
		sm = &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{}}
	case 1:
		sm = &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{}}
		c.random(sm.Sent, true)
	case 2:
		sm = &signalservice.SyncMessage{Read: []*signalservice.SyncMessage_Read{{}, {}}}
	case 3:
		sm = &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{}}
	case 4:
		sm = &signalservice.SyncMessage{Verified: &signalservice.Verified{}}
		if rd.Intn(2) == 0 {
			c.random(sm.Verified, true)
		}
	}
	b := contentBytes(&signalservice.Content{SyncMessage: sm})
	if rd.Intn(4) == 0 {
		for k := 1 + rd.Intn(3); k > 0; k-- {
			b[rd.Intn(len(b))] ^= byte(1 << uint(rd.Intn(8)))
		}
	}
	ev, ok := c.say(p, b, sts)
	if !ok {
		return
	}
	for _, e := range ev {
		ct := &signalservice.Content{}
		if e.Kind != "syncsent" && e.Kind != "syncread" && proto.Unmarshal(b, ct) == nil && proto.Equal(ct, &signalservice.Content{SyncMessage: ct.SyncMessage}) {
			r.Violation("dispatch", "%s is reported as %s", short26(b), show26(ev))
		}
	}
	c.n.takeAccepted()
	for _, a := range append([]*account{c.me}, c.accts...) {
		for _, d := range a.ids() { // it may have ended sessions with anybody
			if !c.l.st.ContainsSession(a.id, d) {
				c.ended[fmt.Sprintf("%s_%d", a.id, d)] = true
			}
		}
	}
	r.Event("malformed synchronisation messages", 1)
}

// ours is a message that we send: our other devices get a transcript of it.
func (c *c25) ours() {
	r, rd := c.r, c.rd
	to := c.accts[rd.Intn(len(c.accts))].id
	text := text25(rd) + "."
	timer := uint32(rd.Intn(3) * 100)
	c.n.takeAccepted()
	var ts uint64
	var err error
	if !r.Safe("panic", "SendMessage", func() { ts, err = SendMessage(to, text, timer) }) {
		return
	}
	if err != nil {
		r.Violation("send", "a message to %s: %v", to, err)
		return
	}
	got := map[uint32]int{}
	var sent *signalservice.DataMessage
	for _, a := range c.n.takeAccepted() {
		for _, d := range a.del {
			if a.acct == to {
				sent = d.content.DataMessage
				continue
			}
			s := d.content.GetSyncMessage().GetSent()
			if a.acct != simUUID || s == nil {
				r.Violation("transcript", "a message to %s makes us send %v to %s", to, d.content, a.acct)
				continue
			}
			got[d.dev]++
			if s.GetDestinationUuid() != to || s.GetTimestamp() != ts || !proto.Equal(s.Message, sent) || s.Message.GetBody() != text || s.Message.GetExpireTimer() != timer {
				r.Violation("transcript", "the transcript of %q (time %d, timer %d) to %s is %v", text, ts, timer, to, s)
			}
		}
	}
	for _, d := range c.mine() {
		if got[d] != 1 {
			r.Violation("transcript", "device %d of ours gets %d transcripts of a message to %s", d, got[d], to)
		}
	}
	r.Event("transcripts of our own messages", 1)
}

func c25case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, []string{"", "pw"}[rd.Intn(2)])
	defer done()
	config.ConfigFile.AlwaysTrustPeerID = false
	registration.Registration.SignalingKey = nil
	crayfish.Instance = nil
	c := &c25{c26: &c26{r: r, rd: rd, l: l, a: newApp(), cd: newCDN(), gs: newGroupServer(rd), ended: map[string]bool{}, id: uint64(rd.Intn(100))}, gr: map[string]*v1g{}, decoded: map[string]string{}}
	setupGroupsV2(l.dir)
	groups = map[string]*Group{}
	must16(setupGroups())
	c.e = &enclave{rd: rd, users: map[int64][16]byte{}, n: 1 + rd.Intn(3), cookie: "c=1", seen: map[string]bool{}}
	c.me = &account{id: simUUID, ident: l.party.S.Identity, devs: map[uint32]*axh.Party{1: l.party}, rd: rd}
	for k := 1 + rd.Intn(3); k > 0; k-- {
		d := uint32(2 + rd.Intn(5))
		if c.me.devs[d] == nil {
			c.me.add(d)
		}
	}
	as := []*account{c.me}
	for k := 2; k > 0; k-- {
		a := newAccount(rd, uuidOf(rd), 1)
		if rd.Intn(2) == 0 {
			a.add(uint32(2 + rd.Intn(5)))
		}
		c.accts = append(c.accts, a)
		as = append(as, a)
	}
	c.n = newNetwork(r, rd, l.party, as...)
	defer c.n.Close()
	c.n.needsSync = func(a string) bool { return a != simUUID }
	c.n.override = func(n *network, q sreq) (sresp, bool) {
		if a, ok := c.cd.serve(q); ok {
			return a, true
		}
		if a, ok := c.gs.serve(q); ok {
			return a, true
		}
		if strings.HasPrefix(q.Path, "/v1/directory/") || strings.HasPrefix(q.Path, "/v1/attestation/") || strings.HasPrefix(q.Path, "/v1/discovery/") {
			return c.e.answer(q), true
		}
		return sresp{}, false
	}
	c.s = c.n.sim
	c.s.connect()
	c.cd.connect(c.s.URL)
	contacts.Contacts = map[string]contacts.Contact{}
	must16(contacts.WriteContactsToPath())
	ws := c.s.websocket()
	c.ls = listen()
	c.x = ws.accept(c.ls)
	if c.x == nil {
		r.Violation("connect", "listening does not connect: %v %s", c.ls.err, c.ls.pan)
		return
	}
	for _, a := range as { // everybody writes once, so that there are sessions
		for _, d := range a.ids() {
			if a.devs[d] == l.party {
				continue
			}
			hi := "hi"
			if ev, ok := c.say(a.devs[d], contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &hi, Timestamp: &c.id}}), 1); !ok || len(ev) != 1 {
				r.Violation("dispatch", "a first message is reported as %s", show26(ev))
				return
			}
		}
	}
	c.book()
	for k := 0; k < 25 && !r.Failed(); k++ {
		r.SetCase("case=%d step=%d devices=%v %s", i, k, c.mine(), strings.Join(tailOf(c.trace, 6), "; "))
		sts := uint64(1700000000000 + k)
		ids := c.mine()
		p := c.me.devs[ids[rd.Intn(len(ids))]]
		step := rd.Intn(14)
		c.trace = append(c.trace, fmt.Sprint(step))
		switch {
		case step < 3:
			if rd.Intn(2) == 0 {
				c.book()
			} else {
				c.users()
			}
			fail := rd.Intn(5) == 0
			if fail {
				undo := c.failing()
				c.contactsReq(p, sts, true)
				undo()
			} else {
				c.contactsReq(p, sts, false)
			}
		case step < 5:
			c.groupsReq(p, sts, false)
		case step == 5:
			undo := c.failing()
			c.groupsReq(p, sts, true)
			undo()
		case step < 8:
			c.groupsChange()
		case step == 8:
			t := []signalservice.SyncMessage_Request_Type{0, 3, 4, 5, 77, -1}[rd.Intn(6)]
			if out, ok := c.ask(p, t, sts); ok && len(out) != 0 {
				r.Violation("answer", "a request for %v is answered with %v", t, out)
			}
			r.Event("requests for something else", 1)
		case step < 11:
			c.c26.me = c.me
			c.fromOwn(p, sts)
		case step == 11:
			c.malformed(p, sts)
			c.malformed(p, sts)
			c.malformed(p, sts)
		case step == 12:
			c.ours()
		default:
			c.n.takeAccepted()
			if rd.Intn(2) == 0 {
				c.ours()
				break
			}
			if err := SyncContacts(); err != nil {
				r.Violation("send", "asking for contacts: %v", err)
			}
			n := 0
			for _, a := range c.n.takeAccepted() {
				for _, d := range a.del {
					if a.acct != simUUID || d.content.GetSyncMessage().GetRequest().GetType() != signalservice.SyncMessage_Request_CONTACTS {
						r.Violation("request", "asking our devices for contacts sends %v to %s", d.content, a.acct)
					}
					n++
				}
			}
			if n != len(ids) {
				r.Violation("request", "asking our %d devices for contacts reaches %d", len(ids), n)
			}
			r.Event("requests to our other devices", 1)
		}
	}
	if len(c.cd.bad) > 0 {
		r.Violation("upload", "the upload server saw: %s", c.cd.bad[0])
	}
	StopListening()
	if !c.ls.wait() {
		r.Violation("stop", "the receive loop does not end when listening is stopped\n%s", c.ls.stack())
	}
	r.Eval(strings.Join(c.trace, ";"))
	r.Sample(map[string]interface{}{"case": i, "devices": len(c.me.devs), "contacts": len(c.a.contacts), "groups": len(c.gr)})
}

// fromOwn is a transcript or read marker of one of our devices.
func (c *c25) fromOwn(p *axh.Party, sts uint64) { c.ownSyncFrom(p, sts) }
