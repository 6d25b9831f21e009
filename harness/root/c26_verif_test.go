package textsecure

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
	protov2 "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gopkg.in/yaml.v2"
)

func TestVerifC26(t *testing.T) {
	r := vh.Start(t, "C26", "random contents of every kind (field by field through the protocol's own description, valid, extreme, missing, several kinds at once, bytes altered), encrypted by several accounts' devices and pushed one at a time through the message socket; every handler records, and after each acknowledgement what was reported, the contacts (in memory and on disk) and all sessions are compared with what the content says")
	defer r.Finish()
	r.NoStop = true
	n := r.N(30, 400)
	for i := 0; i < n && !r.Failed(); i++ {
		c26case(r, i)
	}
	r.Require("data messages", n*8)
	r.Require("attachments read", n)
	r.Require("messages of groups", n)
	r.Require("sessions ended", n/3)
	r.Require("profile keys", n/2)
	r.Require("typing messages", n)
	r.Require("receipts", n)
	r.Require("call messages", n)
	r.Require("sync messages of strangers", n)
	r.Require("transcripts", n/2)
	r.Require("read markers", n/4)
	r.Require("contents of no kind", n)
	r.Require("hostile contents", n*10)
	r.Require("contents of several kinds", n/2)
}

type c26 struct {
	r     *vh.R
	rd    *rand.Rand
	l     *local
	a     *app
	s     *sim
	cd    *cdn
	gs    *groupServer
	accts []*account
	me    *account
	ls    *listener
	x     *wsConn
	id    uint64
	seq   int
	trace []string
	from  string          // whose content was delivered last
	ended map[string]bool // accounts that have to start new sessions
}

// fill gives a message random fields: p is how likely each optional field is there, depth how deep.
func (c *c26) fill(m protoreflect.Message, p float64, depth int, wild bool) {
	rd := c.rd
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Cardinality() != protoreflect.Required && rd.Float64() > p {
			continue
		}
		if f.ContainingOneof() != nil && m.WhichOneof(f.ContainingOneof()) != nil {
			continue
		}
		switch {
		case f.IsMap():
		case f.IsList():
			n := 1 + rd.Intn(3)
			l := m.Mutable(f).List()
			for ; n > 0; n-- {
				if f.Message() != nil {
					if depth <= 0 {
						continue
					}
					e := l.NewElement()
					c.fill(e.Message(), p, depth-1, wild)
					l.Append(e)
				} else {
					l.Append(c.scalar(f, wild))
				}
			}
		case f.Message() != nil:
			if depth <= 0 {
				continue
			}
			c.fill(m.Mutable(f).Message(), p, depth-1, wild)
		default:
			m.Set(f, c.scalar(f, wild))
		}
	}
}

var texts26 = []string{"", "a", "héllo", "日本語", "👩‍👩‍👧", "line\nline", "\x00", strings.Repeat("x", 3000), "+491701234567", "true", "0", "~", "{a: b}", "\u202e"}

func (c *c26) scalar(f protoreflect.FieldDescriptor, wild bool) protoreflect.Value {
	rd := c.rd
	u := []uint64{0, 1, 2, 255, uint64(rd.Uint32()), uint64(rd.Int63()), math.MaxUint32, math.MaxUint64, math.MaxInt64, 1600000000000}[rd.Intn(10)]
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rd.Intn(2) == 0)
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		n := vs.Get(rd.Intn(vs.Len())).Number()
		if wild && rd.Intn(4) == 0 {
			n = protoreflect.EnumNumber(rd.Intn(300) - 5)
		}
		return protoreflect.ValueOfEnum(n)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(u))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(u))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(u))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(u)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(u))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(u))
	case protoreflect.StringKind:
		s := texts26[rd.Intn(len(texts26))]
		if rd.Intn(3) == 0 {
			s += fmt.Sprintf(" %x", vh.Bytes(rd, rd.Intn(20)))
		}
		if strings.Contains(strings.ToLower(string(f.Name())), "uuid") && rd.Intn(2) == 0 {
			s = uuidOf(rd)
		}
		return protoreflect.ValueOfString(s)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(vh.Bytes(rd, []int{0, 1, 16, 31, 32, 33, 64, rd.Intn(300)}[rd.Intn(8)]))
	}
	panic(f.Kind())
}

func (c *c26) random(m protov2.Message, wild bool) {
	p := []float64{0.1, 0.4, 0.8, 1}[c.rd.Intn(4)]
	c.fill(m.ProtoReflect(), p, 1+c.rd.Intn(3), wild)
}

func (c *c26) state() (map[string]contacts.Contact, map[string]string, map[string]bool) {
	cs := map[string]contacts.Contact{}
	for k, v := range contacts.Contacts {
		v.ProfileKey = append([]byte{}, v.ProfileKey...)
		cs[k] = v
	}
	return cs, c.l.snapshot(), c.sessions()
}

func (c *c26) sessions() map[string]bool {
	m := map[string]bool{}
	for _, a := range append(append([]*account{}, c.accts...), c.me) {
		for d := range a.devs {
			m[fmt.Sprintf("%s_%d", a.id, d)] = c.l.st.ContainsSession(a.id, d)
		}
	}
	return m
}

func (c *c26) who() *axh.Party {
	a := c.accts[c.rd.Intn(len(c.accts))]
	ids := a.ids()
	return a.devs[ids[c.rd.Intn(len(ids))]]
}

// say delivers a content and returns what the application saw, or ok false when something is wrong.
func (c *c26) say(p *axh.Party, content []byte, sts uint64) ([]appEvent, bool) {
	r := c.r
	c.from = p.Name
	key := fmt.Sprintf("%s_%d", p.Name, p.Dev)
	if c.ended[key] || !p.S.ContainsSession(simUUID, 1) || c.rd.Intn(40) == 0 {
		if err := p.Builder(c.l.party).BuildSenderSession(c.l.bundle(axh.PreKind(c.rd.Intn(3)))); err != nil {
			panic(err)
		}
		delete(c.ended, key)
	}
	m, err := p.Encrypt(c.l.party, padded(content))
	if err != nil {
		panic(err)
	}
	c.id++
	base, _ := c.x.ackList()
	c.a.take()
	c.x.write(websocket.BinaryMessage, messageFrame(c.id, envelope(p, m, sts)), 0)
	acks, stuck := c.x.wait(len(base) + 1)
	if _, closed := c.x.ackList(); closed {
		c.ls.wait()
	}
	select {
	case <-c.ls.done:
		if c.ls.pan != "" {
			r.Violation("panic", "the receive loop panics at %s: %s", short26(content), c.ls.pan)
		} else {
			r.Violation("ended", "the receive loop ended at %s: %v", short26(content), c.ls.err)
		}
		return nil, false
	default:
	}
	if stuck || len(acks) != len(base)+1 || acks[len(base)] != c.id {
		r.Violation("ack", "content %s: acknowledgements %v", short26(content), acks[len(base):])
		return nil, false
	}
	return c.a.take(), true
}

// short26 shows a content: its first bytes and its fields, long ones cut.
func short26(b []byte) string {
	ct := &signalservice.Content{}
	h := fmt.Sprintf("%x", b)
	if len(h) > 60 {
		h = h[:60] + "…"
	}
	if proto.Unmarshal(b, ct) == nil {
		f := fmt.Sprint(ct)
		if len(f) > 600 {
			f = f[:600] + "…"
		}
		h += " (" + f + ")"
	}
	return h
}

func show26(ev []appEvent) string {
	var s []string
	for _, e := range ev {
		if e.Msg != nil {
			s = append(s, fmt.Sprintf("%s(from %q/%q %q ts %d flags %d)", e.Kind, e.Msg.Source(), e.Msg.SourceUUID(), e.Msg.Message(), e.Msg.Timestamp(), e.Msg.Flags()))
		} else {
			s = append(s, fmt.Sprintf("%s(%s %d %d)", e.Kind, e.Src, e.Dev, e.Ts))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// pointer makes an attachment that can be downloaded.
func (c *c26) pointer(plain []byte) *signalservice.AttachmentPointer {
	c.seq++
	key := vh.Bytes(c.rd, 64)
	blob, digest := sealBlob(plain, c.rd.Intn(40), key, vh.Bytes(c.rd, 16))
	n := uint32(len(plain))
	cdnNr := uint32(c.rd.Intn(2) * 2)
	ct := []string{"image/jpeg", "text/plain", "", "application/octet-stream"}[c.rd.Intn(4)]
	name := texts26[c.rd.Intn(5)]
	a := &signalservice.AttachmentPointer{Key: key, Digest: digest, Size: &n, CdnNumber: &cdnNr, ContentType: &ct, FileName: &name}
	k := fmt.Sprint(1000 + c.seq)
	if c.rd.Intn(2) == 0 {
		a.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnId{CdnId: uint64(1000 + c.seq)}
	} else {
		k = fmt.Sprintf("ck%d", c.seq)
		a.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnKey{CdnKey: k}
	}
	if len(plain) == 0 {
		a.Size = nil
		blob, a.Digest = sealBlob(plain, 0, key, vh.Bytes(c.rd, 16))
	}
	c.cd.mu.Lock()
	c.cd.blobs[fmt.Sprint(cdnNr, "/", k)] = blob
	c.cd.mu.Unlock()
	return a
}

type want26 struct {
	kind  string
	dm    *signalservice.DataMessage
	plain [][]byte
	group *sgroup
	flags []uint32
}

// data makes a data message and what must be reported of it.
func (c *c26) data() (*signalservice.DataMessage, *want26) {
	rd := c.rd
	dm := &signalservice.DataMessage{}
	c.random(dm, false)
	c.seq++
	if rd.Intn(3) > 0 {
		b := fmt.Sprintf("%s %d", texts26[rd.Intn(len(texts26))], c.seq)
		dm.Body = &b
	}
	ts := uint64(1600000000000 + c.seq)
	dm.Timestamp = &ts
	w := &want26{dm: dm}
	dm.Attachments, dm.GroupV2, dm.Flags = nil, nil, nil
	for k := rd.Intn(6) - 2; k > 0; k-- {
		b := vh.Bytes(rd, []int{0, 1, 15, 16, 100, rd.Intn(5000)}[rd.Intn(6)])
		w.plain = append(w.plain, b)
		dm.Attachments = append(dm.Attachments, c.pointer(b))
	}
	if rd.Intn(4) == 0 {
		g := c.gs.create([]string{"", "group ", "日本語 ", strings.Repeat("long name ", 4), strings.Repeat("é", 70)}[rd.Intn(5)]+fmt.Sprint(c.seq), simUUID, c.accts[0].id)
		w.group = g
		rev := g.revision
		dm.GroupV2 = &signalservice.GroupContextV2{MasterKey: g.master, Revision: &rev}
		if rd.Intn(3) == 0 { // a change comes with it
			g.revision++
			dm.GroupV2.Revision = &g.revision
			dm.GroupV2.GroupChange = c.gs.change(&signalservice.GroupChange_Actions{SourceUuid: g.sealUUID(c.accts[0].id), Revision: g.revision})
		}
	}
	w.flags = []uint32{0}
	switch rd.Intn(8) {
	case 0:
		f := uint32(2)
		dm.Flags, w.flags = &f, []uint32{0, 2}
	case 1:
		f := []uint32{3, 8, 16, 1 << 31, 0}[rd.Intn(5)]
		dm.Flags, w.flags = &f, []uint32{0, f}
	}
	return dm, w
}

func same26(a, b proto.Message) bool {
	an, bn := a == nil || reflect.ValueOf(a).IsNil(), b == nil || reflect.ValueOf(b).IsNil()
	if an || bn {
		return an == bn
	}
	return proto.Equal(a, b)
}

// report compares what was reported with the data message.
func (c *c26) report(what string, m *Message, w *want26) {
	r, dm := c.r, w.dm
	bad := func(f string, a ...interface{}) {
		r.Violation("unfaithful", what+": "+f, a...)
	}
	if m.Message() != dm.GetBody() {
		bad("body %q for %q", m.Message(), dm.GetBody())
	}
	if m.Timestamp() != dm.GetTimestamp() {
		bad("timestamp %d for %d", m.Timestamp(), dm.GetTimestamp())
	}
	if m.ExpireTimer() != dm.GetExpireTimer() {
		bad("timer %d for %d", m.ExpireTimer(), dm.GetExpireTimer())
	}
	ok := false
	for _, f := range w.flags {
		ok = ok || f == m.Flags()
	}
	if !ok {
		bad("flags %d for %d", m.Flags(), dm.GetFlags())
	}
	if !same26(m.Quote(), dm.GetQuote()) {
		bad("quote %v for %v", m.Quote(), dm.GetQuote())
	}
	if !same26(m.Sticker(), dm.GetSticker()) {
		bad("sticker %v for %v", m.Sticker(), dm.GetSticker())
	}
	if !same26(m.Reaction(), dm.GetReaction()) {
		bad("reaction %v for %v", m.Reaction(), dm.GetReaction())
	}
	if len(m.Contact()) != len(dm.GetContact()) {
		bad("%d contacts for %d", len(m.Contact()), len(dm.GetContact()))
	} else {
		for i, x := range dm.GetContact() {
			if !same26(m.Contact()[i], x) {
				bad("contact %v for %v", m.Contact()[i], x)
			}
		}
	}
	if len(m.Attachments()) != len(w.plain) {
		bad("%d attachments for %d", len(m.Attachments()), len(w.plain))
	} else {
		for i, a := range m.Attachments() {
			b, err := io.ReadAll(a.R)
			if err != nil || !bytes.Equal(b, w.plain[i]) {
				bad("attachment %d: %d bytes (%v) for %d", i, len(b), err, len(w.plain[i]))
			}
			if a.MimeType != dm.Attachments[i].GetContentType() || a.FileName != dm.Attachments[i].GetFileName() {
				bad("attachment %d: %q %q for %v", i, a.MimeType, a.FileName, dm.Attachments[i])
			}
			r.Event("attachments read", 1)
		}
	}
	if w.group == nil {
		if m.GroupV2() != nil {
			bad("reported in a group")
		}
	} else if g := m.GroupV2(); g == nil {
		bad("not reported in its group")
	} else {
		if !bytes.Equal(g.MasterKey, w.group.master) || g.Hexid != w.group.hexid() {
			bad("reported in group %s (key %x), not %s", g.Hexid, g.MasterKey, w.group.hexid())
		}
		if c.gs.usable() {
			if g.DecryptedGroup == nil || g.DecryptedGroup.Title != w.group.title || g.DecryptedGroup.Revision != w.group.revision || len(g.DecryptedGroup.Members) != len(w.group.members) {
				bad("group reported as %v, is %q revision %d with %d members", g.DecryptedGroup, w.group.title, w.group.revision, len(w.group.members))
			}
		}
		r.Event("messages of groups", 1)
	}
}

// others checks that nothing of anybody else changed; who is the sender whose things may.
func (c *c26) others(what, who string, c0 map[string]contacts.Contact, f0 map[string]string, s0 map[string]bool, contact, sess bool) {
	r := c.r
	c1, f1, s1 := c.state()
	for k := range c0 {
		if _, ok := c1[k]; !ok {
			r.Violation("contacts", "%s removed contact %s", what, k)
		}
	}
	for k, v := range c1 {
		if k == who && contact {
			continue
		}
		if o, ok := c0[k]; !ok || !reflect.DeepEqual(o, v) {
			r.Violation("contacts", "%s changed contact %s from %+v to %+v", what, k, o, v)
		}
	}
	for k, v := range f0 {
		w, ok := f1[k]
		switch {
		case strings.HasPrefix(k, "sessions"):
			if strings.Contains(k, who) || strings.Contains(k, c.from) {
				continue
			}
			if !ok || v != w {
				r.Violation("sessions", "%s changed %s", what, k)
			}
		case strings.HasPrefix(k, "identity"):
			if !ok || v != w {
				r.Violation("identity", "%s changed %s", what, k)
			}
		}
	}
	for k := range f1 {
		if _, ok := f0[k]; !ok && strings.HasPrefix(k, "sessions") && !strings.Contains(k, who) && !strings.Contains(k, c.from) {
			r.Violation("sessions", "%s added %s", what, k)
		}
	}
	for k, v := range s0 {
		if v && !s1[k] && !(sess && strings.HasPrefix(k, who+"_")) {
			r.Violation("sessions", "%s ended session %s", what, k)
		}
	}
}

// expect26 delivers one content that has a definite meaning.
func (c *c26) faithful() {
	r, rd := c.r, c.rd
	p := c.who()
	sts := uint64(1700000000000 + rd.Int63n(1e11))
	c0, f0, s0 := c.state()
	one := func(ev []appEvent, what, kind string) *Message {
		if len(ev) != 1 || ev[0].Kind != kind || ev[0].Msg == nil {
			r.Violation("dispatch", "%s from %s device %d is reported as %s", what, p.Name, p.Dev, show26(ev))
			return nil
		}
		c.sender(what, ev[0].Msg, p.Name)
		return ev[0].Msg
	}
	switch v := rd.Intn(16); {
	case v < 5:
		dm, w := c.data()
		b := contentBytes(&signalservice.Content{DataMessage: dm})
		r.Eval(string(b))
		ev, ok := c.say(p, b, sts)
		if !ok {
			return
		}
		what := fmt.Sprintf("data message %s", short26(b))
		if m := one(ev, what, "message"); m != nil {
			c.report(what, m, w)
		}
		c.others(what, p.Name, c0, f0, s0, false, false)
		r.Event("data messages", 1)
	case v == 5: // end of session
		dm, w := c.data()
		f := uint32(signalservice.DataMessage_END_SESSION)
		dm.Flags, w.flags = &f, []uint32{1}
		b := contentBytes(&signalservice.Content{DataMessage: dm})
		ev, ok := c.say(p, b, sts)
		if !ok {
			return
		}
		what := fmt.Sprintf("end-session message %s", short26(b))
		if m := one(ev, what, "message"); m != nil {
			c.report(what, m, w)
		}
		for k, ok := range c.sessions() {
			if ok && strings.HasPrefix(k, p.Name+"_") {
				r.Violation("endsession", "after %s session %s is still there", what, k)
			}
		}
		c.others(what, p.Name, c0, f0, s0, false, true)
		for _, d := range c.acct(p.Name).ids() {
			c.ended[fmt.Sprintf("%s_%d", p.Name, d)] = true
		}
		c.trace = append(c.trace, "end session "+p.Name)
		r.Event("sessions ended", 1)
	case v == 6: // profile key
		dm, w := c.data()
		f := uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
		dm.Flags, w.flags = &f, []uint32{4}
		dm.ProfileKey = vh.Bytes(rd, 32)
		b := contentBytes(&signalservice.Content{DataMessage: dm})
		ev, ok := c.say(p, b, sts)
		if !ok {
			return
		}
		what := fmt.Sprintf("profile key update %s", short26(b))
		if m := one(ev, what, "message"); m != nil {
			c.report(what, m, w)
		}
		c.others(what, p.Name, c0, f0, s0, true, false)
		now := contacts.Contacts[p.Name]
		if !bytes.Equal(now.ProfileKey, dm.ProfileKey) || now.UUID != p.Name {
			r.Violation("profilekey", "after %s the contact is %+v", what, now)
		}
		if o, ok := c0[p.Name]; ok {
			o.ProfileKey = now.ProfileKey
			if !reflect.DeepEqual(o, now) {
				r.Violation("profilekey", "after %s the contact is %+v, was %+v", what, now, o)
			}
		}
		disk := struct{ Contacts []contacts.Contact }{}
		raw, err := os.ReadFile(c.l.dir + "/contacts.yml")
		if err == nil {
			err = yaml.Unmarshal(raw, &disk)
		}
		found := 0
		for _, x := range disk.Contacts {
			if x.UUID == p.Name && bytes.Equal(x.ProfileKey, dm.ProfileKey) {
				found++
			}
		}
		if err != nil || found != 1 || len(disk.Contacts) != len(contacts.Contacts) {
			r.Violation("profilekey", "after %s the contacts file has the contact %d times and %d contacts of %d: %v", what, found, len(disk.Contacts), len(contacts.Contacts), err)
		}
		r.Event("profile keys", 1)
	case v == 7 || v == 8:
		tm := &signalservice.TypingMessage{}
		c.random(tm, false)
		ev, ok := c.say(p, contentBytes(&signalservice.Content{TypingMessage: tm}), sts)
		if !ok {
			return
		}
		what := fmt.Sprintf("typing message %v", tm)
		if m := one(ev, what, "typing"); m != nil && m.Timestamp() != sts {
			r.Violation("unfaithful", "%s of server time %d is reported with time %d", what, sts, m.Timestamp())
		}
		c.others(what, p.Name, c0, f0, s0, false, false)
		r.Event("typing messages", 1)
	case v == 9 || v == 10:
		x := signalservice.ReceiptMessage_Type(rd.Intn(3))
		rm := &signalservice.ReceiptMessage{Type: &x}
		for k := rd.Intn(6); k > 0; k-- {
			rm.Timestamp = append(rm.Timestamp, []uint64{0, 1, uint64(rd.Int63()), math.MaxUint64}[rd.Intn(4)])
		}
		ev, ok := c.say(p, contentBytes(&signalservice.Content{ReceiptMessage: rm}), sts)
		if !ok {
			return
		}
		var got []uint64
		for _, e := range ev {
			if e.Kind != "receiptmessage" {
				r.Violation("dispatch", "receipt %v from %s is reported as %s", rm, p.Name, show26(ev))
				return
			}
			c.sender("receipt", e.Msg, p.Name)
			got = append(got, e.Msg.Timestamp())
			want := []string{"deliveryReceiptMessage", "readReceiptMessage", ""}[x]
			if want != "" && e.Msg.Message() != want || want == "" && (e.Msg.Message() == "deliveryReceiptMessage" || e.Msg.Message() == "readReceiptMessage") {
				r.Violation("unfaithful", "receipt %v is reported as %q", rm, e.Msg.Message())
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(rm.Timestamp) {
			r.Violation("unfaithful", "receipt %v is reported for %v", rm, got)
		}
		c.others("receipt", p.Name, c0, f0, s0, false, false)
		r.Event("receipts", 1)
	case v == 11 || v == 12:
		cm := &signalservice.CallMessage{}
		c.random(cm, false)
		ev, ok := c.say(p, contentBytes(&signalservice.Content{CallMessage: cm}), sts)
		if !ok {
			return
		}
		what := fmt.Sprintf("call message %v", cm)
		if m := one(ev, what, "call"); m != nil {
			if m.Timestamp() != sts {
				r.Violation("unfaithful", "%s of server time %d is reported with time %d", what, sts, m.Timestamp())
			}
			for _, k := range []struct {
				name string
				set  bool
			}{{"answer", cm.Answer != nil}, {"offer", cm.Offer != nil}, {"hangup", cm.Hangup != nil || cm.LegacyHangup != nil}, {"busy", cm.Busy != nil}} {
				if strings.Contains(m.Message(), k.name) != k.set {
					r.Violation("unfaithful", "%s is reported as %q", what, m.Message())
				}
			}
		}
		c.others(what, p.Name, c0, f0, s0, false, false)
		r.Event("call messages", 1)
	case v == 13:
		c.strangerSync(p, sts)
	case v == 14:
		c.ownSync(sts)
	default: // contents of no known kind
		ct := &signalservice.Content{}
		c.random(ct, false)
		ct.DataMessage, ct.SyncMessage, ct.CallMessage, ct.ReceiptMessage, ct.TypingMessage = nil, nil, nil, nil, nil
		b := contentBytes(ct)
		if rd.Intn(2) == 0 { // a field nobody knows
			b = append(append(b, 0xc2, 0x3e, 4), "news"...)
		}
		ev, ok := c.say(p, b, sts)
		if !ok {
			return
		}
		if len(ev) != 0 {
			r.Violation("dispatch", "content %v, which has no known kind, is reported as %s", ct, show26(ev))
		}
		c.others("unknown content", p.Name, c0, f0, s0, false, false)
		r.Event("contents of no kind", 1)
	}
}

func (c *c26) sender(what string, m *Message, uuid string) {
	if m.SourceUUID() != uuid || m.ChatID() != uuid || m.Source() != uuid && m.Source() != "" {
		c.r.Violation("sender", "%s of %s is reported from %q (source %q, chat %q)", what, uuid, m.SourceUUID(), m.Source(), m.ChatID())
	}
}

func (c *c26) acct(id string) *account {
	for _, a := range append([]*account{c.me}, c.accts...) {
		if a.id == id {
			return a
		}
	}
	panic(id)
}

// strangerSync is a synchronisation message of somebody who is not us.
func (c *c26) strangerSync(p *axh.Party, sts uint64) {
	r, rd := c.r, c.rd
	if a := c.accts[len(c.accts)-1]; rd.Intn(2) == 0 { // with almost our own id, most of the time
		p = a.devs[a.ids()[rd.Intn(len(a.ids()))]]
	}
	sm := &signalservice.SyncMessage{}
	if rd.Intn(2) == 0 {
		c.random(sm, false)
	}
	switch rd.Intn(4) {
	case 0:
		body := "forged"
		other := c.who().Name
		sm.Sent = &signalservice.SyncMessage_Sent{DestinationUuid: &other, Timestamp: &sts, Message: &signalservice.DataMessage{Body: &body}}
		if rd.Intn(2) == 0 {
			f := uint32(signalservice.DataMessage_END_SESSION)
			sm.Sent.Message.Flags = &f
			sm.Sent.DestinationE164 = &other
		}
	case 1:
		other := c.who().Name
		sm.Read = []*signalservice.SyncMessage_Read{{SenderUuid: &other, Timestamp: &sts}}
		sm.Sent = nil
	case 2:
		x := signalservice.SyncMessage_Request_Type(rd.Intn(6))
		sm.Request = &signalservice.SyncMessage_Request{Type: &x}
		sm.Sent = nil
	case 3:
		id, k := c.who().Name, vh.Bytes(rd, 33)
		sm = &signalservice.SyncMessage{Verified: &signalservice.Verified{DestinationUuid: &id, IdentityKey: k}}
	}
	c0, f0, s0 := c.state()
	c.s.take()
	ev, ok := c.say(p, contentBytes(&signalservice.Content{SyncMessage: sm}), sts)
	if !ok {
		return
	}
	if len(ev) != 0 {
		r.Violation("forged", "a synchronisation message of %s, who is not us, is reported as %s: %v", p.Name, show26(ev), sm)
	}
	for _, q := range c.s.take() {
		if q.Method != "GET" {
			r.Violation("forged", "a synchronisation message of %s, who is not us, makes us %s %s: %v", p.Name, q.Method, q.Path, sm)
		}
	}
	c.others("a stranger's synchronisation message", p.Name, c0, f0, s0, false, false)
	r.Event("sync messages of strangers", 1)
}

// ownSync is a transcript or read marker of another device of ours.
func (c *c26) ownSync(sts uint64) { c.ownSyncFrom(c.me.devs[2], sts) }

func (c *c26) ownSyncFrom(p *axh.Party, sts uint64) {
	r, rd := c.r, c.rd
	c0, f0, s0 := c.state()
	if rd.Intn(3) == 0 {
		var rs []*signalservice.SyncMessage_Read
		var want []string
		for k := 1 + rd.Intn(5); k > 0; k-- {
			x := &signalservice.SyncMessage_Read{}
			c.random(x, false)
			rs = append(rs, x)
			want = append(want, fmt.Sprint(x.GetSenderUuid(), x.GetTimestamp()))
		}
		ev, ok := c.say(p, contentBytes(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Read: rs}}), sts)
		if !ok {
			return
		}
		var got []string
		for _, e := range ev {
			if e.Kind != "syncread" {
				r.Violation("dispatch", "read markers are reported as %s", show26(ev))
				return
			}
			got = append(got, fmt.Sprint(e.Src, e.Ts))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violation("unfaithful", "read markers %v are reported as %v", want, got)
		}
		r.Event("read markers", 1)
		return
	}
	dm, w := c.data()
	dest, tel := c.who().Name, telOf(rd)
	st := &signalservice.SyncMessage_Sent{Message: dm, Timestamp: dm.Timestamp}
	switch rd.Intn(3) {
	case 0:
		st.DestinationUuid = &dest
	case 1:
		st.DestinationUuid, st.DestinationE164 = &dest, &tel
	default:
		if w.group == nil {
			st.DestinationUuid = &dest
		}
	}
	own := false
	switch rd.Intn(5) {
	case 0:
		if st.DestinationUuid == nil { // sessions are with somebody
			break
		}
		f := uint32(signalservice.DataMessage_END_SESSION)
		dm.Flags, w.flags, own = &f, []uint32{1}, true
	case 1:
		f := uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
		dm.Flags, w.flags = &f, []uint32{4}
		dm.ProfileKey = config.ConfigFile.ProfileKey
	}
	b := contentBytes(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: st}})
	ev, ok := c.say(p, b, sts)
	if !ok {
		return
	}
	what := fmt.Sprintf("transcript %s", short26(b))
	if len(ev) != 1 || ev[0].Kind != "syncsent" {
		r.Violation("dispatch", "%s is reported as %s", what, show26(ev))
		return
	}
	m := ev[0].Msg
	if m.SourceUUID() != st.GetDestinationUuid() {
		r.Violation("unfaithful", "%s to %q is reported as to %q", what, st.GetDestinationUuid(), m.SourceUUID())
	}
	if ev[0].Ts != sts {
		r.Violation("unfaithful", "%s of server time %d is reported with time %d", what, sts, ev[0].Ts)
	}
	c.report(what, m, w)
	who := simUUID
	if own { // our other device ended the sessions with its recipient: ours end too, nobody else's
		who = dest
		for _, d := range c.acct(dest).ids() {
			if c.l.st.ContainsSession(dest, d) {
				r.Violation("end-session", "%s ends the sessions with %s, but the one with device %d is still there", what, dest, d)
			}
			if !c.l.st.ContainsSession(dest, d) {
				c.ended[fmt.Sprintf("%s_%d", dest, d)] = true
			}
		}
	}
	c.others(what, who, c0, f0, s0, false, own)
	r.Event("transcripts", 1)
}

// hostile delivers contents with missing, extreme or broken fields: whatever is in them, at most one kind is
// reported, under the sender's name, and nobody else is affected.
func (c *c26) hostile() {
	r, rd := c.r, c.rd
	p := c.who()
	if rd.Intn(5) == 0 {
		p = c.me.devs[2]
	}
	ct := &signalservice.Content{}
	c.random(ct, true)
	one := []func(){func() { ct.DataMessage = &signalservice.DataMessage{}; c.random(ct.DataMessage, true) },
		func() { ct.SyncMessage = &signalservice.SyncMessage{}; c.random(ct.SyncMessage, true) },
		func() { ct.CallMessage = &signalservice.CallMessage{}; c.random(ct.CallMessage, true) },
		func() { ct.ReceiptMessage = &signalservice.ReceiptMessage{}; c.random(ct.ReceiptMessage, true) },
		func() { ct.TypingMessage = &signalservice.TypingMessage{}; c.random(ct.TypingMessage, true) }}
	if rd.Intn(2) == 0 {
		ct = &signalservice.Content{}
	}
	if rd.Intn(3) > 0 {
		one[rd.Intn(5)]()
	}
	if rd.Intn(4) == 0 && ct.DataMessage != nil {
		ct.DataMessage.Attachments = nil
		ct.DataMessage.GroupV2 = c.hostileGroup()
	}
	if rd.Intn(4) == 0 && ct.SyncMessage != nil && ct.SyncMessage.Sent != nil {
		if ct.SyncMessage.Sent.Message == nil {
			ct.SyncMessage.Sent.Message = &signalservice.DataMessage{}
		}
		ct.SyncMessage.Sent.Message.Attachments = nil
		ct.SyncMessage.Sent.Message.GroupV2 = c.hostileGroup()
	}
	b, err := proto.Marshal(ct)
	if err != nil {
		return
	}
	if rd.Intn(3) == 0 && len(b) > 0 {
		b, _ = vh.Mutate(rd, b)
	}
	if len(b) > 60000 {
		return
	}
	ct = &signalservice.Content{}
	kinds := map[string]bool{}
	if proto.Unmarshal(b, ct) == nil {
		kinds["message"] = ct.DataMessage != nil
		kinds["call"] = ct.CallMessage != nil
		kinds["receiptmessage"] = ct.ReceiptMessage != nil
		kinds["typing"] = ct.TypingMessage != nil
		kinds["syncsent"] = ct.SyncMessage != nil && ct.SyncMessage.Sent != nil && p.Name == simUUID
		kinds["syncread"] = ct.SyncMessage != nil && ct.SyncMessage.Read != nil && p.Name == simUUID
	}
	n := 0
	for _, v := range kinds {
		if v {
			n++
		}
	}
	if n > 1 {
		r.Event("contents of several kinds", 1)
	}
	c0, f0, s0 := c.state()
	r.Eval(string(b))
	ev, ok := c.say(p, b, 7)
	if !ok {
		return
	}
	r.Event("hostile contents", 1)
	for _, e := range ev {
		if !kinds[e.Kind] || e.Kind != ev[0].Kind {
			r.Violation("dispatch", "content %s is reported as %s", short26(b), show26(ev))
		}
		if e.Msg != nil && e.Kind != "syncsent" {
			c.sender(fmt.Sprintf("content %s", short26(b)), e.Msg, p.Name)
		}
	}
	if len(ev) > 1 && ev[0].Kind != "receiptmessage" && ev[0].Kind != "syncread" {
		r.Violation("dispatch", "content %s is reported %d times: %s", short26(b), len(ev), show26(ev))
	}
	ends := map[string]bool{}
	if ct.GetDataMessage().GetFlags() == 1 {
		ends[p.Name] = true
	}
	who := p.Name
	if p.Name == simUUID && ct.DataMessage == nil && ct.SyncMessage.GetSent().GetMessage().GetFlags() == 1 {
		who = ct.SyncMessage.GetSent().GetDestinationUuid()
		ends[who] = true
	}
	known := false
	for _, a := range append(append([]*account{}, c.accts...), c.me) {
		known = known || a.id == who
	}
	if !known { // a name that names nobody
		who = "-"
	}
	c.others(fmt.Sprintf("content %s", short26(b)), who, c0, f0, s0, ct.GetDataMessage().GetFlags() == 4, len(ends) > 0)
	for _, a := range append(append([]*account{}, c.accts...), c.me) {
		for _, d := range a.ids() {
			if !c.l.st.ContainsSession(a.id, d) {
				c.ended[fmt.Sprintf("%s_%d", a.id, d)] = true
			}
		}
	}
}

func (c *c26) hostileGroup() *signalservice.GroupContextV2 {
	rd := c.rd
	rev := uint32(rd.Intn(3))
	g := &signalservice.GroupContextV2{Revision: &rev, MasterKey: vh.Bytes(rd, []int{0, 1, 31, 32, 32, 32, 33, 64}[rd.Intn(8)])}
	var sg *sgroup
	if rd.Intn(2) == 0 {
		sg = c.gs.create("t", simUUID, c.accts[0].id)
		g.MasterKey = sg.master
		switch rd.Intn(6) {
		case 0:
			sg.answer = func() (sresp, bool) { return sresp{Status: []int{400, 403, 404, 500, 503}[rd.Intn(5)]}, true }
		case 1:
			b := vh.Bytes(rd, rd.Intn(100))
			sg.answer = func() (sresp, bool) { return sresp{Body: b}, true }
		case 2:
			x := &signalservice.Group{}
			c.random(x, true)
			b := pbBytes(x)
			sg.answer = func() (sresp, bool) { return sresp{Body: b}, true }
		case 3:
			sg.answer = func() (sresp, bool) { return sresp{}, true }
		case 4:
			x := c.gs.encode(sg)
			x.Title = vh.Bytes(rd, rd.Intn(60))
			for _, m := range x.Members {
				switch rd.Intn(4) {
				case 0:
					m.UserId = vh.Bytes(rd, []int{0, 65}[rd.Intn(2)])
				case 1:
					m.ProfileKey = vh.Bytes(rd, []int{0, 65}[rd.Intn(2)])
				case 2:
					m.Presentation = vh.Bytes(rd, rd.Intn(600))
				}
			}
			b := pbBytes(x)
			sg.answer = func() (sresp, bool) { return sresp{Body: b}, true }
		}
	}
	if rd.Intn(2) == 0 {
		a := &signalservice.GroupChange_Actions{}
		c.random(a, true)
		ch := &signalservice.GroupChange{Actions: pbBytes(a), ServerSignature: vh.Bytes(rd, []int{0, 1, 64}[rd.Intn(3)])}
		switch rd.Intn(4) {
		case 0:
			g.GroupChange = vh.Bytes(rd, rd.Intn(200))
		case 1:
			g.GroupChange = pbBytes(ch)
		default:
			g.GroupChange = c.gs.change(a)
		}
	}
	return g
}

func c26case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, []string{"", "pw"}[rd.Intn(2)])
	defer done()
	config.ConfigFile.AlwaysTrustPeerID = false
	registration.Registration.SignalingKey = nil
	crayfish.Instance = nil
	c := &c26{r: r, rd: rd, l: l, a: newApp(), cd: newCDN(), gs: newGroupServer(rd), ended: map[string]bool{}, id: uint64(rd.Intn(100))}
	setupGroupsV2(l.dir)
	c.s = newSim(func(q sreq) sresp {
		if a, ok := c.cd.serve(q); ok {
			return a
		}
		if a, ok := c.gs.serve(q); ok {
			return a
		}
		return sresp{Status: 404}
	})
	defer c.s.Close()
	c.s.connect()
	c.cd.connect(c.s.URL)
	for k := 2 + rd.Intn(2); k > 0; k-- {
		id := uuidOf(rd)
		if k == 1 && rd.Intn(4) > 0 { // almost our own id
			last := simUUID[:len(simUUID)-1]
			id = []string{last, last + "6", "2" + simUUID[1:], simUUID + "5", simUUID[:8], strings.Replace(simUUID, "-", "", -1), simUUID[1:]}[rd.Intn(7)]
			r.Event("accounts with almost our own id", 1)
		}
		a := newAccount(rd, id, 1)
		if rd.Intn(2) == 0 {
			a.add(uint32(2 + rd.Intn(5)))
		}
		c.accts = append(c.accts, a)
		if rd.Intn(2) == 0 {
			contacts.Contacts[a.id] = contacts.Contact{UUID: a.id, Tel: telOf(rd), Name: texts26[rd.Intn(5)], Color: "red", Blocked: rd.Intn(2) == 0, ExpireTimer: 7}
		}
	}
	for k := rd.Intn(3); k > 0; k-- {
		u := uuidOf(rd)
		contacts.Contacts[u] = contacts.Contact{UUID: u, Tel: telOf(rd), Name: "other", ProfileKey: vh.Bytes(rd, 32)}
	}
	must16(contacts.WriteContactsToPath())
	c.me = newAccount(rd, simUUID, 2)
	ws := c.s.websocket()
	c.ls = listen()
	c.x = ws.accept(c.ls)
	if c.x == nil {
		r.Violation("connect", "listening does not connect: %v %s", c.ls.err, c.ls.pan)
		return
	}
	// everybody writes once, so that there are sessions
	for _, a := range append([]*account{c.me}, c.accts...) {
		for _, d := range a.ids() {
			hi := "hi"
			if ev, ok := c.say(a.devs[d], contentBytes(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &hi, Timestamp: &c.id}}), 1); !ok || len(ev) != 1 {
				r.Violation("dispatch", "a first message is reported as %s", show26(ev))
				return
			}
		}
	}
	for k := 0; k < 60 && !r.Failed(); k++ {
		r.SetCase("case=%d step=%d %s", i, k, strings.Join(tailOf(c.trace, 5), "; "))
		if rd.Intn(3) > 0 {
			c.faithful()
		} else {
			c.hostile()
		}
	}
	if !r.Failed() && i%3 == 0 {
		c.without()
	}
	sort.Strings(c.gs.bad)
	if len(c.gs.bad) > 0 {
		r.Violation("groupserver", "the group server saw: %s", c.gs.bad[0])
	}
	StopListening()
	if !c.ls.wait() {
		r.Violation("stop", "the receive loop does not end when listening is stopped\n%s", c.ls.stack())
	}
	r.Sample(map[string]interface{}{"case": i, "accounts": len(c.accts)})
}

// without: an application need not have every handler.
func (c *c26) without() {
	cl := client
	defer func() { client = cl }()
	cp := *client
	cp.TypingMessageHandler, cp.ReceiptMessageHandler, cp.SyncReadHandler, cp.SyncSentHandler, cp.CallMessageHandler = nil, nil, nil, nil, nil
	if c.rd.Intn(2) == 0 {
		cp.MessageHandler = nil
	}
	client = &cp
	body := "x"
	x := signalservice.ReceiptMessage_READ
	for _, ct := range []*signalservice.Content{
		{DataMessage: &signalservice.DataMessage{Body: &body}}, {TypingMessage: &signalservice.TypingMessage{}},
		{ReceiptMessage: &signalservice.ReceiptMessage{Type: &x, Timestamp: []uint64{1}}}, {CallMessage: &signalservice.CallMessage{}},
		{SyncMessage: &signalservice.SyncMessage{Read: []*signalservice.SyncMessage_Read{{}}}},
		{SyncMessage: &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{Message: &signalservice.DataMessage{Body: &body}}}},
	} {
		p := c.who()
		if ct.SyncMessage != nil {
			p = c.me.devs[2]
		}
		ev, ok := c.say(p, contentBytes(ct), 1)
		if !ok {
			return
		}
		for _, e := range ev {
			if e.Kind != "message" || ct.DataMessage == nil && ct.CallMessage == nil {
				c.r.Violation("dispatch", "without a handler %v is reported as %s", ct, show26(ev))
			}
		}
		if cp.MessageHandler != nil && (ct.DataMessage != nil || ct.CallMessage != nil) && len(ev) != 1 {
			c.r.Violation("dispatch", "%v is reported as %s to an application with a handler for messages only", ct, show26(ev))
		}
		c.r.Event("contents without a handler", 1)
	}
}
