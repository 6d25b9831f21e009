package textsecure

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

const maxRequests15 = 100 // a send that needs more requests than this never ends

func TestVerifC15(t *testing.T) {
	r := vh.Start(t, "C15", "seeded send histories against a simulated server and its simulated devices: devices come, go and are reinstalled between and during sends, mismatch reports are full, partial or repetitive, the client restarts, sessions end, and the server refuses, answers errors, garbage or bad key bundles; every accepted request is decrypted by each device and compared with what was sent")
	defer r.Finish()
	r.NoStop = true
	n := r.N(60, 1500)
	for i := 0; i < n && !r.Failed(); i++ {
		c15case(r, i)
	}
	r.Require("accepted requests", n*4)
	r.Require("messages decrypted by their device", n*6)
	r.Require("mismatch reports", n*2)
	r.Require("stale reports", n/4)
	r.Require("transcripts", n/2)
	r.Require("changes during a send", n/4)
	r.Require("hostile servers survived", n)
	r.Require("sends after a hostile server", n)
	r.Require("foreign devices that cannot read", n/2)
	r.Require("ended sessions", n/8)
}

type c15 struct {
	r     *vh.R
	rd    *rand.Rand
	l     *local
	n     *network
	peers []*account
	own   *account
	trace []string
	known map[string]bool
}

func (c *c15) log(f string, a ...interface{}) { c.trace = append(c.trace, fmt.Sprintf(f, a...)) }

func c15case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, []string{"", "pw"}[rd.Intn(2)])
	defer done()
	config.ConfigFile.AlwaysTrustPeerID = false
	c := &c15{r: r, rd: rd, l: l, known: map[string]bool{}}
	as := rand.New(rand.NewSource(rd.Int63()))
	c.own = &account{id: simUUID, ident: l.party.S.Identity, devs: map[uint32]*axh.Party{1: l.party}, rd: as}
	for k := rd.Intn(3); k > 0; k-- {
		c.own.add(uint32(2 + rd.Intn(5)))
	}
	all := []*account{c.own}
	for k := 1 + rd.Intn(3); k > 0; k-- {
		id := uuidOf(rd)
		if rd.Intn(6) == 0 {
			id = telOf(rd)
		}
		a := newAccount(as, id, 1)
		for d := rd.Intn(3); d > 0; d-- {
			a.add(uint32(2 + rd.Intn(6)))
		}
		c.peers = append(c.peers, a)
		all = append(all, a)
	}
	c.n = newNetwork(r, as, l.party, all...)
	c.n.cross = i%6 == 0
	defer c.n.Close()
	c.n.connect()
	steps := 6 + rd.Intn(14)
	for s := 0; s < steps && !r.Failed(); s++ {
		r.SetCase("case=%d step=%d %s", i, s, strings.Join(tailOf(c.trace, 12), "; "))
		a := c.peers[rd.Intn(len(c.peers))]
		switch x := rd.Intn(12); {
		case x < 4:
			if c.send(a, "plain") && rd.Intn(2) == 0 {
				c.reply(a)
			}
		case x < 6:
			c.change(a)
			c.send(a, "changed")
		case x == 6:
			c.changeDuring(a)
		case x == 7:
			c.l.restart()
			c.log("restart")
			c.send(a, "restarted")
		case x == 8:
			c.reply(a)
		case x == 9:
			c.endSession(a)
		default:
			c.hostile(a)
		}
	}
	r.Sample(map[string]interface{}{"case": i, "history": tailOf(c.trace, 30)})
}

// change alters an account's devices.
func (c *c15) change(a *account) {
	c.n.locked(func() { c.alter(a, c.rd) })
}

func (c *c15) alter(a *account, rd *rand.Rand) {
	switch rd.Intn(5) {
	case 4:
		ids := a.ids()
		for _, i := range rd.Perm(len(ids))[:1+rd.Intn(len(ids))] {
			a.add(ids[i])
		}
		c.log("%.8s some of %v reinstalled", a.id, ids)
	case 0, 1:
		d := uint32(2 + rd.Intn(6))
		re := a.devs[d] != nil
		a.add(d)
		c.log("%.8s +%d (again %v)", a.id, d, re)
	case 2:
		for _, d := range a.ids() {
			if d != 1 && rd.Intn(2) == 0 {
				delete(a.devs, d)
				c.log("%.8s -%d", a.id, d)
			}
		}
	case 3:
		a.add(1)
		c.log("%.8s device 1 reinstalled", a.id)
	}
}

func (c *c15) changeDuring(a *account) {
	budget := 1 + c.rd.Intn(3)
	rr := rand.New(rand.NewSource(c.rd.Int63()))
	c.n.locked(func() {
		c.n.before = func(n *network, b *account, q sreq) {
			if b == a && budget > 0 {
				budget--
				c.alter(a, rr)
				c.r.Event("changes during a send", 1)
			}
		}
	})
	c.send(a, "changing")
	c.n.locked(func() { c.n.before = nil })
}

func text15(rd *rand.Rand) string {
	switch rd.Intn(6) {
	case 0:
		return ""
	case 1:
		return "\x80\x00\x00"
	case 2:
		return strings.Repeat("é\x00日", rd.Intn(700))
	}
	return fmt.Sprintf("message %d %x", rd.Int(), vh.Bytes(rd, rd.Intn(200)))
}

// send is one message under a server that behaves: it must be accepted.
func (c *c15) send(a *account, why string) bool {
	rd := c.rd
	txt, timer := text15(rd), uint32(rd.Intn(3)*rd.Intn(100000))
	sync := rd.Intn(2) == 0
	mode := rd.Intn(4)
	rr := rand.New(rand.NewSource(rd.Int63()))
	c.n.locked(func() {
		c.n.needsSync = func(id string) bool { return sync && id != simUUID && len(c.own.devs) > 1 }
		c.n.report = func(m, e []uint32) ([]uint32, []uint32) {
			switch mode {
			case 1: // one at a time
				if len(e) > 0 {
					return nil, e[:1]
				}
				if len(m) > 1 {
					return m[:1], e
				}
			case 2: // repetitive
				return append(m, m...), append(e, e...)
			case 3: // with devices that nobody has
				e = append(e, uint32(100+rr.Intn(50)))
			}
			return m, e
		}
		c.n.status = []int{200, 200, 201, 202}[rd.Intn(4)]
		c.n.reported = map[string]bool{}
		if c.n.before != nil {
			c.n.reported = nil
		}
	})
	c.n.take()
	c.n.takeAccepted()
	c.n.takeGone()
	c.log("%s send %.8s %d bytes sync=%v reports=%d devices %v", why, a.id, len(txt), sync, mode, a.ids())
	before := uint64(time.Now().UnixNano() / 1000000)
	var ts uint64
	var err error
	ok := false
	c.r.Bounded("hang", "SendMessage", func() {
		ok = c.r.Safe("panic", "SendMessage", func() { ts, err = SendMessage(a.id, txt, timer) })
	})
	if !ok {
		return false
	}
	after := uint64(time.Now().UnixNano() / 1000000)
	c.n.locked(func() { c.n.reported = nil })
	reqs, acc := c.n.take(), c.n.takeAccepted()
	c.r.Eval(fmt.Sprint(c.trace))
	if gone := c.n.takeGone(); err != nil && gone > 0 && len(acc) == 0 && !strings.HasPrefix(why, "again") {
		// the key server no longer knows a device we still knew: an error is in order, but not twice
		c.r.Event("sends to a device that is gone", 1)
		return c.send(a, "again "+why)
	}
	if err != nil {
		c.r.Violation("refused", "%s: a server that accepts was not reached: %v (%d requests: %s)", why, err, len(reqs), paths(reqs))
		return false
	}
	if len(reqs) > maxRequests15 {
		c.r.Violation("unbounded", "%d requests for one message", len(reqs))
	}
	var mine, trans []accepted
	for _, x := range acc {
		switch x.acct {
		case a.id:
			mine = append(mine, x)
		case simUUID:
			trans = append(trans, x)
		default:
			c.r.Violation("stray", "a message for %s was sent to %s", a.id, x.acct)
		}
	}
	if len(mine) != 1 {
		c.r.Violation("times", "the message was accepted %d times", len(mine))
		return false
	}
	c.known[a.id] = true
	if ts != mine[0].ts || ts < before || ts > after {
		c.r.Violation("timestamp", "returned %d, sent %d (between %d and %d)", ts, mine[0].ts, before, after)
	}
	var dm *signalservice.DataMessage
	if len(mine[0].del) != len(mine[0].devs) || len(mine[0].del) == 0 {
		c.r.Violation("devices", "%d devices read the message sent to %v", len(mine[0].del), mine[0].devs)
		return false
	}
	for _, d := range mine[0].del {
		m := d.content.GetDataMessage()
		if m == nil || m.GetBody() != txt || m.GetTimestamp() != ts || m.GetExpireTimer() != timer || m.GetFlags() != 0 || !bytes.Equal(m.GetProfileKey(), config.ConfigFile.ProfileKey) ||
			len(m.Attachments) != 0 || m.GroupV2 != nil || d.content.SyncMessage != nil {
			c.r.Violation("changed", "device %d of %s read %.300v instead of text %q timer %d timestamp %d", d.dev, a.id, d.content, txt, timer, ts)
			return false
		}
		dm = m
	}
	want := 0
	if sync && len(c.own.devs) > 1 {
		want = 1
	}
	if len(trans) != want {
		c.r.Violation("transcripts", "%d transcripts accepted, %d expected (linked devices %v)", len(trans), want, c.own.ids())
		return false
	}
	for _, x := range trans {
		if x.ts != ts {
			c.r.Violation("transcript-time", "the transcript of the message of %d was sent with timestamp %d", ts, x.ts)
		}
		if fmt.Sprint(sorted32(x.devs)) != fmt.Sprint(c.own.ids()[1:]) {
			c.r.Violation("transcript-devices", "transcript went to %v, linked devices are %v", x.devs, c.own.ids()[1:])
		}
		for _, d := range x.del {
			s := d.content.GetSyncMessage().GetSent()
			dest := s.GetDestinationUuid()
			if a.id[0] == '+' {
				dest = s.GetDestinationE164()
			}
			if s == nil || dest != a.id || (s.GetDestinationUuid() != "" && s.GetDestinationE164() != "") || s.GetTimestamp() != ts || !proto.Equal(s.GetMessage(), dm) || d.content.DataMessage != nil {
				c.r.Violation("transcript", "transcript is %.300v for a message to %s at %d: %.300v", d.content, a.id, ts, dm)
			}
			c.r.Event("transcripts", 1)
		}
	}
	return true
}

func sorted32(l []uint32) []uint32 {
	l = append([]uint32{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// reply lets devices of the account answer, so that sessions get established both ways.
func (c *c15) reply(a *account) {
	c.n.locked(func() {
		for _, d := range a.ids() {
			p := a.devs[d]
			name, err := recID(a.id)
			if err != nil || !p.S.ContainsSession(simUUID, 1) {
				continue
			}
			m, err := p.Encrypt(c.l.party, []byte("reply"))
			if err != nil {
				continue
			}
			cl := axolotl.NewSessionCipher(c.l.st, c.l.st, c.l.st, c.l.st, name, d)
			if _, err := p.DecryptWith(cl, m.Type, m.Wire); err == nil {
				c.log("%.8s device %d replied", a.id, d)
				c.r.Event("replies", 1)
			}
		}
	})
}

func (c *c15) sessions(a *account) int {
	name, _ := recID(a.id)
	k := 0
	for d := uint32(0); d < 160; d++ {
		if c.l.st.ContainsSession(name, d) {
			k++
		}
	}
	return k
}

func (c *c15) endSession(a *account) {
	fail := c.rd.Intn(2) == 0
	had := c.sessions(a)
	c.n.locked(func() {
		c.n.needsSync, c.n.report = nil, nil
		if fail {
			c.n.override = func(n *network, q sreq) (sresp, bool) {
				return sresp{Status: 500}, q.Method == "PUT"
			}
		}
	})
	c.n.takeAccepted()
	c.n.takeGone()
	c.log("end session with %.8s (server fails: %v)", a.id, fail)
	var ts uint64
	var err error
	ok := c.r.Safe("panic", "EndSession", func() { ts, err = EndSession(a.id, "TERMINATE") })
	c.n.locked(func() { c.n.override = nil })
	if !ok {
		return
	}
	acc := c.n.takeAccepted()
	if fail {
		if err == nil {
			c.r.Violation("end-error", "EndSession reported success for a refused message")
		}
		if got := c.sessions(a); got < had {
			c.r.Violation("end-lost", "EndSession failed but removed %d of %d sessions", had-got, had)
		}
		return
	}
	if err != nil && len(acc) == 0 && c.n.takeGone() > 0 {
		return
	}
	if err != nil || len(acc) != 1 {
		c.r.Violation("refused", "EndSession: %v, %d accepted", err, len(acc))
		return
	}
	for _, d := range acc[0].del {
		if m := d.content.GetDataMessage(); m.GetFlags() != uint32(signalservice.DataMessage_END_SESSION) || m.GetTimestamp() != ts {
			c.r.Violation("end-content", "end-session message reads %v", d.content)
		}
	}
	if k := c.sessions(a); k != 0 {
		c.r.Violation("end-sessions", "%d sessions left after EndSession", k)
	}
	c.r.Event("ended sessions", 1)
}

// hostile runs one send against a server that never accepts or answers nonsense.
func (c *c15) hostile(a *account) {
	rd := rand.New(rand.NewSource(c.rd.Int63()))
	name, _ := recID(a.id)
	kind := rd.Intn(11)
	var what string
	mayAccept := false
	count := 0
	var f func(n *network, q sreq) (sresp, bool)
	put := func(h func(q sreq) sresp) func(n *network, q sreq) (sresp, bool) {
		return func(n *network, q sreq) (sresp, bool) {
			if q.Method != "PUT" {
				return sresp{}, false
			}
			return h(q), true
		}
	}
	ids := a.ids()
	switch kind {
	case 0:
		what = "endless 409"
		v := rd.Intn(4)
		f = put(func(q sreq) sresp {
			m, e := []uint32{}, []uint32{}
			switch v {
			case 1:
				m = append(m, ids...)
			case 2:
				e = append(e, ids...)
			case 3:
				if rd.Intn(2) == 0 {
					m = append(m, ids[rd.Intn(len(ids))])
				} else {
					e = append(e, ids[rd.Intn(len(ids))])
				}
			}
			return sresp{Status: 409, Body: js(map[string]interface{}{"missingDevices": m, "extraDevices": e})}
		})
	case 1:
		what = "endless 410"
		f = put(func(q sreq) sresp {
			return sresp{Status: 410, Body: js(map[string]interface{}{"staleDevices": ids[:rd.Intn(len(ids)+1)]})}
		})
	case 2:
		what = "409/410 with unusable bodies"
		f = put(func(q sreq) sresp {
			return sresp{Status: 409 + rd.Intn(2), Body: garbage15(rd)}
		})
	case 3:
		st := []int{300, 302, 304, 400, 401, 403, 404, 405, 408, 411, 412, 413, 422, 423, 428, 429, 499, 500, 502, 503, 508, 599}[rd.Intn(22)]
		what = fmt.Sprint("status ", st)
		f = put(func(q sreq) sresp { return sresp{Status: st, Body: garbage15(rd)} })
	case 4:
		what = "connections dropped"
		f = put(func(q sreq) sresp { return sresp{Drop: true} })
	case 5:
		what, mayAccept = "accepted with a garbage body", true
		f = put(func(q sreq) sresp { return sresp{Status: 200, Body: garbage15(rd)} })
	case 6, 7, 8, 9:
		// the key server is the bad one; sessions have to be rebuilt
		c.l.st.DeleteAllSessions(name)
		b := rd.Intn(16)
		what = fmt.Sprint("bad bundle ", b)
		target := a.devs[1]
		f = func(n *network, q sreq) (sresp, bool) {
			if q.Method != "GET" {
				return sresp{}, false
			}
			return badBundle15(rd, b, target, c.known[a.id] && c.trusted(a)), true
		}
		if !(c.known[a.id] && c.trusted(a)) && (b == 9 || b == 10) {
			return // a first contact cannot tell
		}
	case 10:
		what = "missing devices that are not there"
		f = put(func(q sreq) sresp {
			return sresp{Status: 409, Body: js(map[string]interface{}{"missingDevices": []uint32{uint32(rd.Intn(200)), 77, uint32(rd.Uint32())}, "extraDevices": []uint32{1}})}
		})
	}
	c.n.locked(func() {
		c.n.report, c.n.needsSync = nil, nil
		c.n.override = func(n *network, q sreq) (sresp, bool) {
			if count++; count > 2*maxRequests15 {
				return sresp{Drop: true}, true
			}
			return f(n, q)
		}
	})
	c.n.take()
	c.n.takeAccepted()
	c.log("hostile server (%s) %.8s", what, a.id)
	c.r.SetCase("%s", strings.Join(tailOf(c.trace, 12), "; "))
	var err error
	ok := false
	c.r.Bounded("hang", "SendMessage", func() {
		ok = c.r.Safe("panic", "SendMessage with a hostile server: "+what, func() { _, err = SendMessage(a.id, "hostile "+text15(rd), 0) })
	})
	c.n.locked(func() { c.n.override = nil })
	if !ok {
		return
	}
	reqs, acc := c.n.take(), c.n.takeAccepted()
	c.r.Eval(what + fmt.Sprint(len(reqs)))
	if len(reqs) > maxRequests15 {
		c.r.Violation("unbounded", "%s: %d requests for one message and no end", what, len(reqs))
		return
	}
	if err == nil && !mayAccept && len(acc) == 0 {
		c.r.Violation("success", "%s: the message was never accepted but the caller got no error (%s)", what, paths(reqs))
	}
	if mayAccept && err != nil {
		c.r.Violation("refused", "%s: %v", what, err)
	}
	c.r.Event("hostile servers survived", 1)
	// and the contact is reachable afterwards
	if c.send(a, "after "+what) {
		c.r.Event("sends after a hostile server", 1)
	}
}

func (c *c15) trusted(a *account) bool {
	name, _ := recID(a.id)
	other := axolotl.GenerateIdentityKeyPair()
	return !c.l.st.IsTrustedIdentity(name, &other.PublicKey)
}

func garbage15(rd *rand.Rand) []byte {
	g := []string{"", "null", "[]", "{", "0", "\"x\"", "{\"missingDevices\":null}", "{\"missingDevices\":\"x\"}", "{\"missingDevices\":[-1]}", "{\"missingDevices\":[1.5]}", "{\"extraDevices\":{}}",
		"{\"staleDevices\":[null]}", "{\"staleDevices\":7}", "<html>busy</html>", "{\"needsSync\":\"yes\"}", "{\"needsSync\":null}", "{\"missingDevices\":[99999999999999999999]}", strings.Repeat("[", 3000)}
	if rd.Intn(5) == 0 {
		return vh.Bytes(rd, rd.Intn(100))
	}
	return []byte(g[rd.Intn(len(g))])
}

func badBundle15(rd *rand.Rand, kind int, p *axh.Party, trusted bool) sresp {
	good := func() map[string]interface{} { return bundleJSON(p, axh.OneTime) }
	dev := func(b map[string]interface{}) map[string]interface{} {
		return b["devices"].([]interface{})[0].(map[string]interface{})
	}
	b := good()
	switch kind {
	case 0:
		return sresp{Status: []int{404, 500, 413, 401, 302}[rd.Intn(5)], Body: js(good())}
	case 1:
		return sresp{Body: garbage15(rd)}
	case 2:
		b["devices"] = []interface{}{}
	case 3:
		b["devices"] = append(b["devices"].([]interface{}), dev(good()))
	case 4:
		dev(b)["signedPreKey"] = nil
	case 5:
		s := dev(b)["signedPreKey"].(map[string]interface{})
		s["signature"] = "AAAA" + s["signature"].(string)[4:]
	case 6:
		dev(b)["signedPreKey"].(map[string]interface{})["publicKey"] = []interface{}{"", "BQ", "!!", key64(make([]byte, 31)), nil}[rd.Intn(5)]
	case 7:
		dev(b)["preKey"].(map[string]interface{})["publicKey"] = []interface{}{"", "BQ", "!!", key64(make([]byte, 31)), nil}[rd.Intn(5)]
	case 8:
		b["identityKey"] = []interface{}{"", "BQ", "!!", nil}[rd.Intn(4)]
	case 9: // another identity, everything else consistent
		b = bundleJSON(axh.NewParty(p.Name, p.Dev, rd), axh.OneTime)
	case 10:
		o := axh.NewParty(p.Name, p.Dev, rd)
		b["identityKey"] = key64(o.S.Identity.PublicKey.Key()[:])
	case 11: // another device's id
		dev(b)["deviceId"] = p.Dev + 1 + uint32(rd.Intn(5))
	case 12:
		dev(b)["signedPreKey"].(map[string]interface{})["signature"] = []interface{}{"", "AAAA", "!", nil}[rd.Intn(4)]
	case 13:
		return sresp{Drop: true}
	case 14:
		b["devices"] = []interface{}{nil}
	case 15:
		b["devices"] = nil
	}
	return sresp{Body: js(b)}
}

// TestVerifC15Race sends from several goroutines at once (race detector build).
func TestVerifC15Race(t *testing.T) {
	r := vh.Start(t, "C15", "concurrent sends under the race detector: several goroutines send to the same and to different accounts, whose device lists are still unknown, while devices are added; every accepted request is judged as above")
	defer r.Finish()
	r.NoStop = true
	n := r.N(10, 150)
	for i := 0; i < n && !r.Failed(); i++ {
		rd := r.Rand("race", i)
		r.SetCase("race case=%d", i)
		func() {
			l, done := ownDevice(rd, "")
			defer done()
			as := rand.New(rand.NewSource(rd.Int63()))
			own := &account{id: simUUID, ident: l.party.S.Identity, devs: map[uint32]*axh.Party{1: l.party}, rd: as}
			if rd.Intn(2) == 0 {
				own.add(2)
			}
			peers := []*account{newAccount(as, uuidOf(rd), 1, 2), newAccount(as, uuidOf(rd), 1), newAccount(as, uuidOf(rd), 1, 3, 4)}
			nw := newNetwork(r, as, l.party, own, peers[0], peers[1], peers[2])
			nw.needsSync = func(id string) bool { return id != simUUID && len(own.devs) > 1 }
			defer nw.Close()
			nw.connect()
			var wg sync.WaitGroup
			var mu sync.Mutex
			sent := map[string]uint64{}
			for g := 0; g < 4; g++ {
				wg.Add(1)
				g := g
				gr := rand.New(rand.NewSource(rd.Int63()))
				go func() {
					defer wg.Done()
					for k := 0; k < 5; k++ {
						a := peers[gr.Intn(len(peers))]
						txt := fmt.Sprintf("g%d k%d to %s", g, k, a.id)
						var ts uint64
						var err error
						if !r.Safe("panic", "SendMessage", func() { ts, err = SendMessage(a.id, txt, 0) }) {
							return
						}
						if err != nil {
							r.Violation("refused", "concurrent send %q: %v", txt, err)
							return
						}
						mu.Lock()
						sent[txt] = ts
						mu.Unlock()
						if gr.Intn(6) == 0 {
							nw.locked(func() {
								if d := uint32(5 + gr.Intn(3)); a.devs[d] == nil {
									a.add(d)
								}
							})
						}
					}
				}()
			}
			wg.Wait()
			got := map[string]int{}
			for _, x := range nw.takeAccepted() {
				if x.acct == simUUID {
					continue
				}
				for _, d := range x.del {
					m := d.content.GetDataMessage()
					if sent[m.GetBody()] != m.GetTimestamp() || !strings.HasSuffix(m.GetBody(), x.acct) {
						r.Violation("changed", "%s device %d read %q at %d, sent at %d", x.acct, d.dev, m.GetBody(), m.GetTimestamp(), sent[m.GetBody()])
					}
				}
				if len(x.del) > 0 {
					got[x.del[0].content.GetDataMessage().GetBody()]++
				}
			}
			for txt := range sent {
				if got[txt] != 1 {
					r.Violation("times", "%q was accepted %d times", txt, got[txt])
				}
			}
			r.Event("concurrent sends", len(sent))
			r.Eval(fmt.Sprint("race", i, len(sent)))
		}()
	}
	r.Require("concurrent sends", n*10)
}

var _ = json.Marshal
