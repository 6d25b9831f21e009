package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// account is one simulated Signal account: devices that share an identity.
type account struct {
	id    string
	ident *axolotl.IdentityKeyPair
	devs  map[uint32]*axh.Party
	rd    *rand.Rand
}

func newAccount(rd *rand.Rand, id string, devs ...uint32) *account {
	a := &account{id: id, rd: rd, devs: map[uint32]*axh.Party{}}
	for _, d := range devs {
		a.add(d)
	}
	return a
}

// add links (or reinstalls) a device.
func (a *account) add(dev uint32) *axh.Party {
	p := axh.NewParty(a.id, dev, a.rd)
	if a.ident == nil {
		a.ident = p.S.Identity
	} else {
		p.S.Identity = a.ident
		p.NewSigned()
	}
	if old := a.devs[dev]; old != nil {
		for p.S.RegID == old.S.RegID {
			p.S.RegID++
		}
	}
	a.devs[dev] = p
	return p
}

func (a *account) ids() []uint32 {
	var l []uint32
	for d := range a.devs {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func key64(k []byte) string {
	return base64.RawStdEncoding.EncodeToString(append([]byte{5}, k...))
}

// bundleJSON is what the key server answers for a device.
func bundleJSON(p *axh.Party, kind axh.PreKind) map[string]interface{} {
	b := p.Bundle(kind)
	d := map[string]interface{}{
		"deviceId":       p.Dev,
		"registrationId": b.RegistrationID,
		"signedPreKey": map[string]interface{}{"keyId": uint32(b.SignedPreKeyID), "publicKey": key64(b.SignedPreKeyPublic.Key()[:]),
			"signature": base64.RawStdEncoding.EncodeToString(b.SignedPreKeySignature[:])},
	}
	if b.PreKeyPublic != nil {
		d["preKey"] = map[string]interface{}{"keyId": b.PreKeyID, "publicKey": key64(b.PreKeyPublic.Key()[:])}
	}
	return map[string]interface{}{"identityKey": key64(b.IdentityKey.Key()[:]), "devices": []interface{}{d}}
}

type putMessages struct {
	Destination string `json:"destination"`
	Timestamp   uint64 `json:"timestamp"`
	Messages    []struct {
		Type    int32  `json:"type"`
		Dev     uint32 `json:"destinationDeviceId"`
		RegID   uint32 `json:"destinationRegistrationId"`
		Content string `json:"content"`
	} `json:"messages"`
}

// delivery is one accepted message as a device of its recipient sees it.
type delivery struct {
	acct    string
	dev     uint32
	ts      uint64
	content *signalservice.Content
	raw     []byte
}

// accepted is one accepted request.
type accepted struct {
	acct string
	ts   uint64
	devs []uint32
	del  []delivery
}

// network is the message and key server with its accounts. It judges every accepted request.
type network struct {
	reported map[string]bool // what was reported during a send with unchanging devices

	*sim
	r    *vh.R
	lmu  sync.Mutex
	me   *axh.Party // the sender as the devices know it
	acct map[string]*account
	acc  []accepted
	rd   *rand.Rand

	needsSync func(acct string) bool
	before    func(n *network, a *account, q sreq)               // before a message request is judged
	override  func(n *network, q sreq) (sresp, bool)             // answers instead of the server
	report    func(missing, extra []uint32) ([]uint32, []uint32) // what a mismatch report says
	status    int                                                // of acceptance
	cross     bool
	gone      int // key requests for devices that are not there
}

func newNetwork(r *vh.R, rd *rand.Rand, me *axh.Party, as ...*account) *network {
	n := &network{r: r, rd: rd, me: me, acct: map[string]*account{}}
	for _, a := range as {
		n.acct[a.id] = a
	}
	n.sim = newSim(n.serve)
	return n
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (n *network) serve(q sreq) sresp {
	n.lmu.Lock()
	defer n.lmu.Unlock()
	if n.override != nil {
		if a, ok := n.override(n, q); ok {
			return a
		}
	}
	p := strings.Split(strings.Trim(q.Path, "/"), "/")
	switch {
	case q.Method == "GET" && len(p) == 4 && p[1] == "keys":
		a := n.acct[p[2]]
		d, err := strconv.Atoi(p[3])
		if a == nil || err != nil || a.devs[uint32(d)] == nil {
			n.gone++
			return sresp{Status: 404}
		}
		kind := []axh.PreKind{axh.OneTime, axh.OneTime, axh.NoPre, axh.LastResort}[n.rd.Intn(4)]
		n.r.Event("bundles handed out", 1)
		return sresp{Body: js(bundleJSON(a.devs[uint32(d)], kind))}
	case q.Method == "PUT" && len(p) == 3 && p[1] == "messages":
		return n.messages(p[2], q)
	}
	return sresp{Status: 404}
}

// obeyed notes what is reported about a request: while the devices stay as they are,
// nothing has to be said twice about one device during a send.
func (n *network) obeyed(a *account, what string, devs []uint32, about func(uint32) bool) {
	if n.reported == nil {
		return
	}
	now := map[string]bool{}
	for _, d := range devs {
		if !about(d) {
			continue
		}
		k := fmt.Sprint(a.id, " ", what, " ", d)
		if n.reported[k] && !now[k] {
			n.r.Violation("disobeyed", "device %d of %s is reported as %s once more during one send", d, a.id, what)
		}
		now[k] = true
		n.reported[k] = true
	}
}

func (n *network) messages(to string, q sreq) sresp {
	a := n.acct[to]
	if a == nil {
		return sresp{Status: 404}
	}
	if n.before != nil {
		n.before(n, a, q)
	}
	var m putMessages
	if err := json.Unmarshal(q.Body, &m); err != nil {
		n.r.Violation("json", "a message request is no JSON: %v", err)
		return sresp{Status: 422}
	}
	have := map[uint32]bool{}
	var missing, extra, stale []uint32
	for _, x := range m.Messages {
		if have[x.Dev] {
			n.r.Violation("duplicate", "a request to %s has two messages for device %d", to, x.Dev)
			return sresp{Status: 400}
		}
		have[x.Dev] = true
		switch p := a.devs[x.Dev]; {
		case p == nil, to == n.me.Name && x.Dev == n.me.Dev:
			extra = append(extra, x.Dev)
		case p.S.RegID != x.RegID:
			stale = append(stale, x.Dev)
		}
	}
	for _, d := range a.ids() {
		if !have[d] && !(to == n.me.Name && d == n.me.Dev) {
			missing = append(missing, d)
		}
	}
	if len(missing)+len(extra) > 0 {
		if n.report != nil {
			missing, extra = n.report(missing, extra)
		}
		n.r.Event("mismatch reports", 1)
		n.obeyed(a, "missing", missing, func(d uint32) bool { return !have[d] })
		n.obeyed(a, "extra", extra, func(d uint32) bool { return have[d] })
		return sresp{Status: 409, Body: js(map[string]interface{}{"missingDevices": missing, "extraDevices": extra})}
	}
	if len(stale) > 0 {
		n.r.Event("stale reports", 1)
		n.obeyed(a, "stale", stale, func(d uint32) bool { return have[d] })
		return sresp{Status: 410, Body: js(map[string]interface{}{"staleDevices": stale})}
	}
	if m.Timestamp == 0 || (m.Destination != "" && m.Destination != to) {
		n.r.Violation("envelope", "accepted request to %s has destination %q and timestamp %d", to, m.Destination, m.Timestamp)
	}
	acc := accepted{acct: to, ts: m.Timestamp}
	for _, x := range m.Messages {
		wire, err := base64.StdEncoding.DecodeString(x.Content)
		if err != nil {
			n.r.Violation("base64", "content for %s device %d: %v", to, x.Dev, err)
			continue
		}
		p := a.devs[x.Dev]
		if n.cross { // no other device can read it
			for _, o := range n.acct {
				for d, op := range o.devs {
					if op == p || (o.id == n.me.Name && d == n.me.Dev) {
						continue
					}
					cl := *op
					cl.S = op.S.Clone()
					if b, err := cl.DecryptWith(cl.Cipher(n.me), x.Type, wire); err == nil {
						n.r.Violation("readable", "the message for %s device %d is readable by %s device %d (%d bytes)", to, x.Dev, o.id, d, len(b))
					}
					n.r.Event("foreign devices that cannot read", 1)
				}
			}
		}
		plain, err := p.DecryptWith(p.Cipher(n.me), x.Type, wire)
		if err != nil {
			n.r.Violation("undecryptable", "an accepted message (type %d) for %s device %d is not decrypted by it: %v", x.Type, to, x.Dev, err)
			continue
		}
		c, err := parseContent(plain)
		if err != nil {
			n.r.Violation("content", "message for %s device %d: %v", to, x.Dev, err)
			continue
		}
		acc.devs = append(acc.devs, x.Dev)
		acc.del = append(acc.del, delivery{to, x.Dev, m.Timestamp, c, plain})
		n.r.Event("messages decrypted by their device", 1)
		if x.Type == axh.TypePreKey {
			n.r.Event("of which start a session", 1)
		}
	}
	n.acc = append(n.acc, acc)
	n.r.Event("accepted requests", 1)
	st := n.status
	if st == 0 {
		st = 200
	}
	return sresp{Status: st, Body: js(map[string]interface{}{"needsSync": n.needsSync != nil && n.needsSync(to)})}
}

// parseContent strips the padding as the protocol says (0x80 and zeros at the end) and parses.
func parseContent(b []byte) (*signalservice.Content, error) {
	i := len(b) - 1
	for i >= 0 && b[i] == 0 {
		i--
	}
	if i < 0 || b[i] != 0x80 {
		return nil, fmt.Errorf("no padding mark")
	}
	c := &signalservice.Content{}
	if err := proto.Unmarshal(b[:i], c); err != nil {
		return nil, err
	}
	return c, nil
}

func (n *network) takeAccepted() []accepted {
	n.lmu.Lock()
	defer n.lmu.Unlock()
	a := n.acc
	n.acc = nil
	return a
}

func (n *network) takeGone() int {
	n.lmu.Lock()
	defer n.lmu.Unlock()
	g := n.gone
	n.gone = 0
	return g
}

// locked runs f while no request is being served.
func (n *network) locked(f func()) {
	n.lmu.Lock()
	defer n.lmu.Unlock()
	f()
}

// ownDevice makes l the device under test of the package, known to the network as simUUID device 1.
func ownDevice(rd *rand.Rand, password string) (*local, func()) {
	l, done := newLocal(rd, password, simUUID)
	setupGlobals(l.dir)
	textSecureStore = l.st
	identityKey = l.party.S.Identity
	deviceLists = map[string][]uint32{}
	return l, done
}

func (l *local) restart() {
	l.open()
	textSecureStore = l.st
	deviceLists = map[string][]uint32{}
}
