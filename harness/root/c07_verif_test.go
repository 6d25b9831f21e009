package textsecure

import (
	"fmt"
	"math/rand"
	"os"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type c07Peer struct {
	name string
	ids  []*axh.Party // the devices that claim this name; each has an identity of its own or shares the first's
	pin  []byte
}

func (p *c07Peer) String() string { return p.name }

// TestVerifC07 drives the real store with genuine peers and impostors and compares with a model of what is pinned.
func TestVerifC07(t *testing.T) {
	r := vh.Start(t, "C07", "a case is one history of first contacts, repeat contacts, identity changes (bundle or establishment message, also forged ones that do not decrypt), ordinary traffic, reopenings and changes of the always-trust setting for several peers with similar names over the real file store; distinct by its operation trace; the monitor compares every outcome, the pinned keys and the complete directory with a trust-on-first-use model")
	defer r.Finish()
	config.ConfigFile = &config.Config{}
	for i := 0; i < r.N(300, 4000); i++ {
		r.SetCase("history/%d", i)
		if !r.Safe("panic", "history", func() { c07Case(r, i) }) {
			continue
		}
	}
	r.Require("impostor_refused", 120)
	r.Require("impostor_refused_by_message", 50)
	r.Require("impostor_refused_by_bundle", 50)
	r.Require("pinned", 200)
	r.Require("always_trust_accepted", 20)
	r.Require("forged_first_contact", 30)
	r.Require("other identity put on a message", 60)
	r.Require("damaged pins", 100)
}

func c07Case(r *vh.R, i int) {
	rd := r.Rand("history", i)
	pw := ""
	if i%2 == 1 {
		pw = fmt.Sprintf("pw%d", i)
	}
	l, done := newLocal(rd, pw, "local")
	defer done()
	old := textSecureStore
	textSecureStore = l.st
	defer func() { textSecureStore = old; config.ConfigFile.AlwaysTrustPeerID = false }()
	base := uuidOf(rd)
	names := []string{base, base[:len(base)-1], base + "0", uuidOf(rd)}
	var peers []*c07Peer
	for k := 0; k < 2+rd.Intn(3); k++ {
		p := &c07Peer{name: names[k]}
		for j := 0; j < 3; j++ {
			q := axh.NewParty(p.name, uint32(1+rd.Intn(3)), rd)
			if j == 1 { // a second device of the same account
				q.S.Identity = p.ids[0].S.Identity
				q.Dev = p.ids[0].Dev + 1
				q.NewSigned()
			}
			p.ids = append(p.ids, q)
		}
		peers = append(peers, p)
	}
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	pinned := func(p *c07Peer) []byte {
		k, err := ContactIdentityKey(p.name)
		if err != nil {
			return nil
		}
		if len(k) != 33 || k[0] != 5 {
			r.Violation("pin-format", "ContactIdentityKey returns %x", k)
			return nil
		}
		return k[1:]
	}
	check := func(what string) {
		for _, p := range peers {
			if got := pinned(p); !eq(got, p.pin) {
				r.Violation("pinned-key", "after %s the pinned key of %s is %x, should be %x; trace %v", what, p, got, p.pin, tailOf(trace, 10))
				p.pin = got
			}
			// and the trust decisions follow it
			for _, q := range p.ids {
				k := &q.S.Identity.PublicKey
				want := p.pin == nil || eq(p.pin, k.Key()[:]) || config.ConfigFile.AlwaysTrustPeerID
				if l.st.IsTrustedIdentity(p.name, k) != want {
					r.Violation("trust", "after %s identity %x of %s trusted=%v, should be %v", what, k.Key()[:4], p, !want, want)
				}
			}
		}
		r.Event("model_checked", 1)
	}
	for step := 0; step < 14+rd.Intn(10); step++ {
		p := peers[rd.Intn(len(peers))]
		q := p.ids[rd.Intn(3)]
		key := q.S.Identity.PublicKey.Key()[:]
		allowed := p.pin == nil || eq(p.pin, key) || config.ConfigFile.AlwaysTrustPeerID
		foreign := p.pin != nil && !eq(p.pin, key)
		before := l.snapshot()
		refused := func(err error, how string) {
			if err == nil {
				r.Violation("accepted", "a session with %s was built by %s although its pinned key is another one; trace %v", p, how, tailOf(trace, 10))
				p.pin = pinned(p)
				return
			}
			if d := snapDiff(before, l.snapshot()); d != "" {
				r.Violation("side-effect", "a refused identity for %s (by %s) left traces: %s; trace %v", p, how, d, tailOf(trace, 10))
			}
			r.Event("impostor_refused", 1)
			r.Event("impostor_refused_by_"+how, 1)
		}
		took := func() {
			if p.pin == nil {
				r.Event("pinned", 1)
			}
			if foreign {
				r.Event("always_trust_accepted", 1)
			}
			p.pin = append([]byte{}, key...)
		}
		switch op := rd.Intn(12); {
		case op < 3: // we start, from a bundle
			b := q.Bundle(axh.PreKind(rd.Intn(3)))
			if rd.Intn(6) == 0 {
				// and the bundle is badly signed as well
				b.SignedPreKeySignature[rd.Intn(60)] ^= 1
				err := l.build(q, b)
				say("bad bundle of %s/%d %x: %v", p, q.Dev, key[:3], err)
				if err == nil {
					r.Violation("bad-signature", "a badly signed bundle was accepted")
					took()
				} else if d := snapDiff(before, l.snapshot()); d != "" {
					r.Violation("side-effect", "a badly signed bundle for %s left traces: %s", p, d)
				}
				break
			}
			err := l.build(q, b)
			say("bundle of %s/%d %x: %v", p, q.Dev, key[:3], err)
			if !allowed {
				refused(err, "bundle")
				if _, ok := err.(axolotl.NotTrustedError); err != nil && !ok {
					r.Violation("error", "a changed identity is reported as %v", err)
				}
				break
			}
			if err != nil {
				r.Violation("refused", "a valid bundle of %s was refused: %v; trace %v", p, err, tailOf(trace, 10))
				break
			}
			took()
			if m, err := l.encrypt(q, []byte("hi")); err != nil {
				r.Violation("encrypt", "%v", err)
			} else if rd.Intn(2) == 0 {
				if _, err := q.Decrypt(l.party, m.Type, m.Wire); err != nil {
					r.Violation("peer-decrypt", "%v", err)
				}
			}
		case op < 7: // the peer starts, by message
			kind := axh.PreKind(rd.Intn(3))
			if err := q.Builder(l.party).BuildSenderSession(l.bundle(kind)); err != nil {
				r.Violation("setup", "%v", err)
				return
			}
			m, err := q.Encrypt(l.party, []byte("hello"))
			if err != nil || m.Type != axh.TypePreKey {
				r.Violation("setup", "%v %v", m, err)
				return
			}
			before = l.snapshot()
			if rd.Intn(4) == 0 {
				// the message does not authenticate: nothing at all may come of it
				w, what := c07Break(rd, m.Wire)
				out, err := l.decrypt(q, m.Type, w)
				say("forged start of %s/%d %x (%s): %v", p, q.Dev, key[:3], what, err)
				if err == nil {
					r.Violation("forged", "an altered establishment message decrypted to %q (%s)", out, what)
					p.pin = pinned(p)
					break
				}
				if d := snapDiff(before, l.snapshot()); d != "" {
					r.Violation("side-effect", "an establishment message of %s that does not decrypt left traces: %s (%s)", p, d, what)
					p.pin = pinned(p)
				}
				if p.pin == nil {
					r.Event("forged_first_contact", 1)
				}
				break
			}
			out, err := l.decrypt(q, m.Type, m.Wire)
			say("start of %s/%d %x: %v", p, q.Dev, key[:3], err)
			if !allowed {
				refused(err, "message")
				break
			}
			if err != nil || string(out) != "hello" {
				r.Violation("refused", "a valid first message of %s was refused: %v; trace %v", p, err, tailOf(trace, 10))
				break
			}
			took()
			r.Event("established_by_message", 1)
			if b, err := l.encrypt(q, []byte("re")); err != nil {
				r.Violation("encrypt", "%v", err)
			} else if _, err := q.Decrypt(l.party, b.Type, b.Wire); err != nil {
				r.Violation("peer-decrypt", "%v", err)
			}
		case op < 9: // ordinary traffic in whatever session there is
			m, err := q.Encrypt(l.party, []byte("more"))
			if err != nil {
				break
			}
			_, err = l.decrypt(q, m.Type, m.Wire)
			say("traffic of %s/%d %x type %d: %v", p, q.Dev, key[:3], m.Type, err)
			if err == nil && m.Type == axh.TypePreKey {
				if !allowed {
					r.Violation("accepted", "an establishment message of %s with another identity was accepted; trace %v", p, tailOf(trace, 10))
				}
				took()
			}
			if err != nil {
				if d := snapDiff(before, l.snapshot()); d != "" {
					r.Violation("side-effect", "a refused message left traces: %s", d)
				}
			}
		case op < 10:
			l.open()
			textSecureStore = l.st
			say("reopen")
			r.Event("reopened", 1)
		default:
			config.ConfigFile.AlwaysTrustPeerID = !config.ConfigFile.AlwaysTrustPeerID && rd.Intn(2) == 0
			say("always trust %v", config.ConfigFile.AlwaysTrustPeerID)
		}
		check(fmt.Sprint(tailOf(trace, 1)))
	}
	for _, p := range peers {
		if p.pin != nil && !config.ConfigFile.AlwaysTrustPeerID {
			c07Relabel(r, rd, l, p)
			check("messages with another identity put on")
			c07Damage(r, rd, l, p)
			check("damage to the pinned identity")
		}
	}
	r.Eval(fmt.Sprint(trace))
	if i < 2 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("history/%d", i), "trace": tailOf(trace, 8)})
	}
}

// c07Break alters the authenticated inside of an establishment message (its tail is the inner message with its tag).
func c07Break(rd *rand.Rand, wire []byte) ([]byte, string) {
	p, err := axolotl.LoadPreKeyWhisperMessage(wire)
	if err != nil || p == nil {
		return append([]byte{}, wire[:len(wire)/2]...), "truncated"
	}
	w := append([]byte{}, wire...)
	i := len(w) - 40 - rd.Intn(10) // inside the inner ciphertext or its tag, before the trailing outer fields
	w[i] ^= byte(1 + rd.Intn(255))
	return w, fmt.Sprintf("byte %d/%d changed", i, len(w))
}

// c07Relabel has a genuine peer start a session with two messages; the first is delivered, the second with the identity
// key of somebody else, in a session that is there already.
func c07Relabel(r *vh.R, rd *rand.Rand, l *local, p *c07Peer) {
	var q *axh.Party
	for _, o := range p.ids {
		if eq(o.S.Identity.PublicKey.Key()[:], p.pin) {
			q = o
		}
	}
	if q == nil {
		return
	}
	if err := q.Builder(l.party).BuildSenderSession(l.bundle(axh.PreKind(rd.Intn(3)))); err != nil {
		r.Violation("setup", "%v", err)
		return
	}
	var ms []*axh.Msg
	for k := 0; k < 3; k++ {
		m, err := q.Encrypt(l.party, []byte(fmt.Sprint("message ", k)))
		must07(err)
		ms = append(ms, m)
	}
	if _, err := l.decrypt(q, ms[0].Type, ms[0].Wire); err != nil {
		r.Violation("refused", "a valid first message of %s was refused: %v", p, err)
		return
	}
	for k, m := range ms {
		x := &axpb.PreKeySignalMessage{}
		must07(proto.Unmarshal(m.Wire[1:], x))
		x.IdentityKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		b, err := proto.Marshal(x)
		must07(err)
		before := l.snapshot()
		if _, err := l.decrypt(q, m.Type, append([]byte{m.Wire[0]}, b...)); err == nil {
			r.Violation("accepted", "message %d of a session that is there was accepted with an identity key put on that is not the pinned one of %s", k, p)
		}
		if d := snapDiff(before, l.snapshot()); d != "" {
			r.Violation("side-effect", "message %d of a session that is there, with another identity key put on, left traces: %s", k, d)
		}
		if k > 0 {
			if _, err := l.decrypt(q, m.Type, m.Wire); err != nil {
				r.Violation("refused", "a valid message of %s was refused after one with another identity: %v", p, err)
			}
		}
		r.Event("other identity put on a message", 1)
	}
}

// c07Damage damages the file of a pinned identity: a file that cannot be read or does not hold that key is no reason to
// trust another one.
func c07Damage(r *vh.R, rd *rand.Rand, l *local, p *c07Peer) {
	f := l.st.remoteIdentityFilePath(p.name)
	good, err := os.ReadFile(f)
	if err != nil {
		r.Inconclusive("the pinned identity is not where it is looked for: %v", err)
		return
	}
	for k := 0; k < 4; k++ {
		how := ""
		b := append([]byte{}, good...)
		switch k {
		case 0:
			how = "one byte changed"
			b[rd.Intn(len(b))] ^= byte(1 + rd.Intn(255))
		case 1:
			how = "cut short"
			b = b[:rd.Intn(len(b))]
		case 2:
			how = "garbage appended"
			b = append(b, vh.Bytes(rd, 1+rd.Intn(40))...)
		case 3:
			how = "not a file"
		}
		if k < 3 {
			must07(os.WriteFile(f, b, 0600))
		} else {
			must07(os.Remove(f))
			must07(os.Mkdir(f, 0700))
		}
		before := l.snapshot()
		im := axh.NewParty(p.name, uint32(1+rd.Intn(3)), rd)
		if l.st.IsTrustedIdentity(p.name, &im.S.Identity.PublicKey) {
			r.Violation("damaged", "with the file of the pinned identity damaged (%s) another identity is trusted", how)
		}
		if err := l.build(im, im.Bundle(axh.OneTime)); err == nil {
			r.Violation("damaged", "with the file of the pinned identity damaged (%s) a session is built from another one's bundle", how)
		}
		if d := snapDiff(before, l.snapshot()); d != "" {
			r.Violation("side-effect", "a bundle refused for damage to the pinned identity (%s) left traces: %s", how, d)
		}
		must07(im.Builder(l.party).BuildSenderSession(l.bundle(axh.NoPre)))
		before = l.snapshot()
		m, err := im.Encrypt(l.party, []byte("hello"))
		must07(err)
		if _, err := l.decrypt(im, m.Type, m.Wire); err == nil {
			r.Violation("damaged", "with the file of the pinned identity damaged (%s) a message of another one is accepted", how)
		}
		if d := snapDiff(before, l.snapshot()); d != "" {
			r.Violation("side-effect", "an identity refused for damage to the pinned one (%s) left traces: %s", how, d)
		}
		must07(os.RemoveAll(f))
		must07(os.WriteFile(f, good, 0600))
		r.Event("damaged pins", 1)
	}
}

func must07(err error) {
	if err != nil {
		panic(err)
	}
}
