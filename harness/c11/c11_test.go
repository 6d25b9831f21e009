package c11

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// C11 at the protocol level: storage that refuses a write, and a crash after each single effect.

type world struct {
	r     *vh.R
	rd    *rand.Rand
	p     [2]*axh.Party
	open  []*axh.Msg
	n     int
	trace []string
}

func (w *world) tail() []string {
	if len(w.trace) > 12 {
		return w.trace[len(w.trace)-12:]
	}
	return w.trace
}

func (w *world) other(p *axh.Party) *axh.Party {
	if p == w.p[0] {
		return w.p[1]
	}
	return w.p[0]
}

// hasBase tells whether a stored record of p has a session started with that base key.
func hasBase(rs *axpb.RecordStructure, base string) bool {
	if rs == nil {
		return false
	}
	for _, s := range append([]*axpb.SessionStructure{rs.CurrentSession}, rs.PreviousSessions...) {
		if s != nil && fmt.Sprintf("05%x", s.AliceBaseKey) == base || s != nil && fmt.Sprintf("%x", s.AliceBaseKey) == base {
			return true
		}
	}
	return false
}

type fault struct {
	session, identity bool
}

func (w *world) inject(p *axh.Party, f fault) {
	p.S.FailStoreSession = func() bool { return f.session }
	p.S.FailSaveIdentity = func() bool { return f.identity }
}

func (w *world) fault() fault {
	switch w.rd.Intn(8) {
	case 0, 1:
		return fault{session: true}
	case 2:
		return fault{identity: true}
	case 3:
		return fault{true, true}
	}
	return fault{}
}

func (w *world) build(p *axh.Party) {
	o := w.other(p)
	b := o.Bundle([]axh.PreKind{axh.NoPre, axh.OneTime, axh.OneTime, axh.LastResort}[w.rd.Intn(4)])
	f := w.fault()
	before := append([]byte{}, p.S.RawSession(o.Name, o.Dev)...)
	had := p.S.ContainsSession(o.Name, o.Dev)
	w.inject(p, f)
	err := p.Builder(o).BuildSenderSession(b)
	w.inject(p, fault{})
	w.trace = append(w.trace, fmt.Sprintf("build %s %+v err=%v", p.Name, f, err))
	w.r.Event("builds", 1)
	if f.session || f.identity {
		w.r.Event("build_faults", 1)
		if err == nil {
			w.r.Violation("fault-unreported-build", "BuildSenderSession succeeded although a write failed (%+v)", f)
		}
		if f.session && (had != p.S.ContainsSession(o.Name, o.Dev) || !bytes.Equal(before, p.S.RawSession(o.Name, o.Dev))) {
			w.r.Violation("fault-changed", "a failed build changed the session")
		}
		if err := p.Builder(o).BuildSenderSession(o.Bundle(axh.OneTime)); err != nil {
			w.r.Violation("retry", "the session cannot be built after a write failure: %v", err)
		}
	} else if err != nil {
		w.r.Violation("setup", "build without a fault: %v", err)
	}
}

func (w *world) send(p *axh.Party) {
	o := w.other(p)
	if !p.S.ContainsSession(o.Name, o.Dev) {
		w.build(p)
	}
	w.n++
	plain := append([]byte(fmt.Sprintf("m%d-", w.n)), vh.Bytes(w.rd, w.rd.Intn(60))...)
	f := w.fault()
	f.identity = false
	if f.session {
		before := append([]byte{}, p.S.RawSession(o.Name, o.Dev)...)
		w.inject(p, f)
		wire, _, err := p.Cipher(o).SessionEncryptMessage(append([]byte{}, plain...))
		w.inject(p, fault{})
		w.r.Event("encrypt_faults", 1)
		w.trace = append(w.trace, fmt.Sprintf("encrypt %s fault err=%v", p.Name, err))
		if err == nil || len(wire) > 0 {
			w.r.Violation("fault-ciphertext", "the new session state could not be stored, yet encrypting gave err=%v and %d bytes of ciphertext; trace %v", err, len(wire), w.tail())
		}
		if !bytes.Equal(before, p.S.RawSession(o.Name, o.Dev)) {
			w.r.Violation("fault-changed", "a failed encryption changed the session")
		}
	}
	m, err := p.Encrypt(o, plain)
	w.trace = append(w.trace, fmt.Sprintf("encrypt %s err=%v", p.Name, err))
	if err != nil {
		w.r.Violation("retry", "encrypting fails after a write failure: %v; trace %v", err, w.tail())
		return
	}
	m.N = w.n
	w.open = append(w.open, m)
	w.r.Event("encryptions", 1)
}

// crash is one crash point: the state that would be found after a restart.
type crash struct {
	after string
	s     *axh.Store
}

func (w *world) deliver(i int) {
	m := w.open[i]
	w.open = append(w.open[:i], w.open[i+1:]...)
	to, from := m.To, m.From
	f := w.fault()
	if f.session || f.identity {
		pre := m.Type == axh.TypePreKey && m.PreID != 0 && to.S.ContainsPreKey(m.PreID)
		before := append([]byte{}, to.S.RawSession(from.Name, from.Dev)...)
		had := to.S.ContainsSession(from.Name, from.Dev)
		w.inject(to, f)
		got, err := to.Decrypt(from, m.Type, m.Wire)
		w.inject(to, fault{})
		w.trace = append(w.trace, fmt.Sprintf("deliver %v %+v err=%v", m, f, err))
		hit := f.session || m.Type == axh.TypePreKey
		if hit {
			w.r.Event("decrypt_faults", 1)
			if err == nil || len(got) > 0 {
				w.r.Violation("fault-plaintext", "the new state could not be stored (%+v), yet decrypting gave err=%v and %d bytes of plaintext; trace %v", f, err, len(got), w.tail())
			}
			if had != to.S.ContainsSession(from.Name, from.Dev) || (f.session && !bytes.Equal(before, to.S.RawSession(from.Name, from.Dev))) {
				w.r.Violation("fault-changed", "a failed decryption changed the session (%+v); trace %v", f, w.tail())
			}
			if pre && !to.S.ContainsPreKey(m.PreID) {
				w.r.Violation("prekey-given-up", "the session could not be stored (%+v) but the one-time prekey %d is gone; trace %v", f, m.PreID, w.tail())
			}
		} else {
			if err != nil || !bytes.Equal(got, m.Plain) {
				w.r.Violation("fault-unrelated", "a message needing no identity write fails: %v", err)
			}
			return
		}
	}
	// now without a fault, with a crash point after each effect
	var pts []crash
	oneTime := m.Type == axh.TypePreKey && m.PreID != 0 && m.PreID != 0xFFFFFF && to.S.ContainsPreKey(m.PreID)
	start := to.S.Clone()
	to.S.OnEffect = func(what string) { pts = append(pts, crash{what, to.S.Clone()}) }
	got, err := to.Decrypt(from, m.Type, m.Wire)
	to.S.OnEffect = nil
	w.trace = append(w.trace, fmt.Sprintf("deliver %v err=%v", m, err))
	if err != nil || !bytes.Equal(got, m.Plain) {
		w.r.Violation("retry", "the message does not decrypt after an earlier write failure: %v; trace %v", err, w.tail())
		return
	}
	w.r.Event("decryptions", 1)
	if oneTime {
		w.r.Event("establishments", 1)
	}
	for i, c := range pts {
		w.r.Event("crash_points", 1)
		dead := &axh.Party{Name: to.Name, Dev: to.Dev, S: c.s}
		if oneTime && !c.s.ContainsPreKey(m.PreID) && !hasBase(c.s.Record(from.Name, from.Dev), m.Base) {
			w.r.Violation("prekey-before-session", "a crash after %s (effect %d) leaves neither the one-time prekey %d nor the session; trace %v", c.after, i, m.PreID, w.tail())
			continue
		}
		// redelivery and one further message of the peer
		peer := &axh.Party{Name: from.Name, Dev: from.Dev, S: from.S.Clone()}
		got, err := dead.Decrypt(from, m.Type, m.Wire)
		stored := !bytes.Equal(c.s.RawSession(from.Name, from.Dev), start.RawSession(from.Name, from.Dev))
		if err != nil && !stored {
			w.r.Violation("lost-at-crash", "after a crash right after %s the message is not decryptable (%v) although no session was stored; trace %v", c.after, err, w.tail())
		}
		if err == nil && !bytes.Equal(got, m.Plain) {
			w.r.Violation("wrong", "wrong plaintext after a crash")
		}
		nm, err := peer.Encrypt(dead, []byte("next"))
		if err != nil {
			w.r.Violation("setup", "peer cannot encrypt: %v", err)
			continue
		}
		if got, err := dead.Decrypt(peer, nm.Type, nm.Wire); err != nil || string(got) != "next" {
			// the peer may have replaced the session by one of its own whose prekey is legitimately used up here
			if !(nm.Type == axh.TypePreKey && nm.Base != m.Base) {
				w.r.Violation("cut-off-at-crash", "after a crash right after %s the peer's next message fails: %v; trace %v", c.after, err, w.tail())
			}
		}
	}
}

func TestC11(t *testing.T) {
	r := vh.Start(t, "C11", "seeded conversations over a store that refuses session and identity writes at random and is snapshotted after every single effect (a crash point each); no output may accompany a failed write, a retry must succeed, no crash point may lose prekey and session together; distinct by operation trace")
	defer r.Finish()
	n := r.N(260, 6000)
	for i := 0; i < n; i++ {
		rd := r.Rand("conv", i)
		r.SetCase("conversation %d", i)
		w := &world{r: r, rd: rd}
		w.p = [2]*axh.Party{axh.NewParty("alice", 1, rd), axh.NewParty("bob", 2, rd)}
		steps := 10 + rd.Intn(30)
		for s := 0; s < steps; s++ {
			p := w.p[rd.Intn(2)]
			switch k := rd.Intn(20); {
			case k == 0 && len(w.open) == 0:
				w.build(p)
			case k < 10 || len(w.open) == 0:
				w.send(p)
			default:
				w.deliver(rd.Intn(len(w.open)))
			}
		}
		for len(w.open) > 0 {
			w.deliver(rd.Intn(len(w.open)))
		}
		r.Eval(fmt.Sprint(w.trace))
		if i < 2 {
			r.Sample(map[string]interface{}{"conversation": i, "trace": w.tail()})
		}
	}
	r.Require("encrypt_faults", 100)
	r.Require("decrypt_faults", 100)
	r.Require("crash_points", 500)
	r.Require("establishments", 50)
}
