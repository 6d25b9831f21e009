package c08

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// secret is something that must no longer be stored at a party.
type secret struct {
	b    []byte
	what string
}

type world struct {
	r     *vh.R
	rd    *rand.Rand
	a, b  *axh.Party
	open  []*axh.Msg
	n     int
	trace []string
	dead  map[*axh.Party][]secret
	chain map[string]map[uint32][]byte // ratchet key -> counter -> chain key (learned at the sender)
	mkeys map[*axh.Msg][]byte          // the chain key of the message
	priv  map[*axh.Party][]byte        // current ratchet private key per party (of the current session)
	fresh map[string]string
	turns map[string]bool
	pubs  map[string]bool
	keysN map[*axh.Party]int
}

func (w *world) tail() []string {
	if len(w.trace) > 14 {
		return w.trace[len(w.trace)-14:]
	}
	return w.trace
}

func (w *world) other(p *axh.Party) *axh.Party {
	if p == w.a {
		return w.b
	}
	return w.a
}

func (w *world) rec(p *axh.Party) *axpb.RecordStructure {
	return p.S.Record(w.other(p).Name, w.other(p).Dev)
}

func states(rs *axpb.RecordStructure) []*axpb.SessionStructure {
	if rs == nil {
		return nil
	}
	return append([]*axpb.SessionStructure{rs.CurrentSession}, rs.PreviousSessions...)
}

func (w *world) kill(p *axh.Party, b []byte, what string) {
	if len(b) >= 16 {
		w.dead[p] = append(w.dead[p], secret{append([]byte{}, b...), what})
	}
}

// scan is the monitor: nothing dead may be found in the stored bytes; sizes stay bounded.
func (w *world) scan(p *axh.Party, when string) {
	raw := p.S.RawSession(w.other(p).Name, w.other(p).Dev)
	for _, s := range w.dead[p] {
		if bytes.Contains(raw, s.b) {
			w.r.Violation("secret-kept", "after %s the stored session of %s still contains %s; trace %v", when, p.Name, s.what, w.tail())
			return
		}
	}
	w.r.Event("scans", 1)
	w.r.Event("secrets_checked", len(w.dead[p]))
	rs := w.rec(p)
	total := 0
	for _, s := range states(rs) {
		if len(s.GetReceiverChains()) > 12 {
			w.r.Violation("bound-chains", "%d receiving chains are stored", len(s.ReceiverChains))
		}
		for _, c := range s.GetReceiverChains() {
			total += len(c.GetMessageKeys())
		}
	}
	if len(rs.GetPreviousSessions()) > 48 {
		w.r.Violation("bound-sessions", "%d old sessions are stored", len(rs.PreviousSessions))
	}
	if d := total - w.keysN[p]; d > 2000 {
		w.r.Violation("bound-skipped", "one operation added %d skipped message keys", d)
	}
	w.keysN[p] = total
}

// noteReplaced finds ratchet private keys and root keys of a state that an operation replaced.
func (w *world) noteReplaced(p *axh.Party, before, after *axpb.RecordStructure) {
	have := map[string]bool{}
	for _, s := range states(after) {
		have[string(s.GetSenderChain().GetSenderRatchetKeyPrivate())] = true
		have[string(s.GetRootKey())] = true
	}
	for _, s := range states(before) {
		if k := s.GetSenderChain().GetSenderRatchetKeyPrivate(); len(k) > 0 && !have[string(k)] {
			w.kill(p, k, "a replaced ratchet private key")
			w.r.Event("ratchet_private_replaced", 1)
		}
		if k := s.GetRootKey(); len(k) > 0 && !have[string(k)] {
			w.kill(p, k, "a replaced root key")
		}
	}
}

func (w *world) build(p *axh.Party, k axh.PreKind) {
	o := w.other(p)
	if err := p.Builder(o).BuildSenderSession(o.Bundle(k)); err != nil {
		w.r.Violation("setup", "%v", err)
	}
	w.trace = append(w.trace, p.Name+" establishes")
	if k := string(w.rec(p).GetCurrentSession().GetSenderChain().GetSenderRatchetKey()); w.pubs[k] {
		w.r.Violation("ratchet-reuse", "a new session of %s uses an old ratchet key", p.Name)
	} else {
		w.pubs[k] = true
	}
	w.scan(p, "establishing")
}

func (w *world) send(p *axh.Party) *axh.Msg {
	before := w.rec(p)
	sc := before.GetCurrentSession().GetSenderChain()
	ck := append([]byte{}, sc.GetChainKey().GetKey()...)
	m, err := p.Encrypt(w.other(p), vh.Plain(w.rd))
	if err != nil {
		w.r.Violation("encrypt", "%v", err)
		return nil
	}
	m.N = w.n
	w.n++
	w.trace = append(w.trace, "send "+m.String())
	k := m.Ratchet
	if m.Base != "" {
		if _, ok := w.fresh[m.Base]; ok || m.Base == k {
			w.r.Violation("ratchet-base", "%v was started with a key that is a ratchet key, too; trace %v", m, w.tail())
		}
	}
	if who, ok := w.fresh[k]; !ok {
		w.fresh[k] = p.Name
		w.r.Event("fresh_ratchet_keys", 1)
	} else if who != p.Name {
		w.r.Violation("ratchet-shared", "%v uses a ratchet key of the peer; trace %v", m, w.tail())
	}
	if w.chain[k] == nil {
		w.chain[k] = map[uint32][]byte{}
	}
	if o, ok := w.chain[k][m.Counter]; ok {
		w.r.Violation("chain-reuse", "%v uses the chain key of an earlier message again (same key: %v)", m, bytes.Equal(o, ck))
	}
	w.chain[k][m.Counter] = ck
	w.mkeys[m] = ck
	c, mk, _ := axh.MessageKeys(ck)
	w.kill(p, ck, fmt.Sprintf("the chain key of sent message %v", m))
	w.kill(p, c, fmt.Sprintf("the cipher key of sent message %v", m))
	w.kill(p, mk, fmt.Sprintf("the MAC key of sent message %v", m))
	if len(m.Plain) >= 16 {
		w.kill(p, m.Plain, "a plaintext")
	}
	w.noteReplaced(p, before, w.rec(p))
	w.scan(p, "sending "+m.String())
	return m
}

func (w *world) deliver(m *axh.Msg) bool {
	p := m.To
	before := w.rec(p)
	_, err := p.Decrypt(m.From, m.Type, m.Wire)
	w.trace = append(w.trace, fmt.Sprintf("deliver %v: %v", m, err))
	if err != nil {
		w.r.Event("rejected", 1)
		return false
	}
	w.r.Event("decrypted", 1)
	c, mk, _ := axh.MessageKeys(w.mkeys[m])
	w.kill(p, c, fmt.Sprintf("the cipher key of decrypted message %v", m))
	w.kill(p, mk, fmt.Sprintf("the MAC key of decrypted message %v", m))
	for ctr, ck := range w.chain[m.Ratchet] {
		if ctr <= m.Counter {
			w.kill(p, ck, fmt.Sprintf("chain key %d, from which the key of decrypted message %v follows", ctr, m))
		}
	}
	if len(m.Plain) >= 16 {
		w.kill(p, m.Plain, "a plaintext")
	}
	after := w.rec(p)
	mine := string(after.GetCurrentSession().GetSenderChain().GetSenderRatchetKey())
	if !w.turns[p.Name+m.Ratchet] {
		// a new turn of the peer: our next turn needs a ratchet key never used before
		w.turns[p.Name+m.Ratchet] = true
		if w.pubs[mine] {
			w.r.Violation("ratchet-reuse", "after a new turn of the peer (%v) %s keeps or reuses an old ratchet key; trace %v", m, p.Name, w.tail())
		}
		w.r.Event("turns_checked", 1)
	}
	for _, s := range states(after) {
		w.pubs[string(s.GetSenderChain().GetSenderRatchetKey())] = true
	}
	w.noteReplaced(p, before, after)
	w.scan(p, "decrypting "+m.String())
	return true
}

func newWorld(r *vh.R, rd *rand.Rand) *world {
	return &world{r: r, rd: rd, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 1, rd), dead: map[*axh.Party][]secret{}, chain: map[string]map[uint32][]byte{},
		mkeys: map[*axh.Msg][]byte{}, priv: map[*axh.Party][]byte{}, fresh: map[string]string{}, turns: map[string]bool{}, pubs: map[string]bool{}, keysN: map[*axh.Party]int{}}
}

// TestC08 scans the stored sessions of conversations for key material that must be gone.
func TestC08(t *testing.T) {
	r := vh.Start(t, "C08", "a case is one conversation with reordering, losses, several sessions; after every operation the serialized session of the acting party is scanned for every chain key, message key, ratchet private key, root key and plaintext that must be gone by then, ratchet keys are logged for freshness and sizes are checked; distinct by trace")
	defer r.Finish()
	for i := 0; i < r.N(220, 5000); i++ {
		r.SetCase("conv/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("c", i))
		func() {
			defer restore()
			r.Safe("panic", "conversation", func() { conv(r, i) })
		}()
	}
	for i := 0; i < r.N(4, 20); i++ {
		r.SetCase("bounds/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("b", i))
		func() {
			defer restore()
			r.Safe("panic", "bounds", func() { bounds(r, i) })
		}()
	}
	r.Require("secrets_checked", 10000)
	r.Require("ratchet_private_replaced", 300)
	r.Require("fresh_ratchet_keys", 300)
	r.Require("decrypted", 1000)
	r.Require("turns_checked", 300)
}

func conv(r *vh.R, i int) {
	rd := r.Rand("conv", i)
	w := newWorld(r, rd)
	w.build(w.a, axh.PreKind(i%3))
	ready := map[*axh.Party]bool{w.a: true}
	steps := 20 + rd.Intn(60)
	multi := i%3 == 2
	for s := 0; s < steps; s++ {
		switch x := rd.Intn(100); {
		case x < 45:
			p := w.a
			if ready[w.b] && rd.Intn(2) == 0 {
				p = w.b
			}
			for k := rd.Intn(3); k >= 0; k-- {
				m := w.send(p)
				if m == nil {
					return
				}
				if rd.Intn(12) > 0 {
					w.open = append(w.open, m)
				}
			}
		case x < 95 && len(w.open) > 0:
			k := rd.Intn(len(w.open))
			if rd.Intn(2) == 0 {
				k = 0
			}
			m := w.open[k]
			w.open = append(w.open[:k], w.open[k+1:]...)
			if w.deliver(m) {
				ready[m.To] = true
			}
		case multi && x >= 95:
			p := w.a
			if rd.Intn(2) == 0 {
				p = w.b
			}
			w.build(p, axh.OneTime)
			ready[p] = true
		}
	}
	for _, m := range w.open {
		w.deliver(m)
	}
	r.Eval(fmt.Sprint(w.trace))
	if i == 0 {
		r.Sample(map[string]interface{}{"case": "conv/0", "dead_secrets_alice": len(w.dead[w.a]), "dead_secrets_bob": len(w.dead[w.b]), "trace_tail": w.tail()})
	}
}

// bounds drives the numbers of chains, sessions and skipped keys up.
func bounds(r *vh.R, i int) {
	rd := r.Rand("bounds", i)
	w := newWorld(r, rd)
	w.build(w.a, axh.OneTime)
	switch i % 4 {
	case 0, 3: // many turns
		p := w.a
		for k := 0; k < 40; k++ {
			m := w.send(p)
			if m == nil || !w.deliver(m) {
				break
			}
			p = w.other(p)
		}
	case 1: // many sessions, started by the peer or by ourselves
		for k := 0; k < 60; k++ {
			p := w.a
			if k%3 == 2 {
				p = w.b
			}
			w.build(p, axh.OneTime)
			m := w.send(p)
			if m == nil || !w.deliver(m) {
				break
			}
		}
	case 2: // large gaps
		p := w.a
		for k := 0; k < 3; k++ {
			var m *axh.Msg
			for j := 0; j < 1500; j++ {
				if m, _ = p.Encrypt(w.other(p), []byte("x")); m == nil {
					return
				}
			}
			if _, err := m.To.Decrypt(m.From, m.Type, m.Wire); err != nil {
				r.Violation("setup", "%v", err)
			}
			w.scan(m.To, "gap")
			for j := 0; j < 2600; j++ {
				if m, _ = p.Encrypt(w.other(p), []byte("x")); m == nil {
					return
				}
			}
			m.To.Decrypt(m.From, m.Type, m.Wire) // more than the limit ahead
			w.scan(m.To, "over-limit gap")
			if w.keysN[m.To] > 2000 {
				r.Violation("bound-skipped", "%d skipped keys are stored after one gap of 1500 and a refused one of 2600", w.keysN[m.To])
			}
			return
		}
	}
	r.Eval(fmt.Sprintf("bounds %d", i))
}
