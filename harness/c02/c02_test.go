package c02

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type world struct {
	r     *vh.R
	a, b  *axh.Party
	msgs  []*axh.Msg
	done  []*axh.Msg // decrypted once
	open  []*axh.Msg
	trace []string
	sess  int
}

func (w *world) tail() []string {
	if len(w.trace) > 22 {
		return w.trace[len(w.trace)-22:]
	}
	return w.trace
}

func (w *world) other(p *axh.Party) *axh.Party {
	if p == w.a {
		return w.b
	}
	return w.a
}

func (w *world) establish(p *axh.Party, k axh.PreKind) bool {
	o := w.other(p)
	if err := p.Builder(o).BuildSenderSession(o.Bundle(k)); err != nil {
		w.r.Violation("setup", "%s: valid bundle refused: %v; trace %v", p.Name, err, w.tail())
		return false
	}
	w.sess++
	w.trace = append(w.trace, p.Name+" establishes")
	w.r.Event("sessions_established", 1)
	return true
}

func (w *world) send(p *axh.Party, plain []byte) *axh.Msg {
	m, err := p.Encrypt(w.other(p), plain)
	if err != nil {
		w.r.Violation("encrypt", "%s cannot encrypt: %v; trace %v", p.Name, err, w.tail())
		return nil
	}
	m.N = len(w.msgs)
	w.msgs = append(w.msgs, m)
	w.open = append(w.open, m)
	w.trace = append(w.trace, "send "+m.String())
	return m
}

// deliver delivers (again); the monitor refutes a second success and any effect of a rejection.
func (w *world) deliver(m *axh.Msg) bool {
	before := m.To.S.Snapshot()
	out, err := m.To.Decrypt(m.From, m.Type, m.Wire)
	after := m.To.S.Snapshot()
	res := "ok"
	if err != nil {
		res = err.Error()
	}
	w.trace = append(w.trace, fmt.Sprintf("deliver %v: %s", m, res))
	if err == nil {
		if m.Done > 0 {
			w.r.Violation("replay", "ciphertext %v was decrypted a second time (sessions so far %d); trace %v", m, w.sess, w.tail())
		}
		if !bytes.Equal(out, m.Plain) {
			w.r.Violation("plaintext", "ciphertext %v decrypted to other bytes; trace %v", m, w.tail())
		}
		m.Done++
		w.r.Event("first_decryption", 1)
		return true
	}
	if m.Done > 0 {
		w.r.Event("replay_rejected", 1)
		if w.sess > 1 {
			w.r.Event("replay_rejected_multi_session", 1)
		}
		if before != after {
			w.r.Violation("replay-state", "the rejected replay of %v changed the stored state: %s; trace %v", m, axh.Diff(before, after), w.tail())
		}
	} else {
		w.r.Event("first_delivery_rejected", 1)
	}
	return false
}

// TestC02 runs histories with duplicates over one or several sessions.
func TestC02(t *testing.T) {
	r := vh.Start(t, "C02", "random histories of two devices: encrypt, deliver, re-deliver any earlier ciphertext, establish a further session from a fresh bundle on either side; the monitor counts successful decryptions per ciphertext and compares the stored state around every rejected replay; a case is one history, distinct by its trace, non-trivial if it holds at least one replay after a later message")
	defer r.Finish()
	n := r.N(300, 8000)
	for i := 0; i < n; i++ {
		r.SetCase("history/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("h", i))
		func() {
			defer restore()
			r.Safe("panic", "history", func() { history(r, i) })
		}()
	}
	for i := 0; i < r.N(40, 400); i++ {
		r.SetCase("switch/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("sw", i))
		func() {
			defer restore()
			r.Safe("panic", "switch", func() { switching(r, i) })
		}()
	}
	for i := 0; i < r.N(16, 150); i++ {
		r.SetCase("displaced/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("dis", i))
		func() {
			defer restore()
			r.Safe("panic", "displaced", func() { displaced(r, i) })
		}()
	}
	r.Require("replay_of_displaced_rejected", 500)
	r.Require("replay_rejected", 1000)
	r.Require("replay_rejected_multi_session", 300)
	r.Require("first_decryption", 1000)
}

func history(r *vh.R, i int) {
	rd := r.Rand("hist", i)
	w := &world{r: r, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 2, rd)}
	if !w.establish(w.a, axh.OneTime) {
		return
	}
	maxSess := 1
	if i%3 != 0 {
		maxSess = 2 + rd.Intn(8)
	}
	ready := map[*axh.Party]bool{w.a: true}
	steps := 30 + rd.Intn(120)
	replays := 0
	for s := 0; s < steps; s++ {
		switch x := rd.Intn(100); {
		case x < 33:
			p := w.a
			if ready[w.b] && rd.Intn(2) == 0 {
				p = w.b
			}
			for k := rd.Intn(4); k >= 0; k-- {
				if w.send(p, vh.Plain(rd)) == nil {
					return
				}
			}
		case x < 66 && len(w.open) > 0:
			k := rd.Intn(len(w.open))
			if rd.Intn(2) == 0 {
				k = 0
			}
			m := w.open[k]
			if w.deliver(m) {
				w.open = append(w.open[:k], w.open[k+1:]...)
				w.done = append(w.done, m)
				ready[m.To] = true
			} else if rd.Intn(2) == 0 {
				w.open = append(w.open[:k], w.open[k+1:]...)
			}
		case x < 92 && len(w.done) > 0:
			k := rd.Intn(len(w.done))
			if rd.Intn(2) == 0 && len(w.done) > 6 {
				k = len(w.done) - 1 - rd.Intn(6)
			}
			w.deliver(w.done[k])
			replays++
		case w.sess < maxSess:
			p := w.a
			if rd.Intn(2) == 0 {
				p = w.b
			}
			if !w.establish(p, axh.OneTime) {
				return
			}
			ready[p] = true
		}
	}
	for _, m := range w.done {
		w.deliver(m)
	}
	key := ""
	if replays > 0 {
		key = fmt.Sprint(w.trace)
	}
	r.Eval(key)
	if i == 1 {
		r.Sample(map[string]interface{}{"case": "history/1", "sessions": w.sess, "messages": len(w.msgs), "trace_tail": w.tail()})
	}
}

// switching: two or more sessions are alive (both sides initiate), the parties' current sessions flip back
// and forth by which side's message arrives, and after each flip everything ever decrypted is replayed.
func switching(r *vh.R, i int) {
	rd := r.Rand("switch", i)
	w := &world{r: r, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 2, rd)}
	if !w.establish(w.a, axh.OneTime) || !w.establish(w.b, axh.OneTime) {
		return
	}
	rounds := 6 + rd.Intn(8)
	for k := 0; k < rounds; k++ {
		var ms []*axh.Msg
		for j := 0; j < 2; j++ {
			m1, m2 := w.send(w.a, vh.Plain(rd)), w.send(w.b, vh.Plain(rd))
			if m1 == nil || m2 == nil {
				return
			}
			ms = append(ms, m1, m2)
		}
		rd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		cut := len(ms)
		if rd.Intn(2) == 0 {
			cut = 1 + rd.Intn(len(ms))
		}
		for _, m := range ms[:cut] {
			if w.deliver(m) {
				w.done = append(w.done, m)
			}
			for j := 0; j < 3 && len(w.done) > 0; j++ {
				w.deliver(w.done[rd.Intn(len(w.done))])
			}
		}
		if rd.Intn(3) == 0 {
			p := []*axh.Party{w.a, w.b}[rd.Intn(2)]
			if !w.establish(p, axh.PreKind(rd.Intn(2))) {
				return
			}
		}
		for _, m := range w.done {
			w.deliver(m)
		}
	}
	r.Eval(fmt.Sprint(w.trace))
}

// displaced: up to forty newer sessions push the first ones down in the record; whatever was decrypted in any of them,
// establishment messages first of all (those that use no one-time prekey find every key they need), stays used up.
func displaced(r *vh.R, i int) {
	rd := r.Rand("displaced", i)
	w := &world{r: r, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 2, rd)}
	n := 41
	if i%4 > 0 {
		n = 5 + rd.Intn(36)
	}
	for k := 0; k < n; k++ {
		if !w.establish(w.a, []axh.PreKind{axh.NoPre, axh.LastResort, axh.OneTime}[(k+rd.Intn(2))%3]) {
			return
		}
		for j := rd.Intn(2); j >= 0; j-- {
			m := w.send(w.a, vh.Plain(rd))
			if m == nil {
				return
			}
			if w.deliver(m) {
				w.done = append(w.done, m)
			} else {
				w.r.Violation("refused", "the message of a new session is refused; trace %v", w.tail())
			}
		}
		if rd.Intn(6) == 0 {
			if m := w.send(w.b, vh.Plain(rd)); m != nil && w.deliver(m) {
				w.done = append(w.done, m)
			}
		}
		for j := 0; j < 4; j++ {
			w.deliver(w.done[rd.Intn(len(w.done))])
		}
	}
	for _, m := range w.done {
		w.deliver(m)
		r.Event("replay_of_displaced_rejected", 1)
	}
	r.Eval(fmt.Sprint(w.trace))
}
