package c01

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// monitor of one receiver: what the specification lets it decrypt
type recvModel struct {
	chains []string          // ratchet keys in order of first successful decryption
	next   map[string]uint32 // expected counter per chain
}

func (m *recvModel) must(x *axh.Msg) bool {
	pos := -1
	for i, c := range m.chains {
		if c == x.Ratchet {
			pos = i
		}
	}
	idx := uint32(0)
	if pos >= 0 {
		if pos < len(m.chains)-5 {
			return false // older than the five most recent turns
		}
		idx = m.next[x.Ratchet]
	}
	return x.Counter < idx || x.Counter-idx <= 2000
}

func (m *recvModel) done(x *axh.Msg) {
	found := false
	for _, c := range m.chains {
		found = found || c == x.Ratchet
	}
	if !found {
		m.chains = append(m.chains, x.Ratchet)
	}
	if x.Counter+1 > m.next[x.Ratchet] {
		m.next[x.Ratchet] = x.Counter + 1
	}
}

type conv struct {
	r        *vh.R
	a, b     *axh.Party
	model    map[string]*recvModel
	got      map[string]bool // party has decrypted something of the session
	pool     []*axh.Msg      // in flight
	old      []*axh.Msg      // held back for long
	n        int
	trace    []string
	maxGap   uint32
	turnsLog int
}

func (c *conv) peer(p *axh.Party) *axh.Party {
	if p == c.a {
		return c.b
	}
	return c.a
}

func newConv(r *vh.R, label string, i int, kind axh.PreKind) *conv {
	rd := r.Rand(label, i)
	a, b := axh.NewParty("alice", 1, rd), axh.NewParty("bob", 1, rd)
	c := &conv{r: r, a: a, b: b, model: map[string]*recvModel{}, got: map[string]bool{}}
	for _, p := range []*axh.Party{a, b} {
		c.model[p.Name] = &recvModel{next: map[string]uint32{}}
	}
	if err := a.Builder(b).BuildSenderSession(b.Bundle(kind)); err != nil {
		r.Violation("setup", "a valid bundle was refused: %v", err)
		return nil
	}
	return c
}

func (c *conv) send(p *axh.Party, plain []byte) *axh.Msg {
	m, err := p.Encrypt(c.peer(p), plain)
	if err != nil {
		c.r.Violation("encrypt", "%s cannot encrypt on an established session: %v; trace %v", p.Name, err, c.tail())
		return nil
	}
	m.N = c.n
	c.n++
	want := int32(axh.TypeCiphertext)
	if p == c.a && !c.got[p.Name] {
		want = axh.TypePreKey
	}
	if m.Type != want {
		c.r.Violation("type", "message %v is flagged %d, must be %d (sender has decrypted of this session: %v); trace %v", m, m.Type, want, c.got[p.Name], c.tail())
	}
	c.trace = append(c.trace, fmt.Sprintf("send %v", m))
	c.r.Event("encrypted", 1)
	return m
}

func (c *conv) tail() []string {
	if len(c.trace) > 14 {
		return c.trace[len(c.trace)-14:]
	}
	return c.trace
}

func (c *conv) deliver(m *axh.Msg) bool {
	mod := c.model[m.To.Name]
	must := mod.must(m)
	gapBefore := mod.next[m.Ratchet]
	out, err := m.To.Decrypt(m.From, m.Type, m.Wire)
	c.trace = append(c.trace, fmt.Sprintf("deliver %v: %v", m, err))
	if err != nil {
		if must {
			c.r.Violation("delivery", "message %v was delivered for the first time, inside the limits, but was rejected: %v; expected counter %d; chains seen %d; trace %v", m, err, mod.next[m.Ratchet], len(mod.chains), c.tail())
		}
		c.r.Event("outside_limits_rejected", 1)
		return false
	}
	if !bytes.Equal(out, m.Plain) {
		c.r.Violation("plaintext", "message %v decrypted to %s instead of %s; trace %v", m, vh.Hex(out), vh.Hex(m.Plain), c.tail())
	}
	if m.Counter > gapBefore && m.Counter-gapBefore > c.maxGap {
		c.maxGap = m.Counter - gapBefore
	}
	if m.Counter < gapBefore {
		c.r.Event("decrypted_late", 1)
	}
	before := len(mod.chains)
	mod.done(m)
	if len(mod.chains) > before {
		c.r.Event("new_turn", 1)
	} else if len(mod.chains) > 1 && mod.chains[len(mod.chains)-1] != m.Ratchet {
		c.r.Event("decrypted_on_older_chain", 1)
	}
	m.Done++
	c.got[m.To.Name] = true
	c.r.Event("decrypted", 1)
	return true
}

// TestC01 drives random conversations and checks each delivery against the reference model.
func TestC01(t *testing.T) {
	r := vh.Start(t, "C01", "random two-party conversations: each step encrypts, delivers any in-flight or held-back message, or drops one; the oracle knows every plaintext and which deliveries the limits oblige the receiver to accept; a case is one conversation, distinct by its operation trace, non-trivial if at least 3 messages were decrypted out of order or over 2 turns")
	defer r.Finish()
	n := r.N(260, 6000)
	kinds := []axh.PreKind{axh.OneTime, axh.NoPre, axh.LastResort}
	for i := 0; i < n; i++ {
		r.SetCase("conv/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("conv", i))
		func() {
			defer restore()
			r.Safe("panic", "conversation", func() { runConv(r, i, kinds[i%3]) })
		}()
	}
	gaps := []uint32{1, 2, 63, 64, 65, 255, 256, 257, 500, 999, 1000, 1001, 1499, 1500, 1998, 1999, 2000}
	if r.Tier == "thorough" {
		for g := uint32(3); g < 2000; g += 41 {
			gaps = append(gaps, g)
		}
	}
	for gi, g := range gaps {
		r.SetCase("gap/%d", g)
		_, restore := r.UseDRBG(fmt.Sprint("gap", g))
		func() {
			defer restore()
			r.Safe("panic", "gap", func() { runGap(r, gi, g) })
		}()
	}
	for k := 0; k < r.N(24, 200); k++ {
		r.SetCase("turns/%d", k)
		_, restore := r.UseDRBG(fmt.Sprint("turns", k))
		func() {
			defer restore()
			r.Safe("panic", "turns", func() { runTurns(r, k) })
		}()
	}
	r.Require("decrypted", 1000)
	r.Require("decrypted_late", 100)
	r.Require("decrypted_on_older_chain", 50)
	r.Require("new_turn", 300)
}

func runConv(r *vh.R, i int, kind axh.PreKind) {
	rd := r.Rand("conv", i)
	c := newConv(r, "convparty", i, kind)
	if c == nil {
		return
	}
	steps := 20 + rd.Intn(160)
	dropP, holdP := rd.Intn(20), rd.Intn(25)
	burst := 1 + rd.Intn(12)
	for s := 0; s < steps; s++ {
		x := rd.Intn(100)
		switch {
		case x < 45:
			p := c.a
			if rd.Intn(2) == 1 && c.got[c.b.Name] {
				p = c.b
			}
			for k := rd.Intn(burst) + 1; k > 0; k-- {
				m := c.send(p, vh.Plain(rd))
				if m == nil {
					return
				}
				y := rd.Intn(100)
				if y < dropP {
					c.r.Event("dropped", 1)
				} else if y < dropP+holdP {
					c.old = append(c.old, m)
				} else {
					c.pool = append(c.pool, m)
				}
			}
		case x < 90 && len(c.pool) > 0:
			k := rd.Intn(len(c.pool))
			if rd.Intn(3) == 0 {
				k = 0
			}
			m := c.pool[k]
			c.pool = append(c.pool[:k], c.pool[k+1:]...)
			c.deliver(m)
		case len(c.old) > 0:
			k := rd.Intn(len(c.old))
			m := c.old[k]
			c.old = append(c.old[:k], c.old[k+1:]...)
			c.deliver(m)
		}
	}
	rest := append(c.pool, c.old...)
	rd.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	for _, m := range rest {
		c.deliver(m)
	}
	key := ""
	if len(c.model["alice"].chains)+len(c.model["bob"].chains) > 2 {
		key = fmt.Sprint(c.trace)
	}
	r.Eval(key)
	if i < 2 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("conv/%d", i), "trace_tail": c.tail(), "turns": len(c.model["alice"].chains) + len(c.model["bob"].chains)})
	}
}

// runGap: skip exactly g messages, then deliver the skipped ones in random order, on three chains.
func runGap(r *vh.R, gi int, g uint32) {
	rd := r.Rand("gap", gi)
	c := newConv(r, "gapparty", gi, axh.OneTime)
	if c == nil {
		return
	}
	from := c.a
	for turn := 0; turn < 3; turn++ {
		pre := rd.Intn(3)
		if turn == 0 {
			pre = gi % 2
		}
		for k := 0; k < pre; k++ {
			if m := c.send(from, vh.Plain(rd)); m == nil || !c.deliver(m) {
				return
			}
		}
		var skipped []*axh.Msg
		for k := uint32(0); k < g; k++ {
			m := c.send(from, []byte(fmt.Sprintf("skipped %d of turn %d", k, turn)))
			if m == nil {
				return
			}
			skipped = append(skipped, m)
		}
		last := c.send(from, []byte("last"))
		if last == nil || !c.deliver(last) {
			return
		}
		rd.Shuffle(len(skipped), func(i, j int) { skipped[i], skipped[j] = skipped[j], skipped[i] })
		lim := len(skipped)
		if turn > 0 || r.Tier == "quick" && lim > 150 {
			lim = 150
			if lim > len(skipped) {
				lim = len(skipped)
			}
		}
		for _, m := range skipped[:lim] {
			c.deliver(m)
		}
		from = c.peer(from)
	}
	if c.maxGap >= g {
		r.Event("gap_cases", 1)
	}
	r.Eval(fmt.Sprintf("gap %d", g))
	if g == 2000 {
		r.Sample(map[string]interface{}{"case": "gap/2000", "largest skip accepted": c.maxGap})
	}
}

// runTurns: strict ping-pong; in every turn one message is held back and delivered exactly k turns later (0..4).
func runTurns(r *vh.R, k int) {
	rd := r.Rand("turns", k)
	c := newConv(r, "turnsparty", k, axh.PreKind(k%3))
	if c == nil {
		return
	}
	delay := k % 5
	type held struct {
		m  *axh.Msg
		at int
	}
	var hs []held
	count := map[*axh.Party]int{}
	from := c.a
	for turn := 0; turn < 26; turn++ {
		count[from]++
		n := 2 + rd.Intn(3)
		hold := rd.Intn(n)
		var last *axh.Msg
		for j := 0; j < n; j++ {
			m := c.send(from, vh.Plain(rd))
			if m == nil {
				return
			}
			if j == hold {
				hs = append(hs, held{m, count[from] + delay})
			} else {
				c.deliver(m)
				last = m
			}
		}
		_ = last
		var keep []held
		for _, h := range hs {
			if h.m.From == from && count[from] >= h.at {
				c.deliver(h.m)
			} else {
				keep = append(keep, h)
			}
		}
		hs = keep
		from = c.peer(from)
	}
	r.Eval(fmt.Sprintf("turns delay %d case %d", delay, k))
}
