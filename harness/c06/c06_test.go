package c06

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type world struct {
	r     *vh.R
	rd    *rand.Rand
	ps    []*axh.Party
	open  []*axh.Msg
	n     int
	trace []string
	// one-time prekey model: expected set per party; and the private part by id for the reference decryption
	pre map[*axh.Party]map[uint32][]byte
	all map[*axh.Party]map[uint32][]byte
	// sessions by base key: whether its first message was decrypted
	seen map[string]bool
	lost map[string]bool // sessions that can no longer be established (their prekey is gone)
}

func newWorld(r *vh.R, rd *rand.Rand, names ...string) *world {
	w := &world{r: r, rd: rd, pre: map[*axh.Party]map[uint32][]byte{}, all: map[*axh.Party]map[uint32][]byte{}, seen: map[string]bool{}, lost: map[string]bool{}}
	for _, n := range names {
		p := axh.NewParty(n, uint32(1+rd.Intn(3)), rd)
		w.ps = append(w.ps, p)
		w.pre[p], w.all[p] = map[uint32][]byte{}, map[uint32][]byte{}
	}
	return w
}

func (w *world) tail() []string {
	if len(w.trace) > 16 {
		return w.trace[len(w.trace)-16:]
	}
	return w.trace
}

func (w *world) bundle(p *axh.Party, k axh.PreKind) *axolotl.PreKeyBundle {
	b := p.Bundle(k)
	for id, v := range p.S.Pre {
		if _, ok := w.all[p][id]; !ok {
			w.pre[p][id], w.all[p][id] = v, v
		}
	}
	return b
}

func (w *world) build(p, o *axh.Party, b *axolotl.PreKeyBundle) bool {
	err := p.Builder(o).BuildSenderSession(b)
	w.trace = append(w.trace, fmt.Sprintf("%s builds to %s (prekey %d): %v", p.Name, o.Name, b.PreKeyID, err))
	if err != nil {
		w.r.Violation("build", "a valid bundle was refused: %v; trace %v", err, w.tail())
		return false
	}
	w.r.Event("sessions_built", 1)
	rs := p.S.Record(o.Name, o.Dev).GetCurrentSession()
	if rs.GetSessionVersion() != 3 || !bytes.Equal(rs.GetLocalIdentityPublic(), p.S.Identity.PublicKey.Key()[:]) || !bytes.Equal(rs.GetRemoteIdentityPublic(), o.S.Identity.PublicKey.Key()[:]) ||
		rs.GetRemoteRegistrationId() != o.S.RegID || rs.GetLocalRegistrationId() != p.S.RegID {
		w.r.Violation("record", "session record of %s towards %s names the wrong identities, version or registration ids", p.Name, o.Name)
	}
	return true
}

func (w *world) send(p, o *axh.Party) *axh.Msg {
	m, err := p.Encrypt(o, vh.Plain(w.rd))
	if err != nil {
		w.r.Violation("encrypt", "%s cannot encrypt to %s: %v; trace %v", p.Name, o.Name, err, w.tail())
		return nil
	}
	m.N = w.n
	w.n++
	w.trace = append(w.trace, "send "+m.String())
	if m.Type == axh.TypePreKey {
		// the independent receiver
		var pre []byte
		if m.PreID != 0 {
			pre = w.all[o][m.PreID]
		}
		out, err := axh.RefReceive(o, m, pre)
		if err != nil || !bytes.Equal(out, m.Plain) {
			w.r.Violation("agreement", "the protocol's key agreement, done independently with the receiver's private keys, does not decrypt %v: %v; trace %v", m, err, w.tail())
		}
		w.r.Event("reference_decrypted", 1)
	}
	return m
}

func (w *world) prekeyModel(when string) {
	for _, p := range w.ps {
		var got, want []string
		for id, v := range p.S.Pre {
			got = append(got, fmt.Sprintf("%d %x", id, v))
		}
		for id, v := range w.pre[p] {
			want = append(want, fmt.Sprintf("%d %x", id, v))
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.r.Violation("prekeys", "after %s the one-time prekeys of %s are not the expected ones: have %d, expected %d; trace %v", when, p.Name, len(got), len(want), w.tail())
			w.pre[p] = map[uint32][]byte{}
			for id, v := range p.S.Pre {
				w.pre[p][id] = v
			}
		}
	}
	w.r.Event("prekey_model_checked", 1)
}

// deliver hands over a genuine message and checks it against the model.
func (w *world) deliver(m *axh.Msg) bool {
	sk := m.To.Name + m.Base
	gone := false
	if m.Type == axh.TypePreKey && !w.seen[sk] && m.PreID != 0 {
		_, have := w.pre[m.To][m.PreID]
		gone = !have
	}
	before := m.To.S.Snapshot()
	out, err := m.To.Decrypt(m.From, m.Type, m.Wire)
	w.trace = append(w.trace, fmt.Sprintf("deliver %v prekey %d: %v", m, m.PreID, err))
	if gone {
		if err == nil {
			w.r.Violation("gone-prekey", "%v names a one-time prekey that is gone but was accepted; trace %v", m, w.tail())
		} else if after := m.To.S.Snapshot(); after != before {
			w.r.Violation("gone-prekey-state", "refusing %v (prekey gone) changed the store: %s", m, axh.Diff(before, after))
		}
		w.r.Event("gone_prekey_refused", 1)
		return false
	}
	if err != nil {
		w.r.Violation("delivery", "%v was refused: %v; trace %v", m, err, w.tail())
		return false
	}
	if !bytes.Equal(out, m.Plain) {
		w.r.Violation("plaintext", "%v decrypted to other bytes", m)
	}
	m.Done++
	if m.Type == axh.TypePreKey {
		if !w.seen[sk] && m.PreID != 0 && m.PreID != 0xFFFFFF {
			delete(w.pre[m.To], m.PreID)
			w.r.Event("prekey_consumed", 1)
		}
		w.seen[sk] = true
	}
	w.r.Event("delivered", 1)
	w.prekeyModel("delivery of " + m.String())
	return true
}

func (w *world) talk(x, y *axh.Party, n int) {
	for k := 0; k < n; k++ {
		m := w.send(x, y)
		if m == nil || !w.deliver(m) {
			return
		}
		x, y = y, x
	}
}

// TestC06 establishes sessions in every shape.
func TestC06(t *testing.T) {
	r := vh.Start(t, "C06", "a case is one establishment scenario (bundle kind x who starts x simultaneous start x restart x shared bundle x order of first messages x bad bundles), distinct by trace; monitors: an independent X3DH and ratchet decryption of every establishment message, agreement by mutual decryption, a model of the one-time prekeys, refusal of badly signed bundles with the store unchanged")
	defer r.Finish()
	for i := 0; i < r.N(900, 20000); i++ {
		r.SetCase("scenario/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("s", i))
		func() {
			defer restore()
			r.Safe("panic", "scenario", func() {
				rd := r.Rand("s", i)
				w := newWorld(r, rd, "alice", "bob", "carol")
				[]func(*world){plainStart, simultaneous, restart, sharedBundle, badBundle, mixed}[i%6](w)
				r.Eval(fmt.Sprint(w.trace))
				if i < 6 {
					r.Sample(map[string]interface{}{"case": fmt.Sprintf("scenario/%d", i), "trace": w.tail()})
				}
			})
		}()
	}
	r.Require("reference_decrypted", 500)
	r.Require("gone_prekey_refused", 50)
	r.Require("bad_bundle_refused", 300)
	r.Require("prekey_consumed", 200)
}

func kind(rd *rand.Rand) axh.PreKind { return axh.PreKind(rd.Intn(3)) }

// plainStart: some messages before the first delivery, delivered in random order, then both talk.
func plainStart(w *world) {
	a, b := w.ps[0], w.ps[1]
	if !w.build(a, b, w.bundle(b, kind(w.rd))) {
		return
	}
	if w.rd.Intn(3) == 0 {
		b.NewSigned() // the signed prekey is rotated before the first message arrives
	}
	var ms []*axh.Msg
	for k := 1 + w.rd.Intn(4); k > 0; k-- {
		if m := w.send(a, b); m != nil {
			ms = append(ms, m)
		}
	}
	w.rd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	for _, m := range ms {
		w.deliver(m)
	}
	w.talk(b, a, 6)
}

func simultaneous(w *world) {
	a, b := w.ps[0], w.ps[1]
	if !w.build(a, b, w.bundle(b, kind(w.rd))) || !w.build(b, a, w.bundle(a, kind(w.rd))) {
		return
	}
	var ms []*axh.Msg
	for k := 0; k < 1+w.rd.Intn(3); k++ {
		ms = append(ms, w.send(a, b), w.send(b, a))
	}
	w.rd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	for _, m := range ms {
		if m == nil {
			return
		}
		w.deliver(m)
	}
	w.talk(a, b, 3)
	w.talk(b, a, 6)
	// crossing messages again
	for k := 0; k < 4; k++ {
		m1, m2 := w.send(a, b), w.send(b, a)
		if m1 == nil || m2 == nil {
			return
		}
		w.deliver(m2)
		w.deliver(m1)
	}
}

// restart: one side starts again (keeping or having deleted its session); old messages still arrive.
func restart(w *world) {
	a, b := w.ps[0], w.ps[1]
	if !w.build(a, b, w.bundle(b, axh.OneTime)) {
		return
	}
	w.talk(a, b, 1+w.rd.Intn(4))
	var late []*axh.Msg
	for k := w.rd.Intn(3); k > 0; k-- {
		late = append(late, w.send(a, b))
	}
	for n := 1 + w.rd.Intn(3); n > 0; n-- {
		if w.rd.Intn(2) == 0 {
			a.S.DeleteSession(b.Name, b.Dev)
			w.trace = append(w.trace, "alice deletes her session")
		}
		if !w.build(a, b, w.bundle(b, kind(w.rd))) {
			return
		}
		var ms []*axh.Msg
		for k := w.rd.Intn(3); k >= 0; k-- {
			ms = append(ms, w.send(a, b))
		}
		ms = append(ms, late...)
		late = nil
		w.rd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		for _, m := range ms {
			if m == nil {
				return
			}
			w.deliver(m)
		}
		if m := w.send(a, b); m == nil || !w.deliver(m) {
			return
		}
		w.talk(b, a, 4)
	}
}

// sharedBundle: two initiators (or one initiator twice) got the same bundle.
func sharedBundle(w *world) {
	a, b, c := w.ps[0], w.ps[1], w.ps[2]
	bu := w.bundle(b, []axh.PreKind{axh.OneTime, axh.OneTime, axh.LastResort, axh.NoPre}[w.rd.Intn(4)])
	cp := *bu
	other := c
	if w.rd.Intn(3) == 0 {
		other = a
	}
	if !w.build(a, b, bu) {
		return
	}
	m1 := w.send(a, b)
	if other == a {
		a.S.DeleteSession(b.Name, b.Dev)
	}
	if !w.build(other, b, &cp) {
		return
	}
	m2 := w.send(other, b)
	m3 := w.send(other, b)
	if m1 == nil || m2 == nil || m3 == nil {
		return
	}
	for _, m := range [][]*axh.Msg{{m1, m2, m3}, {m2, m1, m3}, {m3, m2, m1}}[w.rd.Intn(3)] {
		w.deliver(m)
	}
}

func badBundle(w *world) {
	a, b, c := w.ps[0], w.ps[1], w.ps[2]
	if w.rd.Intn(2) == 0 { // with or without an earlier session
		if !w.build(a, b, w.bundle(b, kind(w.rd))) {
			return
		}
		w.talk(a, b, w.rd.Intn(4))
	}
	rep := []*axh.Msg{}
	for k := 0; k < 6; k++ {
		bu := w.bundle(b, kind(w.rd))
		what := ""
		switch w.rd.Intn(9) {
		case 0:
			bu.SignedPreKeySignature[w.rd.Intn(64)] ^= byte(1 << uint(w.rd.Intn(8)))
			what = "signature bit"
		case 1:
			bu.SignedPreKeySignature = [64]byte{}
			what = "zero signature"
		case 2:
			bu.SignedPreKeyPublic = &axolotl.NewECKeyPair().PublicKey
			what = "substituted signed prekey"
		case 3: // signed by somebody else
			var rnd [64]byte
			w.rd.Read(rnd[:])
			bu.SignedPreKeySignature = *curve25519sign.Sign(c.S.Identity.PrivateKey.Key(), bu.SignedPreKeyPublic.Serialize(), rnd)
			what = "signed by another identity"
		case 4: // stated identity is another one (not that of the signer)
			if a.S.Trusted[b.Name] != nil {
				continue
			}
			bu.IdentityKey = &c.S.Identity.PublicKey
			what = "other identity stated"
		case 5: // signature over the key without its type byte
			var rnd [64]byte
			bu.SignedPreKeySignature = *curve25519sign.Sign(b.S.Identity.PrivateKey.Key(), bu.SignedPreKeyPublic.Key()[:], rnd)
			what = "signature over the bare key"
		case 6: // signature of another, correctly signed key of the same identity
			old := *bu
			b.NewSigned()
			nb := w.bundle(b, axh.NoPre)
			bu.SignedPreKeyPublic = nb.SignedPreKeyPublic
			bu.SignedPreKeySignature = old.SignedPreKeySignature
			what = "signature of an older signed prekey"
		case 7: // an identity-signed other string: signature over the identity key
			var rnd [64]byte
			bu.SignedPreKeySignature = *curve25519sign.Sign(b.S.Identity.PrivateKey.Key(), b.S.Identity.PublicKey.Serialize(), rnd)
			what = "signature over the identity key"
		case 8:
			bu.SignedPreKeyPublic = nil
			what = "no signed prekey"
		}
		before := a.S.Snapshot()
		var err error
		if p := vh.Try(func() { err = a.Builder(b).BuildSenderSession(bu) }); p != "" {
			w.r.Violation("bad-bundle-panic", "bundle with %s: %s", what, p)
			continue
		}
		w.trace = append(w.trace, fmt.Sprintf("bad bundle (%s): %v", what, err))
		if err == nil {
			w.r.Violation("bad-bundle", "a bundle with %s was accepted", what)
			return
		}
		if after := a.S.Snapshot(); after != before {
			w.r.Violation("bad-bundle-state", "refusing a bundle with %s changed the store: %s", what, axh.Diff(before, after))
		}
		w.r.Event("bad_bundle_refused", 1)
	}
	_ = rep
	// afterwards a good one works
	if w.build(a, b, w.bundle(b, kind(w.rd))) {
		w.talk(a, b, 4)
	}
}

// mixed: a random history over three parties.
func mixed(w *world) {
	type dir struct{ x, y *axh.Party }
	can := map[dir]bool{}
	var dirs []dir
	for s := 0; s < 25; s++ {
		i, j := w.rd.Intn(3), w.rd.Intn(2)
		if j >= i {
			j++
		}
		x, y := w.ps[i], w.ps[j]
		switch {
		case w.rd.Intn(4) == 0 || len(dirs) == 0:
			if !w.build(x, y, w.bundle(y, kind(w.rd))) {
				return
			}
			if !can[dir{x, y}] {
				can[dir{x, y}] = true
				dirs = append(dirs, dir{x, y})
			}
		default:
			d := dirs[w.rd.Intn(len(dirs))]
			if m := w.send(d.x, d.y); m != nil {
				w.open = append(w.open, m)
			}
		}
		for len(w.open) > 0 && w.rd.Intn(3) > 0 {
			k := w.rd.Intn(len(w.open))
			m := w.open[k]
			w.open = append(w.open[:k], w.open[k+1:]...)
			if w.deliver(m) && !can[dir{m.To, m.From}] {
				can[dir{m.To, m.From}] = true
				dirs = append(dirs, dir{m.To, m.From})
			}
		}
	}
	for _, m := range w.open {
		w.deliver(m)
	}
	for _, d := range dirs {
		w.talk(d.x, d.y, 2)
	}
}
