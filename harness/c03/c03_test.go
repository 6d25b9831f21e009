package c03

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type world struct {
	r        *vh.R
	a, b, c  *axh.Party
	open     []*axh.Msg
	all      []*axh.Msg
	trace    []string
	heardOf  map[*axh.Party]bool
	canonIn  map[string]bool
	isFirst  bool
	attempts int
}

func (w *world) tail() []string {
	if len(w.trace) > 12 {
		return w.trace[len(w.trace)-12:]
	}
	return w.trace
}

// sameMessage reports whether altered wire bytes still denote exactly the genuine message (protobuf lets
// the outer, unauthenticated wrapping be written differently); only then may they decrypt.
func sameMessage(m *axh.Msg, wire []byte) bool {
	if m.Type != axh.TypePreKey {
		return bytes.Equal(m.Wire, wire)
	}
	if len(wire) == 0 || wire[0]>>4 != 3 {
		return false
	}
	x, y := &axpb.PreKeySignalMessage{}, &axpb.PreKeySignalMessage{}
	if proto.Unmarshal(wire[1:], x) != nil || proto.Unmarshal(m.Wire[1:], y) != nil {
		return false
	}
	// the inner message is authenticated byte for byte; of the wrapping, what enters the key agreement
	// and the choice of keys must be the same (the registration id does not take part)
	id := func(k []byte) []byte {
		if len(k) < 1 {
			return nil
		}
		return k[1:]
	}
	return bytes.Equal(x.GetMessage(), y.GetMessage()) && bytes.Equal(id(x.GetBaseKey()), id(y.GetBaseKey())) && bytes.Equal(id(x.GetIdentityKey()), id(y.GetIdentityKey()))
}

func (w *world) attack(to, from *axh.Party, typ int32, wire []byte, genuine *axh.Msg, what string) {
	w.attempts++
	before := to.S.Snapshot()
	var out []byte
	var err error
	if p := vh.Try(func() { out, err = to.Decrypt(from, typ, wire) }); p != "" {
		w.r.Violation("panic", "%s of %v: %s; wire %x", what, genuine, p, wire)
		return
	}
	after := to.S.Snapshot()
	if err == nil {
		if genuine != nil && sameMessage(genuine, wire) && bytes.Equal(out, genuine.Plain) && typ == genuine.Type {
			// re-encoded wrapping of the very same message: legitimately delivered
			genuine.Done++
			w.r.Event("equivalent_encoding", 1)
			return
		}
		w.r.Violation("accepted", "altered message accepted (%s of %v): returned %s; trace %v", what, genuine, vh.Hex(out), w.tail())
		return
	}
	w.r.Event("tampered_rejected", 1)
	if before != after {
		w.r.Violation("state", "rejected message (%s of %v: %v) changed the stored state: %s; trace %v", what, genuine, err, axh.Diff(before, after), w.tail())
	}
}

func (w *world) send(p, o *axh.Party, plain []byte) *axh.Msg {
	m, err := p.Encrypt(o, plain)
	if err != nil {
		w.r.Violation("encrypt", "%s cannot encrypt: %v; trace %v", p.Name, err, w.tail())
		return nil
	}
	m.N = len(w.all)
	w.all = append(w.all, m)
	w.trace = append(w.trace, "send "+m.String())
	return m
}

func (w *world) genuine(m *axh.Msg) bool {
	if m.Done > 0 {
		return true
	}
	out, err := m.To.Decrypt(m.From, m.Type, m.Wire)
	w.trace = append(w.trace, fmt.Sprintf("deliver %v: %v", m, err))
	if err != nil {
		w.r.Violation("genuine-lost", "genuine message %v no longer decrypts after %d rejected forgeries: %v; trace %v", m, w.attempts, err, w.tail())
		return false
	}
	if !bytes.Equal(out, m.Plain) {
		w.r.Violation("plaintext", "genuine message %v decrypted to other bytes", m)
	}
	m.Done++
	w.r.Event("genuine_decrypted_after_attack", 1)
	return true
}

// structured header forgeries: valid protobufs with changed fields and the old MAC
func forge(rd *rand.Rand, m *axh.Msg, ratchets [][]byte) ([]byte, int32, string) {
	inner := m.Wire
	pk := &axpb.PreKeySignalMessage{}
	if m.Type == axh.TypePreKey {
		if proto.Unmarshal(m.Wire[1:], pk) != nil {
			return nil, 0, ""
		}
		inner = pk.GetMessage()
	}
	sm := &axpb.SignalMessage{}
	if proto.Unmarshal(inner[1:len(inner)-8], sm) != nil {
		return nil, 0, ""
	}
	ver := inner[0]
	mac := append([]byte{}, inner[len(inner)-8:]...)
	what := ""
	u32 := func(v uint32) *uint32 { return &v }
	switch rd.Intn(12) {
	case 0:
		d := []uint32{1, 2, 10, 100, 1999, 2000, 2001, 1 << 31, ^uint32(0)}[rd.Intn(9)]
		sm.Counter = u32(sm.GetCounter() + d)
		what = fmt.Sprintf("counter +%d", d)
	case 1:
		sm.Counter = u32(0)
		what = "counter 0"
		if m.Counter == 0 {
			sm.Counter = u32(1)
		}
	case 2:
		sm.PreviousCounter = u32(sm.GetPreviousCounter() + 1)
		what = "previous counter"
	case 3:
		k := axolotl.NewECKeyPair()
		sm.RatchetKey = k.PublicKey.Serialize()
		what = "fresh ratchet key"
	case 4:
		k := ratchets[rd.Intn(len(ratchets))]
		if bytes.Equal(k, sm.RatchetKey) {
			return nil, 0, ""
		}
		sm.RatchetKey = k
		what = "ratchet key of another chain"
	case 5:
		sm.RatchetKey = make([]byte, 33)
		sm.RatchetKey[0] = 5
		what = "zero ratchet key"
	case 6:
		c := append([]byte{}, sm.Ciphertext...)
		c[rd.Intn(len(c))] ^= byte(1 + rd.Intn(255))
		sm.Ciphertext = c
		what = "ciphertext byte"
	case 7:
		ver = []byte{0x34, 0x32, 0x3f, 0x23, 0x43, 0x30}[rd.Intn(6)]
		what = fmt.Sprintf("inner version %#x", ver)
	case 8:
		sm.Ciphertext = append(append([]byte{}, sm.Ciphertext...), vh.Bytes(rd, 16)...)
		what = "ciphertext block appended"
	case 9:
		if len(sm.Ciphertext) <= 16 {
			return nil, 0, ""
		}
		sm.Ciphertext = sm.Ciphertext[:len(sm.Ciphertext)-16]
		what = "ciphertext block removed"
	case 10:
		mac[rd.Intn(8)] ^= byte(1 << uint(rd.Intn(8)))
		what = "MAC bit"
	case 11:
		mac = make([]byte, 8)
		what = "MAC zeroed"
	}
	b, err := proto.Marshal(sm)
	if err != nil {
		return nil, 0, ""
	}
	w := append(append([]byte{ver}, b...), mac...)
	if m.Type == axh.TypePreKey {
		if rd.Intn(3) == 0 {
			// present the forged inner message as an ordinary one
			return w, axh.TypeCiphertext, what + " (unwrapped)"
		}
		pk.Message = w
		b, err = proto.Marshal(pk)
		if err != nil {
			return nil, 0, ""
		}
		w = append([]byte{m.Wire[0]}, b...)
	}
	return w, m.Type, what
}

// forgeOuter changes the wrapping of an establishment message.
func forgeOuter(rd *rand.Rand, m *axh.Msg, others []*axh.Party) ([]byte, string) {
	pk := &axpb.PreKeySignalMessage{}
	if m.Type != axh.TypePreKey || proto.Unmarshal(m.Wire[1:], pk) != nil {
		return nil, ""
	}
	u32 := func(v uint32) *uint32 { return &v }
	what := ""
	switch rd.Intn(6) {
	case 0:
		pk.BaseKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		what = "fresh base key"
	case 1:
		o := others[rd.Intn(len(others))]
		pk.IdentityKey = o.S.Identity.PublicKey.Serialize()
		what = "identity of " + o.Name
	case 2:
		pk.IdentityKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		what = "fresh identity"
	case 3:
		pk.BaseKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		pk.PreKeyId = u32(0)
		what = "fresh base key, no prekey id"
	case 4:
		pk.BaseKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		ids := []uint32{1, 5, 0xFFFFFF, rd.Uint32()}
		pk.PreKeyId = u32(ids[rd.Intn(4)])
		what = "fresh base key, other prekey id"
	case 5:
		pk.BaseKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		pk.IdentityKey = axolotl.NewECKeyPair().PublicKey.Serialize()
		what = "fresh base key and identity"
	}
	b, err := proto.Marshal(pk)
	if err != nil {
		return nil, ""
	}
	return append([]byte{m.Wire[0]}, b...), what
}

// TestC03 attacks conversations at every point.
func TestC03(t *testing.T) {
	r := vh.Start(t, "C03", "conversations of three devices during which forged, altered, truncated, spliced and misdirected ciphertexts are delivered at every step; monitor: no success, stored state byte-identical around each rejection, and every outstanding genuine message decrypts afterwards; a case is one conversation, distinct by trace, non-trivial if at least 10 forgeries were rejected")
	defer r.Finish()
	n := r.N(150, 4000)
	for i := 0; i < n; i++ {
		r.SetCase("attack/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("a", i))
		func() {
			defer restore()
			r.Safe("panic", "attack", func() { attackConv(r, i) })
		}()
	}
	for i := 0; i < r.N(6, 40); i++ {
		r.SetCase("everybyte/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("eb", i))
		func() {
			defer restore()
			r.Safe("panic", "everybyte", func() { everyByte(r, i) })
		}()
	}
	r.Require("tampered_rejected", 3000)
	r.Require("genuine_decrypted_after_attack", 500)
}

func attackConv(r *vh.R, i int) {
	rd := r.Rand("attack", i)
	w := &world{r: r, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 1, rd), c: axh.NewParty("carol", 1, rd)}
	ps := []*axh.Party{w.a, w.b, w.c}
	for _, pr := range [][2]*axh.Party{{w.a, w.b}, {w.c, w.b}, {w.a, w.c}} {
		if err := pr[0].Builder(pr[1]).BuildSenderSession(pr[1].Bundle(axh.PreKind(rd.Intn(3)))); err != nil {
			r.Violation("setup", "valid bundle refused: %v", err)
			return
		}
	}
	canSend := map[[2]*axh.Party]bool{{w.a, w.b}: true, {w.c, w.b}: true, {w.a, w.c}: true}
	var ratchets [][]byte
	noteRatchet := func(m *axh.Msg) {
		var b []byte
		fmt.Sscanf(m.Ratchet, "%x", &b)
		ratchets = append(ratchets, b)
	}
	steps := 12 + rd.Intn(30)
	resess := i%4 == 3
	for s := 0; s < steps; s++ {
		var dirs [][2]*axh.Party
		for _, x := range ps {
			for _, y := range ps {
				if canSend[[2]*axh.Party{x, y}] {
					dirs = append(dirs, [2]*axh.Party{x, y})
				}
			}
		}
		d := dirs[rd.Intn(len(dirs))]
		if resess && rd.Intn(5) == 0 {
			// an additional session: rejected messages must not disturb archived sessions either
			if err := d[0].Builder(d[1]).BuildSenderSession(d[1].Bundle(axh.OneTime)); err != nil {
				r.Violation("setup", "valid bundle refused: %v", err)
				return
			}
		}
		for k := rd.Intn(3); k >= 0; k-- {
			m := w.send(d[0], d[1], vh.Plain(rd))
			if m == nil {
				return
			}
			noteRatchet(m)
			w.open = append(w.open, m)
		}
		for k := rd.Intn(10); k > 0 && len(w.open) > 0; k-- {
			m := w.open[rd.Intn(len(w.open))]
			if rd.Intn(4) == 0 {
				m = w.all[rd.Intn(len(w.all))]
			}
			switch rd.Intn(7) {
			case 0:
				if b, what := vh.Mutate(rd, m.Wire); !sameMessage(m, b) {
					w.attack(m.To, m.From, m.Type, b, m, what)
				}
			case 1, 2:
				if b, typ, what := forge(rd, m, ratchets); b != nil {
					w.attack(m.To, m.From, typ, b, m, what)
				}
			case 3:
				if b, what := forgeOuter(rd, m, ps); b != nil && !sameMessage(m, b) {
					w.attack(m.To, m.From, m.Type, b, m, what)
				}
			case 4: // deliver to another device, or as coming from another device
				for _, p := range ps {
					if p != m.To && rd.Intn(2) == 0 {
						// same receiver-side device naming the wrong sender, or a wrong receiver
						if p != m.From {
							w.attack(p, m.From, m.Type, m.Wire, m, "misdirected to "+p.Name)
							if m.Type == axh.TypeCiphertext {
								w.attack(m.To, p, m.Type, m.Wire, m, "claimed to be from "+p.Name)
							}
						} else {
							w.attack(m.From, m.To, m.Type, m.Wire, m, "reflected to its sender")
						}
					}
				}
			case 6: // an ordinary or establishment message inside a made-up establishment wrapping
				inner := m.Wire
				if m.Type == axh.TypePreKey {
					pk := &axpb.PreKeySignalMessage{}
					if proto.Unmarshal(m.Wire[1:], pk) != nil {
						continue
					}
					inner = pk.GetMessage()
				}
				id := uint32(0)
				for k := range m.To.S.Pre {
					if id == 0 || k < id {
						id = k
					}
				}
				reg, sid := uint32(rd.Intn(100)), m.To.SignID
				o := m.From
				if rd.Intn(4) == 0 {
					o = ps[rd.Intn(3)]
				}
				b, err := proto.Marshal(&axpb.PreKeySignalMessage{RegistrationId: &reg, PreKeyId: &id, SignedPreKeyId: &sid,
					BaseKey: axolotl.NewECKeyPair().PublicKey.Serialize(), IdentityKey: o.S.Identity.PublicKey.Serialize(), Message: inner})
				if err == nil {
					w.attack(m.To, m.From, axh.TypePreKey, append([]byte{0x33}, b...), m, fmt.Sprintf("wrapped under a fresh base key naming prekey %d", id))
					w.r.Event("wrapped", 1)
				}
			case 5: // splice: MAC of one message on another
				o := w.all[rd.Intn(len(w.all))]
				if o != m && len(o.Wire) > 20 && len(m.Wire) > 20 && m.Type == axh.TypeCiphertext && o.Type == axh.TypeCiphertext {
					b := append(append([]byte{}, m.Wire[:len(m.Wire)-8]...), o.Wire[len(o.Wire)-8:]...)
					if !bytes.Equal(b, m.Wire) {
						w.attack(m.To, m.From, m.Type, b, m, fmt.Sprintf("MAC of #%d", o.N))
					}
				}
			}
		}
		if len(w.open) > 0 && rd.Intn(4) > 0 {
			k := rd.Intn(len(w.open))
			m := w.open[k]
			w.open = append(w.open[:k], w.open[k+1:]...)
			if w.genuine(m) {
				canSend[[2]*axh.Party{m.To, m.From}] = true
			}
		}
	}
	rd.Shuffle(len(w.open), func(i, j int) { w.open[i], w.open[j] = w.open[j], w.open[i] })
	for _, m := range w.open {
		w.genuine(m)
	}
	key := ""
	if w.attempts >= 10 {
		key = fmt.Sprint(w.trace, w.attempts)
	}
	r.Eval(key)
	if i == 0 {
		r.Sample(map[string]interface{}{"case": "attack/0", "forgeries": w.attempts, "messages": len(w.all), "trace_tail": w.tail()})
	}
}

// everyByte alters every byte of one establishment message and one ordinary message.
func everyByte(r *vh.R, i int) {
	rd := r.Rand("everybyte", i)
	w := &world{r: r, a: axh.NewParty("alice", 1, rd), b: axh.NewParty("bob", 1, rd)}
	if err := w.a.Builder(w.b).BuildSenderSession(w.b.Bundle(axh.PreKind(i % 3))); err != nil {
		r.Violation("setup", "valid bundle refused: %v", err)
		return
	}
	run := func(m *axh.Msg) {
		for k := range m.Wire {
			for _, x := range []byte{1, 0x80, byte(1 + rd.Intn(255))} {
				b := append([]byte{}, m.Wire...)
				b[k] ^= x
				if sameMessage(m, b) {
					continue
				}
				w.attack(m.To, m.From, m.Type, b, m, fmt.Sprintf("byte %d ^ %#x", k, x))
			}
		}
		for k := range m.Wire {
			w.attack(m.To, m.From, m.Type, m.Wire[:k], m, fmt.Sprintf("prefix %d", k))
		}
		w.genuine(m)
	}
	m := w.send(w.a, w.b, vh.Bytes(rd, 5))
	if m == nil {
		return
	}
	run(m)
	m = w.send(w.b, w.a, vh.Bytes(rd, 20))
	if m == nil {
		return
	}
	run(m)
	m = w.send(w.a, w.b, vh.Bytes(rd, 3))
	if m == nil {
		return
	}
	run(m)
	r.Eval(fmt.Sprintf("everybyte %d", i))
}
