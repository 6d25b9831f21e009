# shared text for demonstrations of the ratchet layer: a small in-memory store and a session pair
AXDEMO='''package verifdemo

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/curve25519sign"
)

var _ = bytes.Equal

type mem struct {
	sync.Mutex
	mu      sync.Mutex
	reg     uint32
	id      *axolotl.IdentityKeyPair
	pre     map[uint32][]byte
	sig     map[uint32][]byte
	sess    map[string][]byte
	trusted map[string][]byte
}

func newMem(reg uint32) *mem {
	return &mem{reg: reg, id: axolotl.GenerateIdentityKeyPair(), pre: map[uint32][]byte{}, sig: map[uint32][]byte{}, sess: map[string][]byte{}, trusted: map[string][]byte{}}
}
func sk(id string, d uint32) string                                     { return fmt.Sprintf("%s %d", id, d) }
func (m *mem) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error)    { return m.id, nil }
func (m *mem) GetLocalRegistrationID() (uint32, error)                  { return m.reg, nil }
func (m *mem) SaveIdentity(id string, k *axolotl.IdentityKey) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.trusted[id] = append([]byte{}, k.Key()[:]...)
	return nil
}
func (m *mem) IsTrustedIdentity(id string, k *axolotl.IdentityKey) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	t, ok := m.trusted[id]
	return !ok || bytes.Equal(t, k.Key()[:])
}
func (m *mem) LoadPreKey(id uint32) (*axolotl.PreKeyRecord, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if b, ok := m.pre[id]; ok {
		return axolotl.LoadPreKeyRecord(b)
	}
	return nil, errors.New("no prekey")
}
func (m *mem) StorePreKey(id uint32, r *axolotl.PreKeyRecord) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	b, err := r.Serialize()
	m.pre[id] = b
	return err
}
func (m *mem) ContainsPreKey(id uint32) bool { m.mu.Lock(); defer m.mu.Unlock(); _, ok := m.pre[id]; return ok }
func (m *mem) RemovePreKey(id uint32)        { m.mu.Lock(); defer m.mu.Unlock(); delete(m.pre, id) }
func (m *mem) LoadSignedPreKey(id uint32) (*axolotl.SignedPreKeyRecord, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if b, ok := m.sig[id]; ok {
		return axolotl.LoadSignedPreKeyRecord(b)
	}
	return nil, errors.New("no signed prekey")
}
func (m *mem) LoadSignedPreKeys() []axolotl.SignedPreKeyRecord { return nil }
func (m *mem) StoreSignedPreKey(id uint32, r *axolotl.SignedPreKeyRecord) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	b, err := r.Serialize()
	m.sig[id] = b
	return err
}
func (m *mem) ContainsSignedPreKey(id uint32) bool { return m.sig[id] != nil }
func (m *mem) RemoveSignedPreKey(id uint32)        { delete(m.sig, id) }
func (m *mem) GetSubDeviceSessions(string) []uint32 { return nil }
func (m *mem) LoadSession(id string, d uint32) (*axolotl.SessionRecord, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if b, ok := m.sess[sk(id, d)]; ok {
		return axolotl.LoadSessionRecord(b)
	}
	return axolotl.NewSessionRecord(), nil
}
func (m *mem) StoreSession(id string, d uint32, r *axolotl.SessionRecord) error {
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.sess[sk(id, d)] = b
	return nil
}
func (m *mem) ContainsSession(id string, d uint32) bool { m.mu.Lock(); defer m.mu.Unlock(); return m.sess[sk(id, d)] != nil }
func (m *mem) DeleteSession(id string, d uint32)        { m.mu.Lock(); defer m.mu.Unlock(); delete(m.sess, sk(id, d)) }
func (m *mem) DeleteAllSessions(id string)              { delete(m.sess, sk(id, 1)) }

type party struct {
	name string
	m    *mem
	sid  uint32
}

func newParty(name string, reg uint32) *party {
	p := &party{name: name, m: newMem(reg), sid: reg + 100}
	kp := axolotl.NewECKeyPair()
	var rnd [64]byte
	rand.Read(rnd[:])
	sig := curve25519sign.Sign(p.m.id.PrivateKey.Key(), kp.PublicKey.Serialize(), rnd)
	p.m.StoreSignedPreKey(p.sid, axolotl.NewSignedPreKeyRecord(p.sid, 1, kp, sig[:]))
	return p
}

// bundle with the prekey of the given id (0: none); the prekey is made if it is not there
func (p *party) bundle(t *testing.T, pre uint32) *axolotl.PreKeyBundle {
	var pub *axolotl.ECPublicKey
	if pre != 0 {
		if !p.m.ContainsPreKey(pre) {
			p.m.StorePreKey(pre, axolotl.NewPreKeyRecord(pre, axolotl.NewECKeyPair()))
		}
		r, err := p.m.LoadPreKey(pre)
		if err != nil {
			t.Fatal(err)
		}
		pub = axolotl.NewECPublicKey(r.Pkrs.PublicKey)
	}
	sr, err := p.m.LoadSignedPreKey(p.sid)
	if err != nil {
		t.Fatal(err)
	}
	b, err := axolotl.NewPreKeyBundle(p.m.reg, 1, pre, pub, int32(p.sid), axolotl.NewECPublicKey(sr.Spkrs.PublicKey), sr.Spkrs.Signature, &p.m.id.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	return b
}
func (p *party) build(q *party, b *axolotl.PreKeyBundle) error {
	return axolotl.NewSessionBuilder(p.m, p.m, p.m, p.m, q.name, 1).BuildSenderSession(b)
}

type wire struct {
	b   []byte
	typ int32
}

func (p *party) enc(t *testing.T, q *party, s string) wire {
	b, typ, err := axolotl.NewSessionCipher(p.m, p.m, p.m, p.m, q.name, 1).SessionEncryptMessage([]byte(s))
	if err != nil {
		t.Fatal(err)
	}
	return wire{b, typ}
}
func (p *party) dec(q *party, w wire) (string, error) {
	sc := axolotl.NewSessionCipher(p.m, p.m, p.m, p.m, q.name, 1)
	if w.typ == 3 {
		m, err := axolotl.LoadPreKeyWhisperMessage(w.b)
		if err != nil {
			return "", err
		}
		b, err := sc.SessionDecryptPreKeyWhisperMessage(m)
		return string(b), err
	}
	m, err := axolotl.LoadWhisperMessage(w.b)
	if err != nil {
		return "", err
	}
	b, err := sc.SessionDecryptWhisperMessage(m)
	return string(b), err
}
func (p *party) must(t *testing.T, q *party, w wire, want string) {
	t.Helper()
	s, err := p.dec(q, w)
	if err != nil || s != want {
		t.Fatalf("decrypt: got %q, %v; want %q", s, err, want)
	}
}

// pair has two parties with a session that was used in both directions
func pair(t *testing.T) (a, b *party) {
	a, b = newParty("alice", 11), newParty("bob", 22)
	if err := a.build(b, b.bundle(t, 7)); err != nil {
		t.Fatal(err)
	}
	b.must(t, a, a.enc(t, b, "hello"), "hello")
	a.must(t, b, b.enc(t, a, "hi"), "hi")
	return
}
'''
def ax(body, imports=()):
    """a demonstration in its own package using the in-memory store"""
    return {"store_test.go":AXDEMO,"demo_test.go":"package verifdemo\n\nimport (\n\t\"testing\"\n"+"".join('\t"%s"\n'%i for i in imports)+")\n\n"+body}
AXPLACE={"verifdemo/store_test.go":"store_test.go","verifdemo/demo_test.go":"demo_test.go"}
