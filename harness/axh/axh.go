// Package axh has an in-memory persistent store (everything is kept serialized, so every operation is a
// reload) and simulated parties for driving the ratchet layer through its exported API.
package axh

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/curve25519sign"
)

// ErrFault is the injected storage error.
var ErrFault = errors.New("injected storage fault")

// Store is the in-memory store.
type Store struct {
	sync.Mutex // session lock of the SessionStore interface
	mu         sync.Mutex
	RegID      uint32
	Identity   *axolotl.IdentityKeyPair
	Pre        map[uint32][]byte
	Signed     map[uint32][]byte
	Sess       map[string][]byte
	Trusted    map[string][]byte
	Always     bool

	Delay            func() // called inside every session load and store (scheduling noise)
	FailStoreSession func() bool
	FailSaveIdentity func() bool
	OnEffect         func(what string) // called after every change of the stored state
	Log              []string          // order of effects
	KeepLog          bool
}

// NewStore makes an empty store with a fresh identity.
func NewStore(regID uint32) *Store {
	return &Store{RegID: regID, Identity: axolotl.GenerateIdentityKeyPair(), Pre: map[uint32][]byte{}, Signed: map[uint32][]byte{},
		Sess: map[string][]byte{}, Trusted: map[string][]byte{}}
}

func key(id string, dev uint32) string { return fmt.Sprintf("%s|%d", id, dev) }

func (s *Store) log(format string, a ...interface{}) {
	if s.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf(format, a...))
	}
}

func (s *Store) effect(what string) {
	if s.OnEffect != nil {
		s.OnEffect(what)
	}
}

func (s *Store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) { return s.Identity, nil }
func (s *Store) GetLocalRegistrationID() (uint32, error)               { return s.RegID, nil }
func (s *Store) SaveIdentity(id string, k *axolotl.IdentityKey) error {
	defer s.effect("SaveIdentity")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log("SaveIdentity %s", id)
	if s.FailSaveIdentity != nil && s.FailSaveIdentity() {
		return ErrFault
	}
	s.Trusted[id] = append([]byte{}, k.Key()[:]...)
	return nil
}
func (s *Store) IsTrustedIdentity(id string, k *axolotl.IdentityKey) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Always {
		return true
	}
	t, ok := s.Trusted[id]
	return !ok || bytes.Equal(t, k.Key()[:])
}
func (s *Store) LoadPreKey(id uint32) (*axolotl.PreKeyRecord, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.Pre[id]
	if !ok {
		return nil, errors.New("no such prekey")
	}
	return axolotl.LoadPreKeyRecord(b)
}
func (s *Store) StorePreKey(id uint32, r *axolotl.PreKeyRecord) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.Pre[id] = b
	return nil
}
func (s *Store) ContainsPreKey(id uint32) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.Pre[id]
	return ok
}
func (s *Store) RemovePreKey(id uint32) {
	defer s.effect("RemovePreKey")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log("RemovePreKey %d", id)
	delete(s.Pre, id)
}
func (s *Store) LoadSignedPreKey(id uint32) (*axolotl.SignedPreKeyRecord, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.Signed[id]
	if !ok {
		return nil, errors.New("no such signed prekey")
	}
	return axolotl.LoadSignedPreKeyRecord(b)
}
func (s *Store) LoadSignedPreKeys() []axolotl.SignedPreKeyRecord { return nil }
func (s *Store) StoreSignedPreKey(id uint32, r *axolotl.SignedPreKeyRecord) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.Signed[id] = b
	return nil
}
func (s *Store) ContainsSignedPreKey(id uint32) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.Signed[id]
	return ok
}
func (s *Store) RemoveSignedPreKey(id uint32) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.Signed, id)
}
func (s *Store) LoadSession(id string, dev uint32) (*axolotl.SessionRecord, error) {
	if s.Delay != nil {
		defer s.Delay()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.Sess[key(id, dev)]
	if !ok {
		return axolotl.NewSessionRecord(), nil
	}
	return axolotl.LoadSessionRecord(append([]byte{}, b...))
}
func (s *Store) GetSubDeviceSessions(id string) []uint32 { return nil }
func (s *Store) StoreSession(id string, dev uint32, r *axolotl.SessionRecord) error {
	if s.Delay != nil {
		s.Delay()
	}
	defer s.effect("StoreSession")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log("StoreSession %s %d", id, dev)
	if s.FailStoreSession != nil && s.FailStoreSession() {
		return ErrFault
	}
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.Sess[key(id, dev)] = b
	return nil
}
func (s *Store) ContainsSession(id string, dev uint32) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.Sess[key(id, dev)]
	return ok
}
func (s *Store) DeleteSession(id string, dev uint32) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.Sess, key(id, dev))
}
func (s *Store) DeleteAllSessions(id string) {}

// Snapshot renders the whole persistent state for comparison.
func (s *Store) Snapshot() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k, v := range s.Pre {
		out = append(out, fmt.Sprintf("pre %d %x", k, v))
	}
	for k, v := range s.Signed {
		out = append(out, fmt.Sprintf("signed %d %x", k, v))
	}
	for k, v := range s.Sess {
		out = append(out, fmt.Sprintf("sess %s %s", k, canonSession(v)))
	}
	for k, v := range s.Trusted {
		out = append(out, fmt.Sprintf("id %s %x", k, v))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func canonSession(b []byte) string {
	return hex.EncodeToString(b)
}

// Diff gives the categories in which two snapshots differ.
func Diff(a, b string) string {
	if a == b {
		return ""
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			j := i - 60
			if j < 0 {
				j = 0
			}
			return fmt.Sprintf("before ...%.140s | after ...%.140s", a[j:], b[j:])
		}
	}
	return fmt.Sprintf("lengths %d / %d", len(a), len(b))
}

// Clone copies the persistent state.
func (s *Store) Clone() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := &Store{RegID: s.RegID, Identity: s.Identity, Pre: map[uint32][]byte{}, Signed: map[uint32][]byte{}, Sess: map[string][]byte{}, Trusted: map[string][]byte{}, Always: s.Always}
	for k, v := range s.Pre {
		n.Pre[k] = v
	}
	for k, v := range s.Signed {
		n.Signed[k] = v
	}
	for k, v := range s.Sess {
		n.Sess[k] = v
	}
	for k, v := range s.Trusted {
		n.Trusted[k] = v
	}
	return n
}

// Record parses the stored session.
func (s *Store) Record(id string, dev uint32) *axpb.RecordStructure {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.Sess[key(id, dev)]
	if !ok {
		return nil
	}
	rs := &axpb.RecordStructure{}
	if err := proto.Unmarshal(b, rs); err != nil {
		return nil
	}
	return rs
}

// RawSession gives the stored bytes.
func (s *Store) RawSession(id string, dev uint32) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Sess[key(id, dev)]
}

// Party is one device.
type Party struct {
	Name    string
	Dev     uint32
	S       *Store
	SignID  uint32
	nextPre uint32
	rd      *rand.Rand
}

// NewParty creates a device with a signed prekey.
func NewParty(name string, dev uint32, rd *rand.Rand) *Party {
	p := &Party{Name: name, Dev: dev, S: NewStore(1 + uint32(rd.Intn(16000))), rd: rd, nextPre: uint32(1 + rd.Intn(1000))}
	switch p.nextPre % 4 { // also in the middle and at the end of the range, before the last resort's
	case 1:
		p.nextPre += 0x7fff00
	case 2:
		p.nextPre = 0xFFFFFE - p.nextPre%16
	}
	p.NewSigned()
	return p
}

// NewSigned rotates the signed prekey.
func (p *Party) NewSigned() {
	p.SignID = uint32(1 + p.rd.Intn(0xfffffe))
	for p.S.ContainsSignedPreKey(p.SignID) {
		p.SignID = uint32(1 + p.rd.Intn(0xfffffe))
	}
	kp := axolotl.NewECKeyPair()
	var rnd [64]byte
	p.rd.Read(rnd[:])
	sig := curve25519sign.Sign(p.S.Identity.PrivateKey.Key(), kp.PublicKey.Serialize(), rnd)
	p.S.StoreSignedPreKey(p.SignID, axolotl.NewSignedPreKeyRecord(p.SignID, 1, kp, sig[:]))
}

// PreKind selects what one-time prekey a bundle carries.
type PreKind int

const (
	NoPre PreKind = iota
	OneTime
	LastResort
)

// Bundle publishes a bundle of the party.
func (p *Party) Bundle(kind PreKind) *axolotl.PreKeyBundle {
	sp, err := p.S.LoadSignedPreKey(p.SignID)
	if err != nil {
		panic(err)
	}
	var pub *axolotl.ECPublicKey
	id := uint32(0)
	switch kind {
	case OneTime:
		id = p.nextPre
		if p.nextPre++; p.nextPre >= 0xFFFFFF {
			p.nextPre = 1
		}
		kp := axolotl.NewECKeyPair()
		p.S.StorePreKey(id, axolotl.NewPreKeyRecord(id, kp))
		pub = &kp.PublicKey
	case LastResort:
		id = 0xFFFFFF
		if !p.S.ContainsPreKey(id) {
			p.S.StorePreKey(id, axolotl.GenerateLastResortPreKey())
		}
		r, _ := p.S.LoadPreKey(id)
		pub = axolotl.NewECPublicKey(r.Pkrs.PublicKey)
	}
	b, err := axolotl.NewPreKeyBundle(p.S.RegID, p.Dev, id, pub, int32(p.SignID), axolotl.NewECPublicKey(sp.Spkrs.PublicKey), sp.Spkrs.Signature, &p.S.Identity.PublicKey)
	if err != nil {
		panic(err)
	}
	return b
}

// Builder makes a session builder towards peer.
func (p *Party) Builder(peer *Party) *axolotl.SessionBuilder {
	return axolotl.NewSessionBuilder(p.S, p.S, p.S, p.S, peer.Name, peer.Dev)
}

// Cipher makes a cipher towards peer.
func (p *Party) Cipher(peer *Party) *axolotl.SessionCipher {
	return axolotl.NewSessionCipher(p.S, p.S, p.S, p.S, peer.Name, peer.Dev)
}

// Msg is one ciphertext with what the monitor knows about it.
type Msg struct {
	N        int
	From, To *Party
	Plain    []byte
	Wire     []byte
	Type     int32
	Ratchet  string
	Counter  uint32
	Base     string
	PreID    uint32
	Done     int // successful decryptions
}

func (m *Msg) String() string {
	return fmt.Sprintf("#%d %s->%s type%d chain %.8s ctr %d len %d", m.N, m.From.Name, m.To.Name, m.Type, m.Ratchet, m.Counter, len(m.Plain))
}

const (
	// TypeCiphertext and TypePreKey are the envelope types.
	TypeCiphertext = 1
	TypePreKey     = 3
)

// Encrypt encrypts and parses the header independently of the code under test.
func (p *Party) Encrypt(peer *Party, plain []byte) (*Msg, error) {
	return p.EncryptWith(p.Cipher(peer), peer, plain)
}

// EncryptWith uses a given cipher object.
func (p *Party) EncryptWith(c *axolotl.SessionCipher, peer *Party, plain []byte) (*Msg, error) {
	in := append([]byte{}, plain...)
	wire, typ, err := c.SessionEncryptMessage(in)
	if err != nil {
		return nil, err
	}
	m := &Msg{From: p, To: peer, Plain: append([]byte{}, plain...), Wire: append([]byte{}, wire...), Type: typ}
	if err := m.Header(); err != nil {
		return nil, err
	}
	return m, nil
}

// Header fills in the header fields from the wire bytes.
func (m *Msg) Header() error {
	w := m.Wire
	if len(w) == 0 {
		return errors.New("empty ciphertext")
	}
	if w[0] != 0x33 {
		return fmt.Errorf("version byte %#x", w[0])
	}
	if m.Type == TypePreKey {
		pk := &axpb.PreKeySignalMessage{}
		if err := proto.Unmarshal(w[1:], pk); err != nil {
			return err
		}
		m.Base = hex.EncodeToString(pk.GetBaseKey())
		m.PreID = pk.GetPreKeyId()
		w = pk.GetMessage()
	}
	if len(w) < 9 {
		return errors.New("short inner message")
	}
	sm := &axpb.SignalMessage{}
	if err := proto.Unmarshal(w[1:len(w)-8], sm); err != nil {
		return err
	}
	m.Ratchet = hex.EncodeToString(sm.GetRatchetKey())
	m.Counter = sm.GetCounter()
	return nil
}

// Decrypt delivers wire bytes of a type from peer.
func (p *Party) Decrypt(peer *Party, typ int32, wire []byte) ([]byte, error) {
	return p.DecryptWith(p.Cipher(peer), typ, wire)
}

// DecryptWith uses a given cipher object.
func (p *Party) DecryptWith(c *axolotl.SessionCipher, typ int32, wire []byte) ([]byte, error) {
	w := append([]byte{}, wire...)
	if typ == TypePreKey {
		m, err := axolotl.LoadPreKeyWhisperMessage(w)
		if err != nil {
			return nil, err
		}
		return c.SessionDecryptPreKeyWhisperMessage(m)
	}
	m, err := axolotl.LoadWhisperMessage(w)
	if err != nil {
		return nil, err
	}
	return c.SessionDecryptWhisperMessage(m)
}

// ---- an attacker who holds the session keys (a malicious peer) ----

func hm(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// HKDF is an independent RFC 5869 implementation.
func HKDF(ikm, salt, info []byte, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := hm(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = hm(prk, t, info, []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// MessageKeys derives cipher key, MAC key and IV of a chain key.
func MessageKeys(chain []byte) (ck, mk, iv []byte) {
	b := HKDF(hm(chain, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return b[:32], b[32:64], b[64:]
}

// NextChain advances a chain key.
func NextChain(chain []byte) []byte { return hm(chain, []byte{2}) }

// ForgeSpec says what a malicious peer puts into an otherwise correctly authenticated message.
type ForgeSpec struct {
	Version    byte
	Ratchet    []byte  // nil: as it should be
	Counter    *uint32 // nil: as it should be
	Ciphertext []byte  // nil: a correct encryption of Plain
	Plain      []byte
}

// Forge makes a message with a valid MAC under p's current sending chain towards peer without advancing it.
func (p *Party) Forge(peer *Party, f ForgeSpec) (wire []byte, typ int32) {
	rs := p.S.Record(peer.Name, peer.Dev)
	if rs == nil || rs.GetCurrentSession().GetSenderChain() == nil {
		return nil, 0
	}
	ss := rs.CurrentSession
	ch := ss.SenderChain.ChainKey
	ck, mk, iv := MessageKeys(ch.Key)
	ct := f.Ciphertext
	if ct == nil {
		ct, _ = axolotl.Encrypt(ck, iv, append([]byte{}, f.Plain...))
	} else if len(ct) == 0 {
		ct = []byte{}
	}
	rk := f.Ratchet
	if rk == nil {
		rk = append([]byte{5}, ss.SenderChain.SenderRatchetKey...)
	}
	ctr := ch.Index
	if f.Counter != nil {
		ctr = *f.Counter
	}
	pc := ss.PreviousCounter
	ver := f.Version
	if ver == 0 {
		ver = 0x33
	}
	b, err := proto.Marshal(&axpb.SignalMessage{RatchetKey: rk, Counter: &ctr, PreviousCounter: &pc, Ciphertext: ct})
	if err != nil {
		return nil, 0
	}
	data := append([]byte{ver}, b...)
	k5 := func(k []byte) []byte { return append([]byte{5}, k...) }
	mac := hm(mk, k5(ss.LocalIdentityPublic), k5(ss.RemoteIdentityPublic), data)[:8]
	inner := append(data, mac...)
	if pp := ss.PendingPreKey; pp != nil {
		reg, id, sid := ss.LocalRegistrationId, pp.PreKeyId, uint32(pp.SignedPreKeyId)
		o, err := proto.Marshal(&axpb.PreKeySignalMessage{RegistrationId: &reg, PreKeyId: &id, SignedPreKeyId: &sid, BaseKey: pp.BaseKey,
			IdentityKey: k5(ss.LocalIdentityPublic), Message: inner})
		if err != nil {
			return nil, 0
		}
		return append([]byte{0x33}, o...), TypePreKey
	}
	return inner, TypeCiphertext
}

// DH is X25519 of the standard library.
func DH(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	u, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		panic(err)
	}
	s, err := k.ECDH(u)
	if err != nil {
		panic(err)
	}
	return s
}

// RefReceive decrypts an establishment message the way the protocol specification says, from the receiver's
// private keys alone and independently of the code under test. pre is the serialized one-time prekey (nil if
// the session used none).
func RefReceive(to *Party, m *Msg, pre []byte) ([]byte, error) {
	pk := &axpb.PreKeySignalMessage{}
	if m.Type != TypePreKey || proto.Unmarshal(m.Wire[1:], pk) != nil {
		return nil, errors.New("not an establishment message")
	}
	sb, ok := to.S.Signed[pk.GetSignedPreKeyId()]
	if !ok {
		return nil, fmt.Errorf("unknown signed prekey %d", pk.GetSignedPreKeyId())
	}
	spk := &axpb.SignedPreKeyRecordStructure{}
	if err := proto.Unmarshal(sb, spk); err != nil {
		return nil, err
	}
	theirID, base := pk.GetIdentityKey()[1:], pk.GetBaseKey()[1:]
	idPriv := to.S.Identity.PrivateKey.Key()[:]
	ms := bytes.Repeat([]byte{0xff}, 32)
	ms = append(ms, DH(spk.PrivateKey, theirID)...)
	ms = append(ms, DH(idPriv, base)...)
	ms = append(ms, DH(spk.PrivateKey, base)...)
	if pre != nil {
		p := &axpb.PreKeyRecordStructure{}
		if err := proto.Unmarshal(pre, p); err != nil {
			return nil, err
		}
		ms = append(ms, DH(p.PrivateKey, base)...)
	}
	rk := HKDF(ms, nil, []byte("WhisperText"), 64)[:32]
	w := pk.GetMessage()
	sm := &axpb.SignalMessage{}
	if len(w) < 10 || proto.Unmarshal(w[1:len(w)-8], sm) != nil {
		return nil, errors.New("bad inner message")
	}
	ck := HKDF(DH(spk.PrivateKey, sm.GetRatchetKey()[1:]), rk, []byte("WhisperRatchet"), 64)[32:]
	for i := uint32(0); i < sm.GetCounter(); i++ {
		ck = NextChain(ck)
	}
	c, mk, iv := MessageKeys(ck)
	k5 := func(k []byte) []byte { return append([]byte{5}, k...) }
	if mac := hm(mk, k5(theirID), k5(to.S.Identity.PublicKey.Key()[:]), w[:len(w)-8])[:8]; !bytes.Equal(mac, w[len(w)-8:]) {
		return nil, errors.New("MAC differs from the specified one")
	}
	ct := append([]byte{}, sm.GetCiphertext()...)
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("ciphertext length")
	}
	blk, _ := aes.NewCipher(c)
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(ct, ct)
	n := int(ct[len(ct)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("padding")
	}
	return ct[:len(ct)-n], nil
}
