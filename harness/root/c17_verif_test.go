package textsecure

import (
	"bytes"
	crand "crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// hostileRand answers short reads (numbers) mostly with chosen values and everything else from a generator.
type hostileRand struct {
	base  io.Reader
	rd    *rand.Rand
	p     int // in 10
	used  []uint32
	short int
}

func (h *hostileRand) Read(p []byte) (int, error) {
	if len(p) != 4 || h.rd.Intn(10) >= h.p {
		return h.base.Read(p)
	}
	h.short++
	vals := []uint32{0, 1, 0xFFFFFF, 0xFFFFFE, 0xFFFFFF - 50, 0xFFFFFF - 99, 0xFFFFFF - 100, 0xFFFFFF - 101, 0xFFFFFF + 1, 0xFFFFFFFF, 0x80000000, 0x7fffffff, 0xFF000000, 0xFFFFFE00, 0x01FFFFFF,
		0xFFFFFF - uint32(h.rd.Intn(300)), uint32(h.rd.Intn(20)), h.rd.Uint32(), h.rd.Uint32() | 0xFFFF00, 0xFFFFFF - 2, 9999999, 10000000 - 50, 999990}
	v := vals[h.rd.Intn(len(vals))]
	h.used = append(h.used, v)
	binary.BigEndian.PutUint32(p, v)
	return len(p), nil
}

type upKey struct {
	KeyID     *uint32 `json:"keyId"`
	PublicKey string  `json:"publicKey"`
	Signature string  `json:"signature"`
}
type upload struct {
	IdentityKey   string  `json:"identityKey"`
	PreKeys       []upKey `json:"preKeys"`
	LastResortKey *upKey  `json:"lastResortKey"`
	SignedPreKey  *upKey  `json:"signedPreKey"`
}

func unb64(s string) ([]byte, error) {
	return base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
}

func pub33(s string) ([]byte, error) {
	b, err := unb64(s)
	if err != nil {
		return nil, err
	}
	if len(b) != 33 || b[0] != 5 {
		return nil, fmt.Errorf("%d bytes starting with %x", len(b), b[:1])
	}
	return b[1:], nil
}

func TestVerifC17(t *testing.T) {
	r := vh.Start(t, "C17", "seeded installations: prekeys generated, stored and uploaded to a simulated server under a random source that answers with boundary numbers (0, 2^24-1 and around it, multiples of 2^24), with leftovers of earlier registrations and with failing storage; everything uploaded is checked against the store and used by peers to start sessions")
	defer r.Finish()
	n := r.N(40, 700)
	for i := 0; i < n && !r.Failed(); i++ {
		c17case(r, i)
	}
	r.Require("uploads", n/2)
	r.Require("sessions started from uploaded keys", n*2)
	r.Require("hostile numbers", n)
	r.Require("storage faults refused", 3)
}

func c17case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	d, undo := r.UseDRBG(fmt.Sprint("drbg", i))
	defer undo()
	h := &hostileRand{base: d, rd: rd, p: []int{0, 5, 9, 9}[rd.Intn(4)]}
	crand.Reader = h
	r.SetCase("case=%d", i)
	dir, done := mustDir()
	defer done()
	setupGlobals(dir)
	st, err := newStore([]string{"", "pw"}[rd.Intn(2)], dir)
	if err != nil {
		panic(err)
	}
	textSecureStore = st
	identityKey = axolotl.GenerateIdentityKeyPair()
	if err := st.SetIdentityKeyPair(identityKey); err != nil {
		panic(err)
	}
	st.SetLocalRegistrationID(uint32(1 + rd.Intn(16380)))
	status := 200
	sm := newSim(func(q sreq) sresp { return sresp{Status: status, Body: []byte("{}")} })
	defer sm.Close()
	sm.connect()
	rounds := []int{1, 1, 1, 2, 3}[rd.Intn(5)]
	fault := rd.Intn(6) == 0
	register := func() (err error) {
		if err = generatePreKeys(); err != nil {
			return fmt.Errorf("generate: %v", err)
		}
		if err = generatePreKeyState(); err != nil {
			return fmt.Errorf("state: %v", err)
		}
		return registerPreKeys()
	}
	for k := 0; k < rounds; k++ {
		r.SetCase("case=%d round=%d numbers=%x", i, k, h.used)
		if fault && k == rounds-1 {
			// a store that cannot keep (some of) the keys
			which := rd.Intn(3)
			switch which {
			case 0:
				os.RemoveAll(st.signedPreKeysDir)
				os.WriteFile(st.signedPreKeysDir, []byte("x"), 0600)
			case 1:
				os.RemoveAll(st.preKeysDir)
				os.WriteFile(st.preKeysDir, []byte("x"), 0600)
			case 2: // a leftover file that is no prekey
				os.WriteFile(st.preKeysFilePath(uint32(1+rd.Intn(0xfffffe))), vh.Bytes(rd, rd.Intn(80)), 0600)
			}
			var err error
			if !r.Safe("panic", "registering prekeys with failing storage", func() { err = register() }) {
				return
			}
			qs := sm.take()
			r.Eval(fmt.Sprint("fault", which, k, len(qs)))
			if err == nil && len(qs) == 1 {
				// it may go on only with keys that it has
				c17check(r, i, k, st, qs[0].Body, rd, h)
				r.Event("storage faults worked around", 1)
			} else if err == nil {
				r.Violation("no-upload", "registering reported success without uploading anything")
			} else if len(qs) > 0 {
				c17check(r, i, k, st, qs[len(qs)-1].Body, rd, h)
			} else {
				r.Event("storage faults refused", 1)
			}
			return
		}
		var err error
		if !r.Safe("panic", "registering prekeys", func() { err = register() }) {
			return
		}
		if err != nil {
			r.Violation("refused", "registering prekeys failed: %v", err)
			return
		}
		qs := sm.take()
		if len(qs) != 1 || qs[0].Method != "PUT" || strings.TrimRight(qs[0].Path, "/") != "/v2/keys" {
			r.Violation("request", "one PUT of the keys expected, the server saw %d requests", len(qs))
			return
		}
		c17check(r, i, k, st, qs[0].Body, rd, h)
		if rd.Intn(2) == 0 { // restart
			if st, err = newStore(st0password(st), dir); err == nil {
				textSecureStore = st
				identityKey, _ = st.GetIdentityKeyPair()
			}
		}
	}
	r.Event("hostile numbers", h.short)
}

func st0password(s *store) string {
	if s.unencrypted {
		return ""
	}
	return "pw"
}

func c17check(r *vh.R, i, k int, st *store, body []byte, rd *rand.Rand, h *hostileRand) {
	var u upload
	if err := json.Unmarshal(body, &u); err != nil {
		r.Violation("json", "the upload is no JSON object: %v", err)
		return
	}
	r.Event("uploads", 1)
	ik, err := pub33(u.IdentityKey)
	if err != nil || !bytes.Equal(ik, identityKey.PublicKey.Key()[:]) {
		r.Violation("identity", "uploaded identity key is not ours: %v %q", err, u.IdentityKey)
		return
	}
	if u.SignedPreKey == nil || u.LastResortKey == nil || u.SignedPreKey.KeyID == nil || u.LastResortKey.KeyID == nil {
		r.Violation("incomplete", "the upload has no signed prekey or last-resort key: %.300s", body)
		return
	}
	if len(u.PreKeys) < 100 {
		r.Violation("few", "only %d one-time prekeys uploaded", len(u.PreKeys))
	}
	if *u.LastResortKey.KeyID != 0xFFFFFF {
		r.Violation("last-resort", "the last-resort key has id %d, not the reserved %d", *u.LastResortKey.KeyID, 0xFFFFFF)
	}
	if id := *u.SignedPreKey.KeyID; id == 0 || id > 0xFFFFFF {
		r.Violation("range", "signed prekey id %d", id)
	}
	ids, pubs := map[uint32]bool{}, map[string]bool{}
	for n, p := range u.PreKeys {
		if p.KeyID == nil || *p.KeyID == 0 || *p.KeyID >= 0xFFFFFF {
			id := uint32(0)
			if p.KeyID != nil {
				id = *p.KeyID
			}
			r.Violation("range", "one-time prekey %d of %d has id %d", n, len(u.PreKeys), id)
			return
		}
		if ids[*p.KeyID] {
			r.Violation("duplicate", "id %d is uploaded twice", *p.KeyID)
		}
		ids[*p.KeyID] = true
		if pubs[p.PublicKey] {
			r.Violation("reuse", "the same key is uploaded under two ids")
		}
		pubs[p.PublicKey] = true
	}
	if pubs[u.LastResortKey.PublicKey] || pubs[u.SignedPreKey.PublicKey] {
		r.Violation("reuse", "the same key is uploaded in two places")
	}
	// the store has the private parts
	for _, p := range append(append([]upKey{}, u.PreKeys...), *u.LastResortKey) {
		pub, err := pub33(p.PublicKey)
		if err != nil {
			r.Violation("encoding", "public key of prekey %d: %v", *p.KeyID, err)
			return
		}
		rec, err := st.LoadPreKey(*p.KeyID)
		if err != nil {
			r.Violation("not-stored", "uploaded prekey %d is not in the store: %v", *p.KeyID, err)
			return
		}
		if rec.Pkrs.GetId() != *p.KeyID || !bytes.Equal(rec.Pkrs.PublicKey, pub) || !bytes.Equal(axh.DH(rec.Pkrs.PrivateKey, basePoint()), pub) {
			r.Violation("wrong-stored", "the stored prekey %d is not the private part of the uploaded one", *p.KeyID)
		}
		r.Event("prekeys checked against the store", 1)
	}
	sid := *u.SignedPreKey.KeyID
	spub, err := pub33(u.SignedPreKey.PublicKey)
	if err != nil {
		r.Violation("encoding", "signed prekey: %v", err)
		return
	}
	srec, err := st.LoadSignedPreKey(sid)
	if err != nil {
		r.Violation("not-stored", "the uploaded signed prekey %d is not in the store: %v", sid, err)
		return
	}
	if !bytes.Equal(srec.Spkrs.PublicKey, spub) || !bytes.Equal(axh.DH(srec.Spkrs.PrivateKey, basePoint()), spub) {
		r.Violation("wrong-stored", "the stored signed prekey %d is not the private part of the uploaded one", sid)
	}
	sig, err := unb64(u.SignedPreKey.Signature)
	if err != nil || len(sig) != 64 {
		r.Violation("signature", "signature of %d bytes (%v)", len(sig), err)
		return
	}
	// peers start sessions with some of the keys (in some cases with all of them)
	use := []int{-1, 0, len(u.PreKeys) - 1, rd.Intn(len(u.PreKeys)), rd.Intn(len(u.PreKeys)), -1}
	if i%8 == 0 && k == 0 {
		for n := range u.PreKeys {
			use = append(use, n)
		}
	}
	use = append(use, -2)
	used := map[int]bool{}
	for _, n := range use {
		if n >= 0 && used[n] {
			continue
		}
		used[n] = true
		peer := axh.NewParty(uuidOf(rd), uint32(1+rd.Intn(5)), rd)
		regid, _ := st.GetLocalRegistrationID()
		var pk *axolotl.ECPublicKey
		id := uint32(0)
		switch {
		case n >= 0:
			id = *u.PreKeys[n].KeyID
			b, _ := pub33(u.PreKeys[n].PublicKey)
			pk = axolotl.NewECPublicKey(b)
		case n == -1:
			id = *u.LastResortKey.KeyID
			b, _ := pub33(u.LastResortKey.PublicKey)
			pk = axolotl.NewECPublicKey(b)
		}
		b, err := axolotl.NewPreKeyBundle(regid, 1, id, pk, int32(sid), axolotl.NewECPublicKey(spub), sig, axolotl.NewIdentityKey(ik))
		if err != nil {
			r.Violation("bundle", "%v", err)
			return
		}
		me := axh.NewParty(simUUID, 1, rd)
		if err := peer.Builder(me).BuildSenderSession(b); err != nil {
			r.Violation("unusable", "a peer cannot start a session from the uploaded key %d: %v", id, err)
			return
		}
		plain := vh.Plain(rd)
		m, err := peer.Encrypt(me, plain)
		if err != nil {
			r.Violation("unusable", "encrypting to the uploaded key %d: %v", id, err)
			return
		}
		c := axolotl.NewSessionCipher(st, st, st, st, peer.Name, peer.Dev)
		got, err := me.DecryptWith(c, m.Type, m.Wire)
		if err != nil || !bytes.Equal(got, plain) {
			r.Violation("unusable", "the first message to the uploaded key %d is not decrypted: %v", id, err)
			return
		}
		r.Event("sessions started from uploaded keys", 1)
	}
	r.Eval(fmt.Sprintf("%x %d", h.used, len(u.PreKeys)))
	r.Sample(map[string]interface{}{"case": i, "round": k, "numbers": fmt.Sprintf("%x", h.used), "prekeys": len(u.PreKeys), "first": *u.PreKeys[0].KeyID, "signed": sid})
}

func basePoint() []byte {
	b := make([]byte, 32)
	b[0] = 9
	return b
}
