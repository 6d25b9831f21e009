package c04

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

const limit = 40 * time.Second // a call normally takes a few milliseconds

// watched runs one call of the code under test with the panic and the time monitor.
func watched(r *vh.R, key, what string, in []byte, f func() error) {
	done := make(chan struct{})
	var pan string
	var err error
	t0 := time.Now()
	go func() {
		pan = vh.Try(func() { err = f() })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(limit):
		r.Violation(key+"-time", "%s did not return within %v; input %x", what, limit, clip(in))
		return
	}
	if pan != "" {
		r.Violation(key, "%s panicked: %s; input %x", what, pan, clip(in))
		return
	}
	if d := time.Since(t0); d > time.Second {
		r.Event("slower_than_1s", 1)
	}
	r.Event(key+"_calls", 1)
	if err == nil {
		r.Event(key+"_accepted", 1)
	}
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func weirdKey(rd *rand.Rand) []byte {
	n := []int{0, 1, 2, 31, 32, 33, 33, 33, 33, 34, 64, 200}[rd.Intn(12)]
	b := vh.Bytes(rd, n)
	if n > 0 && rd.Intn(3) > 0 {
		b[0] = 5
	}
	if rd.Intn(6) == 0 {
		for i := 1; i < n; i++ {
			b[i] = 0
		}
	}
	if rd.Intn(8) == 0 {
		return nil
	}
	return b
}

func weirdU32(rd *rand.Rand) *uint32 {
	if rd.Intn(8) == 0 {
		return nil
	}
	v := []uint32{0, 1, 2, 1999, 2000, 2001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xffffff, 0x1000000, rd.Uint32()}[rd.Intn(13)]
	return &v
}

func weirdCT(rd *rand.Rand) []byte {
	if rd.Intn(8) == 0 {
		return nil
	}
	return vh.Bytes(rd, []int{0, 1, 15, 16, 17, 31, 32, 48, 64, 160}[rd.Intn(10)])
}

func tail(rd *rand.Rand, b []byte) []byte {
	switch rd.Intn(5) {
	case 0:
		return b
	case 1:
		return append(b, vh.Bytes(rd, rd.Intn(8))...)
	}
	return append(b, vh.Bytes(rd, 8)...)
}

func version(rd *rand.Rand) byte {
	if rd.Intn(5) == 0 {
		return byte(rd.Intn(256))
	}
	return 0x33
}

// whisper makes a hostile ordinary message.
func whisper(rd *rand.Rand) []byte {
	switch rd.Intn(10) {
	case 0:
		return vh.Bytes(rd, rd.Intn(12))
	case 1:
		return append([]byte{0x33}, vh.Bytes(rd, rd.Intn(80))...)
	case 2:
		return []byte{}
	}
	b, err := proto.Marshal(&axpb.SignalMessage{RatchetKey: weirdKey(rd), Counter: weirdU32(rd), PreviousCounter: weirdU32(rd), Ciphertext: weirdCT(rd)})
	if err != nil {
		return []byte{0x33}
	}
	w := tail(rd, append([]byte{version(rd)}, b...))
	if rd.Intn(4) == 0 {
		w, _ = vh.Mutate(rd, w)
	}
	return w
}

// prekey makes a hostile establishment message, half of them naming the receiver's real prekeys.
func prekey(rd *rand.Rand, to, from *axh.Party, inner []byte) []byte {
	switch rd.Intn(12) {
	case 0:
		return vh.Bytes(rd, rd.Intn(6))
	case 1:
		return append([]byte{0x33}, vh.Bytes(rd, rd.Intn(100))...)
	}
	m := &axpb.PreKeySignalMessage{RegistrationId: weirdU32(rd), PreKeyId: weirdU32(rd), SignedPreKeyId: weirdU32(rd), BaseKey: weirdKey(rd), IdentityKey: weirdKey(rd), Message: inner}
	if rd.Intn(2) == 0 {
		m.IdentityKey = from.S.Identity.PublicKey.Serialize()
	}
	if rd.Intn(2) == 0 {
		id := to.SignID
		m.SignedPreKeyId = &id
	}
	if rd.Intn(3) == 0 {
		for id := range to.S.Pre {
			id := id
			if m.PreKeyId == nil || id > *m.PreKeyId {
				m.PreKeyId = &id
			}
		}
	}
	if rd.Intn(10) == 0 {
		m.Message = nil
	}
	b, err := proto.Marshal(m)
	if err != nil {
		return []byte{0x33}
	}
	w := append([]byte{version(rd)}, b...)
	if rd.Intn(5) == 0 {
		w, _ = vh.Mutate(rd, w)
	}
	return w
}

// TestC04 throws hostile bytes at every loader and decrypt entry.
func TestC04(t *testing.T) {
	r := vh.Start(t, "C04", "a case is one receiver state (no session, pending, established, several sessions) with a batch of hostile inputs: random bytes, hostile protobuf fields, mutated genuine messages, and correctly authenticated messages of a malicious peer with hostile contents; distinct by the inputs, non-trivial if at least one input got past loading")
	defer r.Finish()
	for i := 0; i < r.N(1200, 30000); i++ {
		r.SetCase("state/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint("s", i))
		func() {
			defer restore()
			r.Safe("harness", "case", func() { oneState(r, i) })
		}()
	}
	for i := 0; i < r.N(4000, 200000); i++ {
		r.SetCase("records/%d", i)
		records(r, i)
	}
	r.Require("authenticated_hostile", 500)
	r.Require("decrypt_calls", 5000)
	r.Require("load_calls", 5000)
	r.Require("record_calls", 4000)
}

func oneState(r *vh.R, i int) {
	rd := r.Rand("state", i)
	a, b := axh.NewParty("alice", 1, rd), axh.NewParty("bob", 1, rd)
	est := func(x, y *axh.Party) {
		if err := x.Builder(y).BuildSenderSession(y.Bundle(axh.PreKind(rd.Intn(3)))); err != nil {
			r.Violation("setup", "valid bundle refused: %v", err)
		}
	}
	var gen []*axh.Msg
	send := func(x, y *axh.Party, deliver bool) {
		m, err := x.Encrypt(y, vh.Plain(rd))
		if err != nil {
			r.Violation("setup", "cannot encrypt: %v", err)
			return
		}
		gen = append(gen, m)
		if deliver {
			y.Decrypt(x, m.Type, m.Wire)
		}
	}
	kind := i % 6
	switch kind {
	case 0: // b has no session
		b.Bundle(axh.OneTime)
		est(a, b)
		send(a, b, false)
	case 1: // b pending towards a
		est(b, a)
		est(a, b)
		send(b, a, false)
		send(a, b, false)
	case 2:
		est(a, b)
		send(a, b, true)
	case 3:
		est(a, b)
		send(a, b, true)
		send(b, a, true)
		send(a, b, true)
	case 4:
		est(a, b)
		send(a, b, true)
		est(b, a)
		send(b, a, true)
		send(a, b, rd.Intn(2) == 0)
	case 5:
		est(a, b)
		send(a, b, true)
		for k := rd.Intn(5); k >= 0; k-- {
			est(b, a)
		}
		send(b, a, rd.Intn(2) == 0)
		send(a, b, true)
	}
	past := false
	var log []byte
	try := func(typ int32, wire []byte) {
		log = append(log, wire...)
		in := append([]byte{}, wire...)
		if typ == axh.TypePreKey {
			var m *axolotl.PreKeyWhisperMessage
			watched(r, "load", "LoadPreKeyWhisperMessage", wire, func() (err error) { m, err = axolotl.LoadPreKeyWhisperMessage(in); return })
			if m == nil {
				return
			}
			past = true
			watched(r, "decrypt", "SessionDecryptPreKeyWhisperMessage", wire, func() error { _, err := b.Cipher(a).SessionDecryptPreKeyWhisperMessage(m); return err })
			if m.Message != nil {
				watched(r, "decrypt", "SessionDecryptWhisperMessage(inner)", wire, func() error { _, err := b.Cipher(a).SessionDecryptWhisperMessage(m.Message); return err })
			}
			return
		}
		var m *axolotl.WhisperMessage
		watched(r, "load", "LoadWhisperMessage", wire, func() (err error) { m, err = axolotl.LoadWhisperMessage(in); return })
		if m == nil {
			return
		}
		past = true
		watched(r, "decrypt", "SessionDecryptWhisperMessage", wire, func() error { _, err := b.Cipher(a).SessionDecryptWhisperMessage(m); return err })
	}
	n := 12 + rd.Intn(10)
	for k := 0; k < n; k++ {
		switch rd.Intn(6) {
		case 0:
			try(axh.TypeCiphertext, whisper(rd))
		case 1:
			in := whisper(rd)
			if rd.Intn(2) == 0 && len(gen) > 0 {
				in = gen[rd.Intn(len(gen))].Wire
			}
			try(axh.TypePreKey, prekey(rd, b, a, in))
		case 2:
			m := gen[rd.Intn(len(gen))]
			w, _ := vh.Mutate(rd, m.Wire)
			try([]int32{m.Type, m.Type, axh.TypeCiphertext, axh.TypePreKey}[rd.Intn(4)], w)
		case 3:
			m := gen[rd.Intn(len(gen))]
			if rd.Intn(2) == 0 {
				try(axh.TypeCiphertext+axh.TypePreKey-m.Type, m.Wire)
			} else {
				try(m.Type, m.Wire[:rd.Intn(len(m.Wire)+1)])
			}
		case 4, 5: // malicious peer with valid keys
			f := axh.ForgeSpec{}
			switch rd.Intn(7) {
			case 0:
				f.Ciphertext = []byte{}
			case 1:
				f.Ciphertext = vh.Bytes(rd, []int{1, 15, 17, 31, 33}[rd.Intn(5)])
			case 2:
				f.Ciphertext = vh.Bytes(rd, 16*(1+rd.Intn(4)))
			case 3: // every kind of final padding byte
				f.Ciphertext = badPad(a, b, rd)
			case 4:
				f.Plain, f.Counter = []byte("x"), weirdU32(rd)
			case 5:
				f.Plain, f.Ratchet = []byte("x"), weirdKey(rd)
			case 6:
				f.Plain, f.Version = []byte("x"), version(rd)
			}
			if w, typ := a.Forge(b, f); w != nil {
				r.Event("authenticated_hostile", 1)
				try(typ, w)
				if rd.Intn(3) == 0 {
					// advance the attacker's chain so that later forgeries are not replays
					a.Encrypt(b, []byte("skip"))
				}
			}
		}
	}
	// sending still must not crash
	watched(r, "encrypt", "SessionEncryptMessage", nil, func() error { _, _, err := b.Cipher(a).SessionEncryptMessage([]byte("hello")); return err })
	watched(r, "encrypt", "GetRemoteRegistrationID", nil, func() error { _, err := b.Cipher(a).GetRemoteRegistrationID(); return err })
	if rs := b.S.Record("alice", 1); rs != nil && len(rs.GetCurrentSession().GetReceiverChains()) > 5 {
		r.Violation("bound", "%d receiving chains kept", len(rs.CurrentSession.ReceiverChains))
	}
	key := ""
	if past {
		key = string(log)
	}
	r.Eval(key)
	if i < 3 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("state/%d", i), "receiver_state": kind, "inputs": n})
	}
}

// badPad encrypts blocks whose decryption ends in a hostile padding byte.
func badPad(a, b *axh.Party, rd *rand.Rand) []byte {
	rs := a.S.Record(b.Name, b.Dev)
	if rs == nil || rs.GetCurrentSession().GetSenderChain() == nil {
		return []byte{}
	}
	ck, _, iv := axh.MessageKeys(rs.CurrentSession.SenderChain.ChainKey.Key)
	p := vh.Bytes(rd, 16*(1+rd.Intn(3)))
	p[len(p)-1] = []byte{0, 1, 2, 15, 16, 17, 32, 33, 255}[rd.Intn(9)]
	if rd.Intn(3) == 0 {
		p = bytes.Repeat(p[len(p)-1:], len(p))
	}
	blk, _ := aes.NewCipher(ck)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	return p
}

func records(r *vh.R, i int) {
	rd := r.Rand("records", i)
	var in []byte
	switch i % 4 {
	case 0:
		in = vh.Bytes(rd, rd.Intn(200))
	case 1:
		rec := &axpb.RecordStructure{}
		mk := func() *axpb.SessionStructure {
			ch := func() *axpb.SessionStructure_Chain {
				return &axpb.SessionStructure_Chain{SenderRatchetKey: weirdKey(rd), SenderRatchetKeyPrivate: weirdKey(rd), ChainKey: &axpb.SessionStructure_Chain_ChainKey{Index: rd.Uint32(), Key: weirdKey(rd)}}
			}
			return &axpb.SessionStructure{SessionVersion: rd.Uint32(), LocalIdentityPublic: weirdKey(rd), RemoteIdentityPublic: weirdKey(rd), RootKey: weirdKey(rd), SenderChain: ch(), ReceiverChains: []*axpb.SessionStructure_Chain{ch(), ch()}}
		}
		if rd.Intn(3) > 0 {
			rec.CurrentSession = mk()
		}
		for k := rd.Intn(3); k > 0; k-- {
			rec.PreviousSessions = append(rec.PreviousSessions, mk())
		}
		in, _ = proto.Marshal(rec)
		if rd.Intn(2) == 0 && len(in) > 0 {
			in, _ = vh.Mutate(rd, in)
		}
	case 2:
		in, _ = proto.Marshal(&axpb.PreKeyRecordStructure{Id: rd.Uint32(), PublicKey: weirdKey(rd), PrivateKey: weirdKey(rd)})
		if rd.Intn(2) == 0 && len(in) > 0 {
			in, _ = vh.Mutate(rd, in)
		}
	case 3:
		in, _ = proto.Marshal(&axpb.SignedPreKeyRecordStructure{Id: rd.Uint32(), PublicKey: weirdKey(rd), PrivateKey: weirdKey(rd), Signature: vh.Bytes(rd, rd.Intn(80)), Timestamp: rd.Uint64()})
		if rd.Intn(2) == 0 && len(in) > 0 {
			in, _ = vh.Mutate(rd, in)
		}
	}
	watched(r, "record", "LoadSessionRecord", in, func() error {
		x, err := axolotl.LoadSessionRecord(append([]byte{}, in...))
		if err == nil {
			_, err = x.Serialize()
		}
		return err
	})
	watched(r, "record", "LoadPreKeyRecord", in, func() error {
		x, err := axolotl.LoadPreKeyRecord(append([]byte{}, in...))
		if err == nil {
			_, err = x.Serialize()
		}
		return err
	})
	watched(r, "record", "LoadSignedPreKeyRecord", in, func() error {
		x, err := axolotl.LoadSignedPreKeyRecord(append([]byte{}, in...))
		if err == nil {
			_, err = x.Serialize()
		}
		return err
	})
	r.Eval("rec" + string(in))
}
