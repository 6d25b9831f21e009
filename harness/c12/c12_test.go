package c12

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

var prime = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
var order, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int) []byte {
	b := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// reference decides a signature with big-integer key conversion and the standard library's Ed25519.
func reference(pub [32]byte, msg []byte, sig [64]byte) bool {
	pub[31] &= 0x7f
	u := new(big.Int).Mod(le(pub[:]), prime)
	num := new(big.Int).Mod(new(big.Int).Sub(u, big.NewInt(1)), prime)
	den := new(big.Int).Mod(new(big.Int).Add(u, big.NewInt(1)), prime)
	inv := new(big.Int)
	if den.Sign() != 0 {
		inv.ModInverse(den, prime)
	}
	a := toLE(new(big.Int).Mod(num.Mul(num, inv), prime))
	a[31] |= sig[63] & 0x80
	sig[63] &= 0x7f
	return ed25519.Verify(ed25519.PublicKey(a), msg, sig[:])
}

func pubOf(priv [32]byte) [32]byte {
	k, err := ecdh.X25519().NewPrivateKey(priv[:])
	if err != nil {
		panic(err)
	}
	var p [32]byte
	copy(p[:], k.PublicKey().Bytes())
	return p
}

func key(rd *rand.Rand, i int) [32]byte {
	var k [32]byte
	if i%3 == 0 {
		copy(k[:], axolotl.NewECKeyPair().PrivateKey.Key()[:])
		return k
	}
	switch rd.Intn(5) {
	case 0: // all zero but clamped
	case 1:
		for j := range k {
			k[j] = 0xff
		}
	case 2:
		k[rd.Intn(32)] = byte(1 << uint(rd.Intn(8)))
	default:
		rd.Read(k[:])
	}
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

// TestC12 signs and verifies, and decides altered signatures against the reference.
func TestC12(t *testing.T) {
	r := vh.Start(t, "C12", "a case is one (key, message, randomness) with its signature, verified repeatedly, and a set of altered signatures, messages and keys; oracle: standard-library Ed25519 over an independently converted key, plus input-unchanged and nonce-uniqueness monitors; distinct by key and message")
	defer r.Finish()
	nonces := map[string]string{}
	for i := 0; i < r.N(1200, 40000); i++ {
		r.SetCase("sign/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint(i))
		r.Safe("panic", "sign/verify", func() { one(r, i, nonces) })
		restore()
	}
	r.Require("sign_bit_set", 100)
	r.Require("sign_bit_clear", 100)
	r.Require("altered_rejected", 20000)
}

func one(r *vh.R, i int, nonces map[string]string) {
	rd := r.Rand("sign", i)
	priv := key(rd, i)
	pub := pubOf(priv)
	msg := vh.Plain(rd)
	var rnd [64]byte
	switch i % 4 {
	case 0: // a failing random source
	case 1:
		for j := range rnd {
			rnd[j] = 0xff
		}
	default:
		rd.Read(rnd[:])
	}
	p0, m0 := priv, append([]byte{}, msg...)
	sp := curve25519sign.Sign(&priv, msg, rnd)
	if priv != p0 || !bytes.Equal(m0, msg) {
		r.Violation("sign-modifies", "Sign modified its inputs")
	}
	sig := *sp
	if sig[63]&0x80 != 0 {
		r.Event("sign_bit_set", 1)
	} else {
		r.Event("sign_bit_clear", 1)
	}
	if !reference(pub, msg, sig) {
		r.Violation("bad-signature", "the signature of a %d byte message is not valid Ed25519 under the converted key %x", len(msg), pub)
	}
	// repeated verification, same objects
	work := sig
	for k := 0; k < 4; k++ {
		if !curve25519sign.Verify(pub, msg, &work) {
			r.Violation("own-signature", "verification %d of a correct signature failed; key %x len %d", k+1, pub, len(msg))
			break
		}
		r.Event("verified", 1)
	}
	if work != sig || !bytes.Equal(m0, msg) {
		r.Violation("verify-modifies", "Verify modified its inputs: signature %x became %x", sig, work)
	}
	// nonce uniqueness: R repeats only for the same key, message and randomness
	nk := hex.EncodeToString(sig[:32])
	id := fmt.Sprintf("%x|%x|%x", priv, msg, rnd)
	if o, ok := nonces[nk]; ok && o != id {
		r.Violation("nonce-reuse", "two different signings used the same nonce")
	}
	nonces[nk] = id
	m2 := append(append([]byte{}, msg...), 1)
	if s2 := curve25519sign.Sign(&priv, m2, rnd); bytes.Equal(s2[:32], sig[:32]) {
		r.Violation("nonce-reuse", "signing another message with the same randomness reused the nonce (the private key can be computed)")
	}
	r.Event("nonces_checked", 2)
	check := func(what string, k [32]byte, m []byte, s [64]byte) {
		in := s
		got := curve25519sign.Verify(k, m, &s)
		want := reference(k, m, in)
		if got {
			r.Violation("accepted", "accepted although %s (the reference says %v)", what, want)
		} else {
			r.Event("altered_rejected", 1)
		}
		if s != in {
			r.Violation("verify-modifies", "Verify modified a signature (%s)", what)
		}
	}
	for k := 0; k < 20; k++ {
		s := sig
		b := rd.Intn(512)
		if k == 0 {
			b = 511
		}
		s[b/8] ^= 1 << uint(b%8)
		check(fmt.Sprintf("bit %d of the signature was flipped", b), pub, msg, s)
	}
	// the other representatives of S
	for n := int64(1); n <= 15; n++ {
		S := le(append([]byte{}, append(append([]byte{}, sig[32:63]...), sig[63]&0x7f)...))
		S.Add(S, new(big.Int).Mul(order, big.NewInt(n)))
		if S.BitLen() > 255 {
			break
		}
		s := sig
		copy(s[32:], toLE(S))
		s[63] |= sig[63] & 0x80
		check(fmt.Sprintf("%d times the group order was added to S", n), pub, msg, s)
		r.Event("malleability_tried", 1)
	}
	for k := 0; k < 3; k++ {
		m, what := vh.Mutate(rd, msg)
		check("the message was altered: "+what, pub, m, sig)
	}
	if o := pubOf(key(rd, 1+i)); o != pub {
		check("another key", o, msg, sig)
	}
	kb := pub
	j := rd.Intn(255)
	kb[j/8] ^= 1 << uint(j%8)
	check(fmt.Sprintf("bit %d of the public key was flipped", j), kb, msg, sig)
	check("zero signature", pub, msg, [64]byte{})
	var s [64]byte
	rd.Read(s[:])
	check("random signature", pub, msg, s)
	s = sig
	copy(s[:32], sig[32:])
	check("halves mixed", pub, msg, s)
	r.Eval(fmt.Sprintf("%x %x", priv, msg))
	if i < 2 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("sign/%d", i), "message_len": len(msg), "signature": hex.EncodeToString(sig[:])})
	}
}
