package c28

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/crypto"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func slack(b []byte) (in, whole []byte) {
	whole = append(append([]byte{}, b...), bytes.Repeat([]byte{0xA5}, 48)...)
	return whole[:len(b):len(whole)], append([]byte{}, whole...)
}

func TestC28(t *testing.T) {
	r := vh.Start(t, "C28", "AES-CBC, truncated MACs and AES-GCM of the exported helper packages compared with the standard library on every length 0..300 and on malformed keys, nonces, tags and ciphertexts, with guard bytes behind every argument")
	defer r.Finish()
	n := r.N(6, 120)
	for round := 0; round < n; round++ {
		for l := 0; l <= 300; l++ {
			rd := r.Rand("len", round*1000+l)
			r.SetCase("round %d length %d", round, l)
			m := vh.Bytes(rd, l)
			// axolotl AES-CBC
			key, iv := vh.Bytes(rd, 32), vh.Bytes(rd, 16)
			in, whole := slack(m)
			iin, iwhole := slack(iv)
			kin, kwhole := slack(key)
			var c, d []byte
			var err, err2 error
			if r.Safe("crash", "axolotl.Encrypt", func() { c, err = axolotl.Encrypt(kin, iin, in) }) {
				if err != nil {
					r.Violation("cbc", "axolotl.Encrypt of %d bytes: %v", l, err)
				} else {
					full := append(append([]byte{}, iv...), c...)
					fin, fwhole := slack(full)
					if r.Safe("crash", "axolotl.Decrypt", func() { d, err2 = axolotl.Decrypt(kin, fin) }) && (err2 != nil || !bytes.Equal(d, m)) {
						r.Violation("cbc-inverse", "axolotl.Decrypt(Encrypt(%d bytes)): %v equal=%v", l, err2, bytes.Equal(d, m))
					}
					blk, _ := aes.NewCipher(key)
					pad := 16 - l%16
					want := append(append([]byte{}, m...), bytes.Repeat([]byte{byte(pad)}, pad)...)
					cipher.NewCBCEncrypter(blk, iv).CryptBlocks(want, want)
					if !bytes.Equal(want, c) {
						r.Violation("cbc-reference", "axolotl.Encrypt is not AES-CBC with PKCS#7 padding")
					}
					if !bytes.Equal(fin[:len(fwhole)], fwhole) {
						r.Violation("modified", "axolotl.Decrypt wrote to the caller's memory")
					}
				}
			}
			if !bytes.Equal(in[:len(whole)], whole) || !bytes.Equal(iin[:len(iwhole)], iwhole) || !bytes.Equal(kin[:len(kwhole)], kwhole) {
				r.Violation("modified", "axolotl.Encrypt wrote to the caller's memory (%d bytes of plaintext)", l)
			}
			badKey := vh.Bytes(rd, []int{0, 1, 8, 15, 17, 31, 33, 64}[rd.Intn(8)])
			r.Safe("crash", "axolotl.Encrypt with bad sizes", func() {
				if c, err := axolotl.Encrypt(badKey, iv, append([]byte{}, m...)); err == nil || len(c) > 0 {
					r.Violation("bad-key", "axolotl.Encrypt accepts a %d byte key", len(badKey))
				}
				bi := vh.Bytes(rd, []int{0, 1, 12, 15, 17, 32}[rd.Intn(6)])
				if c, err := axolotl.Encrypt(key, bi, append([]byte{}, m...)); err == nil || len(c) > 0 {
					r.Violation("bad-key", "axolotl.Encrypt accepts a %d byte IV", len(bi))
				}
				if d, err := axolotl.Decrypt(badKey, append([]byte{}, m...)); err == nil || len(d) > 0 {
					r.Violation("bad-key", "axolotl.Decrypt accepts a %d byte key", len(badKey))
				}
			})
			// arbitrary ciphertexts, judged by a reference
			ct := vh.Bytes(rd, l)
			if rd.Intn(2) == 0 && err == nil {
				ct, _ = vh.Mutate(rd, append(append([]byte{}, iv...), c...))
			}
			r.Safe("crash", fmt.Sprintf("axolotl.Decrypt of %d bytes", len(ct)), func() {
				d, e := axolotl.Decrypt(key, append([]byte{}, ct...))
				want, ok := ref(key, ct)
				if ok != (e == nil) || ok && !bytes.Equal(want, d) {
					r.Violation("cbc-malformed", "axolotl.Decrypt of %d bytes: error %v, well-formed %v", len(ct), e, ok)
				}
				if e != nil {
					r.Event("rejected", 1)
				}
			})
			// truncated MACs
			h := hmac.New(sha256.New, key)
			h.Write(m)
			full := h.Sum(nil)
			sz := 1 + rd.Intn(32)
			r.Safe("crash", "ValidTruncMAC", func() {
				if got := axolotl.ComputeTruncatedMAC(in, key, sz); !bytes.Equal(got, full[:sz]) {
					r.Violation("mac", "the truncated MAC is not a prefix of HMAC-SHA256")
				}
				if !axolotl.ValidTruncMAC(in, full[:sz], key) {
					r.Violation("mac", "a right MAC is refused")
				}
				bad := append([]byte{}, full[:sz]...)
				bad[rd.Intn(sz)] ^= 1 << uint(rd.Intn(8))
				if axolotl.ValidTruncMAC(in, bad, key) {
					r.Violation("mac-accepts", "an altered MAC is accepted")
				}
			})
			r.Event("macs", 1)

			// AES-GCM
			gk := vh.Bytes(rd, []int{16, 32}[rd.Intn(2)])
			nonce := vh.Bytes(rd, 12)
			in, whole = slack(m)
			var g []byte
			if !r.Safe("crash", "AesgcmEncrypt", func() { g, err = crypto.AesgcmEncrypt(gk, nonce, in) }) {
				continue
			}
			blk, _ := aes.NewCipher(gk)
			a, _ := cipher.NewGCM(blk)
			if err != nil || !bytes.Equal(g, a.Seal(nil, nonce, m, nil)) {
				r.Violation("gcm-reference", "AesgcmEncrypt differs from AES-GCM: %v", err)
				continue
			}
			if !bytes.Equal(in[:len(whole)], whole) {
				r.Violation("modified", "AesgcmEncrypt wrote to the caller's memory")
			}
			cut := len(g) - 16
			if rd.Intn(3) == 0 {
				cut = len(g)
			}
			data, dwhole := slack(g[:cut])
			tag, twhole := slack(g[cut:])
			var p []byte
			if r.Safe("crash", "AesgcmDecrypt", func() { p, err = crypto.AesgcmDecrypt(gk, nonce, data, tag) }) && (err != nil || !bytes.Equal(p, m)) {
				r.Violation("gcm-inverse", "AesgcmDecrypt(AesgcmEncrypt): %v", err)
			}
			if !bytes.Equal(data[:len(dwhole)], dwhole) || !bytes.Equal(tag[:len(twhole)], twhole) {
				r.Violation("modified", "AesgcmDecrypt wrote to the caller's memory")
			}
			r.Event("gcm", 1)
			for k := 0; k < 6; k++ {
				key2, nonce2, d2, t2 := gk, nonce, append([]byte{}, g[:cut]...), append([]byte{}, g[cut:]...)
				what := ""
				switch k {
				case 0:
					x := append([]byte{}, g...)
					x[rd.Intn(len(x))] ^= 1 << uint(rd.Intn(8))
					d2, t2, what = x[:cut], x[cut:], "a flipped bit"
				case 1:
					x := g[:rd.Intn(len(g))]
					d2, t2, what = x, nil, "truncation"
				case 2:
					nonce2, what = vh.Bytes(rd, []int{0, 1, 8, 11, 13, 16, 32}[rd.Intn(7)]), "a nonce of the wrong length"
				case 3:
					nonce2, what = vh.Bytes(rd, 12), "another nonce"
				case 4:
					key2, what = vh.Bytes(rd, len(gk)), "another key"
				case 5:
					key2, what = vh.Bytes(rd, []int{0, 1, 15, 17, 31, 33}[rd.Intn(6)]), "a key of the wrong length"
				}
				r.Safe("crash", "AesgcmDecrypt with "+what, func() {
					if p, err := crypto.AesgcmDecrypt(key2, nonce2, d2, t2); err == nil || len(p) > 0 {
						r.Violation("gcm-accepts", "AesgcmDecrypt accepts %s (%d bytes)", what, l)
					}
					r.Event("rejected", 1)
				})
				if k == 2 || k == 5 {
					r.Safe("crash", "AesgcmEncrypt with "+what, func() {
						if c, err := crypto.AesgcmEncrypt(key2, nonce2, append([]byte{}, m...)); err == nil || len(c) > 0 {
							r.Violation("gcm-accepts", "AesgcmEncrypt accepts %s", what)
						}
					})
				}
			}
			r.Eval(fmt.Sprintf("%d|%d", round, l))
		}
	}
	r.Require("rejected", 1000)
}

func ref(key, b []byte) ([]byte, bool) {
	blk, err := aes.NewCipher(key)
	if err != nil || len(b) < 32 || len(b)%16 != 0 {
		return nil, false
	}
	p := make([]byte, len(b)-16)
	cipher.NewCBCDecrypter(blk, b[:16]).CryptBlocks(p, b[16:])
	n := int(p[len(p)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, x := range p[len(p)-n:] {
		if int(x) != n {
			return nil, false
		}
	}
	return p[:len(p)-n], true
}
