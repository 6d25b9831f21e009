package textsecure

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/verifharness/vh"
)

// refCBC decrypts iv||ciphertext with PKCS#7 padding, independently of the code under test.
func refCBC(key, b []byte) ([]byte, bool) {
	blk, err := aes.NewCipher(key)
	if err != nil || len(b) < 32 || len(b)%16 != 0 {
		return nil, false
	}
	p := make([]byte, len(b)-16)
	cipher.NewCBCDecrypter(blk, b[:16]).CryptBlocks(p, b[16:])
	n := int(p[len(p)-1])
	if n < 1 || n > 16 || n > len(p) {
		return nil, false
	}
	for _, x := range p[len(p)-n:] {
		if int(x) != n {
			return nil, false
		}
	}
	return p[:len(p)-n], true
}

// withSlack puts b into a larger array, so that writes behind its end show.
func withSlack(b []byte) (in, whole []byte) {
	whole = append(append([]byte{}, b...), bytes.Repeat([]byte{0xA5}, 48)...)
	return whole[:len(b)], append([]byte{}, whole...)
}

func TestVerifC28(t *testing.T) {
	r := vh.Start(t, "C28", "message padding and the AES-CBC/HMAC helpers of the root package compared with independent implementations on every length 0..700 and on malformed inputs of every length, with guard bytes behind every argument")
	defer r.Finish()
	n := r.N(3, 60)
	for round := 0; round < n; round++ {
		for l := 0; l <= 700; l++ {
			rd := r.Rand("len", round*1000+l)
			r.SetCase("round %d length %d", round, l)
			m := vh.Bytes(rd, l)
			switch rd.Intn(5) {
			case 0:
				for i := range m {
					m[i] = 0
				}
			case 1:
				for i := range m {
					m[i] = 0x80
				}
			case 2:
				if l > 3 {
					m[l-1], m[l-2] = 0, 0x80
				}
			case 3:
				if l > 3 {
					m[l-1] = 0x80
				}
			}
			in, whole := withSlack(m)
			var p, s []byte
			if !r.Safe("crash", "padMessage/stripPadding", func() { p = padMessage(in); s = stripPadding(append([]byte{}, p...)) }) {
				continue
			}
			if !bytes.Equal(in[:len(whole)], whole) {
				r.Violation("modified", "padMessage wrote to the caller's memory (%d bytes)", l)
			}
			if len(p)%160 != 0 || len(p) != (l/160+1)*160 {
				r.Violation("pad-length", "a message of %d bytes is padded to %d", l, len(p))
			}
			if !bytes.Equal(s, m) {
				r.Violation("pad-inverse", "padding and stripping %d bytes gives %d bytes", l, len(s))
			}
			r.Event("paddings", 1)
			// stripping arbitrary bytes
			g := vh.Bytes(rd, l)
			if rd.Intn(2) == 0 {
				for i := range g {
					g[i] = []byte{0, 0x80, 1}[rd.Intn(3)]
				}
			}
			gin, gwhole := withSlack(g)
			var gs []byte
			if r.Safe("crash", "stripPadding", func() { gs = stripPadding(gin) }) {
				if !bytes.HasPrefix(g, gs) {
					r.Violation("pad-strip", "stripping gives something that is no prefix")
				} else if rest := g[len(gs):]; len(rest) > 0 && !bytes.Equal(rest, append([]byte{0x80}, make([]byte, len(rest)-1)...)) {
					r.Violation("pad-strip", "stripping removed %d bytes that are no padding", len(rest))
				}
				if !bytes.Equal(gin[:len(gwhole)], gwhole) {
					r.Violation("modified", "stripPadding wrote to the caller's memory")
				}
			}

			// AES-CBC
			for _, ks := range []int{16, 32, 24} {
				key := vh.Bytes(rd, ks)
				kin, kwhole := withSlack(key)
				in, whole := withSlack(m)
				var c, c2, d []byte
				var err, err2, err3 error
				if !r.Safe("crash", "aesEncrypt/aesDecrypt", func() {
					c, err = aesEncrypt(kin, in)
					c2, err2 = aesEncrypt(kin, in)
					if err == nil {
						d, err3 = aesDecrypt(kin, append([]byte{}, c...))
					}
				}) {
					continue
				}
				if err != nil || err2 != nil || err3 != nil || !bytes.Equal(d, m) {
					r.Violation("cbc-inverse", "AES-CBC of %d bytes with a %d byte key: %v %v %v, equal=%v", l, ks, err, err2, err3, bytes.Equal(d, m))
					continue
				}
				if !bytes.Equal(in[:len(whole)], whole) || !bytes.Equal(kin[:len(kwhole)], kwhole) {
					r.Violation("modified", "aesEncrypt wrote to the caller's memory (%d bytes of plaintext)", l)
				}
				if p, ok := refCBC(key, c); !ok || !bytes.Equal(p, m) {
					r.Violation("cbc-reference", "the ciphertext of %d bytes is not AES-CBC with PKCS#7 padding", l)
				}
				if bytes.Equal(c, c2) || bytes.Equal(c[:16], c2[:16]) {
					r.Violation("cbc-fresh", "encrypting twice gives the same IV")
				}
				r.Event("cbc", 1)
			}
			// malformed ciphertexts of this length, judged by the reference
			key := vh.Bytes(rd, []int{16, 32, 24, 0, 1, 15, 17, 31, 33, 64}[rd.Intn(10)])
			ct := vh.Bytes(rd, l)
			if rd.Intn(3) == 0 && len(key)%8 == 0 && len(key) >= 16 && len(key) <= 32 {
				if c, err := aesEncrypt(key, m); err == nil {
					ct, _ = vh.Mutate(rd, c)
				}
			}
			c28Dec(r, key, ct)
			// every padding value at the end of a block
			blk := vh.Bytes(rd, 16*(1+rd.Intn(3)))
			for _, pv := range []int{0, 1, 2, 15, 16, 17, 128, 255, rd.Intn(256)} {
				for i := len(blk) - 1; i >= 0 && i >= len(blk)-pv; i-- {
					blk[i] = byte(pv)
				}
				blk[len(blk)-1] = byte(pv)
				if pv > 1 && pv <= 16 && rd.Intn(2) == 0 {
					blk[len(blk)-1-rd.Intn(pv-1)-1] ^= 1
				}
				key := vh.Bytes(rd, 32)
				b, _ := aes.NewCipher(key)
				iv := vh.Bytes(rd, 16)
				raw := make([]byte, len(blk))
				cipher.NewCBCEncrypter(b, iv).CryptBlocks(raw, blk)
				c28Dec(r, key, append(iv, raw...))
			}
			// MAC
			mk := vh.Bytes(rd, 1+rd.Intn(70))
			min, mwhole := withSlack(m)
			var mm []byte
			if r.Safe("crash", "appendMAC", func() { mm = appendMAC(mk, append([]byte{}, min...)) }) {
				h := hmac.New(sha256.New, mk)
				h.Write(m)
				if !bytes.Equal(mm, h.Sum(append([]byte{}, m...))) {
					r.Violation("mac", "appendMAC is not HMAC-SHA256 appended to the message")
				} else {
					if !verifyMAC(mk, min, mm[l:]) {
						r.Violation("mac", "the MAC does not verify")
					}
					bad := append([]byte{}, mm[l:]...)
					bad[rd.Intn(32)] ^= 1 << uint(rd.Intn(8))
					if verifyMAC(mk, min, bad) || verifyMAC(mk, min, bad[:rd.Intn(32)]) || verifyMAC(mk, min, nil) || verifyMAC(mk, min, append(append([]byte{}, mm[l:]...), 0)) {
						r.Violation("mac-accepts", "an altered MAC verifies")
					}
					if l > 0 {
						b := append([]byte{}, m...)
						b[rd.Intn(l)] ^= 1
						if verifyMAC(mk, b, mm[l:]) {
							r.Violation("mac-accepts", "the MAC verifies for another message")
						}
					}
				}
				if !bytes.Equal(min[:len(mwhole)], mwhole) {
					r.Violation("modified", "the MAC helpers wrote to the caller's memory")
				}
				r.Event("macs", 1)
			}
			r.Eval(fmt.Sprintf("root|%d|%d", round, l))
		}
	}
	r.Require("cbc_rejected", 500)
}

func c28Dec(r *vh.R, key, ct []byte) {
	in, whole := withSlack(ct)
	var d []byte
	var err error
	if !r.Safe("crash", fmt.Sprintf("aesDecrypt of %d bytes with a %d byte key", len(ct), len(key)), func() { d, err = aesDecrypt(key, in) }) {
		return
	}
	want, ok := refCBC(key, ct)
	if ok != (err == nil) {
		r.Violation("cbc-malformed", "aesDecrypt of %d bytes with a %d byte key: error %v, well-formed=%v", len(ct), len(key), err, ok)
	} else if ok && !bytes.Equal(d, want) {
		r.Violation("cbc-inverse", "aesDecrypt gives a wrong plaintext")
	}
	if err != nil {
		r.Event("cbc_rejected", 1)
		if len(d) > 0 {
			r.Violation("cbc-malformed", "plaintext together with an error")
		}
	} else {
		r.Event("cbc_accepted", 1)
	}
	if !bytes.Equal(in[:len(whole)], whole) {
		r.Violation("modified", "aesDecrypt wrote to the caller's memory")
	}
}
