package profiles

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/unidentifiedAccess"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// independent AES-256-GCM
func refGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// refAccessKey: the first block of the GCM key stream for a zero nonce.
func refAccessKey(key []byte) []byte {
	b, _ := aes.NewCipher(key)
	in := make([]byte, 16)
	in[15] = 2
	out := make([]byte, 16)
	b.Encrypt(out, in)
	return out
}

func nameOf(rd *rand.Rand) []byte {
	n := rd.Intn(54)
	switch rd.Intn(6) {
	case 0:
		n = 53
	case 1:
		n = 0
	case 2:
		n = 52
	}
	b := vh.Bytes(rd, n)
	switch rd.Intn(4) {
	case 0:
		copy(b, strings.Repeat("Ünïcødé \x00 name ", 6))
	case 1:
		for i := range b {
			b[i] = "ab\x00c"[rd.Intn(4)]
		}
	}
	// the padding is NUL bytes, so a name does not end in one
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

type profSrv struct {
	*httptest.Server
	mu      sync.Mutex
	put     []byte
	puts    int
	gets    []string
	reply   []byte
	status  int
	avatar  []byte
	headers []http.Header
}

func newProfSrv() *profSrv {
	s := &profSrv{status: 200}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		defer s.mu.Unlock()
		b, _ := io.ReadAll(r.Body)
		if r.Method == "PUT" {
			s.put = b
			s.puts++
			w.WriteHeader(200)
			return
		}
		s.gets = append(s.gets, r.URL.Path)
		s.headers = append(s.headers, r.Header.Clone())
		if strings.HasPrefix(r.URL.Path, "/avatar") {
			w.Write(s.avatar)
			return
		}
		w.WriteHeader(s.status)
		w.Write(s.reply)
	}))
	return s
}

func TestVerifC21(t *testing.T) {
	r := vh.Start(t, "C21", "a case is one name, key, ciphertext alteration, avatar, profile answer or key derivation checked against an independent AES-GCM model; key: operation, length class and alteration")
	defer r.Finish()
	dir, err := os.MkdirTemp("", "verifc21")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	config.ConfigFile = &config.Config{StorageDir: dir, ProfileKey: bytes.Repeat([]byte{9}, 32)}
	contacts.ReadContacts(dir + "/contacts.yml")

	names(r)
	randomness(r)
	accessKeys(r)
	avatars(r)
	answers(r)
	r.Require("names recovered", 100)
	r.Require("altered names refused", 500)
	r.Require("avatars recovered", 20)
	r.Require("profiles uploaded", 5)
	r.Require("profiles fetched", 20)
	r.Assume("names do not end in NUL bytes (the padding is made of them)")
}

func names(r *vh.R) {
	for i, n := 0, r.N(400, 8000); i < n; i++ {
		rd := r.Rand("names", i)
		key, name := vh.Bytes(rd, 32), nameOf(rd)
		r.SetCase("names/%d len %d", i, len(name))
		// give the name spare capacity with other data behind it
		back := append(append([]byte{}, name...), bytes.Repeat([]byte{0xAA}, 80)...)
		in, k := back[:len(name)], append([]byte{}, key...)
		var ct []byte
		var err error
		if !r.Safe("crash", "encryptName", func() { ct, err = encryptName(k, in, NAME_PADDED_LENGTH) }) {
			continue
		}
		if err != nil {
			r.Violation("encrypt", "encryptName of %d bytes: %v", len(name), err)
			continue
		}
		if !bytes.Equal(back[:len(name)], name) || !bytes.Equal(back[len(name):], bytes.Repeat([]byte{0xAA}, 80)) || !bytes.Equal(k, key) {
			r.Violation("mutates", "encryptName changed memory of its caller")
		}
		if len(ct) != 12+53+16 {
			r.Violation("padding", "the ciphertext of a %d byte name has %d bytes, not %d", len(name), len(ct), 12+53+16)
			continue
		}
		padded, err := refGCM(key).Open(nil, ct[:12], ct[12:], nil)
		if err != nil || !bytes.Equal(bytes.TrimRight(padded, "\x00"), name) {
			r.Violation("format", "an independent AES-GCM does not recover the name: %x, %v", padded, err)
		}
		ctCopy := append([]byte{}, ct...)
		var got []byte
		r.Safe("crash", "decryptName", func() { got, err = decryptName(key, ct) })
		if err != nil || !bytes.Equal(got, name) {
			r.Violation("roundtrip", "name %x came back as %x, %v", name, got, err)
		}
		if !bytes.Equal(ct, ctCopy) {
			r.Violation("mutates", "decryptName changed the ciphertext")
		}
		r.Event("names recovered", 1)
		r.Eval(fmt.Sprintf("name len %d", len(name)))
		for j := 0; j < 6; j++ {
			bad, how := vh.Mutate(rd, ct)
			bk := key
			if j == 0 {
				bad, how = ct, "other key"
				bk = append([]byte{}, key...)
				bk[rd.Intn(32)] ^= 1 << uint(rd.Intn(8))
			}
			var e error
			if r.Safe("crash", "decryptName of altered data ("+how+")", func() { got, e = decryptName(bk, bad) }) && e == nil {
				r.Violation("altered", "altered encrypted name (%s) decrypted to %x", how, got)
			}
			r.Event("altered names refused", 1)
		}
	}
	for _, n := range []int{54, 55, 64, 100, 128, 254, 255, 512, 1000} {
		r.SetCase("long name %d", n)
		var e error
		var ct []byte
		name := bytes.Repeat([]byte("x"), n)
		if r.Safe("crash", "encryptName", func() { ct, e = encryptName(bytes.Repeat([]byte{1}, 32), name, NAME_PADDED_LENGTH) }) && e == nil {
			got, err := decryptName(bytes.Repeat([]byte{1}, 32), ct)
			if err != nil || !bytes.Equal(got, name) {
				r.Violation("long", "a name of %d bytes was encrypted to something that does not decrypt to it", n)
			}
		}
		r.Eval(fmt.Sprintf("long %d", n))
	}
	for n := 0; n < 80; n++ {
		rd := r.Rand("garbage", n)
		for _, kl := range []int{0, 1, 15, 16, 24, 31, 32, 33, 64} {
			b, k := vh.Bytes(rd, n), vh.Bytes(rd, kl)
			r.SetCase("garbage len %d key %d", n, kl)
			var e error
			if r.Safe("crash", "decryptName of garbage", func() { _, e = decryptName(k, b) }) && e == nil {
				r.Violation("garbage", "garbage of %d bytes was decrypted with a key of %d bytes", n, kl)
			}
			if kl != 16 && kl != 24 && kl != 32 {
				if r.Safe("crash", "encryptName with a bad key", func() { _, e = encryptName(k, []byte("x"), NAME_PADDED_LENGTH) }) && e == nil {
					r.Violation("badkey", "a name was encrypted with a key of %d bytes", kl)
				}
			}
			r.Eval(fmt.Sprintf("garbage %d %d", n, kl))
		}
	}
}

// randomness: keys and nonces come from the system's random source and never repeat, whatever the state
// of the non-cryptographic generator.
func randomness(r *vh.R) {
	r.SetCase("randomness")
	keys, nonces := map[string]bool{}, map[string]bool{}
	for i, n := 0, r.N(300, 3000); i < n; i++ {
		rand.Seed(42)
		k := GenerateProfileKey()
		if len(k) != 32 {
			r.Violation("keylen", "profile key of %d bytes", len(k))
		}
		if keys[string(k)] {
			r.Violation("repeat", "the same profile key was generated twice")
		}
		keys[string(k)] = true
		rand.Seed(42)
		ct, err := encryptName(bytes.Repeat([]byte{1}, 32), []byte("n"), NAME_PADDED_LENGTH)
		if err != nil {
			r.Violation("encrypt", "%v", err)
			continue
		}
		if nonces[string(ct[:12])] {
			r.Violation("repeat", "the same nonce was used twice under one profile key")
		}
		nonces[string(ct[:12])] = true
		r.Eval("random")
	}
	for i := 0; i < 8; i++ {
		d, restore := r.UseDRBG(fmt.Sprint("rnd", i))
		k := GenerateProfileKey()
		a := d.Bytes
		encryptName(k, []byte("n"), NAME_PADDED_LENGTH)
		b := d.Bytes - a
		restore()
		if a < 32 {
			r.Violation("source", "a profile key took %d bytes from the system's random source, not 32", a)
		}
		if b < 12 {
			r.Violation("source", "encrypting a name took %d bytes from the system's random source, not 12", b)
		}
		r.Eval(fmt.Sprint("source", i))
	}
	// every byte of the key varies
	var or, and [32]byte
	for i := range and {
		and[i] = 0xff
	}
	for k := range keys {
		for i := 0; i < 32; i++ {
			or[i] |= k[i]
			and[i] &= k[i]
		}
	}
	for i := 0; i < 32; i++ {
		if or[i] != 0xff || and[i] != 0 {
			r.Violation("bits", "bits of byte %d of the profile keys never change (or %02x and %02x)", i, or[i], and[i])
		}
	}
}

func accessKeys(r *vh.R) {
	kat := bytes.Repeat([]byte{2}, 32)
	if k, err := unidentifiedAccess.DeriveAccessKeyFrom(kat); err != nil || hex.EncodeToString(k) != "5a723acee52c5ea02b92a3a360c09595" {
		r.Violation("kat", "access key of 32 times 02 is %x, %v", k, err)
	}
	for i, n := 0, r.N(300, 3000); i < n; i++ {
		rd := r.Rand("access", i)
		r.SetCase("access/%d", i)
		key := vh.Bytes(rd, 32)
		kc := append([]byte{}, key...)
		k, err := unidentifiedAccess.DeriveAccessKeyFrom(key)
		if err != nil || !bytes.Equal(k, refAccessKey(key)) || !bytes.Equal(key, kc) {
			r.Violation("access", "access key of %x is %x, %v; want %x", key, k, err, refAccessKey(key))
		}
		own, cert := vh.Bytes(rd, 32), vh.Bytes(rd, 40)
		s, err := unidentifiedAccess.GetAccessForSync(own, cert)
		if err != nil || !bytes.Equal(s.UnidentifiedAccessKey, refAccessKey(own)) || !bytes.Equal(s.UnidentifiedCertificate, cert) {
			r.Violation("access", "access for synchronisation %+v, %v", s, err)
		}
		// certificate field 1 of ServerCertificate holds the inner certificate
		config.ConfigFile.ProfileKey = own
		config.ConfigFile.Certificate = append([]byte{0x0a, byte(len(cert))}, cert...)
		p, err := unidentifiedAccess.GetAccessForUUID(contacts.Contact{UUID: "u", ProfileKey: key})
		if err != nil || !bytes.Equal(p.TargetUnidentifiedAccess.UnidentifiedAccessKey, refAccessKey(key)) || !bytes.Equal(p.SelfUnidentifiedAccess.UnidentifiedAccessKey, refAccessKey(own)) ||
			!bytes.Equal(p.GetTargetKey(), refAccessKey(key)) || !bytes.Equal(p.SelfUnidentifiedAccess.UnidentifiedCertificate, cert) || !bytes.Equal(p.TargetUnidentifiedAccess.UnidentifiedCertificate, cert) {
			r.Violation("access", "access for a contact %+v, %v", p, err)
		}
		list := []contacts.Contact{}
		for j := 0; j < rd.Intn(5); j++ {
			list = append(list, contacts.Contact{ProfileKey: vh.Bytes(rd, 32)})
		}
		ps, err := unidentifiedAccess.GetAccessFor(list)
		if err != nil || len(*ps) != len(list) {
			r.Violation("access", "access for %d contacts: %v", len(list), err)
		} else {
			for j, c := range list {
				if !bytes.Equal((*ps)[j].GetTargetKey(), refAccessKey(c.ProfileKey)) || !bytes.Equal((*ps)[j].SelfUnidentifiedAccess.UnidentifiedAccessKey, refAccessKey(own)) {
					r.Violation("access", "access key %d of %d contacts is not the contact's", j, len(list))
				}
			}
		}
		r.Eval("access key")
	}
	seen := map[string]bool{}
	for i := 0; i < 50; i++ {
		rand.Seed(7)
		k, err := unidentifiedAccess.GetTargetUnidentifiedAccessKey(contacts.Contact{})
		if err != nil || len(k) != 16 || seen[string(k)] {
			r.Violation("access", "access key for a contact without profile key: %x, %v (seen before: %v)", k, err, seen[string(k)])
		}
		seen[string(k)] = true
	}
	for n := 0; n < 70; n++ {
		if n == 16 || n == 24 || n == 32 {
			continue
		}
		r.SetCase("access key length %d", n)
		var e error
		if r.Safe("crash", "DeriveAccessKeyFrom", func() { _, e = unidentifiedAccess.DeriveAccessKeyFrom(make([]byte, n)) }) && e == nil {
			r.Violation("keylen", "an access key was derived from a profile key of %d bytes", n)
		}
		r.Eval(fmt.Sprint("access len", n))
	}
}

func avatars(r *vh.R) {
	for i, n := 0, r.N(60, 600); i < n; i++ {
		rd := r.Rand("avatar", i)
		r.SetCase("avatar/%d", i)
		key, nonce, img := vh.Bytes(rd, 32), vh.Bytes(rd, 12), vh.Bytes(rd, 1+rd.Intn(3000))
		enc := append(append([]byte{}, nonce...), refGCM(key).Seal(nil, nonce, img, nil)...)
		var got []byte
		var e error
		r.Safe("crash", "decryptAvatar", func() { got, e = decryptAvatar(enc, key) })
		if e != nil || !bytes.Equal(got, img) {
			r.Violation("avatar", "avatar of %d bytes came back as %d bytes, %v", len(img), len(got), e)
		}
		r.Event("avatars recovered", 1)
		for j := 0; j < 5; j++ {
			bad, how := vh.Mutate(rd, enc)
			if r.Safe("crash", "decryptAvatar of altered data", func() { got, e = decryptAvatar(bad, key) }) && e == nil {
				r.Violation("altered", "altered avatar (%s) was decrypted", how)
			}
		}
		k2 := append([]byte{}, key...)
		k2[rd.Intn(32)] ^= 0x10
		if r.Safe("crash", "decryptAvatar with another key", func() { got, e = decryptAvatar(enc, k2) }) && e == nil {
			r.Violation("altered", "an avatar was decrypted with another key")
		}
		r.Eval(fmt.Sprintf("avatar %d", len(img)/500))
	}
	for n := 0; n < 40; n++ {
		for _, kl := range []int{0, 1, 16, 31, 32, 33, 64} {
			r.SetCase("avatar garbage %d key %d", n, kl)
			var e error
			if r.Safe("crash", "decryptAvatar of garbage", func() { _, e = decryptAvatar(make([]byte, n), make([]byte, kl)) }) && e == nil {
				r.Violation("garbage", "%d bytes of garbage were decrypted as an avatar", n)
			}
			r.Eval(fmt.Sprintf("avatar garbage %d %d", n, kl))
		}
	}
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func sealed(rd *rand.Rand, key, name []byte, pad int) []byte {
	nonce := vh.Bytes(rd, 12)
	p := append(append([]byte{}, name...), make([]byte, pad-len(name))...)
	return append(append([]byte{}, nonce...), refGCM(key).Seal(nil, nonce, p, nil)...)
}

func answers(r *vh.R) {
	s := newProfSrv()
	defer s.Close()
	transport.SetupTransporter(s.URL, "me", "pw", "agent", "")
	transport.SetupCDNTransporter(s.URL, "me", "pw", "agent", "")
	uuids := []string{"0f3a1c9e-7b7d-4f21-9d6b-2f3a4b5c6d7e", "c0ffee00-1111-4222-8333-444455556666"}
	for i, n := 0, r.N(40, 400); i < n; i++ {
		rd := r.Rand("answers", i)
		key, name := vh.Bytes(rd, 32), nameOf(rd)
		about, emoji := vh.Bytes(rd, 1+rd.Intn(100)), []byte("🐸")
		about[len(about)-1] |= 1
		ident := vh.Bytes(rd, 33)
		config.ConfigFile.ProfileKey = key
		p := map[string]interface{}{"identityKey": b64(ident), "uuid": uuids[0]}
		withName, withAbout := rd.Intn(4) > 0, rd.Intn(3) > 0
		if withName {
			p["name"] = b64(sealed(rd, key, name, 53))
		}
		if withAbout {
			p["about"], p["aboutEmoji"] = b64(sealed(rd, key, about, 128)), b64(sealed(rd, key, emoji, 32))
		}
		s.mu.Lock()
		s.reply, _ = json.Marshal(p)
		s.status = 200
		s.headers = nil
		s.mu.Unlock()
		r.SetCase("answers/%d name %v about %v", i, withName, withAbout)
		var got *Profile
		var e error
		if !r.Safe("crash", "GetProfile", func() { got, e = GetProfile(uuids[0], key) }) {
			continue
		}
		if e != nil || got == nil {
			r.Violation("profile", "GetProfile: %v", e)
			continue
		}
		check := func(what string, got *Profile) {
			if withName && got.Name != string(name) {
				r.Violation("profile", "%s returned the name %q, not %q", what, got.Name, name)
			}
			if withAbout && (got.About != string(about) || got.AboutEmoji != string(emoji)) {
				r.Violation("profile", "%s returned the about texts %q %q, not %q %q", what, got.About, got.AboutEmoji, about, emoji)
			}
			if got.IdentityKey != string(ident) {
				r.Violation("profile", "%s returned another identity key", what)
			}
		}
		check("GetProfile", got)
		s.mu.Lock()
		if len(s.headers) == 0 || s.headers[0].Get("Unidentified-Access-Key") != b64(refAccessKey(key)) {
			r.Violation("profile", "the profile was not asked for with the account's access key: %v", s.headers)
		}
		s.mu.Unlock()
		r.Event("profiles fetched", 1)
		r.Eval(fmt.Sprintf("answer %v %v", withName, withAbout))
		// the same through the decryption function, and with altered or foreign data
		fresh := func() *Profile {
			q := &Profile{}
			json.Unmarshal(s.reply, q)
			return q
		}
		q := fresh()
		if r.Safe("crash", "decryptProfile", func() { e = decryptProfile(key, q) }); e != nil {
			r.Violation("profile", "decryptProfile: %v", e)
		} else {
			check("decryptProfile", q)
		}
		if withName || withAbout {
			q = fresh()
			if r.Safe("crash", "decryptProfile", func() { e = decryptProfile(vh.Bytes(rd, 32), q) }) && e == nil {
				r.Violation("altered", "a profile was decrypted with another key")
			}
			q = fresh()
			f := &q.Name
			if !withName || (withAbout && rd.Intn(2) == 0) {
				f = &q.About
				if rd.Intn(2) == 0 {
					f = &q.AboutEmoji
				}
			}
			raw, _ := base64.StdEncoding.DecodeString(*f)
			bad, how := vh.Mutate(rd, raw)
			if len(bad) > 0 {
				*f = b64(bad)
				if r.Safe("crash", "decryptProfile", func() { e = decryptProfile(key, q) }) && e == nil {
					r.Violation("altered", "a profile with an altered field (%s) was decrypted", how)
				}
			}
		}
		// error answers and garbage
		for _, st := range []int{199 + 201, 401, 404, 500, 300} {
			s.mu.Lock()
			s.status = st
			s.mu.Unlock()
			for _, f := range []func() error{
				func() error { _, e := GetProfile(uuids[0], key); return e },
				func() error { _, e := GetProfileAndCredential(uuids[0], key); return e },
				func() error { _, e := GetProfileUUID(uuids[1]); return e },
				func() error { _, e := GetProfileE164("+49123"); return e },
			} {
				if r.Safe("crash", "profile request", func() { e = f() }) && e == nil {
					r.Violation("status", "status %d of a profile request was taken for success", st)
				}
			}
		}
		s.mu.Lock()
		s.status = 200
		full := append([]byte{}, s.reply...)
		s.mu.Unlock()
		for j := 0; j < 6; j++ {
			var bad []byte
			switch rd.Intn(4) {
			case 0:
				bad = []byte([]string{"", "null", "[]", "{}", "0", `"x"`, `{"name":"AAAA"}`, `{"credential":"AAAA"}`, `{"name":"` + b64(vh.Bytes(rd, rd.Intn(40))) + `"}`}[rd.Intn(9)])
			case 1:
				bad = full[:rd.Intn(len(full))]
			default:
				bad, _ = vh.Mutate(rd, full)
			}
			s.mu.Lock()
			s.reply = bad
			s.mu.Unlock()
			r.Safe("crash", fmt.Sprintf("GetProfile with the answer %q", bad), func() { GetProfile(uuids[0], key) })
			r.Safe("crash", fmt.Sprintf("GetProfileAndCredential with the answer %q", bad), func() { GetProfileAndCredential(uuids[0], key) })
			r.Safe("crash", fmt.Sprintf("GetProfileE164 with the answer %q", bad), func() { GetProfileE164("+49123") })
		}
		s.mu.Lock()
		s.reply = full
		s.mu.Unlock()
	}
	// what is uploaded
	for i, n := 0, r.N(12, 100); i < n; i++ {
		rd := r.Rand("upload", i)
		key := vh.Bytes(rd, 32)
		name := strings.ToValidUTF8(string(nameOf(rd)), "x")
		for len(name) > 53 {
			name = name[:20]
		}
		config.ConfigFile.ProfileKey = key
		s.mu.Lock()
		s.put = nil
		s.mu.Unlock()
		r.SetCase("upload/%d %q", i, name)
		var e error
		if !r.Safe("crash", "UpdateProfile", func() { e = UpdateProfile(key, uuids[i%2], name) }) || e != nil {
			r.Violation("upload", "UpdateProfile: %v", e)
			continue
		}
		var up struct {
			Version, Name, Commitment string
		}
		s.mu.Lock()
		body := append([]byte{}, s.put...)
		s.mu.Unlock()
		json.Unmarshal(body, &up)
		raw, err := base64.StdEncoding.DecodeString(up.Name)
		if err != nil || len(raw) != 81 {
			r.Violation("upload", "the uploaded name is %q: %d bytes", up.Name, len(raw))
			continue
		}
		p, err := refGCM(key).Open(nil, raw[:12], raw[12:], nil)
		if err != nil || strings.TrimRight(string(p), "\x00") != name {
			r.Violation("upload", "the uploaded name decrypts to %q, not %q, %v", p, name, err)
		}
		if len(name) > 6 && bytes.Contains(body, []byte(name)) {
			r.Violation("upload", "the uploaded profile has the name in clear")
		}
		if bytes.Contains(body, []byte(b64(key))) || bytes.Contains(body, []byte(hex.EncodeToString(key))) || bytes.Contains(body, key) {
			r.Violation("upload", "the uploaded profile has the profile key in it")
		}
		if up.Version == "" || up.Commitment == "" {
			r.Violation("upload", "version or commitment missing")
		}
		r.Event("profiles uploaded", 1)
		r.Eval("upload")
	}
}
