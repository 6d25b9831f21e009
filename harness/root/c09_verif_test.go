package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// c09Entry is one stored value: how to read it back, what it must be, and the secret bytes it is made of.
type c09Entry struct {
	name    string
	read    func(s *store) ([]byte, error)
	write   func(s *store) error
	want    []byte
	secrets [][]byte
}

func c09Password(rd *rand.Rand, i int) string {
	switch i % 6 {
	case 0:
		return "p"
	case 1:
		return "correct horse battery staple"
	case 2:
		return string(vh.Bytes(rd, 1+rd.Intn(20))) + "x"
	case 3:
		return strings.Repeat("Я", 10+rd.Intn(60))
	case 4:
		return fmt.Sprintf("%x", vh.Bytes(rd, 64+rd.Intn(64)))
	}
	return fmt.Sprintf("pw-%d", rd.Int63())
}

// otherPasswords are near misses.
func otherPasswords(rd *rand.Rand, p string) []string {
	o := []string{p + "x", "x" + p, strings.ToUpper(p), p + " ", fmt.Sprint(rd.Int63())}
	if len(p) > 1 {
		o = append(o, p[:len(p)-1], p[1:])
	}
	b := []byte(p)
	b[rd.Intn(len(b))] ^= 1
	o = append(o, string(b))
	var out []string
	for _, x := range o {
		if x != p && x != "" && strings.TrimRight(x, "\x00") != strings.TrimRight(p, "\x00") {
			out = append(out, x)
		}
	}
	return out
}

func ser(r *axolotl.SessionRecord, err error) ([]byte, error) {
	if err != nil || r == nil {
		return nil, fmt.Errorf("session: %v", err)
	}
	if r.Fresh {
		return nil, fmt.Errorf("FRESH")
	}
	return r.Serialize()
}

func c09Entries(rd *rand.Rand) []*c09Entry {
	var es []*c09Entry
	idk := axolotl.GenerateIdentityKeyPair()
	both := append(append([]byte{}, idk.PublicKey.Key()[:]...), idk.PrivateKey.Key()[:]...)
	es = append(es, &c09Entry{"own identity", func(s *store) ([]byte, error) {
		k, err := s.GetIdentityKeyPair()
		if err != nil {
			return nil, err
		}
		return append(append([]byte{}, k.PublicKey.Key()[:]...), k.PrivateKey.Key()[:]...), nil
	}, func(s *store) error { return s.SetIdentityKeyPair(idk) }, both, [][]byte{idk.PrivateKey.Key()[:], idk.PublicKey.Key()[:]}})
	reg := uint32(1 + rd.Intn(16380))
	es = append(es, &c09Entry{"registration id", func(s *store) ([]byte, error) {
		n, err := s.GetLocalRegistrationID()
		return []byte(fmt.Sprint(n)), err
	}, func(s *store) error { s.SetLocalRegistrationID(reg); return nil }, []byte(fmt.Sprint(reg)), nil})
	hp := hex.EncodeToString(vh.Bytes(rd, 10+rd.Intn(10)))
	es = append(es, &c09Entry{"server password", func(s *store) ([]byte, error) {
		p, err := s.loadHTTPPassword()
		return []byte(p), err
	}, func(s *store) error { s.storeHTTPPassword(hp); return nil }, []byte(hp), [][]byte{[]byte(hp)}})
	sk := vh.Bytes(rd, 52)
	es = append(es, &c09Entry{"signaling key", func(s *store) ([]byte, error) { return s.loadHTTPSignalingKey() },
		func(s *store) error { s.storeHTTPSignalingKey(sk); return nil }, sk, [][]byte{sk[:26], sk[26:]}})
	for k := 0; k < 3; k++ {
		id := []uint32{uint32(1 + rd.Intn(0xfffffe)), 0xffffff, rd.Uint32()}[k]
		kp := axolotl.NewECKeyPair()
		rec := axolotl.NewPreKeyRecord(id, kp)
		b, _ := rec.Serialize()
		es = append(es, &c09Entry{fmt.Sprintf("prekey %d", id), func(s *store) ([]byte, error) {
			r, err := s.LoadPreKey(id)
			if err != nil {
				return nil, err
			}
			return r.Serialize()
		}, func(s *store) error { return s.StorePreKey(id, rec) }, b, [][]byte{kp.PrivateKey.Key()[:], kp.PublicKey.Key()[:]}})
	}
	sid := uint32(1 + rd.Intn(0xfffffe))
	skp := axolotl.NewECKeyPair()
	srec := axolotl.NewSignedPreKeyRecord(sid, rd.Uint64(), skp, vh.Bytes(rd, 64))
	sb, _ := srec.Serialize()
	es = append(es, &c09Entry{fmt.Sprintf("signed prekey %d", sid), func(s *store) ([]byte, error) {
		r, err := s.LoadSignedPreKey(sid)
		if err != nil {
			return nil, err
		}
		return r.Serialize()
	}, func(s *store) error { return s.StoreSignedPreKey(sid, srec) }, sb, [][]byte{skp.PrivateKey.Key()[:]}})
	// sessions with a history
	a, b := axh.NewParty("local", 1, rd), axh.NewParty(uuidOf(rd), uint32(1+rd.Intn(4)), rd)
	if err := a.Builder(b).BuildSenderSession(b.Bundle(axh.OneTime)); err != nil {
		panic(err)
	}
	for k := 0; k < rd.Intn(6); k++ {
		p, q := a, b
		if k%2 == 1 {
			p, q = b, a
		}
		m, err := p.Encrypt(q, vh.Plain(rd))
		if err != nil {
			panic(err)
		}
		if k == 2 {
			continue
		}
		if _, err := q.Decrypt(p, m.Type, m.Wire); err != nil {
			panic(err)
		}
	}
	rec, err := a.S.LoadSession(b.Name, b.Dev)
	if err != nil {
		panic(err)
	}
	rb, _ := rec.Serialize()
	cur := a.S.Record(b.Name, b.Dev).GetCurrentSession()
	es = append(es, &c09Entry{"session", func(s *store) ([]byte, error) { return ser(s.LoadSession(b.Name, b.Dev)) },
		func(s *store) error { return s.StoreSession(b.Name, b.Dev, rec) }, rb, [][]byte{cur.GetRootKey(), cur.GetSenderChain().GetSenderRatchetKeyPrivate(), cur.GetSenderChain().GetChainKey().GetKey()}})
	peer := b.S.Identity.PublicKey
	es = append(es, &c09Entry{"peer identity", func(s *store) ([]byte, error) {
		old := textSecureStore
		textSecureStore = s
		defer func() { textSecureStore = old }()
		return ContactIdentityKey(b.Name)
	}, func(s *store) error { return s.SaveIdentity(b.Name, &peer) }, peer.Serialize(), [][]byte{peer.Key()[:]}})
	return es
}

// TestVerifC09 watches the bytes at rest and every read of altered files.
func TestVerifC09(t *testing.T) {
	r := vh.Start(t, "C09", "a case is one filled store: a password kind, all kinds of entries with random values (sessions from real conversations), a scan of all bytes at rest, reopening with the same and with near-miss passwords, and damage to each file; distinct by values; the monitor compares every read with the value stored, demands an error from every read of a damaged or foreign entry, and checks file modes")
	defer r.Finish()
	config.ConfigFile = &config.Config{}
	r.Assume("passwords differing only in trailing NUL bytes are the same password to PBKDF2-HMAC and are not told apart")
	for i := 0; i < r.N(60, 1200); i++ {
		r.SetCase("store/%d", i)
		r.Safe("panic", "store", func() { c09Case(r, i) })
	}
	r.Require("readback", 500)
	r.Require("damaged_read_refused", 1500)
	r.Require("wrong_password_refused", 1500)
	r.Require("secret_scans", 1000)
	r.Require("foreign_file_refused", 200)
}

func c09Files(dir string) []string {
	var fs []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			fs = append(fs, p)
		}
		return nil
	})
	return fs
}

func c09Case(r *vh.R, i int) {
	rd := r.Rand("store", i)
	top, done := scratchDir()
	defer done()
	dir := filepath.Join(top, "s")
	pw := c09Password(rd, i)
	es := c09Entries(rd)
	st, err := newStore(pw, dir)
	if err != nil {
		r.Violation("open", "%v", err)
		return
	}
	write := func(st *store) bool {
		for _, e := range es {
			if err := e.write(st); err != nil {
				r.Violation("write", "storing %s failed: %v", e.name, err)
				return false
			}
		}
		return true
	}
	if !write(st) {
		return
	}
	seen := map[string]string{}
	scan := func(round int) {
		for _, f := range c09Files(dir) {
			b, _ := os.ReadFile(f)
			fi, err := os.Stat(f)
			if err != nil {
				continue
			}
			if fi.Mode().Perm()&0077 != 0 {
				r.Violation("mode", "%s has mode %v", f, fi.Mode())
			}
			low := bytes.ToLower(b)
			for _, e := range es {
				for _, s := range e.secrets {
					for _, form := range [][]byte{s[:16], s[len(s)-16:], []byte(base64.StdEncoding.EncodeToString(s[:15])), []byte(base64.RawURLEncoding.EncodeToString(s[:15]))} {
						if bytes.Contains(b, form) {
							r.Violation("clear", "%s appears in clear in %s (round %d)", e.name, f, round)
						}
					}
					if bytes.Contains(low, []byte(hex.EncodeToString(s[:12]))) {
						r.Violation("clear", "%s appears in hex in %s", e.name, f)
					}
				}
				r.Event("secret_scans", 1)
			}
			if len(b) >= 32 {
				if o, ok := seen[string(b[:16])]; ok && round > 0 {
					if o == f {
						r.Violation("repeat", "storing the value in %s again gave the same first block: equal values are visible", f)
					}
				}
				seen[string(b[:16])] = f
			}
		}
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() && fi.Mode().Perm()&0077 != 0 {
				r.Violation("mode", "directory %s has mode %v", p, fi.Mode())
			}
			return nil
		})
	}
	scan(0)
	readAll := func(st *store, when string) {
		for _, e := range es {
			got, err := e.read(st)
			if err != nil || !eq(got, e.want) {
				r.Violation("readback", "%s reads back as %s (%v) %s, stored was %s", e.name, vh.Hex(got), err, when, vh.Hex(e.want))
			}
			r.Event("readback", 1)
		}
	}
	readAll(st, "at once")
	// the same values once more: no two files may repeat bytes
	before := map[string][]byte{}
	for _, f := range c09Files(dir) {
		before[f], _ = os.ReadFile(f)
	}
	if !write(st) {
		return
	}
	same := 0
	for f, b := range before {
		if n, err := os.ReadFile(f); err == nil && bytes.Equal(n, b) {
			same++
		}
	}
	if same > 1 { // the salt stays
		r.Violation("repeat", "%d files are byte-identical after storing the same values again", same)
	}
	scan(1)
	st2, err := newStore(pw, dir)
	if err != nil {
		r.Violation("open", "reopening failed: %v", err)
		return
	}
	readAll(st2, "after reopening")
	// never a wrong value: with anything odd, each read gives the right value or an error
	odd := func(st *store, what, ev string) (refused int) {
		for _, e := range es {
			got, err := e.read(st)
			if err != nil {
				if err.Error() == "session: FRESH" || strings.HasSuffix(err.Error(), "FRESH") {
					r.Violation("fresh", "%s: the session that cannot be read is taken for a new one", what)
				}
				refused++
				r.Event(ev, 1)
				continue
			}
			if !eq(got, e.want) {
				r.Violation("wrong-data", "%s: %s reads as %s instead of an error", what, e.name, vh.Hex(got))
			}
		}
		return
	}
	for _, o := range otherPasswords(rd, pw) {
		w, err := newStore(o, dir)
		if err != nil {
			r.Event("wrong_password_refused", len(es))
			continue
		}
		if n := odd(w, fmt.Sprintf("password %q instead of %q", o, pw), "wrong_password_refused"); n != len(es) {
			r.Violation("wrong-password", "with password %q instead of %q only %d of %d entries were refused", o, pw, n, len(es))
		}
	}
	// a second store with the same password is a different store
	dir2 := filepath.Join(top, "t")
	oth, err := newStore(pw, dir2)
	if err != nil {
		r.Violation("open", "%v", err)
		return
	}
	_ = write(oth)
	files := c09Files(dir)
	for _, f := range files {
		rel, _ := filepath.Rel(dir, f)
		b, err := os.ReadFile(filepath.Join(dir2, rel))
		if err != nil {
			continue
		}
		orig, _ := os.ReadFile(f)
		if bytes.Equal(b, orig) {
			r.Violation("same-store", "two stores with the same password have identical %s", rel)
		}
		c09Put(f, b)
		s3, err := newStore(pw, dir)
		if err == nil {
			n := odd(s3, rel+" replaced by that of another store", "foreign_file_refused")
			if n == 0 {
				r.Violation("foreign", "%s of another store with the same password was accepted", rel)
			}
		}
		c09Put(f, orig)
	}
	// damage
	for _, f := range files {
		rel, _ := filepath.Rel(dir, f)
		orig, _ := os.ReadFile(f)
		var muts [][]byte
		var whats []string
		add := func(b []byte, w string) {
			if !bytes.Equal(b, orig) {
				muts = append(muts, b)
				whats = append(whats, w)
			}
		}
		add([]byte{}, "emptied")
		add(orig[:rd.Intn(len(orig))], "truncated")
		if len(orig) > 48 {
			add(orig[:len(orig)-16], "one block short")
			add(orig[:31], "31 bytes")
			add(orig[:32], "32 bytes")
			add(orig[:48], "48 bytes")
			add(orig[16:], "first block missing")
			// exchange two blocks
			x := append([]byte{}, orig...)
			copy(x[:16], orig[16:32])
			copy(x[16:32], orig[:16])
			add(x, "blocks exchanged")
		}
		add(append(append([]byte{}, orig...), 0), "extended")
		add(append(append([]byte{}, orig...), orig...), "doubled")
		add(vh.Bytes(rd, rd.Intn(200)), "garbage")
		add(bytes.Repeat([]byte{0}, len(orig)), "zeroed")
		for k := 0; k < 6; k++ {
			m, w := vh.Mutate(rd, orig)
			add(m, w)
		}
		for k, m := range muts {
			c09Put(f, m)
			pan := vh.Try(func() {
				s3, err := newStore(pw, dir)
				if err != nil {
					r.Event("damaged_read_refused", 1)
					return
				}
				if odd(s3, fmt.Sprintf("%s %s", rel, whats[k]), "damaged_read_refused") == 0 {
					r.Violation("unnoticed", "%s %s: nothing was reported", rel, whats[k])
				}
			})
			if pan != "" {
				r.Violation("panic", "reading with %s %s panics: %s", rel, whats[k], pan)
			}
		}
		c09Put(f, orig)
	}
	st4, err := newStore(pw, dir)
	if err != nil {
		r.Violation("open", "%v", err)
		return
	}
	readAll(st4, "after the damage was undone")
	// a damaged pin must not make an impostor trusted
	k := axolotl.GenerateIdentityKeyPair().PublicKey
	name := uuidOf(rd)
	if err := st4.SaveIdentity(name, &k); err != nil {
		r.Violation("write", "%v", err)
	}
	now := map[string]bool{}
	for _, f := range files {
		now[f] = true
	}
	for _, f := range c09Files(dir) {
		if now[f] {
			continue
		}
		b, _ := os.ReadFile(f)
		for n := 0; n < 4; n++ {
			m, w := vh.Mutate(rd, b)
			c09Put(f, m)
			if st4.IsTrustedIdentity(name, &axolotl.GenerateIdentityKeyPair().PublicKey) {
				r.Violation("trust", "with a damaged pin (%s) another identity is trusted", w)
			}
			r.Event("damaged_pin_fails_closed", 1)
		}
	}
	r.Eval(fmt.Sprintf("%q %x", pw, es[0].want))
	if i < 3 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("store/%d", i), "password_length": len(pw), "files": len(files), "entries": len(es)})
	}
}

func c09Put(f string, b []byte) {
	if err := os.WriteFile(f, b, 0600); err != nil {
		panic(err)
	}
}
