package textsecure

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// scratchDir makes a directory of its own for one case.
func scratchDir() (string, func()) {
	d, err := os.MkdirTemp("", "verifroot")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// local is the device under test: the real file store with an identity of its own.
type local struct {
	dir, password string
	st            *store
	party         *axh.Party // how the peers know it
	rd            *rand.Rand
	nextPre       uint32
	signID        uint32
}

func newLocal(rd *rand.Rand, password, uuid string) (*local, func()) {
	if config.ConfigFile == nil {
		config.ConfigFile = &config.Config{}
	}
	dir, done := scratchDir()
	l := &local{dir: dir, password: password, rd: rd, nextPre: uint32(1 + rd.Intn(1000))}
	l.open()
	l.party = axh.NewParty(uuid, 1, rd)
	if err := l.st.SetIdentityKeyPair(l.party.S.Identity); err != nil {
		panic(err)
	}
	l.st.SetLocalRegistrationID(l.party.S.RegID)
	l.newSigned()
	l.pre(0xFFFFFF)
	return l, done
}

func (l *local) open() {
	st, err := newStore(l.password, l.dir)
	if err != nil {
		panic(err)
	}
	l.st = st
}

func (l *local) newSigned() {
	l.signID = uint32(1 + l.rd.Intn(0xfffffe))
	kp := axolotl.NewECKeyPair()
	var rnd [64]byte
	l.rd.Read(rnd[:])
	sig := curve25519sign.Sign(l.party.S.Identity.PrivateKey.Key(), kp.PublicKey.Serialize(), rnd)
	if err := l.st.StoreSignedPreKey(l.signID, axolotl.NewSignedPreKeyRecord(l.signID, 1, kp, sig[:])); err != nil {
		panic(err)
	}
}

func (l *local) pre(id uint32) *axolotl.ECPublicKey {
	kp := axolotl.NewECKeyPair()
	if err := l.st.StorePreKey(id, axolotl.NewPreKeyRecord(id, kp)); err != nil {
		panic(err)
	}
	return &kp.PublicKey
}

// bundle publishes a bundle of the local device.
func (l *local) bundle(kind axh.PreKind) *axolotl.PreKeyBundle {
	sp, err := l.st.LoadSignedPreKey(l.signID)
	if err != nil {
		panic(err)
	}
	var pub *axolotl.ECPublicKey
	id := uint32(0)
	switch kind {
	case axh.OneTime:
		id = l.nextPre
		l.nextPre++
		pub = l.pre(id)
	case axh.LastResort:
		id = 0xFFFFFF
		r, err := l.st.LoadPreKey(id)
		if err != nil {
			panic(err)
		}
		pub = axolotl.NewECPublicKey(r.Pkrs.PublicKey)
	}
	b, err := axolotl.NewPreKeyBundle(l.party.S.RegID, 1, id, pub, int32(l.signID), axolotl.NewECPublicKey(sp.Spkrs.PublicKey), sp.Spkrs.Signature, &l.party.S.Identity.PublicKey)
	if err != nil {
		panic(err)
	}
	return b
}

func (l *local) cipher(p *axh.Party) *axolotl.SessionCipher {
	return axolotl.NewSessionCipher(l.st, l.st, l.st, l.st, p.Name, p.Dev)
}

func (l *local) build(p *axh.Party, b *axolotl.PreKeyBundle) error {
	return axolotl.NewSessionBuilder(l.st, l.st, l.st, l.st, p.Name, p.Dev).BuildSenderSession(b)
}

func (l *local) encrypt(p *axh.Party, plain []byte) (*axh.Msg, error) {
	return l.party.EncryptWith(l.cipher(p), p, plain)
}

func (l *local) decrypt(p *axh.Party, typ int32, wire []byte) ([]byte, error) {
	return l.party.DecryptWith(l.cipher(p), typ, wire)
}

// snapshot is everything on disk, by relative path (file contents decrypted when they can be, so that a
// rewrite of the same value is no difference).
func (l *local) snapshot() map[string]string {
	m := map[string]string{}
	filepath.Walk(l.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(l.dir, p)
		b, err := l.st.readFile(p)
		if err != nil {
			b, _ = os.ReadFile(p)
		}
		m[rel] = string(b)
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if w != v {
			out = append(out, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "added "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func uuidOf(rd *rand.Rand) string {
	b := vh.Bytes(rd, 16)
	b[6], b[8] = b[6]&0x0f|0x40, b[8]&0x3f|0x80
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

func tailOf(t []string, n int) []string {
	if len(t) > n {
		return t[len(t)-n:]
	}
	return t
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// fatalXFSZ has the kernel end this process at the byte that goes beyond the file size limit: the Go runtime
// ignores that signal otherwise.
func fatalXFSZ() {
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	var sa [4]uint64 // SIG_DFL, no flags, no restorer, empty mask
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&sa)), 0, 8, 0, 0); e != 0 {
		panic(e)
	}
}

// withLimit runs f while no file may grow beyond n bytes.
func withLimit(n uint64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// withoutFDs runs f while no file can be opened.
func withoutFDs(f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 3, Max: old.Max}); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	f()
}
