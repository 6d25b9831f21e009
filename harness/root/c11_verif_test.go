package textsecure

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// C11 over the real file store: a full disk at every byte, no free file descriptor, and death during a write.

// c11Entry is one kind of stored value; value n of it is a function of n.
type c11Entry struct {
	name   string
	write  func(s *store, n int) error
	silent bool // the setter has no error result
	read   func(s *store) ([]byte, error)
	value  func(n int) []byte
}

// c11Entries makes the kinds and their values 0..nv-1, the same in every process given the same seed.
func c11Entries(seed int64, nv int) []*c11Entry {
	rd := rand.New(rand.NewSource(seed))
	var es []*c11Entry
	key := func() []byte {
		b := vh.Bytes(rd, 32)
		b[0] &= 248
		b[31] = b[31]&63 | 64
		return b
	}
	var ids [][]byte
	var sess, pres, spres [][]byte
	for i := 0; i < nv; i++ {
		ids = append(ids, key())
		kp := axolotl.NewECKeyPair()
		kp = axolotl.MakeECKeyPair(key(), key())
		b, err := axolotl.NewPreKeyRecord(7, kp).Serialize()
		if err != nil {
			panic(err)
		}
		pres = append(pres, b)
		b, err = axolotl.NewSignedPreKeyRecord(9, uint64(i), kp, vh.Bytes(rd, 64)).Serialize()
		if err != nil {
			panic(err)
		}
		spres = append(spres, b)
		sess = append(sess, c11Session(rd, i))
	}
	es = append(es, &c11Entry{name: "session", write: func(s *store, n int) error {
		rec, err := axolotl.LoadSessionRecord(append([]byte{}, sess[n]...))
		if err != nil {
			panic(err)
		}
		return s.StoreSession("peer", 3, rec)
	}, read: func(s *store) ([]byte, error) { return ser(s.LoadSession("peer", 3)) }, value: func(n int) []byte { return sess[n] }})
	es = append(es, &c11Entry{name: "peer identity", write: func(s *store, n int) error { return s.SaveIdentity("peer", axolotl.NewIdentityKey(ids[n])) },
		read: func(s *store) ([]byte, error) { b, err := contactKey(s, "peer"); return b, err }, value: func(n int) []byte { return ids[n] }})
	es = append(es, &c11Entry{name: "prekey", write: func(s *store, n int) error {
		rec, err := axolotl.LoadPreKeyRecord(append([]byte{}, pres[n]...))
		if err != nil {
			panic(err)
		}
		return s.StorePreKey(7, rec)
	}, read: func(s *store) ([]byte, error) {
		r, err := s.LoadPreKey(7)
		if err != nil {
			return nil, err
		}
		return r.Serialize()
	}, value: func(n int) []byte { return pres[n] }})
	es = append(es, &c11Entry{name: "signed prekey", write: func(s *store, n int) error {
		rec, err := axolotl.LoadSignedPreKeyRecord(append([]byte{}, spres[n]...))
		if err != nil {
			panic(err)
		}
		return s.StoreSignedPreKey(9, rec)
	}, read: func(s *store) ([]byte, error) {
		r, err := s.LoadSignedPreKey(9)
		if err != nil {
			return nil, err
		}
		return r.Serialize()
	}, value: func(n int) []byte { return spres[n] }})
	es = append(es, &c11Entry{name: "own identity", write: func(s *store, n int) error {
		return s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(ids[n], ids[(n+1)%nv]))
	}, read: func(s *store) ([]byte, error) {
		k, err := s.GetIdentityKeyPair()
		if err != nil {
			return nil, err
		}
		return append(append([]byte{}, k.PrivateKey.Key()[:]...), k.PublicKey.Key()[:]...), nil
	}, value: func(n int) []byte { return append(append([]byte{}, ids[n]...), ids[(n+1)%nv]...) }})
	es = append(es, &c11Entry{name: "registration id", silent: true, write: func(s *store, n int) error { s.SetLocalRegistrationID(uint32(n + 10000)); return nil },
		read: func(s *store) ([]byte, error) {
			n, err := s.GetLocalRegistrationID()
			return []byte(fmt.Sprint(n)), err
		}, value: func(n int) []byte { return []byte(fmt.Sprint(n + 10000)) }})
	es = append(es, &c11Entry{name: "server password", silent: true, write: func(s *store, n int) error { s.storeHTTPPassword(fmt.Sprintf("%x", ids[n])); return nil },
		read: func(s *store) ([]byte, error) { p, err := s.loadHTTPPassword(); return []byte(p), err }, value: func(n int) []byte { return []byte(fmt.Sprintf("%x", ids[n])) }})
	es = append(es, &c11Entry{name: "signaling key", silent: true, write: func(s *store, n int) error { s.storeHTTPSignalingKey(ids[n]); return nil },
		read: func(s *store) ([]byte, error) { return s.loadHTTPSignalingKey() }, value: func(n int) []byte { return ids[n] }})
	return es
}

// contactKey reads a pinned identity through the exported interface.
func contactKey(s *store, id string) ([]byte, error) {
	old := textSecureStore
	textSecureStore = s
	defer func() { textSecureStore = old }()
	b, err := ContactIdentityKey(id)
	if err != nil {
		return nil, err
	}
	return b[1:], nil
}

// c11Session makes the bytes of a valid session record.
func c11Session(rd *rand.Rand, i int) []byte {
	a, b := axh.NewParty("a", 1, rd), axh.NewParty("b", 1, rd)
	c11Fix(rd, a, b)
	return a.S.RawSession("b", 1)
}

func c11Fix(rd *rand.Rand, a, b *axh.Party) {
	if err := a.Builder(b).BuildSenderSession(b.Bundle(axh.OneTime)); err != nil {
		panic(err)
	}
	for k := rd.Intn(4); k > 0; k-- {
		m, err := a.Encrypt(b, []byte("x"))
		if err != nil {
			panic(err)
		}
		if _, err := b.Decrypt(a, m.Type, m.Wire); err != nil {
			panic(err)
		}
		if m, err = b.Encrypt(a, []byte("y")); err != nil {
			panic(err)
		}
		if _, err := a.Decrypt(b, m.Type, m.Wire); err != nil {
			panic(err)
		}
	}
}

func c11Password(i int) string {
	if i%2 == 0 {
		return "storage password"
	}
	return ""
}

func TestVerifC11(t *testing.T) {
	if os.Getenv("VERIF_C11_CHILD") != "" {
		c11Child()
		return
	}
	r := vh.Start(t, "C11", "every kind of entry of the real file store is rewritten with the file size limited to every byte offset, without free file descriptors, by processes that die at every byte offset of a write, and by processes killed at random; the value read by a new store must be the complete old or new one, and a reported success the new one")
	defer r.Finish()
	signal.Ignore(syscall.SIGXFSZ)
	config.ConfigFile = &config.Config{}
	c11Limits(r)
	c11Protocol(r)
	c11Kill(r)
	r.Require("limited_writes", 300)
	r.Require("failed_writes", 200)
	r.Require("deaths_at_offset", 30)
	r.Require("kills", 10)
	r.Require("protocol_faults", 100)
	r.Assume("death of the process is modelled, loss of power (unsynced pages) is not")
}

// check compares an entry with the allowed values; a fresh store reads it.
func c11Check(r *vh.R, dir, pw string, e *c11Entry, allowed []int, absentOK bool, when string) int {
	s, err := newStore(pw, dir)
	if err != nil {
		r.Violation("reopen", "%s: the store does not open afterwards: %v", when, err)
		return -1
	}
	var got []byte
	if !r.Safe("crash", when, func() { got, err = e.read(s) }) {
		return -1
	}
	if err != nil {
		if absentOK && (os.IsNotExist(err) || strings.Contains(err.Error(), "FRESH") || strings.Contains(err.Error(), "unknown contact")) {
			return -1
		}
		r.Violation("lost-"+strings.Replace(e.name, " ", "-", -1), "%s: the %s cannot be read afterwards: %v", when, e.name, err)
		return -1
	}
	for _, n := range allowed {
		if bytes.Equal(got, e.value(n)) {
			return n
		}
	}
	r.Violation("torn-"+strings.Replace(e.name, " ", "-", -1), "%s: the %s reads back as neither the complete old nor the complete new value (%d bytes: %.40x...)", when, e.name, len(got), got)
	return -1
}

func c11Limits(r *vh.R) {
	const nv = 8
	rounds := r.N(1, 8)
	for round := 0; round < rounds*2; round++ {
		pw := c11Password(round)
		es := c11Entries(r.Seed*100+int64(round), nv)
		dir, done := scratchDir()
		s, err := newStore(pw, dir)
		if err != nil {
			panic(err)
		}
		for ei, e := range es {
			cur := -1
			size := len(e.value(0)) + 70
			step := 1
			if size > 400 {
				step = size / 130
			}
			rd := r.Rand("limit", round*100+ei)
			for lim := 0; lim <= size+step; lim += step {
				r.SetCase("%s limited to %d bytes, password %q", e.name, lim, pw)
				n := rd.Intn(nv)
				var werr error
				pan := ""
				withLimit(uint64(lim), func() { pan = vh.Try(func() { werr = e.write(s, n) }) })
				if pan != "" {
					r.Violation("crash", "writing the %s crashed on a full disk: %s", e.name, pan)
					continue
				}
				r.Event("limited_writes", 1)
				allowed := []int{n}
				if werr != nil || e.silent {
					if cur >= 0 {
						allowed = append(allowed, cur)
					}
				}
				absent := cur < 0 && (werr != nil || e.silent)
				got := c11Check(r, dir, pw, e, allowed, absent, fmt.Sprintf("write with the disk full after %d bytes (error reported: %v)", lim, werr))
				if werr != nil {
					r.Event("failed_writes", 1)
				} else if !e.silent {
					r.Event("successful_writes", 1)
				}
				cur = got
				r.Eval(fmt.Sprintf("%s|%d|%d|%v", e.name, lim, round%2, werr != nil))
			}
			// and with no file descriptor to be had
			for k := 0; k < 4; k++ {
				n := rd.Intn(nv)
				var werr, rerr error
				pan := ""
				withoutFDs(func() {
					pan = vh.Try(func() {
						werr = e.write(s, n)
						_, rerr = e.read(s)
					})
				})
				if pan != "" {
					r.Violation("crash", "the %s crashed without file descriptors: %s", e.name, pan)
					continue
				}
				r.Event("no_fd", 1)
				if werr == nil && !e.silent {
					r.Violation("fault-unreported", "writing the %s without a free file descriptor reports success", e.name)
				}
				if rerr == nil || strings.Contains(rerr.Error(), "FRESH") {
					r.Violation("fault-read", "reading the %s without a free file descriptor gives %v instead of an error", e.name, rerr)
				}
				allowed := []int{n}
				if cur >= 0 {
					allowed = append(allowed, cur)
				}
				cur = c11Check(r, dir, pw, e, allowed, cur < 0, "write without file descriptors")
				if e.name == "peer identity" {
					wrong := axolotl.NewIdentityKey(e.value((cur + 1) % nv))
					trusted := false
					withoutFDs(func() { trusted = s.IsTrustedIdentity("peer", wrong) })
					if cur >= 0 && trusted {
						r.Violation("pin-lost", "another identity key is trusted while the pinned one cannot be read")
					}
				}
			}
		}
		done()
	}
}

// c11Protocol runs real encryptions and decryptions on a full disk.
func c11Protocol(r *vh.R) {
	n := r.N(12, 200)
	for i := 0; i < n; i++ {
		rd := r.Rand("protocol", i)
		r.SetCase("protocol %d", i)
		l, done := newLocal(rd, c11Password(i), uuidOf(rd))
		peer := axh.NewParty(uuidOf(rd), 1, rd)
		for step := 0; step < 25; step++ {
			lim := uint64(rd.Intn(1500))
			// peer establishes or continues
			if !peer.S.ContainsSession(l.party.Name, 1) || rd.Intn(6) == 0 {
				if err := peer.Builder(l.party).BuildSenderSession(l.bundle(axh.OneTime)); err != nil {
					r.Violation("setup", "peer cannot build: %v", err)
				}
			}
			plain := vh.Bytes(rd, rd.Intn(50))
			m, err := peer.Encrypt(l.party, plain)
			if err != nil {
				r.Violation("setup", "peer cannot encrypt: %v", err)
				continue
			}
			pre := m.Type == axh.TypePreKey && l.st.ContainsPreKey(m.PreID)
			before := l.snapshot()
			var got []byte
			withLimit(lim, func() { got, err = l.decrypt(peer, m.Type, m.Wire) })
			r.Event("protocol_faults", 1)
			if err != nil {
				r.Event("protocol_faults_hit", 1)
				if len(got) > 0 {
					r.Violation("fault-plaintext", "plaintext together with error %v", err)
				}
				if pre && !l.st.ContainsPreKey(m.PreID) {
					r.Violation("prekey-given-up", "decrypting failed with the disk full at %d bytes (%v) but the one-time prekey is gone", lim, err)
				}
				// the pin may have been written completely before
				if d := snapDiff(before, l.snapshot()); d != "" && !strings.HasPrefix(d, "added identity") {
					r.Violation("fault-changed", "a failed decryption left: %s", d)
				}
				got, err = l.decrypt(peer, m.Type, m.Wire)
			}
			if err != nil || !eq(got, plain) {
				r.Violation("retry", "the message cannot be decrypted once the disk has room again: %v", err)
			}
			// and the answer
			var wire []byte
			before = l.snapshot()
			withLimit(lim, func() { wire, _, err = l.cipher(peer).SessionEncryptMessage(append([]byte{}, plain...)) })
			r.Event("protocol_faults", 1)
			if err != nil {
				r.Event("protocol_faults_hit", 1)
				if len(wire) > 0 {
					r.Violation("fault-ciphertext", "ciphertext together with error %v", err)
				}
				if d := snapDiff(before, l.snapshot()); d != "" {
					r.Violation("fault-changed", "a failed encryption left: %s", d)
				}
			} else if d := snapDiff(before, l.snapshot()); d == "" {
				r.Violation("fault-unreported", "a ciphertext was handed out without the new state being stored")
			}
			m2, err := l.encrypt(peer, plain)
			if err != nil {
				r.Violation("retry", "encrypting fails once the disk has room again: %v", err)
				continue
			}
			if got, err := peer.Decrypt(l.party, m2.Type, m2.Wire); err != nil || !eq(got, plain) {
				r.Violation("retry", "the peer cannot decrypt: %v", err)
			}
			// a session built on a full disk
			if rd.Intn(4) == 0 {
				p2 := axh.NewParty(uuidOf(rd), 1, rd)
				withLimit(lim, func() { err = l.build(p2, p2.Bundle(axh.OneTime)) })
				has := l.st.ContainsSession(p2.Name, 1)
				if (err == nil) != has {
					r.Violation("fault-build", "building a session with the disk full at %d: error %v, session stored %v", lim, err, has)
				}
			}
		}
		r.Eval(fmt.Sprintf("protocol %d", i))
		done()
	}
}

// ---- processes that die ----

type c11Step struct {
	entry, n int
	started  bool
}

// c11Kill starts children that write and die.
func c11Kill(r *vh.R) {
	const nv = 8
	spawn := func(mode, dir, pw string, seed int64, extra ...string) (*exec.Cmd, io.ReadCloser) {
		c := exec.Command(os.Args[0], "-test.run", "^TestVerifC11$")
		c.Env = append(os.Environ(), "VERIF_C11_CHILD="+mode, "VERIF_C11_DIR="+dir, "VERIF_C11_PW="+pw, "VERIF_C11_SEED="+strconv.FormatInt(seed, 10), "VERIF_RESULT=")
		c.Env = append(c.Env, extra...)
		out, err := c.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := c.Start(); err != nil {
			panic(err)
		}
		return c, out
	}
	read := func(out io.Reader) (done map[int]int, last c11Step) {
		done = map[int]int{}
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			var w string
			var e, n int
			if k, _ := fmt.Sscanf(sc.Text(), "@%s %d %d", &w, &e, &n); k != 3 {
				continue
			}
			if w == "start" {
				last = c11Step{e, n, true}
			} else {
				done[e] = n
				last.started = false
			}
		}
		return
	}
	// death at a byte offset: SIGXFSZ is fatal in the child
	k := 0
	for _, lim := range []int{0, 1, 5, 16, 31, 32, 33, 40, 63, 64, 70, 90, 110, 160} {
		for ei := 0; ei < 5; ei++ {
			if r.Tier == "quick" && (lim+ei)%2 == 1 && lim > 40 {
				continue
			}
			k++
			seed := r.Seed*1000 + int64(k)
			pw := c11Password(k)
			dir, done := scratchDir()
			es := c11Entries(seed, nv)
			s, err := newStore(pw, dir)
			if err != nil {
				panic(err)
			}
			e := es[ei]
			if err := e.write(s, 0); err != nil {
				r.Violation("setup", "%v", err)
			}
			r.SetCase("death at byte %d of a write of the %s", lim, e.name)
			c, out := spawn("limit", dir, pw, seed, fmt.Sprintf("VERIF_C11_LIMIT=%d", lim), fmt.Sprintf("VERIF_C11_ENTRY=%d", ei))
			got, last := read(out)
			if err := c.Wait(); err != nil && last.started {
				r.Event("deaths_at_offset", 1)
			}
			allowed := []int{0, 1}
			if _, ok := got[ei]; ok {
				allowed = []int{1}
			}
			// the child's session values differ from ours only if they are not deterministic: it reports them by file
			c11LoadValues(dir, es)
			c11Check(r, dir, pw, e, allowed, false, fmt.Sprintf("the process died at byte %d of a write", lim))
			r.Eval(fmt.Sprintf("death|%s|%d", e.name, lim))
			done()
		}
	}
	// random kills
	nk := r.N(20, 300)
	for i := 0; i < nk; i++ {
		rd := r.Rand("kill", i)
		seed := r.Seed*5000 + int64(i)
		pw := c11Password(i)
		dir, done := scratchDir()
		es := c11Entries(seed, nv)
		r.SetCase("kill %d", i)
		c, out := spawn("loop", dir, pw, seed)
		time.AfterFunc(time.Duration(60+rd.Intn(120))*time.Millisecond, func() { c.Process.Kill() })
		got, last := read(out)
		c.Wait()
		c11LoadValues(dir, es)
		for ei, e := range es {
			n, ok := got[ei]
			var allowed []int
			if ok {
				allowed = append(allowed, n)
			}
			if last.started && last.entry == ei {
				allowed = append(allowed, last.n)
			} else if !ok {
				continue
			}
			c11Check(r, dir, pw, e, allowed, !ok, "the process was killed")
		}
		if last.started {
			r.Event("kills", 1)
		}
		r.Event("child_writes", len(got))
		r.Eval(fmt.Sprintf("kill|%d", i))
		done()
	}
}

const c11ValFile = "/c11values"

// c11LoadValues takes over the values the child used (fresh keys are not deterministic).
func c11LoadValues(dir string, es []*c11Entry) {
	b, err := os.ReadFile(dir + c11ValFile)
	if err != nil {
		return
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	vals := map[[2]int][]byte{}
	for _, l := range lines {
		var e, n int
		var h []byte
		if k, _ := fmt.Sscanf(l, "%d %d %x", &e, &n, &h); k == 3 {
			vals[[2]int{e, n}] = h
		}
	}
	for ei, e := range es {
		ei, old := ei, e.value
		e.value = func(n int) []byte {
			if v, ok := vals[[2]int{ei, n}]; ok {
				return v
			}
			return old(n)
		}
	}
}

func c11Child() {
	const nv = 8
	dir, pw := os.Getenv("VERIF_C11_DIR"), os.Getenv("VERIF_C11_PW")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_C11_SEED"), 10, 64)
	config.ConfigFile = &config.Config{}
	es := c11Entries(seed, nv)
	s, err := newStore(pw, dir)
	if err != nil {
		os.Exit(3)
	}
	var vf bytes.Buffer
	for ei, e := range es {
		for n := 0; n < nv; n++ {
			if n == 0 && os.Getenv("VERIF_C11_CHILD") == "limit" {
				continue // the parent's value
			}
			fmt.Fprintf(&vf, "%d %d %x\n", ei, n, e.value(n))
		}
	}
	if err := os.WriteFile(dir+c11ValFile, vf.Bytes(), 0600); err != nil {
		os.Exit(3)
	}
	if os.Getenv("VERIF_C11_CHILD") == "limit" {
		lim, _ := strconv.Atoi(os.Getenv("VERIF_C11_LIMIT"))
		ei, _ := strconv.Atoi(os.Getenv("VERIF_C11_ENTRY"))
		fmt.Printf("@start %d %d\n", ei, 1)
		fatalXFSZ()
		withLimit(uint64(lim), func() { err = es[ei].write(s, 1) }) // dies here unless it fits
		if err == nil {
			fmt.Printf("@done %d %d\n", ei, 1)
		}
		os.Exit(0)
	}
	rd := rand.New(rand.NewSource(seed))
	for {
		ei, n := rd.Intn(len(es)), rd.Intn(nv)
		fmt.Printf("@start %d %d\n", ei, n)
		if err := es[ei].write(s, n); err != nil {
			os.Exit(3)
		}
		fmt.Printf("@done %d %d\n", ei, n)
	}
}
