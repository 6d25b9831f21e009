package textsecure

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type c10Key struct {
	peer string
	dev  uint32
}

type c10Model struct {
	pre, signed map[uint32]string
	sess        map[c10Key]string
	ident       map[string]string
	reg         *uint32
	pass        *string
	sig         *string
	own         *string
}

var c10Names = []string{"a", "a_1", "a_1_2", "ab", "A", "b", "", "_1", "a_", "..", ".", "../x", "../identity/identity_key", "../identity/regid", "x/../regid", "../../sessions/b", "a/b", "a%2Fb", "a%2fb", "/abs", "+4915112345678", "4915112345678",
	"f47ac10b-58cc-4372-a567-0e02b2c3d479", "f47ac10b-58cc-4372-a567-0e02b2c3d47", "f47ac10b-58cc-4372-a567-0e02b2c3d479_1", "ü", "u\u0308", "a b", "a\nb", "a\x00", "regid", "identity_key", "http_password", "remote_a", "-1", "a.1", "a:1", "%", "%%", "*", "a*"}
var c10Devs = []uint32{0, 1, 2, 3, 11, 12, 21, 1<<31 - 1, 1 << 31, 1<<32 - 1}
var c10Ids = []uint32{0, 1, 2, 10, 99, 100, 999999999, 1000000000, 1000000001, 0xffffff, 0xfffffe, 0x1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1}

// TestVerifC10 compares the store with a set of independent maps after every operation.
func TestVerifC10(t *testing.T) {
	r := vh.Start(t, "C10", "a case is one history of store, load, remove and delete operations and reopenings over similar and hostile peer names, devices and ids, with or without a password; distinct by its trace; after every operation the complete contents are compared with a model of independent maps, and nothing may appear outside the store's directory")
	defer r.Finish()
	config.ConfigFile = &config.Config{}
	for i := 0; i < r.N(160, 3000); i++ {
		r.SetCase("history/%d", i)
		r.Safe("panic", "history", func() { c10Case(r, i) })
	}
	r.Require("entries_compared", 20000)
	r.Require("delete_all", 300)
	r.Require("reopened", 200)
	r.Require("listings_compared", 5000)
}

func c10Case(r *vh.R, i int) {
	rd := r.Rand("history", i)
	top, done := scratchDir()
	defer done()
	// deep enough that no name of the workload can reach beyond the scratch directory
	dir := filepath.Join(top, "1", "2", "3", "4", "store")
	pw := ""
	if i%2 == 1 {
		pw = "secret"
	}
	st, err := newStore(pw, dir)
	if err != nil {
		r.Violation("open", "%v", err)
		return
	}
	m := &c10Model{pre: map[uint32]string{}, signed: map[uint32]string{}, sess: map[c10Key]string{}, ident: map[string]string{}}
	// a few names and ids per history, so that they meet
	var names []string
	off := rd.Intn(len(c10Names))
	for k := 0; k < 5; k++ {
		if k < 2 {
			names = append(names, c10Names[(off+k)%len(c10Names)])
		} else {
			names = append(names, c10Names[rd.Intn(len(c10Names))])
		}
	}
	devs := []uint32{1, 2, c10Devs[rd.Intn(len(c10Devs))], c10Devs[rd.Intn(len(c10Devs))], rd.Uint32()}
	ids := []uint32{c10Ids[rd.Intn(len(c10Ids))], c10Ids[rd.Intn(len(c10Ids))], c10Ids[rd.Intn(len(c10Ids))], rd.Uint32()}
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	bad := func(key, f string, a ...interface{}) {
		r.Violation(key, "%s; trace %v", fmt.Sprintf(f, a...), tailOf(trace, 12))
	}
	serial := 0
	session := func() (*axolotl.SessionRecord, string) {
		serial++
		b, _ := proto.Marshal(&axpb.RecordStructure{CurrentSession: &axpb.SessionStructure{SessionVersion: 3, RootKey: vh.Bytes(rd, 32), PreviousCounter: uint32(serial)}})
		rec, err := axolotl.LoadSessionRecord(b)
		if err != nil {
			panic(err)
		}
		s, _ := rec.Serialize()
		return rec, string(s)
	}
	idkey := func() *axolotl.IdentityKey { return axolotl.NewIdentityKey(vh.Bytes(rd, 32)) }
	check := func() {
		for _, id := range append(append([]uint32{}, ids...), ids[0]+1, ids[1]-1) {
			rec, err := st.LoadPreKey(id)
			want, ok := m.pre[id]
			if st.ContainsPreKey(id) != ok {
				bad("prekey", "ContainsPreKey(%d)=%v", id, !ok)
			}
			if ok {
				b := []byte{}
				if err == nil {
					b, _ = rec.Serialize()
				}
				if string(b) != want {
					bad("prekey", "LoadPreKey(%d) gives %x (%v), stored was %x", id, b, err, want)
				}
			} else if err == nil {
				bad("prekey", "LoadPreKey(%d) gives a record although there is none", id)
			}
			srec, err := st.LoadSignedPreKey(id)
			want, ok = m.signed[id]
			if st.ContainsSignedPreKey(id) != ok {
				bad("signed", "ContainsSignedPreKey(%d)=%v", id, !ok)
			}
			if ok {
				b := []byte{}
				if err == nil {
					b, _ = srec.Serialize()
				}
				if string(b) != want {
					bad("signed", "LoadSignedPreKey(%d) gives %x (%v), stored was %x", id, b, err, want)
				}
			} else if err == nil {
				bad("signed", "LoadSignedPreKey(%d) gives a record although there is none", id)
			}
			r.Event("entries_compared", 2)
		}
		for _, n := range names {
			var wantList []uint32
			for _, d := range devs {
				k := c10Key{n, d}
				want, ok := m.sess[k]
				if st.ContainsSession(n, d) != ok {
					bad("session", "ContainsSession(%q,%d)=%v", n, d, !ok)
				}
				rec, err := st.LoadSession(n, d)
				if err != nil || rec == nil {
					bad("session", "LoadSession(%q,%d): %v", n, d, err)
					continue
				}
				if ok {
					if b, _ := rec.Serialize(); string(b) != want || rec.Fresh {
						bad("session", "LoadSession(%q,%d) gives %x, stored was %x", n, d, b, want)
					}
				} else if !rec.Fresh {
					bad("session", "LoadSession(%q,%d) gives a session although there is none", n, d)
				}
				r.Event("entries_compared", 1)
			}
			for k := range m.sess {
				if k.peer == n {
					wantList = append(wantList, k.dev)
				}
			}
			got := append([]uint32{}, st.GetSubDeviceSessions(n)...)
			sort.Slice(got, func(a, b int) bool { return got[a] < got[b] })
			sort.Slice(wantList, func(a, b int) bool { return wantList[a] < wantList[b] })
			if len(got)+len(wantList) > 0 && !reflect.DeepEqual(got, wantList) {
				bad("listing", "the sessions of %q are listed as %v, should be %v", n, got, wantList)
			}
			r.Event("listings_compared", 1)
			// identities
			want, ok := m.ident[n]
			if ok {
				if !st.IsTrustedIdentity(n, axolotl.NewIdentityKey([]byte(want))) {
					bad("identity", "the stored identity of %q is not trusted", n)
				}
				if st.IsTrustedIdentity(n, idkey()) {
					bad("identity", "another identity of %q is trusted", n)
				}
			} else if !st.IsTrustedIdentity(n, idkey()) {
				bad("identity", "a first identity of %q is not trusted", n)
			}
			r.Event("entries_compared", 1)
		}
		if m.reg != nil {
			if v, err := st.GetLocalRegistrationID(); err != nil || v != *m.reg {
				bad("regid", "registration id %d (%v), stored %d", v, err, *m.reg)
			}
		} else if _, err := st.GetLocalRegistrationID(); err == nil {
			bad("regid", "a registration id out of nowhere")
		}
		if v, err := st.loadHTTPPassword(); m.pass != nil && (err != nil || v != *m.pass) || m.pass == nil && err == nil {
			bad("password", "password %q (%v)", v, err)
		}
		if v, err := st.loadHTTPSignalingKey(); m.sig != nil && (err != nil || string(v) != *m.sig) || m.sig == nil && err == nil {
			bad("signaling", "signaling key %x (%v)", v, err)
		}
		kp, err := st.GetIdentityKeyPair()
		if m.own != nil {
			if err != nil || string(kp.PublicKey.Key()[:])+string(kp.PrivateKey.Key()[:]) != *m.own {
				bad("own", "own identity changed (%v)", err)
			}
		} else if err == nil {
			bad("own", "an own identity out of nowhere")
		}
		r.Event("entries_compared", 4)
		// nothing outside
		filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && !strings.HasPrefix(p, dir+"/") {
				bad("outside", "%s was written outside the store", p)
			}
			return nil
		})
	}
	for step := 0; step < 25+rd.Intn(15); step++ {
		n, d, id := names[rd.Intn(len(names))], devs[rd.Intn(len(devs))], ids[rd.Intn(len(ids))]
		switch rd.Intn(17) {
		case 0, 1:
			rec := axolotl.NewPreKeyRecord(id, axolotl.NewECKeyPair())
			say("store prekey %d", id)
			if err := st.StorePreKey(id, rec); err != nil {
				bad("store", "%v", err)
				break
			}
			b, _ := rec.Serialize()
			m.pre[id] = string(b)
		case 2:
			rec := axolotl.NewSignedPreKeyRecord(id, rd.Uint64(), axolotl.NewECKeyPair(), vh.Bytes(rd, 64))
			say("store signed %d", id)
			if err := st.StoreSignedPreKey(id, rec); err != nil {
				bad("store", "%v", err)
				break
			}
			b, _ := rec.Serialize()
			m.signed[id] = string(b)
		case 3:
			say("remove prekey %d", id)
			st.RemovePreKey(id)
			delete(m.pre, id)
		case 4:
			say("remove signed %d", id)
			st.RemoveSignedPreKey(id)
			delete(m.signed, id)
		case 5, 6, 7, 8:
			rec, want := session()
			say("store session %q/%d", n, d)
			if err := st.StoreSession(n, d, rec); err != nil {
				bad("store", "%v", err)
				break
			}
			m.sess[c10Key{n, d}] = want
		case 9:
			say("delete session %q/%d", n, d)
			st.DeleteSession(n, d)
			delete(m.sess, c10Key{n, d})
		case 10, 11:
			say("delete all sessions of %q", n)
			st.DeleteAllSessions(n)
			for k := range m.sess {
				if k.peer == n {
					delete(m.sess, k)
				}
			}
			r.Event("delete_all", 1)
		case 12, 13:
			k := idkey()
			say("save identity %q", n)
			if err := st.SaveIdentity(n, k); err != nil {
				bad("store", "%v", err)
				break
			}
			m.ident[n] = string(k.Key()[:])
		case 14:
			switch rd.Intn(4) {
			case 0:
				v := []uint32{0, 1, 16383, rd.Uint32() & 0x3fff, 1<<32 - 1}[rd.Intn(5)]
				st.SetLocalRegistrationID(v)
				m.reg = &v
			case 1:
				v := string(vh.Bytes(rd, rd.Intn(30)))
				st.storeHTTPPassword(v)
				m.pass = &v
			case 2:
				v := string(vh.Bytes(rd, rd.Intn(60)))
				st.storeHTTPSignalingKey([]byte(v))
				m.sig = &v
			case 3:
				k := axolotl.GenerateIdentityKeyPair()
				if err := st.SetIdentityKeyPair(k); err != nil {
					bad("store", "%v", err)
					break
				}
				v := string(k.PublicKey.Key()[:]) + string(k.PrivateKey.Key()[:])
				m.own = &v
			}
			say("own data")
		default:
			say("reopen")
			if st, err = newStore(pw, dir); err != nil {
				bad("open", "%v", err)
				return
			}
			r.Event("reopened", 1)
		}
		check()
	}
	r.Eval(fmt.Sprint(pw, trace))
	if i < 3 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("history/%d", i), "trace": tailOf(trace, 8)})
	}
}
