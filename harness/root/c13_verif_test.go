package textsecure

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// ref13 is the published algorithm, written independently.
func ref13(id string, key []byte) []byte {
	h := append([]byte{0, 0}, key...)
	h = append(h, id...)
	for i := 0; i < 5200; i++ {
		s := sha512.Sum512(append(append([]byte{}, h...), key...))
		h = s[:]
	}
	return h
}

func digits13(fp []byte) string {
	var sb strings.Builder
	for i := 0; i < 6; i++ {
		v := new(big.Int).SetBytes(fp[5*i : 5*i+5])
		fmt.Fprintf(&sb, "%05d", v.Mod(v, big.NewInt(100000)))
	}
	return sb.String()
}

// TestVerifC13 has an application ask for the safety numbers with the peers it knows.
func TestVerifC13(t *testing.T) {
	r := vh.Start(t, "C13", "an account with several peers whose identities became known from bundles or first messages; GetFingerprint, ContactIdentityKey and MyIdentityKey compared with the published algorithm over the accounts' numbers and real identity keys, also after restarts, with damaged identity files and unknown peers; a case is one account, distinct by its identities")
	defer r.Finish()
	for i := 0; i < r.N(40, 600); i++ {
		r.SetCase("account/%d", i)
		r.Safe("panic", "account", func() { c13account(r, i) })
	}
	r.Require("safety numbers compared", 80)
	r.Require("peers without an identity", 40)
	r.Require("damaged identities", 40)
}

func c13account(r *vh.R, i int) {
	rd := r.Rand("account", i)
	config.ConfigFile = &config.Config{Tel: fmt.Sprintf("+%d", 1000000+rd.Int63n(1e12)), UUID: uuidOf(rd)}
	switch i % 5 {
	case 3:
		config.ConfigFile.Tel = "" // not known
	case 4:
		config.ConfigFile.Tel = strings.Replace(fmt.Sprintf("+%d", 1000000+rd.Int63n(1e12)), "+", "+00", 1)
	}
	pw := ""
	if i%2 == 1 {
		pw = "password"
	}
	l, done := newLocal(rd, pw, config.ConfigFile.UUID)
	defer done()
	oldStore, oldKey := textSecureStore, identityKey
	textSecureStore, identityKey = l.st, l.party.S.Identity
	defer func() { textSecureStore, identityKey = oldStore, oldKey }()
	mine := append([]byte{5}, l.party.S.Identity.PublicKey.Key()[:]...)
	if !bytes.Equal(MyIdentityKey(), mine) {
		r.Violation("own", "our identity key is %x, MyIdentityKey says %x", mine, MyIdentityKey())
	}
	own := ref13(config.ConfigFile.Tel, mine)
	type known struct {
		p   *axh.Party
		tel string
	}
	var all []known
	for k := 0; k < 3; k++ {
		p := axh.NewParty(uuidOf(rd), 1, rd)
		if k == 1 && i%3 == 0 {
			p.S.Identity = all[0].p.S.Identity // another account with the same key
			p.NewSigned()
		}
		if rd.Intn(2) == 0 {
			if err := l.build(p, p.Bundle(axh.OneTime)); err != nil {
				r.Violation("setup", "%v", err)
			}
		} else {
			if err := p.Builder(l.party).BuildSenderSession(l.bundle(axh.NoPre)); err != nil {
				r.Violation("setup", "%v", err)
			}
			m, err := p.Encrypt(l.party, []byte("hello"))
			if err == nil {
				_, err = l.decrypt(p, m.Type, m.Wire)
			}
			if err != nil {
				r.Violation("setup", "%v", err)
			}
		}
		all = append(all, known{p, fmt.Sprintf("+%d", 1000000+rd.Int63n(1e12))})
	}
	if rd.Intn(2) == 0 {
		l.open()
		textSecureStore = l.st
	}
	for _, k := range all {
		theirs := append([]byte{5}, k.p.S.Identity.PublicKey.Key()[:]...)
		if b, err := ContactIdentityKey(k.p.Name); err != nil || !bytes.Equal(b, theirs) {
			r.Violation("peer", "the identity key of %s is %x, ContactIdentityKey says %x, %v", k.p.Name, theirs, b, err)
		}
		n, qr, err := GetFingerprint(k.p.Name, k.tel)
		if err != nil {
			r.Violation("refused", "GetFingerprint fails: %v", err)
			continue
		}
		other := ref13(k.tel, theirs)
		x, y := digits13(own), digits13(other)
		if x > y {
			x, y = y, x
		}
		if got := strings.Join(n, ""); len(n) != 12 || got != x+y {
			r.Violation("number", "the safety number of %q with %q is %s, the published algorithm gives %s", config.ConfigFile.Tel, k.tel, got, x+y)
		}
		c := &axpb.CombinedFingerprints{}
		if err := proto.Unmarshal(qr, c); err != nil || c.GetVersion() != 1 || !bytes.Equal(c.GetLocalFingerprint().GetContent(), own[:32]) || !bytes.Equal(c.GetRemoteFingerprint().GetContent(), other[:32]) {
			r.Violation("code", "the code of %q with %q is %v, %v", config.ConfigFile.Tel, k.tel, c, err)
		}
		r.Event("safety numbers compared", 1)
	}
	// nobody knows these
	for _, id := range []string{uuidOf(rd), all[0].p.Name[:30], "", "+" + all[0].p.Name[1:], all[0].p.Name + "0"} {
		b, err := ContactIdentityKey(id)
		n, qr, err2 := GetFingerprint(id, all[0].tel)
		if err == nil || err2 == nil || len(b) > 0 || len(n) > 0 || len(qr) > 0 {
			r.Violation("unknown", "the unknown peer %q has the identity %x (%v) and the safety number %v (%v)", id, b, err, n, err2)
		}
		r.Event("peers without an identity", 1)
	}
	// damage gives an error or, where nothing protects the file, at least no crash
	f := l.st.remoteIdentityFilePath(all[2].p.Name)
	good, err := os.ReadFile(f)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	b := append([]byte{}, good...)
	switch rd.Intn(3) {
	case 0:
		b = b[:rd.Intn(len(b))]
	case 1:
		b = append(b, vh.Bytes(rd, 1+rd.Intn(9))...)
	case 2:
		b = nil
	}
	os.WriteFile(f, b, 0600)
	n, qr, err := GetFingerprint(all[2].p.Name, all[2].tel)
	if err == nil || len(n) > 0 || len(qr) > 0 {
		r.Violation("damaged", "an identity file of %d instead of %d bytes gives the safety number %v", len(b), len(good), n)
	}
	r.Event("damaged identities", 1)
	r.Eval(fmt.Sprintf("%x", mine))
}
