package textsecure

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestVerifC20(t *testing.T) {
	r := vh.Start(t, "C20", "a case is one contact discovery against an independent enclave model, honest or with one altered, shortened or malformed attestation or answer; key: numbers, attestations and alteration")
	defer r.Finish()
	dir, done := mustDir()
	defer done()
	a := setupGlobals(dir)
	seen := map[string]bool{}
	var enc *enclave
	s := newSim(func(q sreq) sresp { return enc.answer(q) })
	defer s.Close()
	s.connect()

	setup := func(label string, i int) (*rand.Rand, *enclave) {
		rd := r.Rand(label, i)
		e := &enclave{rd: rd, users: map[int64][16]byte{}, n: 1 + rd.Intn(3), cookie: fmt.Sprintf("IBMCLB-%d=%x", i, vh.Bytes(rd, 4)), seen: seen}
		a.contacts = nil
		for j, n := 0, 1+rd.Intn(12); j < n; j++ {
			c := contacts.Contact{Tel: telOf(rd), Name: fmt.Sprint("n", j)}
			if rd.Intn(8) == 0 {
				c.Tel = []string{"", "no number", "abc", "+49#x"}[rd.Intn(4)]
			}
			if rd.Intn(10) == 0 && j > 0 {
				c.Tel = a.contacts[rd.Intn(j)].Tel
			}
			a.contacts = append(a.contacts, c)
			if rd.Intn(3) > 0 {
				var u [16]byte
				copy(u[:], vh.Bytes(rd, 16))
				var num int64
				if _, err := fmt.Sscan(strings.TrimPrefix(c.Tel, "+"), &num); err == nil {
					if _, ok := e.users[num]; !ok {
						e.users[num] = u
					}
				}
			}
		}
		enc = e
		return rd, e
	}
	valid := func() (tels []string, nums []int64) {
		have := map[string]bool{}
		for _, c := range a.contacts {
			var n int64
			if !strings.HasPrefix(c.Tel, "+") || have[c.Tel] {
				continue
			}
			if _, err := fmt.Sscan(c.Tel[1:], &n); err != nil || strings.Trim(c.Tel[1:], "0123456789") != "" {
				continue
			}
			have[c.Tel] = true
			tels, nums = append(tels, c.Tel), append(nums, n)
		}
		return
	}

	// honest discoveries
	for i, n := 0, r.N(150, 3000); i < n; i++ {
		rd, e := setup("honest", i)
		_ = rd
		r.SetCase("honest/%d", i)
		tels, nums := valid()
		var got []contacts.Contact
		var err error
		contacts.Contacts = map[string]contacts.Contact{}
		if !r.Safe("crash", "GetRegisteredContacts", func() { got, err = GetRegisteredContacts() }) {
			continue
		}
		for _, f := range e.faults {
			r.Violation("request", "%s", f)
		}
		r.Eval(fmt.Sprintf("honest %d numbers %d attestations", len(nums), e.n))
		if len(nums) == 0 {
			if err == nil {
				r.Violation("nothing", "a discovery without valid numbers succeeded")
			}
			continue
		}
		if err != nil {
			r.Violation("refused", "honest discovery of %v: %v", tels, err)
			continue
		}
		if len(e.queries) != 1 || !reflect.DeepEqual(e.queries[0].numbers, nums) {
			r.Violation("numbers", "the enclave was asked for %v, the contacts are %v", e.queries, nums)
			continue
		}
		if len(got) != len(a.contacts) {
			r.Violation("mapping", "%d contacts returned for %d", len(got), len(a.contacts))
			continue
		}
		asked := map[string]bool{}
		for _, x := range tels {
			asked[x] = true
		}
		first := map[string]bool{}
		for j, c := range got {
			if c.Tel != a.contacts[j].Tel || c.Name != a.contacts[j].Name {
				r.Violation("mapping", "contact %d is %s %q, was %s %q", j, c.Tel, c.Name, a.contacts[j].Tel, a.contacts[j].Name)
			}
			if !asked[c.Tel] || first[c.Tel] {
				continue
			}
			first[c.Tel] = true
			num := nums[indexOf(tels, c.Tel)]
			u, reg := e.users[num]
			if reg != c.Registered || c.UUID != hex16(u) {
				r.Violation("mapping", "contact %s is registered %v with %s; truth %v %s", c.Tel, c.Registered, c.UUID, reg, hex16(u))
			}
			key := c.UUID
			if !reg {
				key = c.Tel
			}
			if k, ok := contacts.Contacts[key]; !ok || k.Tel != c.Tel || k.Registered != reg {
				r.Violation("mapping", "contact %s is not found under %s", c.Tel, key)
			}
			r.Event("numbers mapped", 1)
		}
		if len(contacts.Contacts) != len(tels) {
			r.Violation("mapping", "%d contacts kept for %d numbers", len(contacts.Contacts), len(tels))
		}
		r.Event("honest discoveries", 1)
		if i < 3 {
			r.Sample(map[string]interface{}{"numbers": nums, "attestations": e.n})
		}
	}

	// refuse runs a discovery that must fail without any effect
	refuse := func(what string) {
		before := map[string]contacts.Contact{"k": {Tel: "keep", UUID: "keep"}}
		contacts.Contacts = map[string]contacts.Contact{"k": {Tel: "keep", UUID: "keep"}}
		var got []contacts.Contact
		var err error
		if !r.Safe("crash", "GetRegisteredContacts with "+what, func() { got, err = GetRegisteredContacts() }) {
			return
		}
		for _, f := range enc.faults {
			if !strings.Contains(f, "envelope") {
				r.Violation("request", "%s", f)
			}
		}
		if err == nil || got != nil {
			r.Violation("accepted", "a discovery with %s returned %d contacts, %v", what, len(got), err)
		}
		if !reflect.DeepEqual(contacts.Contacts, before) {
			r.Violation("effect", "a discovery with %s changed the contacts", what)
		}
		r.Event("refused", 1)
	}
	need := func(label string, i int) (*rand.Rand, *enclave) {
		rd, e := setup(label, i)
		if _, n := valid(); len(n) == 0 {
			a.contacts = append(a.contacts, contacts.Contact{Tel: telOf(rd), Name: "x"})
		}
		return rd, e
	}
	for i, n := 0, r.N(400, 8000); i < n; i++ {
		rd, e := need("attestation", i)
		what := ""
		e.mutAtt = func(top map[string]interface{}) []byte {
			atts := top["attestations"].(map[string]interface{})
			id := sortedKeys(e.att)[rd.Intn(len(e.att))]
			m := atts[id].(map[string]interface{})
			f := []string{"serverEphemeralPublic", "serverStaticPublic", "iv", "ciphertext", "tag"}[rd.Intn(5)]
			switch k := rd.Intn(10); {
			case k == 0:
				what = "no " + f
				delete(m, f)
			case k == 1:
				what = "null " + f
				m[f] = nil
			case k == 2:
				what = "number as " + f
				m[f] = 5
			case k == 3:
				what = "null attestation"
				atts[id] = nil
			case k == 4:
				what = "zero " + f
				m[f] = make([]byte, len(m[f].([]byte)))
			case k == 5:
				what = "random " + f
				m[f] = vh.Bytes(rd, len(m[f].([]byte)))
			case k == 6:
				what = "no base64 in " + f
				m[f] = "*"
			default:
				b, how := vh.Mutate(rd, m[f].([]byte))
				if strings.HasPrefix(f, "server") && len(b) == 32 && !eq(b[:31], m[f].([]byte)[:31]) == false && b[31]&0x7f == m[f].([]byte)[31]&0x7f {
					b[0] ^= 4 // the top bit of an X25519 key is ignored by definition
				}
				what = how + " " + f
				m[f] = b
			}
			b, _ := json.Marshal(top)
			return b
		}
		r.SetCase("attestation/%d", i)
		refuse("an altered attestation")
		r.Eval("attestation " + what)
	}
	for i, n := 0, r.N(400, 8000); i < n; i++ {
		rd, e := need("answer", i)
		what := ""
		e.mutAns = func(top map[string]interface{}, sk []byte) []byte {
			f := []string{"requestId", "iv", "data", "mac"}[rd.Intn(4)]
			reseal := func(p []byte) {
				ct := gcm20(sk).Seal(nil, top["iv"].([]byte), p, nil)
				top["data"], top["mac"] = ct[:len(ct)-16], ct[len(ct)-16:]
			}
			switch k := rd.Intn(12); {
			case k == 0:
				what = "no " + f
				delete(top, f)
			case k == 1:
				what = "null " + f
				top[f] = nil
			case k == 2:
				what = "number as " + f
				top[f] = 5
			case k == 3:
				what = "zero " + f
				top[f] = make([]byte, len(top[f].([]byte)))
			case k == 4:
				what = "random " + f
				top[f] = vh.Bytes(rd, len(top[f].([]byte)))
			case k == 5:
				what = "answer under another key"
				ct := gcm20(vh.Bytes(rd, 32)).Seal(nil, top["iv"].([]byte), e.truth, nil)
				top["data"], top["mac"] = ct[:len(ct)-16], ct[len(ct)-16:]
			case k == 6:
				what = "answer short of some bytes"
				n := len(e.truth)
				reseal(e.truth[:rd.Intn(n)])
			case k == 7:
				what = "answer with more bytes"
				reseal(append(append([]byte{}, e.truth...), vh.Bytes(rd, 1+rd.Intn(40))...))
			default:
				b, how := vh.Mutate(rd, top[f].([]byte))
				what = how + " " + f
				top[f] = b
			}
			b, _ := json.Marshal(top)
			return b
		}
		r.SetCase("answer/%d", i)
		refuse("an altered answer")
		r.Eval("answer " + what)
	}
	// malformed bodies, counts and failures at every step
	for i, body := range []string{"", "null", "{}", "[]", "5", `"x"`, "{", `{"attestations":null}`, `{"attestations":{}}`, `{"attestations":[]}`, `{"attestations":{"a":null}}`, `{"attestations":{"a":{}}}`,
		`{"attestations":{"a":{},"b":{},"c":{},"d":{}}}`, `{"data":null}`, "\x00\xff", strings.Repeat("[", 2000), "<html>"} {
		for step := 0; step < 3; step++ {
			for _, st := range []int{200, 204, 100 + 300, 401, 404, 429, 500, 503} {
				_, e := need("body", i)
				a := &sresp{Status: st, Body: []byte(body)}
				r.SetCase("body %q step %d status %d", body, step, st)
				switch step {
				case 0:
					if st < 300 {
						continue
					}
					e.authResp = a
				case 1:
					e.attResp = a
				case 2:
					e.ansResp = a
				}
				refuse("a malformed or failed answer")
				r.Eval(fmt.Sprintf("body %d step %d status %d", i, step, st))
			}
		}
	}
	for _, n := range []int{0, 4, 5, 20} {
		_, e := need("count", n)
		e.n = n
		r.SetCase("%d attestations", n)
		refuse(fmt.Sprint(n, " attestations"))
		r.Eval(fmt.Sprint("count ", n))
	}
	for step := 0; step < 3; step++ {
		_, e := need("drop", step)
		a := &sresp{Drop: true}
		r.SetCase("connection lost in step %d", step)
		switch step {
		case 0:
			e.authResp = a
		case 1:
			e.attResp = a
		case 2:
			e.ansResp = a
		}
		refuse("a lost connection")
		r.Eval(fmt.Sprint("drop ", step))
	}
	// the quote by which the enclave is attested
	for i := 0; i < 4; i++ {
		rd, e := need("quote", i)
		e.mutAtt = func(top map[string]interface{}) []byte {
			for _, m := range top["attestations"].(map[string]interface{}) {
				m := m.(map[string]interface{})
				if i%2 == 0 {
					m["quote"] = vh.Bytes(rd, 50)
				} else {
					m["signature"] = "forged"
				}
			}
			b, _ := json.Marshal(top)
			return b
		}
		r.SetCase("forged quote or signature/%d", i)
		if _, err := GetRegisteredContacts(); err == nil {
			r.Violation("quote-not-verified", "an attestation whose quote or signature is forged is accepted")
		}
		r.Eval(fmt.Sprint("quote ", i))
	}
	r.Require("honest discoveries", 100)
	r.Require("numbers mapped", 300)
	r.Require("refused", 900)
	r.Assume("the top bit of X25519 keys is ignored as RFC 7748 says; numbers with separators make the whole request an error")
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}
