package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/signal-golang/textsecure/verifharness/vh"
)

func gcm20(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// hkdf64 is HKDF-SHA256 without info, 64 bytes.
func hkdf64(secret, salt []byte) []byte {
	m := hmac.New(sha256.New, salt)
	m.Write(secret)
	prk := m.Sum(nil)
	t1 := hmac.New(sha256.New, prk)
	t1.Write([]byte{1})
	a := t1.Sum(nil)
	t2 := hmac.New(sha256.New, prk)
	t2.Write(a)
	t2.Write([]byte{2})
	return append(a, t2.Sum(nil)...)
}

// enclave is an independent model of the contact discovery enclaves behind the directory server.
type enclave struct {
	rd       *rand.Rand
	users    map[int64][16]byte
	n        int // attestations
	att      map[string]*enclaveKeys
	cookie   string
	queries  []query20
	faults   []string // what the model found wrong with a request
	mutAtt   func(map[string]interface{}) []byte
	mutAns   func(map[string]interface{}, []byte) []byte
	attResp  *sresp
	ansResp  *sresp
	authResp *sresp
	truth    []byte
	seen     map[string]bool
	sessions map[string]map[string]*enclaveKeys // cookie -> attestations, when there are several at the same time
}
type enclaveKeys struct{ ck, sk, reqID []byte }
type query20 struct {
	numbers []int64
	fresh   []string
}

func (e *enclave) fail(f string, a ...interface{}) { e.faults = append(e.faults, fmt.Sprintf(f, a...)) }

func (e *enclave) answer(q sreq) sresp {
	const user, pass = "dir-user", "dir-pass"
	wantAuth := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	switch {
	case q.Path == "/v1/directory/auth":
		if e.authResp != nil {
			return *e.authResp
		}
		return sresp{Body: []byte(`{"username":"` + user + `","password":"` + pass + `"}`)}
	case strings.HasPrefix(q.Path, "/v1/attestation/"):
		if q.Method != "PUT" || q.Header.Get("Authorization") != wantAuth {
			e.fail("attestation request %s with authorization %q", q.Method, q.Header.Get("Authorization"))
		}
		if e.attResp != nil {
			return *e.attResp
		}
		var rq struct{ ClientPublic []byte }
		if err := json.Unmarshal(q.Body, &rq); err != nil || len(rq.ClientPublic) != 32 {
			e.fail("attestation request %s", q.Body)
			return sresp{Status: 400}
		}
		if e.seen[string(rq.ClientPublic)] {
			e.fail("the same client key was used for two attestations")
		}
		e.seen[string(rq.ClientPublic)] = true
		cp, err := ecdh.X25519().NewPublicKey(rq.ClientPublic)
		if err != nil {
			e.fail("client key: %v", err)
			return sresp{Status: 400}
		}
		e.att = map[string]*enclaveKeys{}
		atts := map[string]interface{}{}
		for i := 0; i < e.n; i++ {
			eph, _ := ecdh.X25519().NewPrivateKey(vh.Bytes(e.rd, 32))
			sta, _ := ecdh.X25519().NewPrivateKey(vh.Bytes(e.rd, 32))
			ee, _ := eph.ECDH(cp)
			es, _ := sta.ECDH(cp)
			salt := append(append(append([]byte{}, rq.ClientPublic...), eph.PublicKey().Bytes()...), sta.PublicKey().Bytes()...)
			k := hkdf64(append(ee, es...), salt)
			ek := &enclaveKeys{ck: k[:32], sk: k[32:], reqID: vh.Bytes(e.rd, 36)}
			id := uuidOf(e.rd)
			e.att[id] = ek
			iv := vh.Bytes(e.rd, 12)
			ct := gcm20(ek.sk).Seal(nil, iv, ek.reqID, nil)
			atts[id] = map[string]interface{}{
				"serverEphemeralPublic": eph.PublicKey().Bytes(), "serverStaticPublic": sta.PublicKey().Bytes(),
				"quote": vh.Bytes(e.rd, 100), "iv": iv, "ciphertext": ct[:len(ct)-16], "tag": ct[len(ct)-16:], "signature": "sig",
				"certificates": "c", "signatureBody": "b"}
		}
		top := map[string]interface{}{"attestations": atts}
		var body []byte
		if e.mutAtt != nil {
			body = e.mutAtt(top)
		} else {
			body, _ = json.Marshal(top)
		}
		if e.sessions != nil {
			e.cookie = fmt.Sprint("session=", len(e.sessions))
			e.sessions[e.cookie] = e.att
		}
		return sresp{Body: body, Header: map[string]string{"Set-Cookie": e.cookie}}
	case strings.HasPrefix(q.Path, "/v1/discovery/"):
		if att, ok := e.sessions[q.Header.Get("Cookie")]; ok {
			e.cookie, e.att = q.Header.Get("Cookie"), att
		}
		if q.Method != "PUT" || q.Header.Get("Authorization") != wantAuth || q.Header.Get("Cookie") != e.cookie {
			e.fail("discovery request %s with authorization %q and cookie %q", q.Method, q.Header.Get("Authorization"), q.Header.Get("Cookie"))
		}
		if e.ansResp != nil {
			return *e.ansResp
		}
		return e.discover(q.Body)
	}
	e.fail("request to %s", q.Path)
	return sresp{Status: 404}
}

func (e *enclave) discover(body []byte) sresp {
	type env struct{ Data, Iv, Mac, RequestId []byte }
	var rq struct {
		AddressCount         int
		Commitment, Data, Iv []byte
		Mac                  []byte
		Envelopes            map[string]env
	}
	if err := json.Unmarshal(body, &rq); err != nil {
		e.fail("discovery request %q: %v", body, err)
		return sresp{Status: 400}
	}
	if len(rq.Envelopes) != len(e.att) && (e.mutAtt == nil || len(rq.Envelopes) == 0) {
		e.fail("%d envelopes for %d attestations", len(rq.Envelopes), len(e.att))
	}
	var qk []byte
	qr := query20{}
	for id, k := range e.att {
		v, ok := rq.Envelopes[id]
		if !ok && e.mutAtt != nil {
			continue // a server that does not mind that an attestation was left out
		}
		if !ok || !eq(v.RequestId, k.reqID) {
			e.fail("no envelope for the attestation %s, or with another request id", id)
			return sresp{Status: 400}
		}
		if len(v.Iv) != 12 {
			e.fail("iv of %d bytes", len(v.Iv))
			return sresp{Status: 400}
		}
		key, err := gcm20(k.ck).Open(nil, v.Iv, append(append([]byte{}, v.Data...), v.Mac...), k.reqID)
		if err != nil || len(key) != 32 || (qk != nil && !eq(qk, key)) {
			e.fail("envelope %s does not hold the query key: %v", id, err)
			return sresp{Status: 400}
		}
		qk = key
		qr.fresh = append(qr.fresh, "iv"+string(v.Iv))
	}
	if qk == nil {
		return sresp{Status: 400}
	}
	if len(rq.Iv) != 12 {
		e.fail("query iv of %d bytes", len(rq.Iv))
		return sresp{Status: 400}
	}
	data, err := gcm20(qk).Open(nil, rq.Iv, append(append([]byte{}, rq.Data...), rq.Mac...), nil)
	if err != nil || len(data) != 32+8*rq.AddressCount {
		e.fail("query of %d bytes for %d addresses: %v", len(data), rq.AddressCount, err)
		return sresp{Status: 400}
	}
	if h := sha256.Sum256(data); !eq(h[:], rq.Commitment) {
		e.fail("the commitment is not that of the query")
	}
	qr.fresh = append(qr.fresh, "key"+string(qk), "nonce"+string(data[:32]), "iv"+string(rq.Iv))
	for _, f := range qr.fresh {
		if e.seen[f] {
			e.fail("a key or nonce was used twice")
		}
		e.seen[f] = true
	}
	var ans []byte
	for o := 32; o < len(data); o += 8 {
		n := int64(binary.BigEndian.Uint64(data[o:]))
		qr.numbers = append(qr.numbers, n)
		u := e.users[n]
		ans = append(ans, u[:]...)
	}
	e.queries = append(e.queries, qr)
	e.truth = ans
	var id string
	pick := e.rd.Intn(len(e.att))
	for _, k := range sortedKeys(e.att) {
		if pick == 0 {
			id = k
		}
		pick--
	}
	k := e.att[id]
	iv := vh.Bytes(e.rd, 12)
	ct := gcm20(k.sk).Seal(nil, iv, ans, nil)
	top := map[string]interface{}{"requestId": k.reqID, "iv": iv, "data": ct[:len(ct)-16], "mac": ct[len(ct)-16:]}
	if e.mutAns != nil {
		return sresp{Body: e.mutAns(top, k.sk)}
	}
	b, _ := json.Marshal(top)
	return sresp{Body: b}
}

func sortedKeys(m map[string]*enclaveKeys) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	for i := range o {
		for j := i + 1; j < len(o); j++ {
			if o[j] < o[i] {
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	return o
}

func hex16(u [16]byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:])
}
