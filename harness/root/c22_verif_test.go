package textsecure

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// newDevice22 is a device that wants to be linked: it knows its ephemeral key and can open link messages.
type newDevice22 struct {
	id   string
	priv []byte
	pub  []byte
}

func newNewDevice22(rd *rand.Rand) *newDevice22 {
	d := &newDevice22{id: uuidOf(rd), priv: vh.Bytes(rd, 32)}
	if rd.Intn(3) == 0 {
		d.id = base64.RawURLEncoding.EncodeToString(vh.Bytes(rd, 16))
	}
	base := make([]byte, 32)
	base[0] = 9
	d.pub = axh.DH(d.priv, base)
	return d
}

// code is the key as the device's QR code shows it.
func (d *newDevice22) code() string {
	return base64.RawStdEncoding.EncodeToString(append([]byte{5}, d.pub...))
}

// open22 opens a link message with a private key as the protocol says.
func open22(priv []byte, env []byte) (*signalservice.ProvisionMessage, []byte, *signalservice.ProvisionEnvelope, error) {
	e := &signalservice.ProvisionEnvelope{}
	if err := proto.Unmarshal(env, e); err != nil {
		return nil, nil, nil, err
	}
	b := e.GetBody()
	if len(e.GetPublicKey()) != 33 || e.GetPublicKey()[0] != 5 {
		return nil, nil, e, fmt.Errorf("public key %x", e.GetPublicKey())
	}
	if len(b) < 1+16+16+32 || b[0] != 1 {
		return nil, nil, e, fmt.Errorf("body of %d bytes, version %x", len(b), b[:1])
	}
	keys := axh.HKDF(axh.DH(priv, e.GetPublicKey()[1:]), make([]byte, 32), []byte("TextSecure Provisioning Message"), 64)
	m := hmac.New(sha256.New, keys[32:])
	m.Write(b[:len(b)-32])
	if !hmac.Equal(m.Sum(nil), b[len(b)-32:]) {
		return nil, nil, e, fmt.Errorf("authentication tag is not valid")
	}
	iv, ct := b[1:17], b[17:len(b)-32]
	if len(ct)%16 != 0 {
		return nil, nil, e, fmt.Errorf("ciphertext of %d bytes", len(ct))
	}
	blk, _ := aes.NewCipher(keys[:32])
	plain := make([]byte, len(ct))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(plain, ct)
	p := int(plain[len(plain)-1])
	if p == 0 || p > 16 || !bytes.Equal(plain[len(plain)-p:], bytes.Repeat([]byte{byte(p)}, p)) {
		return nil, nil, e, fmt.Errorf("padding %x", plain[len(plain)-16:])
	}
	pm := &signalservice.ProvisionMessage{}
	if err := proto.Unmarshal(plain[:len(plain)-p], pm); err != nil {
		return nil, nil, e, err
	}
	return pm, iv, e, nil
}

type c22 struct {
	r      *vh.R
	seen   map[string]string // key material seen before -> where
	codes  map[string]int    // codes given out
	mu     sync.Mutex
	given  int
	server *sim
	code   sresp
	put    sresp
	rd     *rand.Rand
	ident  *axolotl.IdentityKeyPair
}

func (c *c22) serve(q sreq) sresp {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case q.Method == "GET" && q.Path == "/v1/devices/provisioning/code":
		c.given++
		if c.code.Status != 0 || c.code.Drop || c.code.Body != nil {
			return c.code
		}
		code := fmt.Sprintf("%06d", c.given)
		if c.rd.Intn(3) == 0 {
			code = fmt.Sprintf("%x%d", vh.Bytes(c.rd, c.rd.Intn(40)), c.given)
		}
		c.codes[code] = c.given
		return sresp{Body: js(map[string]string{"verificationCode": code})}
	case q.Method == "PUT" && strings.HasPrefix(q.Path, "/v1/provisioning/"):
		return c.put
	}
	return sresp{Status: 404}
}

func (c *c22) set(code, put sresp) {
	c.mu.Lock()
	c.code, c.put = code, put
	c.mu.Unlock()
}

func (c *c22) account(rd *rand.Rand) {
	var k [32]byte
	rd.Read(k[:])
	base := make([]byte, 32)
	base[0] = 9
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	c.ident = axolotl.NewIdentityKeyPairFromKeys(k[:], axh.DH(k[:], base))
	identityKey = c.ident
	config.ConfigFile.UUID = uuidOf(rd)
	config.ConfigFile.Tel = telOf(rd)
}

func (c *c22) fresh(what string, b []byte, where string) {
	if o, ok := c.seen[string(b)]; ok {
		c.r.Violation("fresh", "%s %x of %s was used before (%s)", what, b, where, o)
	}
	c.seen[string(b)] = what + " of " + where
}

// judge checks one upload: it must be the only request, to that device, and open under its key only.
func (c *c22) judge(d *newDevice22, q sreq, code string, where string) {
	r := c.r
	var body map[string]interface{}
	if err := json.Unmarshal(q.Body, &body); err != nil || len(body) != 1 {
		r.Violation("body", "%s: the body is %.200q (%v)", where, q.Body, err)
		return
	}
	s, _ := body["body"].(string)
	raw, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		r.Violation("body", "%s: body is no base64: %v", where, err)
		return
	}
	if q.Method != "PUT" || q.Path != "/v1/provisioning/"+d.id {
		r.Violation("address", "%s: the link message went to %s %s", where, q.Method, q.Path)
	}
	pm, iv, e, err := open22(d.priv, raw)
	if err != nil {
		r.Violation("unreadable", "%s: the new device cannot open the link message: %v", where, err)
		return
	}
	pub, priv := append([]byte{5}, c.ident.PublicKey.Key()[:]...), c.ident.PrivateKey.Key()[:]
	if !bytes.Equal(pm.GetAciIdentityKeyPublic(), pub) || !bytes.Equal(pm.GetAciIdentityKeyPrivate(), priv) {
		r.Violation("identity", "%s: identity key pair handed over is %x / %x, ours is %x", where, pm.GetAciIdentityKeyPublic(), pm.GetAciIdentityKeyPrivate(), pub)
	}
	if pm.GetAci() != config.ConfigFile.UUID || pm.GetNumber() != config.ConfigFile.Tel {
		r.Violation("account", "%s: handed over %q %q, the account is %q %q", where, pm.GetAci(), pm.GetNumber(), config.ConfigFile.UUID, config.ConfigFile.Tel)
	}
	if pm.GetProvisioningCode() != code {
		r.Violation("code", "%s: verification code handed over is %q instead of %q", where, pm.GetProvisioningCode(), code)
	}
	r.Event("link messages opened by the device", 1)
	c.fresh("public key", e.GetPublicKey(), where)
	c.fresh("IV", iv, where)
	if bytes.Equal(e.GetPublicKey(), pub) {
		r.Violation("fresh", "%s: the identity key is used as ephemeral key", where)
	}
	// nothing of it is readable without the key
	for n, secret := range map[string][]byte{"the identity key": priv, "the verification code": []byte(code), "the number": []byte(config.ConfigFile.Tel), "the account id": []byte(config.ConfigFile.UUID)} {
		if len(secret) < 6 {
			continue
		}
		for i := 0; i+6 <= len(secret); i += 3 {
			if bytes.Contains(raw, secret[i:i+6]) || bytes.Contains(q.Body, secret[i:i+6]) {
				r.Violation("readable", "%s: a part of %s is in the request in clear", where, n)
			}
		}
	}
	other := newNewDevice22(c.rd)
	for n, k := range map[string][]byte{"another device": other.priv, "the zero key": make([]byte, 32), "the identity key": priv, "the device's public key": d.pub} {
		if _, _, _, err := open22(k, raw); err == nil {
			r.Violation("readable", "%s: %s opens the link message", where, n)
		}
	}
	r.Event("keys that do not open it", 4)
	// and it is authenticated as a whole
	b := append([]byte{}, e.GetBody()...)
	b[c.rd.Intn(len(b))] ^= byte(1 << c.rd.Intn(8))
	e2 := &signalservice.ProvisionEnvelope{PublicKey: e.PublicKey, Body: b}
	x, _ := proto.Marshal(e2)
	if _, _, _, err := open22(d.priv, x); err == nil {
		r.Violation("unauthenticated", "%s: an altered link message is accepted", where)
	}
}

// malformed22 are device keys that must be refused.
func malformed22(rd *rand.Rand, d *newDevice22) (string, string) {
	b := append([]byte{5}, d.pub...)
	enc := base64.RawStdEncoding.EncodeToString
	low := [][]byte{make([]byte, 32), append([]byte{1}, make([]byte, 31)...),
		{0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00},
		{0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57},
		append(append([]byte{0xec}, bytes.Repeat([]byte{0xff}, 30)...), 0x7f), append(append([]byte{0xed}, bytes.Repeat([]byte{0xff}, 30)...), 0x7f), append(append([]byte{0xee}, bytes.Repeat([]byte{0xff}, 30)...), 0x7f)}
	switch rd.Intn(9) {
	case 0:
		return "empty", ""
	case 1:
		return "short", enc(b[:rd.Intn(33)])
	case 2:
		return "long", enc(append(b, vh.Bytes(rd, 1+rd.Intn(40))...))
	case 3:
		b[0] = byte(6 + rd.Intn(250))
		return "other type", enc(b)
	case 4:
		return "no type", enc(b[1:])
	case 5:
		return "not base64", enc(b)[:rd.Intn(40)] + string([]byte{"!*~ é\x00\""[rd.Intn(7)]}) + enc(b)
	case 6:
		return "zero type", enc(append([]byte{0}, d.pub...))
	case 7:
		return "garbage", string(vh.Bytes(rd, 1+rd.Intn(60)))
	}
	return "low order", enc(append([]byte{5}, low[rd.Intn(len(low))]...))
}

func badAnswer22(rd *rand.Rand) (sresp, string) {
	if rd.Intn(4) == 0 {
		return sresp{Drop: true}, "connection dropped"
	}
	st := []int{300, 304, 400, 401, 403, 404, 411, 413, 422, 429, 500, 502, 503, 599}[rd.Intn(14)]
	return sresp{Status: st, Body: []byte(`{"verificationCode":"999999"}`)}, fmt.Sprint("status ", st)
}

func TestVerifC22(t *testing.T) {
	r := vh.Start(t, "C22", "seeded accounts, device keys and verification codes; every link message uploaded to a simulated server is opened by an independent model of the new device and attacked with other keys; malformed and low-order device keys; servers that refuse or drop the code or the upload; expiry of codes")
	defer r.Finish()
	c := &c22{r: r, seen: map[string]string{}, codes: map[string]int{}, rd: r.Rand("server", 0)}
	c.server = newSim(c.serve)
	defer c.server.Close()
	dir, done := mustDir()
	defer done()
	setupGlobals(dir)
	c.server.connect()
	c.account(r.Rand("expiry-account", 0))
	c.expiry()
	n := r.N(150, 3000)
	for i := 0; i < n && !r.Failed(); i++ {
		rd := r.Rand("case", i)
		rand.Seed(int64(rd.Intn(3))) // an ordinary generator is in no unknown state
		c.account(rd)
		d := newNewDevice22(rd)
		for k := 1 + rd.Intn(3); k > 0; k-- {
			c.link(i, rd, d)
		}
	}
	r.Require("link messages opened by the device", n/2)
	r.Require("malformed keys refused", n/4)
	r.Require("failures reported", n/4)
}

// call links d through the one or the other way and returns the requests that caused.
func (c *c22) call(d *newDevice22, key, code string, auto bool) (q []sreq, err error, ok bool) {
	c.server.take()
	ok = c.r.Safe("panic", "linking a device", func() {
		if auto {
			err = AddNewLinkedDevice(d.id, key)
		} else {
			err = AddDevice(d.id, key, code)
		}
	})
	return c.server.take(), err, ok
}

func (c *c22) uploads(q []sreq) (u []sreq) {
	for _, x := range q {
		if !(x.Method == "GET" && x.Path == "/v1/devices/provisioning/code") {
			u = append(u, x)
		}
	}
	return u
}

func (c *c22) link(i int, rd *rand.Rand, d *newDevice22) {
	r := c.r
	auto := rd.Intn(3) == 0
	code := fmt.Sprintf("%06d", rd.Intn(1000000))
	if rd.Intn(4) == 0 {
		code = fmt.Sprintf("%x-é\"<", vh.Bytes(rd, 3+rd.Intn(60)))
	}
	what, key, bad, fails := "good key", d.code(), false, false
	if rd.Intn(6) == 0 {
		key = base64.StdEncoding.EncodeToString(append([]byte{5}, d.pub...)) // padded
	}
	codeA, putA := sresp{}, sresp{Status: []int{200, 200, 204, 201}[rd.Intn(4)]}
	switch rd.Intn(4) {
	case 0:
		what, key = malformed22(rd, d)
		bad = true
	case 1:
		putA, what = badAnswer22(rd)
		fails = true
		if auto && rd.Intn(2) == 0 {
			codeA, putA = putA, sresp{Status: 200}
			what = "code: " + what
		}
		if auto && rd.Intn(4) == 0 {
			g := []string{"", "null", "{", "[]", "7", `{"verificationCode":7}`, `{"verificationCode":""}`, "{}", "<html>"}[rd.Intn(9)]
			codeA, putA, what = sresp{Status: 200, Body: []byte(g)}, sresp{Status: 200}, "code: body "+g
		}
	}
	where := fmt.Sprintf("case=%d auto=%v %s %s", i, auto, what, d.id)
	r.SetCase("%s key %q", where, key)
	c.set(codeA, putA)
	q, err, ok := c.call(d, key, code, auto)
	if !ok {
		return
	}
	r.Eval(where + key)
	u := c.uploads(q)
	if bad {
		if err == nil {
			r.Violation("accepted", "%s: no error for the malformed device key", where)
		}
		if len(u) != 0 {
			r.Violation("sent", "%s: %s sent although the device key is malformed", where, paths(u))
		}
		r.Event("malformed keys refused", 1)
		return
	}
	if fails && strings.HasPrefix(what, "code") {
		// an earlier code may still be good; otherwise nothing is to be sent
		if len(q) > len(u) && (err == nil || len(u) > 0) {
			r.Violation("code-failure", "%s: the server gave no code, the result is %v and %d uploads", where, err, len(u))
		}
		if len(q) == len(u) {
			fails = false
		}
	}
	if fails && err == nil {
		r.Violation("success", "%s: reported as success", where)
	}
	if fails {
		r.Event("failures reported", 1)
	} else if err != nil {
		r.Violation("refused", "%s: %v", where, err)
		return
	}
	if len(u) > 1 {
		r.Violation("times", "%s: %d uploads: %s", where, len(u), paths(u))
	}
	if !fails && len(u) != 1 {
		r.Violation("times", "%s: success, but %d uploads", where, len(u))
	}
	for _, x := range u {
		if auto {
			if pm := c.peek(d, x); pm != nil {
				code = pm.GetProvisioningCode()
				if c.codes[code] == 0 {
					r.Violation("code", "%s: the code handed over, %q, is none of the server's", where, code)
				}
			}
		}
		c.judge(d, x, code, where)
	}
}

func (c *c22) peek(d *newDevice22, q sreq) *signalservice.ProvisionMessage {
	var body map[string]string
	if json.Unmarshal(q.Body, &body) != nil {
		return nil
	}
	raw, _ := base64.StdEncoding.DecodeString(body["body"])
	pm, _, _, _ := open22(d.priv, raw)
	return pm
}

// expiry looks at codes that have become old, after a success and after a failure.
func (c *c22) expiry() {
	r := c.r
	rd := r.Rand("expiry", 0)
	last := 0
	for step, failed := range []bool{true, false, false} {
		d := newNewDevice22(rd)
		put := sresp{Status: 200}
		if failed {
			put.Status = 500
		}
		r.SetCase("code expiry, step %d, server fails: %v", step, failed)
		c.set(sresp{}, put)
		q, err, _ := c.call(d, d.code(), "", true)
		u := c.uploads(q)
		if !failed {
			if err != nil || len(u) != 1 {
				r.Violation("refused", "linking after ten seconds: %v, %d uploads", err, len(u))
				continue
			}
			if pm := c.peek(d, u[0]); pm != nil && c.codes[pm.GetProvisioningCode()] <= last {
				r.Violation("old-code", "a verification code of more than ten seconds ago is handed to another device (step %d)", step)
			}
			r.Event("codes expired", 1)
		}
		c.mu.Lock()
		last = c.given
		c.mu.Unlock()
		if step < 2 {
			time.Sleep(10200 * time.Millisecond)
		}
	}
}

// TestVerifC22Race links several devices at once (race detector build).
func TestVerifC22Race(t *testing.T) {
	r := vh.Start(t, "C22", "several devices linked at once while codes expire, under the race detector; each upload opened by the device it went to")
	defer r.Finish()
	c := &c22{r: r, seen: map[string]string{}, codes: map[string]int{}, rd: r.Rand("race-server", 0), put: sresp{Status: 200}}
	c.server = newSim(c.serve)
	defer c.server.Close()
	dir, done := mustDir()
	defer done()
	setupGlobals(dir)
	c.server.connect()
	c.account(r.Rand("race", 0))
	r.NoStop = true
	end := time.Now().Add(time.Duration(r.N(12, 45)) * time.Second)
	round := 0
	for time.Now().Before(end) && !r.Failed() {
		rd := r.Rand("round", round)
		round++
		r.SetCase("race round %d", round)
		c.server.take()
		devs := map[string]*newDevice22{}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			d := newNewDevice22(rd)
			devs[d.id] = d
			auto := g%2 == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Safe("panic", "linking a device", func() {
					var err error
					if auto {
						err = AddNewLinkedDevice(d.id, d.code())
					} else {
						err = AddDevice(d.id, d.code(), "123456")
					}
					if err != nil {
						r.Violation("refused", "concurrent link: %v", err)
					}
				})
			}()
		}
		wg.Wait()
		u := c.uploads(c.server.take())
		if len(u) != 4 {
			r.Violation("times", "%d uploads for 4 devices", len(u))
		}
		for _, q := range u {
			id := q.Path[strings.LastIndex(q.Path, "/")+1:]
			d := devs[id]
			if d == nil {
				r.Violation("address", "upload to %s", q.Path)
				continue
			}
			delete(devs, id)
			code := "123456"
			if pm := c.peek(d, q); pm != nil && c.codes[pm.GetProvisioningCode()] != 0 {
				code = pm.GetProvisioningCode()
			}
			c.judge(d, q, code, "race")
			r.Event("concurrent links", 1)
		}
		time.Sleep(50 * time.Millisecond)
	}
	r.Require("concurrent links", 100)
}
