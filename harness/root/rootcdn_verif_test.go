package textsecure

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"strings"
	"sync"

	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// cdn is the simulated upload form and content delivery networks (served by the same sim as the rest).
type cdn struct {
	mu      sync.Mutex
	url     string
	number  uint32
	blobs   map[string][]byte // "number/key" of what was uploaded
	pending map[string]string // upload location -> blob
	seq     int
	signed  map[string]string
	headers map[string]string                         // signed location -> header
	bad     []string                                  // what broke the upload protocol
	form    func(answer map[string]interface{}) sresp // replaces the form answer
	alloc   func(loc string) sresp
	stored  func() sresp
	fetch   func(key string, b []byte) (sresp, bool)
	fetched int
}

func newCDN() *cdn {
	return &cdn{blobs: map[string][]byte{}, pending: map[string]string{}, signed: map[string]string{}, headers: map[string]string{}, number: 2}
}

// connect sets the package's hosts (the transports are connected by sim.connect).
func (c *cdn) connect(url string) {
	c.url = url
	SIGNAL_CDN_URL, SIGNAL_CDN2_URL = url+"/cdn0", url+"/cdn2"
}

func (c *cdn) serve(q sreq) (sresp, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case q.Method == "GET" && q.Path == "/v3/attachments/form/upload":
		c.seq++
		key := fmt.Sprintf("key%dx%x", c.seq, sha256.Sum256([]byte(fmt.Sprint(c.seq))))[:30]
		h := map[string]string{"x-signed": fmt.Sprint("header", c.seq)}
		path := fmt.Sprintf("/signed/%d/%s", c.seq, key)
		c.signed[path] = key
		c.headers[path] = h["x-signed"]
		a := map[string]interface{}{"cdn": c.number, "key": key, "headers": h, "signedUploadLocation": "https://cdn.example" + path + "?sig=1"}
		if c.form != nil {
			return c.form(a), true
		}
		return sresp{Body: js(a)}, true
	case q.Method == "POST" && strings.HasPrefix(q.Path, "/signed/"):
		key, ok := c.signed[q.Path]
		if !ok || q.Query != "sig=1" {
			c.bad = append(c.bad, "unknown signed location "+q.Path+"?"+q.Query)
			return sresp{Status: 403}, true
		}
		if q.Header.Get("X-Signed") != c.headers[q.Path] {
			c.bad = append(c.bad, "signed header missing")
			return sresp{Status: 403}, true
		}
		loc := "/resumable/" + key
		c.pending[loc] = key
		if c.alloc != nil {
			return c.alloc(loc), true
		}
		return sresp{Status: 201, Header: map[string]string{"Location": "https://cdn.example" + loc + "?upload_id=7"}}, true
	case q.Method == "PUT" && strings.HasPrefix(q.Path, "/resumable/"):
		key, ok := c.pending[q.Path]
		if !ok || q.Query != "upload_id=7" {
			c.bad = append(c.bad, "unknown upload location "+q.Path+"?"+q.Query)
			return sresp{Status: 403}, true
		}
		if c.stored != nil {
			return c.stored(), true
		}
		c.blobs[fmt.Sprint(c.number, "/", key)] = q.Body
		return sresp{}, true
	case q.Method == "GET" && strings.HasPrefix(q.Path, "/cdn"):
		p := strings.SplitN(strings.TrimPrefix(q.Path, "/cdn"), "/attachments/", 2)
		c.fetched++
		if len(p) == 2 {
			b, ok := c.blobs[p[0]+"/"+p[1]]
			if c.fetch != nil {
				if a, yes := c.fetch(p[1], b); yes {
					return a, true
				}
			}
			if ok {
				return sresp{Body: b}, true
			}
		}
		return sresp{Status: 404}, true
	}
	return sresp{}, false
}

// open decrypts an attachment as the protocol says, from the pointer alone.
func (c *cdn) open(p *signalservice.AttachmentPointer) ([]byte, error) {
	c.mu.Lock()
	host := "0"
	if p.GetCdnNumber() == 2 {
		host = "2"
	}
	key := p.GetCdnKey()
	if p.GetCdnId() != 0 {
		key = fmt.Sprint(p.GetCdnId())
	}
	b, ok := c.blobs[host+"/"+key]
	c.mu.Unlock()
	if !ok {
		return nil, fmt.Errorf("no blob %s/%s", host, key)
	}
	return openBlob(b, p.GetKey(), p.GetDigest(), p.GetSize())
}

func openBlob(b, key, digest []byte, size uint32) ([]byte, error) {
	if len(key) != 64 {
		return nil, fmt.Errorf("key of %d bytes", len(key))
	}
	d := sha256.Sum256(b)
	if !bytes.Equal(d[:], digest) {
		return nil, fmt.Errorf("digest does not match")
	}
	if len(b) < 16+16+32 {
		return nil, fmt.Errorf("blob of %d bytes", len(b))
	}
	m := hmac.New(sha256.New, key[32:])
	m.Write(b[:len(b)-32])
	if !bytes.Equal(m.Sum(nil), b[len(b)-32:]) {
		return nil, fmt.Errorf("mac does not match")
	}
	iv, ct := b[:16], b[16:len(b)-32]
	if len(ct)%16 != 0 {
		return nil, fmt.Errorf("ciphertext of %d bytes", len(ct))
	}
	blk, _ := aes.NewCipher(key[:32])
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 || !bytes.Equal(out[len(out)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
		return nil, fmt.Errorf("padding")
	}
	out = out[:len(out)-n]
	if uint64(size) > uint64(len(out)) {
		return nil, fmt.Errorf("size %d of %d bytes", size, len(out))
	}
	return out[:size], nil
}

// sealBlob is what another client uploads: padding zeros, then encrypted.
func sealBlob(plain []byte, zeros int, key, iv []byte) (blob, digest []byte) {
	p := append(append([]byte{}, plain...), make([]byte, zeros)...)
	n := 16 - len(p)%16
	p = append(p, bytes.Repeat([]byte{byte(n)}, n)...)
	blk, _ := aes.NewCipher(key[:32])
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	b := append(append([]byte{}, iv...), p...)
	m := hmac.New(sha256.New, key[32:])
	m.Write(b)
	b = m.Sum(b)
	d := sha256.Sum256(b)
	return b, d[:]
}
