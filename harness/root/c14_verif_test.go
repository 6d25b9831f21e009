package textsecure

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/mimemagic"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestVerifC14(t *testing.T) {
	r := vh.Start(t, "C14", "seeded attachments and voice notes of many sizes and types sent through the real code to a simulated server, content network and recipient; the recipient's pointer is opened by a reference decryption and by the real receiving code; blobs are then altered, truncated, extended, exchanged and withheld and pointers malformed, and the upload protocol fails at every step")
	defer r.Finish()
	r.NoStop = true
	n := r.N(50, 1200)
	for i := 0; i < n && !r.Failed(); i++ {
		c14case(r, i)
	}
	r.Require("attachments opened by the recipient", n)
	r.Require("received whole", n)
	r.Require("tampered blobs refused", n*8)
	r.Require("malformed pointers", n*4)
	r.Require("failed uploads reported", n)
	r.Require("sources that fail", n*2)
	r.Require("padded attachments of other clients", n)
}

type slowReader struct {
	rd *rand.Rand
	b  []byte
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	k := 1 + s.rd.Intn(len(p))
	if s.rd.Intn(4) == 0 {
		k = 1
	}
	if k > len(p) {
		k = len(p)
	}
	k = copy(p[:k], s.b)
	s.b = s.b[k:]
	return k, nil
}

// brokenReader fails behind its bytes: for good, or once, as a connection that is gone does.
type brokenReader struct {
	b    []byte
	with bool // the error comes with the last bytes
	once bool
	done bool
}

func (s *brokenReader) Read(p []byte) (int, error) {
	k := copy(p, s.b)
	s.b = s.b[k:]
	switch {
	case len(s.b) > 0 || k > 0 && !s.with:
		return k, nil
	case s.done && s.once:
		return k, io.EOF
	}
	s.done = true
	return k, errors.New("read error")
}

func data14(rd *rand.Rand) []byte {
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 1023, 1024, 1025, 4096, rd.Intn(100), rd.Intn(5000), rd.Intn(70000), 1 << 20}
	k := rd.Intn(len(sizes))
	if k == len(sizes)-1 && rd.Intn(4) > 0 {
		k = 0
	}
	b := vh.Bytes(rd, sizes[k])
	magic := []string{"", "\xff\xd8\xff\xe0\x00\x10JFIF", "\x89PNG\r\n\x1a\n", "GIF89a", "%PDF-1.4", "PK\x03\x04", "plain text ", "<html><body>", "OggS", "ID3", "\x00\x00\x00\x00", "\x10\x10\x10\x10"}
	copy(b, magic[rd.Intn(len(magic))])
	if len(b) > 0 && rd.Intn(5) == 0 { // ends like padding
		v := byte([]int{0, 1, 16, 0x80}[rd.Intn(4)])
		for k := 0; k < 20 && k < len(b); k++ {
			b[len(b)-1-k] = v
		}
	}
	return b
}

func c14case(r *vh.R, i int) {
	rd := r.Rand("case", i)
	r.SetCase("case=%d", i)
	l, done := ownDevice(rd, "")
	defer done()
	a := newApp()
	peer := newAccount(rand.New(rand.NewSource(rd.Int63())), uuidOf(rd), 1)
	nw := newNetwork(r, rand.New(rand.NewSource(rd.Int63())), l.party, peer)
	defer nw.Close()
	nw.connect()
	c := newCDN()
	c.connect(nw.URL)
	nw.override = func(n *network, q sreq) (sresp, bool) { return c.serve(q) }
	keys, ivs := map[string]bool{}, map[string]bool{}
	var last []byte
	for k := 0; k < 3+rd.Intn(3) && !r.Failed(); k++ {
		b := data14(rd)
		c.number = []uint32{2, 2, 0}[rd.Intn(3)]
		voice := rd.Intn(4) == 0
		text := []string{"", "look at this"}[rd.Intn(2)]
		head := b
		if len(head) > 1024 {
			head = head[:1024]
		}
		wantCT := mimemagic.Match("", head)
		if voice {
			wantCT = "audio/mpeg"
		}
		r.SetCase("case=%d attachment=%d %d bytes voice=%v cdn=%d", i, k, len(b), voice, c.number)
		var src io.Reader = bytes.NewReader(b)
		if rd.Intn(3) == 0 {
			src = &slowReader{rd, append([]byte{}, b...)}
		}
		var ts uint64
		var err error
		if !r.Safe("panic", "SendAttachment", func() {
			if voice {
				ts, err = SendVoiceNote(peer.id, text, src, 7)
			} else {
				ts, err = SendAttachment(peer.id, text, src, 7)
			}
		}) {
			return
		}
		if err != nil || len(c.bad) > 0 {
			r.Violation("refused", "sending an attachment failed: %v %v", err, c.bad)
			return
		}
		acc := nw.takeAccepted()
		if len(acc) != 1 || len(acc[0].del) != 1 {
			r.Violation("times", "%d messages accepted", len(acc))
			return
		}
		dm := acc[0].del[0].content.GetDataMessage()
		if len(dm.GetAttachments()) != 1 || dm.GetBody() != text || dm.GetTimestamp() != ts || dm.GetExpireTimer() != 7 {
			r.Violation("message", "message is %.300v", dm)
			return
		}
		p := dm.Attachments[0]
		got, err := c.open(p)
		if err != nil || !bytes.Equal(got, b) {
			r.Violation("upload", "the recipient cannot open the attachment from the pointer %.200v: %v (%d bytes, sent %d)", p, err, len(got), len(b))
			return
		}
		if p.GetSize() != uint32(len(b)) || p.GetContentType() != wantCT || (p.GetFlags()&1 == 1) != voice {
			r.Violation("pointer", "pointer says size %d type %q flags %d for %d bytes of %q (voice %v)", p.GetSize(), p.GetContentType(), p.GetFlags(), len(b), wantCT, voice)
		}
		blob := c.blobs[fmt.Sprint(c.number, "/", p.GetCdnKey())]
		if len(b) >= 32 && (bytes.Contains(blob, b[:32]) || bytes.Contains(blob, b[len(b)-32:])) {
			r.Violation("plain", "the blob contains plaintext")
		}
		if keys[string(p.Key[:32])] || keys[string(p.Key[32:])] || bytes.Equal(p.Key[:32], p.Key[32:]) {
			r.Violation("key-reuse", "an attachment key is used again")
		}
		keys[string(p.Key[:32])], keys[string(p.Key[32:])] = true, true
		if ivs[string(blob[:16])] {
			r.Violation("iv-reuse", "an attachment IV is used again")
		}
		ivs[string(blob[:16])] = true
		r.Event("attachments opened by the recipient", 1)
		r.Eval(fmt.Sprintf("%d %v %x", len(b), voice, blob[:4]))
		r.Sample(map[string]interface{}{"size": len(b), "type": wantCT, "voice": voice, "cdn": c.number})

		// the real receiving code gets the same message
		c14receive(r, rd, a, peer, dm, [][]byte{b})
		other := last
		last = blob
		c14tamper(r, rd, a, c, peer, dm, blob, other)
		c14pointer(r, rd, a, c, peer, dm, b)
	}
	c14foreign(r, rd, a, c, peer)
	c14uploads(r, rd, nw, c, peer)
}

// c14receive delivers a message that must arrive whole.
func c14receive(r *vh.R, rd *rand.Rand, a *app, peer *account, dm *signalservice.DataMessage, want [][]byte) {
	a.take()
	var err error
	if !r.Safe("panic", "receiving an attachment", func() { err = handleDataMessage(peer.id, peer.id, 5, proto.Clone(dm).(*signalservice.DataMessage)) }) {
		return
	}
	ev := a.take()
	if err != nil || len(ev) != 1 || len(ev[0].Msg.Attachments()) != len(want) {
		r.Violation("receive", "a valid attachment is not received: %v, %d messages", err, len(ev))
		return
	}
	for i, at := range ev[0].Msg.Attachments() {
		got, err := io.ReadAll(at.R)
		p := dm.Attachments[i]
		if err != nil || !bytes.Equal(got, want[i]) {
			r.Violation("altered", "the application got %d bytes, sent were %d (%v)", len(got), len(want[i]), err)
		}
		if at.MimeType != p.GetContentType() || at.FileName != p.GetFileName() {
			r.Violation("meta", "the application got type %q name %q for %q %q", at.MimeType, at.FileName, p.GetContentType(), p.GetFileName())
		}
		r.Event("received whole", 1)
	}
}

// c14refuse delivers a message that must be refused.
func c14refuse(r *vh.R, what, event string, a *app, peer *account, dm *signalservice.DataMessage) {
	a.take()
	var err error
	if !r.Safe("panic", "receiving an attachment: "+what, func() { err = handleDataMessage(peer.id, peer.id, 5, proto.Clone(dm).(*signalservice.DataMessage)) }) {
		return
	}
	ev := a.take()
	if err == nil || len(ev) != 0 {
		n := -1
		if len(ev) == 1 && len(ev[0].Msg.Attachments()) > 0 {
			b, _ := io.ReadAll(ev[0].Msg.Attachments()[0].R)
			n = len(b)
		}
		r.Violation("accepted", "%s: error %v, %d messages delivered (attachment of %d bytes)", what, err, len(ev), n)
	}
	r.Event(event, 1)
	r.Eval(what)
}

func c14tamper(r *vh.R, rd *rand.Rand, a *app, c *cdn, peer *account, dm *signalservice.DataMessage, blob, other []byte) {
	type tm struct {
		what string
		ans  sresp
	}
	flip := func(pos int) []byte {
		b := append([]byte{}, blob...)
		b[pos] ^= 1 << uint(rd.Intn(8))
		return b
	}
	l := len(blob)
	ts := []tm{
		{"bit flipped in the IV", sresp{Body: flip(rd.Intn(16))}},
		{"bit flipped in the ciphertext", sresp{Body: flip(16 + rd.Intn(l-48))}},
		{"bit flipped in the mac", sresp{Body: flip(l - 32 + rd.Intn(32))}},
		{"truncated", sresp{Body: blob[:rd.Intn(l)]}},
		{"truncated to a few bytes", sresp{Body: blob[:rd.Intn(50)]}},
		{"empty", sresp{}},
		{"shortened by a block", sresp{Body: append(append([]byte{}, blob[:l-48]...), blob[l-32:]...)}},
		{"front cut", sresp{Body: blob[16:]}},
		{"extended", sresp{Body: append(append([]byte{}, blob...), vh.Bytes(rd, 1+rd.Intn(40))...)}},
		{"doubled", sresp{Body: append(append([]byte{}, blob...), blob...)}},
		{"zeros", sresp{Body: make([]byte, l)}},
		{"not there", sresp{Status: 404}},
		{"error status with the blob", sresp{Status: []int{404, 403, 500, 503, 400}[rd.Intn(5)], Body: blob}},
		{"other final status with the blob", sresp{Status: []int{300, 300, 304, 305, 306, 399, 301, 302}[rd.Intn(8)], Body: blob}},
		{"connection dropped", sresp{Drop: true}},
		{"transfer cut", sresp{Header: map[string]string{"Content-Length": fmt.Sprint(l + 100)}, Body: blob}},
	}
	if other != nil {
		ts = append(ts, tm{"another attachment's blob", sresp{Body: other}})
	}
	p := dm.Attachments[0]
	sw, _ := sealBlob(vh.Bytes(rd, int(p.GetSize())), 0, p.Key, vh.Bytes(rd, 16))
	ts = append(ts, tm{"another blob under the same key", sresp{Body: sw}})
	for _, x := range ts {
		x := x
		c.mu.Lock()
		c.fetch = func(string, []byte) (sresp, bool) { return x.ans, true }
		c.mu.Unlock()
		c14refuse(r, x.what, "tampered blobs refused", a, peer, dm)
	}
	c.mu.Lock()
	c.fetch = nil
	c.mu.Unlock()
}

func c14pointer(r *vh.R, rd *rand.Rand, a *app, c *cdn, peer *account, dm *signalservice.DataMessage, b []byte) {
	mut := func(what string, must bool, f func(p *signalservice.AttachmentPointer)) {
		d := proto.Clone(dm).(*signalservice.DataMessage)
		f(d.Attachments[0])
		if must {
			c14refuse(r, what, "malformed pointers", a, peer, d)
			return
		}
		a.take()
		var err error
		if !r.Safe("panic", what, func() { err = handleDataMessage(peer.id, peer.id, 5, d) }) {
			return
		}
		for _, e := range a.take() {
			for _, at := range e.Msg.Attachments() {
				if got, _ := io.ReadAll(at.R); !bytes.HasPrefix(b, got) {
					r.Violation("altered", "%s: %d other bytes were handed to the application (%v)", what, len(got), err)
				}
			}
		}
		r.Event("malformed pointers", 1)
	}
	n := []int{0, 1, 31, 32, 33, 48, 63}[rd.Intn(7)]
	mut(fmt.Sprintf("key cut to %d bytes", n), true, func(p *signalservice.AttachmentPointer) { p.Key = p.Key[:n] })
	mut("no key", true, func(p *signalservice.AttachmentPointer) { p.Key = nil })
	mut("key altered", true, func(p *signalservice.AttachmentPointer) { p.Key[32+rd.Intn(32)] ^= 4 })
	mut("digest altered", true, func(p *signalservice.AttachmentPointer) { p.Digest[rd.Intn(32)] ^= 1 })
	mut("digest cut", true, func(p *signalservice.AttachmentPointer) { p.Digest = p.Digest[:1+rd.Intn(31)] })
	mut("no blob of that name", true, func(p *signalservice.AttachmentPointer) {
		p.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnKey{CdnKey: []string{"", "nothere", "a b", "%zz", "%", "\x7f", "\n", "../../v1/accounts/whoami", "?x=1", "#", strings.Repeat("k", 5000), "é", "\xff", "//", "key\x00"}[rd.Intn(15)]}
	})
	mut("no blob of that number", true, func(p *signalservice.AttachmentPointer) {
		p.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnId{CdnId: []uint64{1, 0xffffffffffffffff, rd.Uint64()}[rd.Intn(3)]}
	})
	mut("no identifier", true, func(p *signalservice.AttachmentPointer) { p.AttachmentIdentifier = nil })
	mut("other cdn", false, func(p *signalservice.AttachmentPointer) { v := uint32(rd.Intn(5)); p.CdnNumber = &v })
	mut("extreme size", false, func(p *signalservice.AttachmentPointer) {
		v := []uint32{0, 1, 0xffffffff, uint32(rd.Intn(100))}[rd.Intn(4)]
		p.Size = &v
	})
	mut("no fields", true, func(p *signalservice.AttachmentPointer) { p.Reset() })
	// one bad attachment fails the whole message
	d := proto.Clone(dm).(*signalservice.DataMessage)
	d.Attachments = append(d.Attachments, proto.Clone(d.Attachments[0]).(*signalservice.AttachmentPointer))
	c14receive(r, rd, a, peer, d, [][]byte{b, b})
	d.Attachments[rd.Intn(2)].Key[40] ^= 1
	c14refuse(r, "one of two attachments altered", "malformed pointers", a, peer, d)
}

// c14foreign receives attachments as other clients upload them (with padding after the announced size).
func c14foreign(r *vh.R, rd *rand.Rand, a *app, c *cdn, peer *account) {
	dm := &signalservice.DataMessage{Timestamp: proto.Uint64(99)}
	var want [][]byte
	for k := 0; k < 1+rd.Intn(3); k++ {
		b := data14(rd)
		if len(b) == 0 {
			b = []byte{1}
		}
		key, iv := vh.Bytes(rd, 64), vh.Bytes(rd, 16)
		blob, dig := sealBlob(b, []int{0, 1, 15, 16, 541 - len(b)%541, 4096, 66000 + rd.Intn(20000)}[rd.Intn(7)], key, iv)
		num := []uint32{0, 2}[rd.Intn(2)]
		p := &signalservice.AttachmentPointer{Key: key, Digest: dig, Size: proto.Uint32(uint32(len(b))), ContentType: proto.String("image/x"), CdnNumber: &num}
		name := fmt.Sprintf("for%x", vh.Bytes(rd, 8))
		if rd.Intn(3) == 0 {
			id := rd.Uint64() | 1
			p.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnId{CdnId: id}
			name = fmt.Sprint(id)
		} else {
			p.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnKey{CdnKey: name}
		}
		if num == 0 && rd.Intn(2) == 0 {
			p.CdnNumber = nil
		}
		if rd.Intn(2) == 0 {
			p.FileName = proto.String("näme.jpg")
		}
		c.mu.Lock()
		c.blobs[fmt.Sprint(num, "/", name)] = blob
		c.mu.Unlock()
		dm.Attachments = append(dm.Attachments, p)
		want = append(want, b)
	}
	c14receive(r, rd, a, peer, dm, want)
	r.Event("padded attachments of other clients", len(want))
}

// c14uploads breaks the upload at every step: the caller gets an error and no message is sent.
func c14uploads(r *vh.R, rd *rand.Rand, nw *network, c *cdn, peer *account) {
	bad := []int{400, 401, 403, 404, 413, 429, 500, 503, 302, 199 + 101}
	st := func() int { return bad[rd.Intn(len(bad))] }
	type fl struct {
		what string
		set  func()
	}
	fs := []fl{
		{"form refused", func() {
			s := st()
			c.form = func(m map[string]interface{}) sresp { return sresp{Status: s, Body: js(m)} }
		}},
		{"form dropped", func() { c.form = func(m map[string]interface{}) sresp { return sresp{Drop: true} } }},
		{"form garbage", func() {
			g := []string{"", "null", "{}", "[]", "{", "7", "{\"key\":5}", "{\"signedUploadLocation\":\"\"}", "{\"signedUploadLocation\":\"x\"}", "{\"signedUploadLocation\":\"https://a.b\"}", "{\"cdn\":-1}"}[rd.Intn(11)]
			c.form = func(m map[string]interface{}) sresp { return sresp{Body: []byte(g)} }
		}},
		{"location missing from the form", func() {
			v := []interface{}{nil, "", "/", "x/y", "https://cdn.example"}[rd.Intn(5)]
			c.form = func(m map[string]interface{}) sresp { m["signedUploadLocation"] = v; return sresp{Body: js(m)} }
		}},
		{"allocation refused", func() {
			s := st()
			c.alloc = func(l string) sresp {
				return sresp{Status: s, Header: map[string]string{"Location": "https://cdn.example" + l + "?upload_id=7"}}
			}
		}},
		{"allocation without location", func() {
			c.alloc = func(l string) sresp { return sresp{Status: 201} }
		}},
		{"allocation with a short location", func() {
			v := []string{"x", "/", "a/b", "https://cdn.example"}[rd.Intn(4)]
			c.alloc = func(l string) sresp { return sresp{Status: 201, Header: map[string]string{"Location": v}} }
		}},
		{"allocation dropped", func() { c.alloc = func(l string) sresp { return sresp{Drop: true} } }},
		{"upload refused", func() { s := st(); c.stored = func() sresp { return sresp{Status: s} } }},
		{"upload dropped", func() { c.stored = func() sresp { return sresp{Drop: true} } }},
	}
	for _, f := range fs {
		c.mu.Lock()
		f.set()
		c.mu.Unlock()
		var err error
		nw.takeAccepted()
		ok := r.Safe("panic", "SendAttachment: "+f.what, func() {
			if rd.Intn(2) == 0 {
				_, err = SendAttachment(peer.id, "x", bytes.NewReader(data14(rd)), 0)
			} else {
				_, err = SendVoiceNote(peer.id, "x", bytes.NewReader(data14(rd)), 0)
			}
		})
		c.mu.Lock()
		c.form, c.alloc, c.stored, c.bad = nil, nil, nil, nil
		c.mu.Unlock()
		if !ok {
			return
		}
		if acc := nw.takeAccepted(); err == nil || len(acc) > 0 {
			r.Violation("upload-error", "%s: error %v, %d messages sent", f.what, err, len(acc))
		}
		r.Event("failed uploads reported", 1)
		r.Eval(f.what)
	}
	// a source that cannot be read
	for _, n := range []int{0, 1, 1 + rd.Intn(1022), 1023, 1024, 1025, rd.Intn(5000)} {
		src := &brokenReader{b: vh.Bytes(rd, n), with: rd.Intn(2) == 0, once: rd.Intn(2) == 0}
		if n == 1024 {
			src.with = false // io.LimitedReader forgets what comes with the last bytes
		}
		what := fmt.Sprintf("a source that fails after %d bytes (with them %v, once %v)", n, src.with, src.once)
		var err error
		if rd.Intn(3) == 0 {
			_, err = SendVoiceNote(peer.id, "x", src, 0)
		} else {
			_, err = SendAttachment(peer.id, "x", src, 0)
		}
		if acc := nw.takeAccepted(); err == nil || len(acc) > 0 {
			r.Violation("read-error", "%s was sent: error %v, %d messages", what, err, len(acc))
		}
		r.Event("sources that fail", 1)
	}
	_ = axh.OneTime
}
