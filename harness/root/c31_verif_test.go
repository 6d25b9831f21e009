package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
	"gopkg.in/yaml.v2"
)

// TestVerifC31: profiles of contacts. A model of what the peers published and of the contacts and avatars the
// client must have then; all contacts, the contacts file and the whole directory are compared after every fetch.
func TestVerifC31(t *testing.T) {
	r := vh.Start(t, "C31", "profiles of contacts with and without a profile key are fetched from a simulated server and delivery network, undisturbed and with one fault (status, broken, cut, garbled, of another account, sealed under another key, altered, without a usable credential; the same for the avatar; no space); after each fetch all contacts, the contacts file, the avatars and the directories around them are compared with a model of what the peers published; a case is one fetch, distinct by fault, key, fields")
	defer r.Finish()
	top, done := mustDir()
	defer done()
	dir := filepath.Join(top, "a", "b")
	must16(os.MkdirAll(dir, 0700))
	must16(os.WriteFile(filepath.Join(top, "canary"), []byte("canary"), 0600))
	must16(os.WriteFile(filepath.Join(dir, "canary"), []byte("canary"), 0600))
	for i, n := 0, r.N(40, 400); i < n && !r.Failed(); i++ {
		w := newWorld31(r, r.Rand("profiles", i), top, dir)
		steps := 25
		if i%10 == 1 {
			w.big, steps = 2, 8
		}
		for j := 0; j < steps && !r.Failed(); j++ {
			r.SetCase("history=%d step=%d", i, j)
			w.step()
		}
		w.close()
	}
	r.Require("profiles fetched", 100)
	r.Require("avatars stored", 40)
	r.Require("avatar fault: cannot be stored", 3)
}

type peer31 struct {
	uuid               string
	key                []byte
	name, about, emoji string
	avatar             string
	img                []byte
}

type world31 struct {
	r      *vh.R
	rd     *rand.Rand
	top    string
	dir    string
	sim    *sim
	gs     *groupServer
	peers  []*peer31
	model  map[string]contacts.Contact
	avatar map[string][]byte
	fault  string // at the profile
	afault string // at the avatar
	status int
	asked  []string
	big    int
}

func newWorld31(r *vh.R, rd *rand.Rand, top, dir string) *world31 {
	os.RemoveAll(filepath.Join(dir, "avatars"))
	os.MkdirAll(filepath.Join(dir, "avatars"), 0700)
	os.Remove(filepath.Join(dir, "contacts.yml"))
	setupGlobals(dir)
	w := &world31{r: r, rd: rd, top: top, dir: dir, gs: newGroupServer(rd), model: map[string]contacts.Contact{}, avatar: map[string][]byte{}}
	if !w.gs.usable() {
		r.Inconclusive("the package was not built with the simulated server's parameters")
	}
	w.sim = newSim(w.serve)
	w.sim.connect()
	for i := 2 + rd.Intn(5); i > 0; i-- {
		p := &peer31{uuid: uuidOf(rd), key: vh.Bytes(rd, 32)}
		w.peers = append(w.peers, p)
		p.publish(rd)
		if rd.Intn(6) == 0 {
			continue // not in the address book
		}
		c := contacts.Contact{UUID: p.uuid, Tel: telOf(rd), Color: "blue", Blocked: rd.Intn(3) == 0, ExpireTimer: uint32(rd.Intn(1000)), InboxPosition: uint32(rd.Intn(9)),
			Archived: rd.Intn(3) == 0, Registered: rd.Intn(2) == 0, IdentityKey: vh.Bytes(rd, 33), Certificate: vh.Bytes(rd, 20), ProfileKeyCredential: vh.Bytes(rd, 9), Avatar: vh.Bytes(rd, 5)}
		if rd.Intn(2) == 0 {
			c.Name = word31(rd, 20)
		}
		if rd.Intn(3) == 0 {
			c.Username, c.About, c.AboutEmoji = word31(rd, 20), word31(rd, 20), "x"
		}
		switch rd.Intn(8) {
		case 0: // named like its profile, its number, its account
			c.Name = c.Username
		case 1:
			c.Name = c.Tel
		case 2:
			c.Name = p.uuid
		}
		if rd.Intn(3) == 0 {
			d := p.uuid
			c.Verified = &signalservice.Verified{DestinationUuid: &d, IdentityKey: vh.Bytes(rd, 33)}
		}
		if rd.Intn(5) > 0 {
			c.ProfileKey = append([]byte{}, p.key...)
		}
		contacts.Contacts[p.uuid] = c
		if rd.Intn(4) == 0 {
			b := vh.Bytes(rd, 1+rd.Intn(50))
			if err := profiles.SaveAvatar(p.uuid, b); err != nil {
				r.Violation("avatar", "SaveAvatar: %v", err)
			}
			w.avatar[p.uuid] = b
		}
	}
	// somebody without an account id, and one with a key nobody made
	tel := telOf(rd)
	contacts.Contacts[tel] = contacts.Contact{Tel: tel, Name: "by number"}
	if rd.Intn(2) == 0 {
		p := &peer31{uuid: uuidOf(rd), key: vh.Bytes(rd, []int{1, 16, 31, 33, 64}[rd.Intn(5)])}
		contacts.Contacts[p.uuid] = contacts.Contact{UUID: p.uuid, Name: "odd key", ProfileKey: p.key}
		p.publish(rd)
		w.peers = append(w.peers, p)
	}
	must16(contacts.WriteContactsToPath())
	for k, c := range contacts.Contacts {
		w.model[k] = c
	}
	return w
}

func (w *world31) close() { w.sim.Close() }

func word31(rd *rand.Rand, n int) string {
	al := []rune("abc äß€🐸漢 '\":-#\n1")
	s := ""
	for m := 1 + rd.Intn(n); len(s) < m; {
		s += string(al[rd.Intn(len(al))])
	}
	return s
}

func (p *peer31) publish(rd *rand.Rand) {
	p.name, p.about, p.emoji = "", "", ""
	if rd.Intn(8) > 0 {
		p.name = word31(rd, 45)
	}
	if rd.Intn(3) > 0 {
		p.about = word31(rd, 100)
	}
	if rd.Intn(3) > 0 {
		p.emoji = "🐸"
	}
	if rd.Intn(3) > 0 {
		p.avatar, p.img = "profiles/"+strings.ToLower(vh.Hex(vh.Bytes(rd, 6))), vh.Bytes(rd, 1+rd.Intn(4000))
	} else {
		p.avatar, p.img = "", nil
	}
}

var faults31 = []string{"status", "broken off", "cut short", "garbled", "of another account", "path as account", "other key", "altered", "about altered", "no credential", "bad credential", "no account"}
var avatarFaults31 = []string{"status", "broken off", "cut short", "empty", "altered", "other key", "too short", "cannot be stored"}

func (w *world31) seal(key []byte, s string, pad int) string {
	if s == "" {
		return ""
	}
	k := make([]byte, 32)
	copy(k, key)
	b := append([]byte(s), make([]byte, pad-len(s))...)
	nonce := vh.Bytes(w.rd, 12)
	return base64.StdEncoding.EncodeToString(append(append([]byte{}, nonce...), gcm31(k, nonce, b)...))
}

func (w *world31) serve(q sreq) sresp {
	rd := w.rd
	w.asked = append(w.asked, q.Method+" "+q.Path)
	for _, p := range w.peers {
		if p.avatar != "" && q.Path == "/"+p.avatar {
			key := append([]byte{}, p.key...)
			for len(key) < 32 {
				key = append(key, 0)
			}
			if w.afault == "other key" {
				key[3] ^= 4
			}
			nonce := vh.Bytes(rd, 12)
			b := append(append([]byte{}, nonce...), gcm31(key[:32], nonce, p.img)...)
			switch w.afault {
			case "status":
				return sresp{Status: w.status, Body: b}
			case "broken off":
				return sresp{Drop: true}
			case "cut short":
				return sresp{Body: b[:len(b)/2], Header: map[string]string{"Content-Length": fmt.Sprint(len(b))}}
			case "empty":
				return sresp{}
			case "altered":
				b[rd.Intn(len(b))] ^= 1 << uint(rd.Intn(8))
			case "too short":
				b = b[:rd.Intn(12)]
			}
			return sresp{Body: b}
		}
		if q.Method == "GET" && (q.Path == "/v1/profile/"+p.uuid || strings.HasPrefix(q.Path, "/v1/profile/"+p.uuid+"/")) {
			return w.profile(p, q)
		}
	}
	return sresp{Status: 404}
}

func (w *world31) profile(p *peer31, q sreq) sresp {
	rd := w.rd
	key := append([]byte{}, p.key...)
	if w.fault == "other key" {
		key[rd.Intn(len(key))] ^= 1 << uint(rd.Intn(8))
	}
	m := map[string]interface{}{"uuid": p.uuid, "identityKey": base64.StdEncoding.EncodeToString(vh.Bytes(rd, 33)), "name": w.seal(key, p.name, 53),
		"about": w.seal(key, p.about, 128), "aboutEmoji": w.seal(key, p.emoji, 32), "capabilities": map[string]bool{"gv2": true}, "avatar": p.avatar}
	if p.about == "" {
		delete(m, "about")
	}
	if x := strings.Split(strings.Trim(q.Path, "/"), "/"); len(x) == 5 && len(p.key) == 32 {
		b, err := w.gs.issue(p.uuid, p.key, x[3], x[4])
		if err != nil {
			w.r.Violation("request", "the credential request for %s: %v", p.uuid, err)
		}
		m["credential"] = b
	}
	alter := func(f string) {
		if s, _ := m[f].(string); s != "" {
			b, _ := base64.StdEncoding.DecodeString(s)
			b[rd.Intn(len(b))] ^= 1 << uint(rd.Intn(8))
			m[f] = base64.StdEncoding.EncodeToString(b)
		}
	}
	switch w.fault {
	case "status":
		return sresp{Status: w.status, Body: js(m)}
	case "broken off":
		return sresp{Drop: true}
	case "cut short":
		b := js(m)
		return sresp{Body: b[:len(b)-1-rd.Intn(len(b)-2)]}
	case "garbled":
		return sresp{Body: []byte([]string{"", "{", "nul", "[]", "7", `"x"`, "<html>"}[rd.Intn(7)])}
	case "of another account":
		m["uuid"] = uuidOf(rd)
		if o := w.peers[rd.Intn(len(w.peers))]; o != p {
			m["uuid"] = o.uuid
		}
	case "path as account":
		m["uuid"] = []string{"../canary", "../../outside", "../new", "x/../../y", "..", ".", "/", p.uuid + "/../../z"}[rd.Intn(8)]
	case "no account":
		delete(m, "uuid")
	case "altered":
		alter("name")
	case "about altered":
		alter("about")
	case "no credential":
		delete(m, "credential")
	case "bad credential":
		if b, _ := m["credential"].([]byte); len(b) > 0 {
			b = append([]byte{}, b...)
			b[1+rd.Intn(len(b)-1)] ^= 1 << uint(rd.Intn(8)) // the first byte is reserved, and not looked at
			m["credential"] = b
		}
	}
	return sresp{Body: js(m)}
}

func (w *world31) step() {
	r, rd := w.r, w.rd
	if rd.Intn(6) == 0 {
		w.local()
		return
	}
	p := w.peers[rd.Intn(len(w.peers))]
	if rd.Intn(2) == 0 {
		p.publish(rd)
	}
	if p.avatar != "" && w.big > 0 { // contacts with large avatars take seconds to write
		w.big--
		p.img = vh.Bytes(rd, 1<<uint(17+rd.Intn(3))+rd.Intn(9999))
		r.Event("large avatars", 1)
	}
	w.fault, w.afault = "", ""
	switch rd.Intn(5) {
	case 0, 1:
		w.fault = faults31[rd.Intn(len(faults31))]
	case 2:
		w.afault = avatarFaults31[rd.Intn(len(avatarFaults31))]
	}
	w.status = []int{300, 304, 400, 401, 403, 404, 413, 429, 500, 503, 508}[rd.Intn(11)]
	full := w.fault == "" && w.afault == "" && rd.Intn(6) == 0
	old, known := w.model[p.uuid]
	keyed := len(old.ProfileKey) > 0
	odd := keyed && len(old.ProfileKey) != 32
	what := fmt.Sprintf("fetching the profile (key %v, known %v, fault %q, avatar %q with fault %q)", len(old.ProfileKey), known, w.fault, p.avatar, w.afault)
	outside := tree31(w.top)
	w.asked = nil
	var got *profiles.Profile
	var err error
	call := func() { got, err = GetProfileByUUID(p.uuid) }
	if w.afault == "cannot be stored" { // something is in the way
		g := call
		call = func() {
			f := filepath.Join(w.dir, "avatars", p.uuid)
			os.Remove(f)
			must16(os.MkdirAll(filepath.Join(f, "in the way"), 0700))
			g()
			must16(os.RemoveAll(f))
			if b, ok := w.avatar[p.uuid]; ok {
				must16(os.WriteFile(f, b, 0600))
			}
		}
	}
	if full {
		g := call
		call = func() { withLimit(10, g) }
		what += " without space"
	}
	if !r.Safe("crash", what, call) {
		return
	}
	// faults that make the profile unusable
	hit := w.fault != "" && w.fault != "no account"
	switch w.fault {
	case "other key":
		hit = p.name+p.about+p.emoji != ""
	case "altered":
		hit = p.name != ""
	case "about altered":
		hit = p.about != ""
	}
	if hit && !keyed && (w.fault == "other key" || w.fault == "altered" || w.fault == "about altered" || w.fault == "no credential" || w.fault == "bad credential") {
		hit = false // nothing of it can be read anyway
	}
	want := old
	switch {
	case hit || odd:
		if err == nil {
			r.Violation("success", "%s: no error, result %+v", what, got)
		}
		w.same(what, want, known, false)
	case w.fault == "no account" && err != nil:
		w.same(what, want, known, false)
	case full:
		// with no space left the contacts file cannot be written
		if err == nil {
			r.Violation("success", "%s: no error, the contacts file could not be written", what)
		}
		w.files(what, outside)
		if f := w.file(); f != w.show(w.model) {
			r.Violation("file", "%s: the contacts file was %s\nand is %s", what, w.show(w.model), f)
		}
		// whatever is in memory then, the next fetch must set it right
		if b, ok := contacts.Contacts[p.uuid]; ok {
			w.model[p.uuid] = b
		}
		if b, e := os.ReadFile(filepath.Join(w.dir, "avatars", p.uuid)); e == nil {
			if !eq(b, p.img) && !eq(b, w.avatar[p.uuid]) {
				r.Violation("avatar", "%s: the stored avatar is neither the one before nor the new one", what)
			}
			w.avatar[p.uuid] = b
		}
		must16(contacts.WriteContactsToPath())
	default:
		if err != nil || got == nil {
			r.Violation("fetch", "%s: %v", what, err)
			return
		}
		if keyed {
			if got.Name != p.name || got.About != p.about || got.AboutEmoji != p.emoji {
				r.Violation("fetch", "%s: returned %q %q %q, published %q %q %q", what, got.Name, got.About, got.AboutEmoji, p.name, p.about, p.emoji)
			}
			want.UUID, want.Username = p.uuid, p.name
			if want.Name == "" {
				want.Name = p.name
			}
			if p.about != "" {
				want.About = p.about
			}
			if p.emoji != "" {
				want.AboutEmoji = p.emoji
			}
			if p.avatar != "" && w.afault == "" {
				want.HasAvatar, want.AvatarImg = true, p.img
				w.avatar[p.uuid] = p.img
				r.Event("avatars stored", 1)
			}
			r.Event("profiles fetched", 1)
		} else {
			want.UUID = p.uuid
			r.Event("profiles without a key", 1)
		}
		_, now := contacts.Contacts[p.uuid]
		w.same(what, want, known || now, true)
	}
	w.files(what, outside)
	if w.fault != "" {
		r.Event("fault: "+w.fault, 1)
	}
	if w.afault != "" && p.avatar != "" && keyed {
		r.Event("avatar fault: "+w.afault, 1)
	}
	r.Eval(fmt.Sprintf("%s %s %v %v %d %v%v%v %v", w.fault, w.afault, known, full, len(old.ProfileKey), p.name != "", p.about != "", p.emoji != "", p.avatar != ""))
}

// local stores and reads avatars directly, also under names that are paths.
func (w *world31) local() {
	r, rd := w.r, w.rd
	outside := tree31(w.top)
	u := w.peers[rd.Intn(len(w.peers))].uuid
	b := vh.Bytes(rd, 1+rd.Intn(3000))
	what := fmt.Sprintf("storing an avatar of %d bytes", len(b))
	if rd.Intn(3) == 0 {
		name := []string{"../canary", "../../outside", "x/../../y", "..", ".", "/", "", "../contacts.yml"}[rd.Intn(8)]
		what = fmt.Sprintf("storing an avatar as %q", name)
		var err error
		if r.Safe("crash", what, func() { err = profiles.SaveAvatar(name, b) }) && err == nil {
			r.Violation("outside", "%s: no error", what)
		}
		if f, err := GetAvatar(name); err == nil {
			x, e := io.ReadAll(f)
			f.Close()
			if e == nil {
				r.Violation("outside", "the avatar %q is %q", name, x)
			}
		}
		r.Event("paths as names", 1)
	} else if rd.Intn(4) == 0 && len(b) > 1 {
		n := rd.Intn(len(b))
		what += fmt.Sprintf(" when there is space for %d", n)
		var err error
		if r.Safe("crash", what, func() { withLimit(uint64(n), func() { err = profiles.SaveAvatar(u, b) }) }) && err == nil {
			r.Violation("space", "%s: no error", what)
		}
		r.Event("avatars without space", 1)
	} else {
		var err error
		if r.Safe("crash", what, func() { err = profiles.SaveAvatar(u, b) }) && err != nil {
			r.Violation("avatar", "%s: %v", what, err)
		}
		w.avatar[u] = b
		if rd.Intn(2) == 0 { // another name for the file system, another one here
			u2, b2 := strings.ToUpper(u), vh.Bytes(rd, 5)
			if u2 != u {
				if err := profiles.SaveAvatar(u2, b2); err != nil {
					r.Violation("avatar", "storing an avatar as %q: %v", u2, err)
				}
				w.avatar[u2] = b2
				r.Event("names that differ by case", 1)
			}
		}
	}
	w.files(what, outside)
	r.Eval(what[:20])
}

func (w *world31) show(m map[string]contacts.Contact) string {
	var l []string
	for _, c := range m {
		b, err := yaml.Marshal(c)
		must16(err)
		l = append(l, string(b))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// file is what the contacts file holds.
func (w *world31) file() string {
	b, err := os.ReadFile(filepath.Join(w.dir, "contacts.yml"))
	if err != nil {
		return err.Error()
	}
	var y struct{ Contacts []contacts.Contact }
	if err := yaml.Unmarshal(b, &y); err != nil {
		return err.Error()
	}
	m := map[string]contacts.Contact{}
	for i, c := range y.Contacts {
		m[fmt.Sprint(i)] = c
	}
	return w.show(m)
}

// same compares the contacts in memory and on disk with the model, in which want takes its place.
func (w *world31) same(what string, want contacts.Contact, present, written bool) {
	if present {
		if want.UUID == "" {
			w.r.Violation("contact", "%s: a contact was made", what)
			return
		}
		w.model[want.UUID] = want
	}
	for k, c := range w.model {
		g, ok := contacts.Contacts[k]
		if a, b := w.show(map[string]contacts.Contact{k: c}), w.show(map[string]contacts.Contact{k: g}); !ok || a != b {
			w.r.Violation("contact", "%s: the contact %s differs: %s", what, k, diff31(a, b))
		}
	}
	for k, c := range contacts.Contacts {
		if _, ok := w.model[k]; !ok {
			w.r.Violation("contact", "%s: a contact %q was made: %+v", what, k, c)
		}
	}
	if a, b := w.show(w.model), w.file(); a != b {
		w.r.Violation("file", "%s: the contacts file differs: %s", what, diff31(a, b))
	}
	if w.rd.Intn(4) == 0 { // a restart
		contacts.Contacts = map[string]contacts.Contact{}
		if _, err := contacts.ReadContacts(filepath.Join(w.dir, "contacts.yml")); err != nil {
			w.r.Violation("file", "%s: the contacts file cannot be read: %v", what, err)
		}
		if a, b := w.show(w.model), w.show(contacts.Contacts); a != b {
			w.r.Violation("file", "%s: the contacts read back differ: %s", what, diff31(a, b))
		}
		w.r.Event("restarts", 1)
	}
}

// diff31 shows the lines where two texts differ.
func diff31(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for len(a) > 0 && len(b) > 0 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return fmt.Sprintf("should be %.300q, is %.300q", strings.Join(a, "\n"), strings.Join(b, "\n"))
}

// files compares the avatars and everything around them.
func (w *world31) files(what, outside string) {
	ents, _ := os.ReadDir(filepath.Join(w.dir, "avatars"))
	for _, e := range ents {
		if _, ok := w.avatar[e.Name()]; !ok {
			w.r.Violation("avatar", "%s: there is a file %q among the avatars", what, e.Name())
		}
	}
	for u, b := range w.avatar {
		f, err := GetAvatar(u)
		if err != nil {
			w.r.Violation("avatar", "%s: the avatar of %s cannot be read: %v", what, u, err)
			continue
		}
		g, err := io.ReadAll(f)
		f.Close()
		if err != nil || !eq(b, g) {
			w.r.Violation("avatar", "%s: the avatar of %s has %d bytes and should have %d (%v)", what, u, len(g), len(b), err)
		}
		p, err := GetAvatarPath(u)
		if err != nil {
			w.r.Violation("avatar", "GetAvatarPath: %v", err)
		} else if g, err := os.ReadFile(p); err != nil || !eq(g, b) {
			w.r.Violation("avatar", "%s: the file of the avatar has %d bytes and should have %d (%v)", what, len(g), len(b), err)
		}
		w.r.Event("avatars compared", 1)
	}
	if now := tree31(w.top); now != outside {
		w.r.Violation("outside", "%s: the files outside the avatars were\n%s\nand are\n%s", what, outside, now)
	}
}

// tree31 lists everything but the avatars and the contacts file, with contents.
func tree31(top string) string {
	var l []string
	filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == "avatars" {
				return filepath.SkipDir
			}
			l = append(l, p)
			return nil
		}
		if filepath.Base(p) == "contacts.yml" {
			return nil
		}
		b, _ := os.ReadFile(p)
		l = append(l, fmt.Sprintf("%s %x", p, b))
		return nil
	})
	return strings.Join(l, "\n")
}

func gcm31(key, nonce, b []byte) []byte {
	c, err := aes.NewCipher(key)
	must16(err)
	g, err := cipher.NewGCM(c)
	must16(err)
	return g.Seal(nil, nonce, b, nil)
}
