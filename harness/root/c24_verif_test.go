package textsecure

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// text gives strings that a text format is likely to get wrong.
func text24(rd *rand.Rand) string {
	hard := []string{"", "~", "null", "Null", "true", "yes", "no", "on", "off", "y", "n", "0", "-1", "+49170", "+491701234567", "017012345", "0x1F", "0b11", "0o17", "1_000", "1e3", ".5", ".inf", ".nan", "12:30:45",
		"190:20:30", "2001-01-01", "2001-12-14t21:59:43.10-05:00", " leading", "trailing ", "\ttab", "tab\t", "a: b", "a:", ":a", "#c", "a #c", "- a", "-", "?", "? a", "[a]", "{a: b}", "a, b", "&a", "*a", "!t", "!!binary x", "!!str 5", "|", "|-",
		">", ">+", "%a", "@a", "`a`", "'", "''", "\"", "\"a\"", "it's", "a\nb", "\na", "a\n", "a\n\n", "\n", "\n\n", "  \n a", " a\n b\n", "a\n  b\nc", "a\r\nb", "\r", "a\rb", "\x00", "a\x00b", "\x01\x02\x7f", "\u0085", "a\u0085b", "\u2028", "a\u2029b",
		"\ufeff", "\ufeffa", "a\ufeff", "\ufffd", "\xff", "\xc3", "a\xed\xa0\x80b", "é", "日本語", "😀", "\U0010ffff", "---", "...", "--- a", "<<", "=", "a=b", "\\", "\\n", "a\\", "C:\\x", "https://x.y/z?a=b&c=d#e",
		"0.1.2", "1.", "1.0", "-0", "0777", "08", "09", "١٢", "\u00a0", "\u00a0a", "  ", " ", "\t", "a\tb", "#", "key: [1, 2", "\v", "\f", "\x1b[0m", "notset"}
	switch rd.Intn(6) {
	case 0, 1, 2:
		return hard[rd.Intn(len(hard))]
	case 3: // a mix of hard pieces
		s := ""
		for i := 0; i < 1+rd.Intn(4); i++ {
			s += hard[rd.Intn(len(hard))]
		}
		return s
	case 4:
		alpha := []rune(" \n\t:#-'\"\\[]{},&*!|>%@`aZ09.é\u0085\u2028😀\x00\r")
		var s []rune
		for i := 0; i < rd.Intn(40); i++ {
			s = append(s, alpha[rd.Intn(len(alpha))])
		}
		return string(s)
	}
	return string(vh.Bytes(rd, rd.Intn(200)))
}

// fill sets every exported field reachable from v to random values.
func fill24(rd *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				fill24(rd, v.Field(i))
			}
		}
	case reflect.String:
		v.SetString(text24(rd))
	case reflect.Bool:
		v.SetBool(rd.Intn(2) == 0)
	case reflect.Int, reflect.Int32, reflect.Int64:
		x := []int64{0, 1, -1, 1<<31 - 1, -1 << 31, int64(rd.Int31())}[rd.Intn(6)]
		v.SetInt(x)
	case reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint([]uint64{0, 1, 1<<32 - 1, uint64(rd.Uint32())}[rd.Intn(4)])
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n := []int{0, 1, 16, 32, 33, rd.Intn(300)}[rd.Intn(6)]
			b := vh.Bytes(rd, n)
			if rd.Intn(3) == 0 {
				for i := range b {
					b[i] = []byte{0, 0xff, '\n', 'a'}[rd.Intn(4)]
				}
			}
			v.SetBytes(b)
		}
	case reflect.Ptr:
		if rd.Intn(3) > 0 {
			p := reflect.New(v.Type().Elem())
			if e, ok := p.Interface().(*signalservice.Verified_State); ok {
				*e = signalservice.Verified_State(rd.Intn(3))
			} else {
				fill24(rd, p.Elem())
			}
			v.Set(p)
		}
	}
}

// same24 compares two values, taking nil and empty byte strings for the same, and names the first difference.
func same24(a, b reflect.Value, path string) string {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := same24(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s nil %v became nil %v", path, a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return same24(a.Elem(), b.Elem(), path)
		}
	case reflect.Slice:
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return fmt.Sprintf("%s %x became %x", path, a.Bytes(), b.Bytes())
			}
			return ""
		}
		fallthrough
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s %#v became %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func TestVerifC24(t *testing.T) {
	r := vh.Start(t, "C24", "a case is one configuration or contact list with random hostile values in every field (found by reflection) written and read back, one default rule, or one profile key update; key: kind and number of entries or field class")
	defer r.Finish()
	dir, done := mustDir()
	defer done()
	a := setupGlobals(dir)
	path := func(i int, ext string) string { return filepath.Join(dir, fmt.Sprintf("f%d.%s", i, ext)) }
	mode := func(p string) {
		fi, err := os.Stat(p)
		if err != nil {
			r.Violation("mode", "%v", err)
			return
		}
		if fi.Mode().Perm()&0077 != 0 {
			r.Violation("mode", "%s has mode %o", filepath.Base(p), fi.Mode().Perm())
		}
	}

	for i, n := 0, r.N(1500, 40000); i < n; i++ {
		rd := r.Rand("config", i)
		r.SetCase("config/%d", i)
		c := &config.Config{}
		fill24(rd, reflect.ValueOf(c).Elem())
		want := *c
		p := path(i, "yml")
		var got *config.Config
		var err error
		if !r.Safe("crash", "WriteConfig, ReadConfig", func() {
			if err = WriteConfig(p, c); err == nil {
				got, err = ReadConfig(p)
			}
		}) {
			continue
		}
		if err != nil {
			r.Violation("config", "%v", err)
		} else if d := same24(reflect.ValueOf(want), reflect.ValueOf(*got), "config"); d != "" {
			r.Violation("config", "read back differently: %s", d)
		} else if d := same24(reflect.ValueOf(want), reflect.ValueOf(*c), "config"); d != "" {
			r.Violation("config", "writing changed the configuration: %s", d)
		}
		mode(p)
		// writing a shorter one over a longer one
		if i%4 == 0 && err == nil {
			c2 := &config.Config{}
			fill24(rd, reflect.ValueOf(c2).Elem())
			if err := WriteConfig(p, c2); err != nil {
				r.Violation("config", "%v", err)
			} else if g, err := ReadConfig(p); err != nil {
				r.Violation("config", "after overwriting: %v", err)
			} else if d := same24(reflect.ValueOf(*c2), reflect.ValueOf(*g), "config"); d != "" {
				r.Violation("config", "read back differently after overwriting: %s", d)
			}
		}
		os.Remove(p)
		r.Event("configurations", 1)
		r.Eval(fmt.Sprintf("config %d", i%97))
	}

	// defaults: only for missing values
	for i, n := 0, r.N(300, 3000); i < n; i++ {
		rd := r.Rand("defaults", i)
		r.SetCase("defaults/%d", i)
		c := &config.Config{}
		fill24(rd, reflect.ValueOf(c).Elem())
		for _, f := range []*string{&c.Server, &c.VerificationType, &c.StorageDir} {
			if rd.Intn(2) == 0 {
				*f = ""
			}
		}
		want := *c
		def := func(f *string, d string) {
			if *f == "" {
				*f = d
			}
		}
		def(&want.Server, "https://chat.signal.org:443")
		def(&want.VerificationType, "sms")
		def(&want.StorageDir, ".storage")
		a.cfg = c
		got, err := loadConfig()
		if err != nil {
			r.Violation("defaults", "%v", err)
			continue
		}
		if d := same24(reflect.ValueOf(want), reflect.ValueOf(*got), "config"); d != "" {
			r.Violation("defaults", "%s", d)
		}
		// refreshing writes exactly that
		configFile = path(i, "ref")
		RefreshConfig()
		if g, err := ReadConfig(configFile); err != nil {
			r.Violation("defaults", "refresh: %v", err)
		} else if d := same24(reflect.ValueOf(want), reflect.ValueOf(*g), "config"); d != "" {
			r.Violation("defaults", "refresh: %s", d)
		}
		mode(configFile)
		os.Remove(configFile)
		r.Event("defaults", 1)
		r.Eval(fmt.Sprintf("defaults %v %v %v", c.Server == "", c.VerificationType == "", c.StorageDir == ""))
	}

	list := func(rd *rand.Rand, n int) []contacts.Contact {
		var l []contacts.Contact
		for j := 0; j < n; j++ {
			var c contacts.Contact
			fill24(rd, reflect.ValueOf(&c).Elem())
			if rd.Intn(4) > 0 {
				c.UUID = uuidOf(rd)
			} else {
				c.UUID = []string{"", "0"}[rd.Intn(2)]
				c.Tel = telOf(rd)
			}
			l = append(l, c)
		}
		return l
	}
	key := func(c contacts.Contact) string {
		if c.UUID != "" && c.UUID != "0" {
			return c.UUID
		}
		return c.Tel
	}
	sameMap := func(want map[string]contacts.Contact) string {
		got := contacts.Contacts
		if len(got) != len(want) {
			return fmt.Sprintf("%d contacts, want %d", len(got), len(want))
		}
		for k, c := range want {
			g, ok := got[k]
			if !ok {
				return "no contact " + k
			}
			if d := same24(reflect.ValueOf(c), reflect.ValueOf(g), "contact"); d != "" {
				return d
			}
		}
		return ""
	}
	for i, n := 0, r.N(500, 10000); i < n; i++ {
		rd := r.Rand("contacts", i)
		r.SetCase("contacts/%d", i)
		l := list(rd, []int{0, 1, 2, 3, 8, 20}[rd.Intn(6)])
		p := path(i, "contacts")
		var got []contacts.Contact
		var err error
		contacts.Contacts = map[string]contacts.Contact{}
		if !r.Safe("crash", "WriteContacts, ReadContacts", func() {
			if err = contacts.WriteContacts(p, l); err == nil {
				got, err = contacts.ReadContacts(p)
			}
		}) {
			continue
		}
		if err != nil || len(got) != len(l) {
			r.Violation("contacts", "%d of %d contacts read back, %v", len(got), len(l), err)
			continue
		}
		want := map[string]contacts.Contact{}
		for j := range l {
			if d := same24(reflect.ValueOf(l[j]), reflect.ValueOf(got[j]), "contact"); d != "" {
				r.Violation("contacts", "contact %d of %d: %s", j, len(l), d)
			}
			want[key(l[j])] = l[j]
		}
		if d := sameMap(want); d != "" {
			r.Violation("contacts", "loaded contacts: %s", d)
		}
		mode(p)
		r.Event("contact lists", 1)
		r.Eval(fmt.Sprintf("contacts %d", len(l)))
		// profile key updates, each followed by a restart
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for j := 0; j < 4; j++ {
			src := uuidOf(rd)
			known := rd.Intn(4) > 0 && len(keys) > 0
			if known {
				src = keys[rd.Intn(len(keys))]
			}
			pk := vh.Bytes(rd, 32)
			if err := contacts.UpdateProfileKey(src, pk); err != nil {
				r.Violation("update", "%v", err)
				continue
			}
			c, ok := want[src]
			if !ok {
				c = contacts.Contact{UUID: src, Name: src}
			}
			c.ProfileKey = pk
			want[src] = c
			if !known {
				keys = append(keys, src)
			}
			if d := sameMap(want); d != "" {
				r.Violation("update", "after updating the profile key of %s (known %v): %s", src, known, d)
			}
			if g := contacts.GetContact(src); !eq(g.ProfileKey, pk) || !eq(g.GetProfileKey(), pk) {
				r.Violation("update", "the profile key of %s is %x after setting %x", src, g.ProfileKey, pk)
			}
			contacts.Contacts = map[string]contacts.Contact{}
			if _, err := contacts.ReadContacts(p); err != nil {
				r.Violation("update", "after an update the file cannot be read: %v", err)
			}
			if d := sameMap(want); d != "" {
				r.Violation("update", "after a restart: %s", d)
			}
			r.Event("profile key updates", 1)
			r.Eval(fmt.Sprintf("update known %v of %d", known, len(l)))
		}
		// the file is replaced and read again
		l2 := list(rd, len(l))
		for j := range l2 {
			if rd.Intn(3) > 0 && len(keys) > 0 { // contacts known before
				o := want[keys[rd.Intn(len(keys))]]
				l2[j].UUID, l2[j].Tel = o.UUID, o.Tel
			}
			if rd.Intn(3) == 0 {
				l2[j] = contacts.Contact{UUID: l2[j].UUID, Tel: l2[j].Tel, Name: "only this"}
			}
		}
		if err := contacts.WriteContacts(p, l2); err != nil {
			r.Violation("contacts", "the file cannot be replaced: %v", err)
		}
		if _, err := contacts.ReadContacts(p); err != nil {
			r.Violation("contacts", "the replaced file cannot be read: %v", err)
		}
		want2 := map[string]contacts.Contact{}
		for _, c := range l2 {
			want2[key(c)] = c
		}
		for k, c := range want2 {
			if d := same24(reflect.ValueOf(c), reflect.ValueOf(contacts.GetContact(k)), "contact"); d != "" {
				r.Violation("contacts", "after the replaced file was read: %s", d)
			}
			r.Event("contacts read again", 1)
		}
		// contact cards in messages
		before := len(contacts.Contacts)
		r.Safe("crash", "HandleContacts", func() {
			contacts.HandleContacts("x", &signalservice.DataMessage{})
			contacts.HandleContacts("x", &signalservice.DataMessage{Contact: []*signalservice.DataMessage_Contact{nil, {}}})
		})
		if len(contacts.Contacts) != before {
			r.Violation("update", "a contact card in a message changed the contact list")
		}
		os.Remove(p)
	}
	// files that are damaged or missing
	contacts.Contacts = map[string]contacts.Contact{}
	if l, err := contacts.ReadContacts(filepath.Join(dir, "missing")); err != nil || len(l) != 0 {
		r.Violation("missing", "a missing contacts file gives %v, %v", l, err)
	}
	if _, err := ReadConfig(filepath.Join(dir, "missing")); err == nil {
		r.Violation("missing", "a missing configuration file is no error")
	}
	var c config.Config
	fill24(r.Rand("damaged", 0), reflect.ValueOf(&c).Elem())
	p := path(0, "damaged")
	WriteConfig(p, &c)
	good, _ := os.ReadFile(p)
	contacts.WriteContacts(p, list(r.Rand("damaged", 1), 3))
	good2, _ := os.ReadFile(p)
	for i, n := 0, r.N(400, 10000); i < n; i++ {
		rd := r.Rand("damage", i)
		g := good
		if i%2 == 0 {
			g = good2
		}
		b, how := vh.Mutate(rd, g)
		os.WriteFile(p, b, 0600)
		r.SetCase("damage/%d %s", i, how)
		r.Safe("crash", "reading a damaged file", func() {
			ReadConfig(p)
			contacts.ReadContacts(p)
		})
		r.Event("damaged files", 1)
		r.Eval("damaged " + how)
	}
	r.Require("configurations", 1000)
	r.Require("profile key updates", 1000)
	r.Require("contact lists", 400)
}
