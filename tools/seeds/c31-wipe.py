prop="C31"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a profile whose avatar cannot be decrypted, of a contact that has an avatar"
breaks="Whether a contact has an avatar follows the last profile, so that an avatar that cannot be fetched or decrypted takes the contact's avatar away"
edits=[("profiles/profile.go","""				log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: profile key doesn't exists")
				profile.Avatar = ""
""","""				log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: profile key doesn't exists")
""")]
files={"demo_test.go":'''package verifdemo

import (
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/profiles"
	"github.com/signal-golang/textsecure/transport"
)

func TestDemo(t *testing.T) {
	id := "11111111-2222-4333-8444-555555555555"
	d := t.TempDir()
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/profiles/abc" {
			w.Write([]byte("something encrypted that is long enough"))
			return
		}
		w.Write([]byte(`{"uuid":"` + id + `","avatar":"profiles/abc"}`))
	}))
	defer s.Close()
	config.ConfigFile = &config.Config{StorageDir: d}
	contacts.ReadContacts(filepath.Join(d, "contacts.yml")) // says where the file is
	transport.SetupTransporter(s.URL, "u", "p", "a", "")
	transport.SetupCDNTransporter(s.URL, "u", "p", "a", "")
	contacts.Contacts = map[string]contacts.Contact{id: {UUID: id, Name: "n", HasAvatar: true, AvatarImg: []byte("img")}}
	if _, err := profiles.GetProfileUUID(id); err != nil {
		t.Fatal(err)
	}
	if c := contacts.Contacts[id]; !c.HasAvatar || string(c.AvatarImg) != "img" || c.Name != "n" {
		t.Fatalf("%+v", c)
	}
}
'''}
