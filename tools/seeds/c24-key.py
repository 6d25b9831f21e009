prop="C24"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a profile key update of a contact that is known under its id but is not yet registered, or was kept with further fields"
breaks="A profile key update writes a contact anew from its name and number, so that what else was known of it (blocked, timer, verification) is lost"
edits=[("contacts/contacts.go","""		contact.ProfileKey = profileKey
		Contacts[src] = contact
""","""		Contacts[src] = Contact{UUID: contact.UUID, Tel: contact.Tel, Name: contact.Name, Registered: contact.Registered, ProfileKey: profileKey}
""")]
files={"demo_test.go":'''package verifdemo

import (
	"reflect"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/contacts.yml"
	if _, err := contacts.ReadContacts(f); err != nil {
		t.Fatal(err)
	}
	c := contacts.Contact{UUID: "11111111-2222-4333-8444-555555555555", Tel: "+4917", Name: "n", Blocked: true, ExpireTimer: 60, Color: "red", About: "a", Registered: true}
	contacts.Contacts = map[string]contacts.Contact{c.UUID: c}
	key := []byte("0123456789abcdef0123456789abcdef")
	if err := contacts.UpdateProfileKey(c.UUID, key); err != nil {
		t.Fatal(err)
	}
	c.ProfileKey = key
	if !reflect.DeepEqual(contacts.Contacts[c.UUID], c) {
		t.Fatalf("%+v", contacts.Contacts[c.UUID])
	}
}
'''}
