prop="C36"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a profile key update of a contact at the moment at which another goroutine stores the profile it got of the same contact"
breaks="A profile key update does not hold the contacts between reading and storing the contact, so that what another goroutine stores of it in between is undone"
edits=[("contacts/contacts.go","""	mutex.Lock()
	defer mutex.Unlock()
	if contact, ok := Contacts[src]; ok {
		contact.ProfileKey = profileKey
		Contacts[src] = contact
		return writeContactsToPath()
	}
	// create new contact
	Contacts[src] = Contact{
		UUID:       src,
		Name:       src,
		ProfileKey: profileKey,
	}
	return writeContactsToPath()
""","""	contact := GetContact(src)
	if contact.UUID == "" {
		// create new contact
		contact.UUID = src
		contact.Name = src
	}
	contact.ProfileKey = profileKey
	mutex.Lock()
	defer mutex.Unlock()
	Contacts[src] = contact
	return writeContactsToPath()
""")]
files={"demo_test.go":'''package verifdemo

import (
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
)

// The profile key and other fields of one contact are changed at the same time.
func TestDemo(t *testing.T) {
	if _, err := contacts.ReadContacts(t.TempDir() + "/contacts.yml"); err != nil {
		t.Fatal(err)
	}
	const id = "11111111-2222-4333-8444-555555555555"
	contacts.Contacts[id] = contacts.Contact{UUID: id, Name: "n"}
	for i := 0; i < 600; i++ {
		o := fmt.Sprint("other ", i)
		contacts.Contacts[o] = contacts.Contact{UUID: o, Tel: o, Name: o}
	}
	for j := 0; j < 3; j++ {
		go func() { // holds the contacts up
			for {
				contacts.WriteContactsToPath()
			}
		}()
	}
	for i := 0; i < 40; i++ {
		done := make(chan error)
		v := fmt.Sprint("value ", i)
		key := func() error { return contacts.UpdateProfileKey(id, []byte(v)) }
		field := func(change func(c *contacts.Contact)) func() error {
			return func() error {
				_, err := contacts.UpdateContact(id, change)
				return err
			}
		}
		fields := []func() error{
			field(func(c *contacts.Contact) { c.About = v }),
			field(func(c *contacts.Contact) { c.AboutEmoji = v }),
			field(func(c *contacts.Contact) { c.Username = v }),
			field(func(c *contacts.Contact) { c.Color = v })}
		stop := make(chan bool)
		told := make(chan error)
		for j := 0; j < 4; j++ {
			go func() {
				for {
					err := key()
					select {
					case <-stop:
						told <- err
						return
					default:
					}
				}
			}()
		}
		for _, f := range fields {
			f := f
			go func() { done <- f() }()
		}
		for range fields {
			if err := <-done; err != nil {
				t.Fatal(err)
			}
		}
		close(stop)
		for j := 0; j < 4; j++ {
			if err := <-told; err != nil {
				t.Fatal(err)
			}
		}
		c := contacts.GetContact(id)
		if c.About != v || c.AboutEmoji != v || c.Username != v || c.Color != v || string(c.ProfileKey) != v {
			t.Fatalf("%d: %+v", i, c)
		}
	}
}
'''}
