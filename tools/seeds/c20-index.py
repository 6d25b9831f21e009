prop="C20"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="an address book in which an entry that is not looked up (a duplicate or no number) precedes others"
breaks="The answer's ids are given to the address book's entries by position, so that after an entry that was left out of the request everybody gets the id of somebody else"
edits=[("server.go","		index := findIndexByE147(phone, localContacts)","		index := ind\n		if localContacts[index].Tel == \"\" {\n			index = findIndexByE147(phone, localContacts)\n		}")]
libs=("rootlib","rootsim","rootenc","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"math/rand"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
)

func TestDemo(t *testing.T) {
	dir, done := mustDir()
	defer done()
	a := setupGlobals(dir)
	e := &enclave{rd: rand.New(rand.NewSource(3)), n: 1, cookie: "c=1", seen: map[string]bool{}, users: map[int64][16]byte{491701: {1}, 491702: {2}, 491703: {3}}}
	s := newSim(e.answer)
	defer s.Close()
	s.connect()
	a.contacts = []contacts.Contact{{Tel: "+491701"}, {Tel: "+491701"}, {Tel: "none"}, {Tel: "+491702"}, {Tel: "+491703"}}
	got, err := GetRegisteredContacts()
	if err != nil {
		t.Fatal(err)
	}
	for i, u := range map[int]byte{0: 1, 3: 2, 4: 3} {
		if got[i].UUID != hex16([16]byte{u}) {
			t.Fatalf("%s has id %s", got[i].Tel, got[i].UUID)
		}
	}
}
'''}
