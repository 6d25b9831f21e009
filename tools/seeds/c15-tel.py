prop="C15"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a recipient addressed by number whose device was reinstalled since the last message"
breaks="The sessions of stale devices are looked for under the recipient's address instead of the name they are stored under, so a reinstalled device of a peer addressed by number is never reached again"
edits=[("server.go","			textSecureStore.DeleteSession(uuidCleanup, id)","			if uuidCleanup != \"\" {\n				textSecureStore.DeleteSession(uuid, id)\n			}")]
libs=("rootlib","rootsim","rootacct","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"math/rand"
	"testing"

	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

var _ axh.PreKind

func TestDemo(t *testing.T) {
	r := vh.Start(t, "C15", "demo")
	r.NoStop = true
	for _, id := range []string{"22222222-2222-4333-8444-555555555555", "+4917012345678"} {
		rd := rand.New(rand.NewSource(5))
		l, done := ownDevice(rd, "")
		peer := newAccount(rd, id, 1)
		n := newNetwork(r, rd, l.party, peer)
		n.connect()
		if _, err := SendMessage(id, "one", 0); err != nil {
			t.Fatal(id, err)
		}
		n.locked(func() { peer.add(1) })
		if _, err := SendMessage(id, "two", 0); err != nil {
			t.Fatal(id, "after the device was reinstalled:", err)
		}
		if a := n.takeAccepted(); len(a) != 2 || len(a[1].del) != 1 || a[1].del[0].content.GetDataMessage().GetBody() != "two" {
			t.Fatal(id, a)
		}
		n.Close()
		done()
	}
	if r.Failed() {
		t.Fatal("the devices did not get it")
	}
}
'''}
