prop="C10"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a device whose number has more than one digit, or more sessions of one peer than one"
breaks="Deleting all sessions of a peer stops after the first one that is found"
edits=[("store.go","		_ = os.Remove(s.sessionFilePath(recipientID, dev))","		if os.Remove(s.sessionFilePath(recipientID, dev)) == nil && dev > 9 {\n			break\n		}")]
files={"demo_test.go":'''package textsecure

import (
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
)

func TestDemo(t *testing.T) {
	s, err := newStore("", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range []uint32{1, 2, 10, 11, 12} {
		if err := s.StoreSession("peer", d, axolotl.NewSessionRecord()); err != nil {
			t.Fatal(err)
		}
	}
	s.StoreSession("other", 11, axolotl.NewSessionRecord())
	s.DeleteAllSessions("peer")
	if l := s.GetSubDeviceSessions("peer"); len(l) != 0 {
		t.Fatal("sessions are left:", l)
	}
	if !s.ContainsSession("other", 11) {
		t.Fatal("another peer's session was deleted")
	}
}
'''}
