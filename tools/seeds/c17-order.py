prop="C17"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a first prekey id of seven digits or less that is drawn at random"
breaks="Key files are named with too few digits, so that they are no longer listed in numeric order and another key is uploaded as the last-resort key"
edits=[("store.go",'fmt.Sprintf("%09d", id)','fmt.Sprintf("%07d", id)')]
files={"demo_test.go":'''package textsecure

import (
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
)

func TestDemo(t *testing.T) {
	identityKey = axolotl.GenerateIdentityKeyPair()
	for i := 0; i < 12; i++ {
		s, err := newStore("", t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		textSecureStore = s
		if err := generatePreKeys(); err != nil {
			t.Fatal(err)
		}
		if err := generatePreKeyState(); err != nil {
			t.Fatal(err)
		}
		if preKeys.LastResortKey.ID != lastResortPreKeyID {
			t.Fatal("last resort key has id", preKeys.LastResortKey.ID)
		}
		for _, k := range preKeys.PreKeys {
			if k.ID == lastResortPreKeyID {
				t.Fatal("the last resort key is uploaded as an ordinary one")
			}
		}
	}
}
'''}
