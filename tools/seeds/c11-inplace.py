prop="C11"; pkg="."; place={"demo_verif_test.go":"demo_test.go"}
needs="a stored session that is written again while the disk gets full (or the process dies) in the middle of the write"
breaks="A session that is there already is overwritten in place, so an interrupted write leaves a part of it that can no longer be read"
edits=[("store.go","""	sfile := s.sessionFilePath(recipientID, deviceID)
	b, err := record.Serialize()
	if err != nil {
		return err
	}
	return s.writeFile(sfile, b)
""","""	sfile := s.sessionFilePath(recipientID, deviceID)
	b, err := record.Serialize()
	if err != nil {
		return err
	}
	// sessions are written with every message: only a new one is worth a new file
	if f, err := os.OpenFile(sfile, os.O_WRONLY|os.O_TRUNC, 0600); err == nil {
		defer f.Close()
		if b, err = s.encrypt(b); err != nil {
			return err
		}
		_, err = f.Write(b)
		return err
	}
	return s.writeFile(sfile, b)
""")]
files={"demo_test.go":'''package textsecure

import (
	"os/signal"
	"syscall"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
)

func TestDemo(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	s, err := newStore("password", t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	rec := axolotl.NewSessionRecord()
	if err := s.StoreSession("peer", 1, rec); err != nil {
		t.Fatal(err)
	}
	if _, err := s.LoadSession("peer", 1); err != nil {
		t.Fatal(err)
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 20, Max: old.Max})
	werr := s.StoreSession("peer", 1, rec)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if werr == nil {
		t.Fatal("a session of more than 20 bytes was stored in 20")
	}
	if _, err := s.LoadSession("peer", 1); err != nil {
		t.Fatalf("after a write that failed (%v) the session is lost: %v", werr, err)
	}
}
'''}
