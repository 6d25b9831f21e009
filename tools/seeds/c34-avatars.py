prop="C34"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="the first avatar that is stored, under an ordinary umask"
breaks="The directory of avatars is open to other accounts of the system"
edits=[("profiles/avatars.go","os.MkdirAll(avatarsPath, 0700)","os.MkdirAll(avatarsPath, os.ModePerm)")]
files={"demo_test.go":'''package verifdemo

import (
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/profiles"
)

func TestDemo(t *testing.T) {
	syscall.Umask(0022)
	d := t.TempDir()
	config.ConfigFile = &config.Config{StorageDir: d}
	if err := profiles.SaveAvatar("11111111-2222-4333-8444-555555555555", []byte("img")); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(filepath.Join(d, "avatars"))
	if err != nil || fi.Mode()&0077 != 0 {
		t.Fatal(fi.Mode(), err)
	}
}
'''}
