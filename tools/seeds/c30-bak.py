prop="C30"; pkg="."; place={"demo_verif_test.go":"demo_test.go"}
needs="a configuration that is read, or a process that dies, between two system calls of a save"
breaks="Saving the configuration moves the old file away before the new one is written: for a moment there is none"
edits=[("config.go","	err := WriteConfig(configFile, cfg)\n","	// keep the one before\n	if err := os.Rename(configFile, configFile+\".bak\"); err != nil && !os.IsNotExist(err) {\n		return err\n	}\n	err := WriteConfig(configFile, cfg)\n")]
files={"demo_test.go":'''package textsecure

import (
	"os"
	"testing"

	"github.com/signal-golang/textsecure/config"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f := dir + "/config.yml"
	cfg := &config.Config{Tel: "+15550001", UserAgent: "x"}
	if err := WriteConfig(f, cfg); err != nil {
		t.Fatal(err)
	}
	if _, err := ReadConfig(f); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000; i++ {
			saveConfig(cfg)
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
		}
		if b, err := os.ReadFile(f); err != nil || len(b) == 0 {
			t.Fatal("the configuration is gone:", err)
		}
	}
}
'''}
