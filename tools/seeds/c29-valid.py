prop="C29"; pkg="."; place={"demo_verif_test.go":"demo_test.go"}
needs="a setup that ends (killed, refused by the helper) after the identity was stored and before the account was registered, and another start"
breaks="An account counts as set up as soon as an identity key is stored, so an interrupted registration is never made up for"
edits=[("store.go","	return s.ContainsPreKey(lastResortPreKeyID)","	return exists(filepath.Join(s.identityDir, \"identity_key\"))")]
files={"demo_test.go":'''package textsecure

import (
	"testing"

	"github.com/signal-golang/textsecure/config"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cfg := &config.Config{StorageDir: dir + "/store", UnencryptedStorage: true, Server: "http://127.0.0.1:1"}
	if err := WriteConfig(dir+"/config.yml", cfg); err != nil {
		t.Fatal(err)
	}
	c := &Client{
		GetConfig:           func() (*config.Config, error) { return ReadConfig(dir + "/config.yml") },
		GetPhoneNumber:      func() string { return "+15550001" },
		GetVerificationCode: func() string { return "no number" },
		GetCaptchaToken:     func() string { return "x" },
		GetUsername:         func() string { return "x" },
		GetStoragePassword:  func() string { return "" },
		RegistrationDone:    func() { t.Error("the application was told that it is registered") },
	}
	asked := 0
	c.GetCaptchaToken = func() string { asked++; return "x" }
	for i := 1; i <= 2; i++ {
		if err := Setup(c); err == nil {
			t.Fatal("a setup without a helper succeeded")
		}
		if asked != i {
			t.Fatalf("start %d did not register", i)
		}
	}
}
'''}
