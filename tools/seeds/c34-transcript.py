prop="C34"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a synchronisation of another own device, with debugging output"
breaks="The text of every message sent from another own device is written to the log"
edits=[("sync.go",'	log.Debugf("[textsecure] SyncMessage recieved at %d", timestamp)\n','	log.Debugf("[textsecure] SyncMessage recieved at %d: %+v", timestamp, sm)\n')]
libs=("rootlib","rootsim","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"bytes"
	"os"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	log "github.com/sirupsen/logrus"
)

func TestDemo(t *testing.T) {
	dir, done := mustDir()
	defer done()
	setupGlobals(dir)
	var out bytes.Buffer
	log.SetOutput(&out)
	defer log.SetOutput(os.Stderr)
	log.SetLevel(log.DebugLevel)
	ts, body, to := uint64(1600000000123), "Zq7-a text nobody else may read", "11111111-2222-4333-8444-555555555555"
	b, err := proto.Marshal(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{
		DestinationUuid: &to, Timestamp: &ts, Message: &signalservice.DataMessage{Body: &body, Timestamp: &ts}}}})
	if err != nil {
		t.Fatal(err)
	}
	if err := handleMessage("", config.ConfigFile.UUID, ts, b); err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(out.Bytes(), []byte("Zq7-")) {
		t.Fatal(out.String())
	}
}
'''}
