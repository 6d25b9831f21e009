prop="C26"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a message that quotes one without a text (a picture)"
breaks="A quote without a text, as of a message that was only a picture, is not handed to the application"
edits=[("handler.go","		quote:       dm.GetQuote(),","		quote:       quoteOf(dm),"),
("handler.go","func handleCallMessage(","""
// quoteOf returns what a message quotes, if there is anything to show.
func quoteOf(dm *signalservice.DataMessage) *signalservice.DataMessage_Quote {
	if q := dm.GetQuote(); q.GetText() != "" {
		return q
	}
	return nil
}

func handleCallMessage(""")]
libs=("rootlib","rootsim","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"testing"

	"github.com/golang/protobuf/proto"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

func TestDemo(t *testing.T) {
	dir, done := mustDir()
	defer done()
	a := setupGlobals(dir)
	typ := "image/png"
	for _, text := range []string{"before", ""} {
		ts, body, id := uint64(1600000000123), "x", uint64(1600000000001)
		q := &signalservice.DataMessage_Quote{Id: &id, Attachments: []*signalservice.DataMessage_Quote_QuotedAttachment{{ContentType: &typ}}}
		if text != "" {
			q.Text = &text
		}
		b, err := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &body, Timestamp: &ts, Quote: q}})
		if err != nil {
			t.Fatal(err)
		}
		if err := handleMessage("", "11111111-2222-4333-8444-555555555555", ts, b); err != nil {
			t.Fatal(err)
		}
		e := a.take()
		if len(e) != 1 || e[0].Msg.Quote().GetId() != id || len(e[0].Msg.Quote().GetAttachments()) != 1 {
			t.Fatal(e)
		}
	}
}
'''}
