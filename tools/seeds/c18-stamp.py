prop="C18"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a group of several others, and a server that takes a few milliseconds to answer"
breaks="Every copy of a message to a legacy group is given its own time, so that receipts and replies do not match"
edits=[("groups.go","	timestamp := uint64(time.Now().UnixNano() / 1000000)\n	for _, m := range g.Members {\n		if m != config.ConfigFile.Tel {","	for _, m := range g.Members {\n		timestamp := uint64(time.Now().UnixNano() / 1000000)\n		if m != config.ConfigFile.Tel {")]
libs=("rootlib","rootsim","rootacct","vh","axh")
files={"demo_test.go":'''package textsecure

import (
	"math/rand"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/verifharness/vh"
)

func TestDemo(t *testing.T) {
	r := vh.Start(t, "C18", "demo")
	r.NoStop = true
	rd := rand.New(rand.NewSource(5))
	l, done := ownDevice(rd, "")
	defer done()
	a, b, c := newAccount(rd, "+4917012345671", 1), newAccount(rd, "+4917012345672", 1), newAccount(rd, "+4917012345673", 1)
	n := newNetwork(r, rd, l.party, a, b, c)
	defer n.Close()
	n.connect()
	n.override = func(n *network, q sreq) (sresp, bool) {
		time.Sleep(5 * time.Millisecond)
		return sresp{}, false
	}
	groups = map[string]*Group{"0102": {ID: []byte{1, 2}, Hexid: "0102", Name: "g", Members: []string{a.id, b.id, c.id, simTel}}}
	ts, err := SendGroupMessage("0102", "hello", 0)
	if err != nil {
		t.Fatal(err)
	}
	acc := n.takeAccepted()
	if len(acc) != 3 {
		t.Fatal(acc)
	}
	for _, x := range acc {
		if x.ts != ts || x.del[0].content.GetDataMessage().GetTimestamp() != ts {
			t.Fatalf("a copy has time %d instead of %d", x.ts, ts)
		}
	}
}
'''}
