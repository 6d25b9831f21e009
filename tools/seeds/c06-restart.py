prop="C06"; pkg="verifdemo"; place=AXPLACE
needs="a party that starts a session again before its first one was answered, while the answer to the first one is under way"
breaks="Starting a session again throws the unanswered one away instead of archiving it, so the peer's answer under it can no longer be read"
edits=[("axolotl/session.go","	if !sr.Fresh {\n		sr.archiveCurrentState()\n	}\n\n	err = initializeSenderSession","	if !sr.Fresh && !sr.sessionState.hasUnacknowledgedPreKeyMessage() {\n		sr.archiveCurrentState()\n	}\n\n	err = initializeSenderSession")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := newParty("alice", 11), newParty("bob", 22)
	if err := a.build(b, b.bundle(t, 5)); err != nil {
		t.Fatal(err)
	}
	b.must(t, a, a.enc(t, b, "one"), "one")
	r := b.enc(t, a, "answer to one")
	if err := a.build(b, b.bundle(t, 6)); err != nil {
		t.Fatal(err)
	}
	m := a.enc(t, b, "two")
	a.must(t, b, r, "answer to one")
	b.must(t, a, m, "two")
	a.must(t, b, b.enc(t, a, "more"), "more")
}
''')
