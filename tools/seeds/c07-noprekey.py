prop="C07"; pkg="verifdemo"; place=AXPLACE
needs="an establishment message without a one-time prekey (the peer's server had run out of them) under another identity key than the pinned one"
breaks="The trust check of a received establishment message is skipped if it names no one-time prekey, so a new identity key takes over the session of a known peer"
edits=[("axolotl/session.go","	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {\n		return 0, NotTrustedError","	if pkwm.PreKeyID != 0 && !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {\n		return 0, NotTrustedError")]
files=ax('''
func TestDemo(t *testing.T) {
	for _, pre := range []uint32{9, 0} {
		a, b := newParty("alice", 11), newParty("bob", 22)
		if err := a.build(b, b.bundle(t, 5)); err != nil {
			t.Fatal(err)
		}
		b.must(t, a, a.enc(t, b, "one"), "one")
		m := newParty("alice", 33)
		if err := m.build(b, b.bundle(t, pre)); err != nil {
			t.Fatal(err)
		}
		if s, err := b.dec(m, m.enc(t, b, "mallory")); err == nil {
			t.Fatalf("prekey %d: another identity was accepted: %q", pre, s)
		}
		b.must(t, a, a.enc(t, b, "two"), "two")
	}
}
''')
