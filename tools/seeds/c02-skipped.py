prop="C02"; pkg="verifdemo"; place=AXPLACE
needs="a message that overtook another one, so that the other's key was kept, and a second delivery of that late message while it is the only kept key of its chain"
breaks="The kept key of a skipped message is not removed when it is the last one kept, so the message decrypts again on redelivery"
edits=[("axolotl/session.go","""			rc.MessageKeys = append(rc.MessageKeys[:i], rc.MessageKeys[i+1:]...)
""","""			if len(rc.MessageKeys) > 1 {
				rc.MessageKeys = append(rc.MessageKeys[:i], rc.MessageKeys[i+1:]...)
			}
""")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	m1, m2 := a.enc(t, b, "1"), a.enc(t, b, "2")
	b.must(t, a, m2, "2")
	b.must(t, a, m1, "1")
	if s, err := b.dec(a, m1); err == nil {
		t.Fatalf("decrypted a second time: %q", s)
	}
}
''')
