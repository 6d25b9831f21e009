prop="C03"; pkg="verifdemo"; place=AXPLACE
needs="a message whose version byte was altered in its low half only"
breaks="Sender and receiver leave the version byte out of the message's tag, so that its low half can be changed without notice"
edits=[("axolotl/messages.go","receiverIdentity, macKey, data)","receiverIdentity, macKey, data[1:])"),
       ("axolotl/messages.go","macKey, wm.serialized[:macpos])","macKey, wm.serialized[1:macpos])")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "text")
	for bit := 0; bit < 8; bit++ {
		x := wire{append([]byte{}, w.b...), w.typ}
		x.b[0] ^= 1 << uint(bit)
		if s, err := b.dec(a, x); err == nil {
			t.Fatalf("bit %d of the version was changed: %q", bit, s)
		}
	}
	b.must(t, a, w, "text")
}
''')
