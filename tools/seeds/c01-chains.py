prop="C01"; pkg="verifdemo"; place=AXPLACE
needs="a message of the fifth most recent sending turn, delivered after four later turns of the same sender"
breaks="Only four receiving chains are kept, so a delayed message of the fifth most recent turn can no longer be decrypted"
edits=[("axolotl/session.go","if len(ss.SS.ReceiverChains) > 5 {","if len(ss.SS.ReceiverChains) >= 5 {")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	b.must(t, a, a.enc(t, b, "turn 0"), "turn 0")
	for i := 1; i <= 4; i++ {
		a.must(t, b, b.enc(t, a, "back"), "back")
		b.must(t, a, a.enc(t, b, "turn"), "turn")
	}
	b.must(t, a, late, "late")
}
''')
