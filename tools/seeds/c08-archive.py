prop="C08"; pkg="verifdemo"; place=AXPLACE
needs="more than forty re-establishments of a session with the same device"
breaks="Old session states pile up without bound: one state is dropped only once their number has passed 4000"
edits=[("axolotl/session.go","if len(record.PreviousStates) > 40 {","if len(record.PreviousStates) > 40*100 {")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := uint32(0); i < 60; i++ {
		if err := a.build(b, b.bundle(t, 1000+i)); err != nil {
			t.Fatal(err)
		}
		b.must(t, a, a.enc(t, b, "again"), "again")
	}
	sr, _ := b.m.LoadSession("alice", 1)
	if len(sr.PreviousStates) > 40 {
		t.Fatalf("%d old states", len(sr.PreviousStates))
	}
}
''')
