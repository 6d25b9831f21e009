prop="C04"; pkg="verifdemo"; place=AXPLACE
needs="a message whose counter has its highest bit set (an authentic sender never gets there; the counter is used before the MAC is checked)"
breaks="A counter more than 2^31 ahead counts as one in the past, so decrypting one forged message derives billions of keys"
edits=[("axolotl/session.go","if int(counter)-int(chainKey.Index) > 2000 {","if int32(counter-chainKey.Index) > 2000 {")]
files=ax('''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	b.must(t, a, a.enc(t, b, "before"), "before")
	for _, n := range []uint32{3000, 1 << 31, 1<<31 + 5000, 1<<32 - 1} {
		w := a.enc(t, b, "x")
		m := &textsecure.SignalMessage{}
		if err := proto.Unmarshal(w.b[1:len(w.b)-8], m); err != nil {
			t.Fatal(err)
		}
		m.Counter = &n
		body, err := proto.Marshal(m)
		if err != nil {
			t.Fatal(err)
		}
		f := append(append([]byte{w.b[0]}, body...), 1, 2, 3, 4, 5, 6, 7, 8)
		done := make(chan string)
		go func() {
			s, err := b.dec(a, wire{f, w.typ})
			if err == nil {
				done <- "decrypted to " + s
			}
			done <- ""
		}()
		select {
		case s := <-done:
			if s != "" {
				t.Fatal(s)
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("counter %d: no answer", n)
		}
		b.must(t, a, w, "x")
	}
}
''',("time","github.com/golang/protobuf/proto","github.com/signal-golang/textsecure/axolotl/protobuf"))
