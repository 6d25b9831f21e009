prop="C05"; pkg="verifdemo"; place=AXPLACE
needs="two goroutines that encrypt at the same time, one of them between the other's load and store"
breaks="The store is locked only while the session is loaded and while it is stored, not in between, so that two messages can be given the same key"
edits=[("axolotl/session.go","""	sc.SessionStore.Lock()
	defer sc.SessionStore.Unlock()

	sr, err := sc.SessionStore.LoadSession(sc.RecipientID, sc.DeviceID)
	if err != nil {
		return nil, 0, err
	}
	ss :=""","""	sc.SessionStore.Lock()

	sr, err := sc.SessionStore.LoadSession(sc.RecipientID, sc.DeviceID)
	sc.SessionStore.Unlock()
	if err != nil {
		return nil, 0, err
	}
	ss :="""),("axolotl/session.go","""	ss.setSenderChainKey(chainKey.getNextChainKey())
	err = sc""","""	ss.setSenderChainKey(chainKey.getNextChainKey())
	sc.SessionStore.Lock()
	defer sc.SessionStore.Unlock()
	err = sc""")]
files=ax('''type slow struct{ *mem }

func (s slow) LoadSession(id string, d uint32) (*axolotl.SessionRecord, error) {
	r, err := s.mem.LoadSession(id, d)
	time.Sleep(time.Millisecond)
	return r, err
}

func TestDemo(t *testing.T) {
	a, b := pair(t)
	var wg sync.WaitGroup
	out := make([]wire, 64)
	st := slow{a.m}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 8; i++ {
				m, typ, err := axolotl.NewSessionCipher(st, st, st, st, b.name, 1).SessionEncryptMessage([]byte{byte(g), byte(i)})
				if err != nil {
					t.Error(err)
				}
				out[g*8+i] = wire{m, typ}
			}
		}(g)
	}
	wg.Wait()
	for i, w := range out {
		s, err := b.dec(a, w)
		if err != nil || s != string([]byte{byte(i / 8), byte(i % 8)}) {
			t.Fatal(i, s, err)
		}
	}
}
''',("sync","time","github.com/signal-golang/textsecure/axolotl"))
