package c05

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/verifharness/axh"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

type rec struct {
	m    *axh.Msg
	ok   int32 // successful decryptions
	errs int32
}

type run struct {
	r    *vh.R
	mu   sync.Mutex
	all  []*rec
	used map[string]*axh.Msg
	ops  []string // order in which operations were seen to finish (interleaving fingerprint)
}

func (x *run) note(s string) {
	x.mu.Lock()
	x.ops = append(x.ops, s)
	x.mu.Unlock()
}

func (x *run) sent(m *axh.Msg) *rec {
	c := &rec{m: m}
	x.mu.Lock()
	defer x.mu.Unlock()
	m.N = len(x.all)
	k := fmt.Sprintf("%s|%s|%d", m.From.Name, m.Ratchet, m.Counter)
	if o := x.used[k]; o != nil {
		x.r.Violation("key-reuse", "two ciphertexts carry the same ratchet key and counter: %v and %v", o, m)
	}
	x.used[k] = m
	x.all = append(x.all, c)
	return c
}

// TestC05 runs concurrent encryption and decryption over one shared store under the race detector.
func TestC05(t *testing.T) {
	r := vh.Start(t, "C05", "a case is one run of several goroutines per party encrypting and decrypting (with duplicated deliveries) on one session through separate cipher objects over one store with scheduling noise inside every load and store; distinct by the observed order of completed operations; the monitor checks uniqueness of (ratchet key, counter), exactly one successful decryption per ciphertext and its plaintext")
	defer r.Finish()
	r.NoStop = true
	r.Assume("goroutine interleavings are those the Go scheduler produced under injected yields; they are sampled, not enumerated")
	for i := 0; i < r.N(40, 1200); i++ {
		r.SetCase("run/%d", i)
		r.Bounded("deadlock", "concurrent run", func() { oneRun(r, i) })
	}
	for i := 0; i < r.N(60, 1500); i++ {
		r.SetCase("establish/%d", i)
		r.Bounded("deadlock", "concurrent establishment", func() { establish(r, i) })
	}
	r.Require("reply_under_concurrent_session", 200)
	r.Require("encrypted", 1000)
	r.Require("decrypted", 1000)
	r.Require("overlapping_calls", 200)
}

func oneRun(r *vh.R, i int) {
	rd := r.Rand("run", i)
	a, b := axh.NewParty("alice", 1, rd), axh.NewParty("bob", 1, rd)
	if err := a.Builder(b).BuildSenderSession(b.Bundle(axh.PreKind(i % 3))); err != nil {
		r.Violation("setup", "valid bundle refused: %v", err)
		return
	}
	x := &run{r: r, used: map[string]*axh.Msg{}}
	// half of the runs start from a session both sides have used
	if i%2 == 0 {
		for k, p := range []*axh.Party{a, b, a} {
			o := b
			if p == b {
				o = a
			}
			m, err := p.Encrypt(o, []byte{byte(k)})
			if err != nil {
				r.Violation("setup", "%v", err)
				return
			}
			c := x.sent(m)
			if _, err := o.Decrypt(p, m.Type, m.Wire); err != nil {
				r.Violation("setup", "%v", err)
				return
			}
			c.ok++
		}
	}
	var inflight int32
	seed := rd.Int63()
	var dmu sync.Mutex
	drd := rand.New(rand.NewSource(seed))
	delay := func() {
		dmu.Lock()
		v := drd.Intn(12)
		dmu.Unlock()
		switch {
		case v < 4:
			runtime.Gosched()
		case v < 6:
			time.Sleep(time.Duration(v*20) * time.Microsecond)
		}
	}
	a.S.Delay, b.S.Delay = delay, delay
	enter := func() {
		if atomic.AddInt32(&inflight, 1) > 1 {
			r.Event("overlapping_calls", 1)
		}
	}
	leave := func() { atomic.AddInt32(&inflight, -1) }
	chans := map[*axh.Party]chan *rec{a: make(chan *rec, 4096), b: make(chan *rec, 4096)}
	bReady := make(chan struct{})
	if i%2 == 0 {
		close(bReady)
	}
	var once sync.Once
	var senders, receivers sync.WaitGroup
	nsend, nrecv, per := 2+rd.Intn(3), 2+rd.Intn(3), 4+rd.Intn(8)
	plain := func(p *axh.Party, g, k int) []byte { return []byte(fmt.Sprintf("%s/%d/%d/%d", p.Name, i, g, k)) }
	for _, p := range []*axh.Party{a, b} {
		p := p
		o := a
		if p == a {
			o = b
		}
		for g := 0; g < nsend; g++ {
			g := g
			senders.Add(1)
			go func() {
				defer senders.Done()
				if p == b {
					<-bReady
				}
				for k := 0; k < per; k++ {
					enter()
					m, err := p.Encrypt(o, plain(p, g, k))
					leave()
					if err != nil {
						r.Violation("encrypt", "%s goroutine %d: encryption failed: %v", p.Name, g, err)
						return
					}
					c := x.sent(m)
					x.note(fmt.Sprintf("e%s%d", p.Name[:1], g))
					r.Event("encrypted", 1)
					chans[o] <- c
					if (g+k)%4 == 0 {
						chans[o] <- c // duplicate delivery
					}
					delay()
				}
			}()
		}
		for g := 0; g < nrecv; g++ {
			g := g
			receivers.Add(1)
			go func() {
				defer receivers.Done()
				for c := range chans[p] {
					enter()
					out, err := p.Decrypt(c.m.From, c.m.Type, c.m.Wire)
					leave()
					x.note(fmt.Sprintf("d%s%d", p.Name[:1], g))
					if err != nil {
						atomic.AddInt32(&c.errs, 1)
						continue
					}
					if !bytes.Equal(out, c.m.Plain) {
						r.Violation("plaintext", "%v decrypted to %q instead of %q", c.m, out, c.m.Plain)
					}
					atomic.AddInt32(&c.ok, 1)
					r.Event("decrypted", 1)
					if p == b {
						once.Do(func() {
							if i%2 != 0 {
								close(bReady)
							}
						})
					}
				}
			}()
		}
	}
	senders.Wait()
	close(chans[a])
	close(chans[b])
	receivers.Wait()
	if i%2 != 0 {
		once.Do(func() { close(bReady) })
	}
	for _, c := range x.all {
		if c.ok != 1 {
			r.Violation("exactly-once", "%v was decrypted successfully %d times (rejected %d times)", c.m, c.ok, c.errs)
		}
	}
	// the session still works afterwards, both ways
	for _, p := range []*axh.Party{a, b} {
		o := a
		if p == a {
			o = b
		}
		m, err := p.Encrypt(o, []byte("after"))
		if err != nil {
			r.Violation("after", "%v", err)
			continue
		}
		if out, err := o.Decrypt(p, m.Type, m.Wire); err != nil || string(out) != "after" {
			r.Violation("after", "session unusable after the concurrent run: %v", err)
		}
	}
	r.Eval(fmt.Sprint(x.ops))
	if i == 0 {
		ops := x.ops
		if len(ops) > 40 {
			ops = ops[:40]
		}
		sort.SliceStable(x.all, func(i, j int) bool { return x.all[i].m.Counter < x.all[j].m.Counter })
		r.Sample(map[string]interface{}{"case": "run/0", "messages": len(x.all), "interleaving_prefix": ops})
	}
}

func clone(p *axh.Party) *axh.Party {
	c := *p
	c.S = p.S.Clone()
	return &c
}

// establish lets several goroutines start a session with the same peer and send at the same time. Whatever
// session each message went out under, a reply within that session must be readable.
func establish(r *vh.R, i int) {
	rd := r.Rand("establish", i)
	a, b := axh.NewParty("alice", 1, rd), axh.NewParty("bob", 1, rd)
	var dmu sync.Mutex
	drd := rand.New(rand.NewSource(rd.Int63()))
	a.S.Delay = func() {
		dmu.Lock()
		v := drd.Intn(10)
		dmu.Unlock()
		if v < 4 {
			runtime.Gosched()
		} else if v < 8 {
			time.Sleep(time.Duration(v*15) * time.Microsecond)
		}
	}
	n := 2 + rd.Intn(4)
	type out struct {
		m   *axh.Msg
		err error
	}
	res := make([][]out, n)
	bundles := make([]func() error, n)
	for g := 0; g < n; g++ {
		bu := b.Bundle(axh.PreKind(rd.Intn(3)))
		bundles[g] = func() error { return a.Builder(b).BuildSenderSession(bu) }
	}
	per := 1 + rd.Intn(3)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if err := bundles[g](); err != nil {
				res[g] = append(res[g], out{nil, err})
				return
			}
			for k := 0; k < per; k++ {
				m, err := a.Encrypt(b, []byte(fmt.Sprintf("e/%d/%d/%d", i, g, k)))
				res[g] = append(res[g], out{m, err})
			}
		}()
	}
	close(start)
	wg.Wait()
	a.S.Delay = nil
	used := map[string]bool{}
	order := ""
	for g := range res {
		for _, o := range res[g] {
			if o.err != nil {
				r.Violation("establish", "building or encrypting concurrently failed: %v", o.err)
				return
			}
			k := fmt.Sprintf("%s|%d", o.m.Ratchet, o.m.Counter)
			if used[k] {
				r.Violation("key-reuse", "two ciphertexts carry the same ratchet key and counter: %v", o.m)
			}
			used[k] = true
			order += fmt.Sprintf("%d:%s:%d ", g, o.m.Base[:6], o.m.Counter)
			bc, ac := clone(b), clone(a)
			if got, err := bc.Decrypt(a, o.m.Type, o.m.Wire); err != nil || !bytes.Equal(got, o.m.Plain) {
				r.Violation("establish-decrypt", "%v, sent while sessions were being built, does not decrypt: %v", o.m, err)
				continue
			}
			rm, err := bc.Encrypt(a, []byte("reply"))
			if err != nil {
				r.Violation("establish-reply", "%v", err)
				continue
			}
			if got, err := ac.Decrypt(b, rm.Type, rm.Wire); err != nil || string(got) != "reply" {
				r.Violation("session-lost", "the session under which %v was sent is not known to its sender any more: %v", o.m, err)
			}
			r.Event("reply_under_concurrent_session", 1)
		}
	}
	r.Eval("establish " + order)
}
