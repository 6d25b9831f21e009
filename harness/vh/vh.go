// Package vh is the shared run-time monitoring harness: seeded case generation, event counting,
// violation recording, panic and deadlock guards, and the result file the runner turns into evidence.
package vh

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

type violation struct {
	Msg    string `json:"msg"`
	Case   string `json:"case"`
	Key    string `json:"key"`
	Detail string `json:"detail,omitempty"`
}

// R is one run of one property's workload.
type R struct {
	T        *testing.T
	ID       string
	Seed     int64
	Tier     string
	rule     string
	mu       sync.Mutex
	evals    int
	distinct map[[16]byte]bool
	events   map[string]int
	samples  []interface{}
	viol     []violation
	incon    []string
	assum    []string
	cur      string
	start    time.Time
	max      int
	ticks    int64
	NoStop   bool // violations never unwind the caller (set when several goroutines report)
}

type stopRun struct{}

// Start opens a run; Finish must be deferred.
func Start(t *testing.T, id, rule string) *R {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if os.Getenv("VERIF_LOG") == "" {
		logrus.SetOutput(io.Discard)
		logrus.SetLevel(logrus.PanicLevel)
	}
	logrus.StandardLogger().ExitFunc = func(int) { panic("log.Fatal called (the process would exit)") }
	r := &R{T: t, ID: id, Seed: seed, Tier: tier, rule: rule, distinct: map[[16]byte]bool{},
		events: map[string]int{}, start: time.Now(), max: 8}
	go r.guard()
	return r
}

// guard ends a run whose code under test runs away: one that uses 120 s of processor time in product code
// without a single event of the monitors, or 6 GB of memory. Both are far from what any case needs.
func (r *R) guard() {
	cpu := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	var ticks int64 = -1
	var since time.Duration
	for {
		time.Sleep(250 * time.Millisecond)
		c := cpu()
		if n := atomic.LoadInt64(&r.ticks); n != ticks {
			ticks, since = n, c
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		big := m.HeapAlloc > 6<<30
		slow := c-since > 120*time.Second
		if !big && !slow {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		where := ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			head := strings.SplitN(g, "\n", 2)[0]
			if (strings.Contains(head, "[run") || big) && inProduct(g) {
				where = trimStack(g)
				break
			}
		}
		if where == "" {
			since = c
			continue
		}
		what := fmt.Sprintf("used %d s of processor time and did not come back", int((c-since)/time.Second))
		if big {
			what = fmt.Sprintf("holds %d MB of memory", m.HeapAlloc>>20)
		}
		r.mu.Lock()
		r.viol = append(r.viol, violation{Msg: "an operation " + what + ":\n" + where, Case: r.cur, Key: "runaway"})
		r.mu.Unlock()
		r.Finish()
		os.Exit(1)
	}
}

// inProduct tells whether a goroutine is in code of the repository that is not the harness's.
func inProduct(g string) bool {
	l := strings.Split(g, "\n")
	for i := 0; i+1 < len(l); i++ {
		if strings.HasPrefix(l[i], "github.com/signal-golang/textsecure") && !strings.Contains(l[i], "/verifharness/") && !strings.Contains(l[i+1], "_test.go:") {
			return true
		}
	}
	return false
}

// N picks the number of cases for the tier.
func (r *R) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Rand gives the deterministic generator of one labelled case.
func (r *R) Rand(label string, i int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", r.Seed, r.ID, label, i)))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8]) >> 1)))
}

// SetCase names the case that is being run (it goes into every violation).
func (r *R) SetCase(format string, a ...interface{}) {
	atomic.AddInt64(&r.ticks, 1)
	r.mu.Lock()
	r.cur = fmt.Sprintf(format, a...)
	r.mu.Unlock()
}

// Eval counts one evaluated case; key identifies it for the distinct count ("" = trivial, not counted).
func (r *R) Eval(key string) {
	atomic.AddInt64(&r.ticks, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		h := sha256.Sum256([]byte(key))
		var k [16]byte
		copy(k[:], h[:])
		r.distinct[k] = true
	}
}

// Event counts monitored events.
func (r *R) Event(name string, n int) {
	atomic.AddInt64(&r.ticks, 1)
	r.mu.Lock()
	r.events[name] += n
	r.mu.Unlock()
}

// EventCount returns the present count.
func (r *R) EventCount(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.events[name]
}

// Sample records a case for the evidence (the first few are kept).
func (r *R) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violation records a refutation. key is a stable identity of what fails (used for known findings).
func (r *R) Violation(key, format string, a ...interface{}) {
	r.mu.Lock()
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	n := 0
	for _, v := range r.viol {
		if v.Key == key {
			n++
		}
	}
	if n < 2 && len(r.viol) < 40 {
		r.viol = append(r.viol, violation{Msg: msg, Case: r.cur, Key: key})
	}
	full := len(r.viol) >= r.max && !r.NoStop
	r.mu.Unlock()
	if full {
		panic(stopRun{})
	}
}

// Failed tells whether a violation was recorded.
func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0
}

// Inconclusive records that the run could not decide.
func (r *R) Inconclusive(format string, a ...interface{}) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Require makes the run inconclusive when a monitored event was not seen often enough.
func (r *R) Require(event string, min int) {
	if n := r.EventCount(event); n < min {
		r.Inconclusive("event %q seen %d times, need %d", event, n, min)
	}
}

// Assume lists an assumption for the evidence.
func (r *R) Assume(s string) { r.assum = append(r.assum, s) }

// Safe runs f and turns a panic into a violation. It reports whether f returned normally.
func (r *R) Safe(key, what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(stopRun); stop {
				panic(p)
			}
			st := string(debug.Stack())
			r.Violation(key, "panic in %s: %v\n%s", what, p, trimStack(st))
			ok = false
		}
	}()
	f()
	return true
}

// Try runs f and returns the panic value, if any, as text.
func Try(f func()) (pan string) {
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(stopRun); stop {
				panic(p)
			}
			pan = fmt.Sprintf("%v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "textsecure") || strings.Contains(l, "/repo/") {
			out = append(out, l)
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Finish writes the result file. Use: defer r.Finish().
func (r *R) Finish() {
	if p := recover(); p != nil {
		if _, stop := p.(stopRun); !stop {
			st := string(debug.Stack())
			r.mu.Lock()
			r.viol = append(r.viol, violation{Msg: fmt.Sprintf("panic: %v\n%s", p, trimStack(st)), Case: r.cur, Key: "panic"})
			r.mu.Unlock()
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	type out struct {
		Property     string         `json:"property"`
		Tier         string         `json:"tier"`
		Seed         int64          `json:"seed"`
		Evals        int            `json:"evaluations"`
		Distinct     int            `json:"distinct"`
		Rule         string         `json:"rule"`
		Events       map[string]int `json:"events"`
		Samples      []interface{}  `json:"samples"`
		Violations   []violation    `json:"violations"`
		Inconclusive []string       `json:"inconclusive"`
		Assumptions  []string       `json:"assumptions"`
		Wall         float64        `json:"wall"`
	}
	o := out{r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), r.rule, r.events, r.samples, r.viol, r.incon, r.assum, time.Since(r.start).Seconds()}
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf(`{"property":%q,"inconclusive":[%q]}`, r.ID, err.Error()))
	}
	if f := os.Getenv("VERIF_RESULT"); f != "" {
		if err := os.WriteFile(f, b, 0644); err != nil {
			r.T.Fatal(err)
		}
	} else {
		r.T.Logf("%s", b)
	}
	for _, v := range r.viol {
		r.T.Errorf("violation [%s] case %s: %s", v.Key, v.Case, v.Msg)
	}
	for _, v := range r.incon {
		r.T.Errorf("inconclusive: %s", v)
	}
}

// ---- deterministic system randomness ----

// DRBG is a deterministic, lock-protected stand-in for the system random source that counts its use.
type DRBG struct {
	mu    sync.Mutex
	s     cipher.Stream
	Bytes int
	Calls int
}

// NewDRBG seeds a stream.
func NewDRBG(label string) *DRBG {
	k := sha256.Sum256([]byte("drbg|" + label))
	b, _ := aes.NewCipher(k[:])
	return &DRBG{s: cipher.NewCTR(b, make([]byte, 16))}
}

func (d *DRBG) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		p[i] = 0
	}
	d.s.XORKeyStream(p, p)
	d.Bytes += len(p)
	d.Calls++
	return len(p), nil
}

// UseDRBG replaces crypto/rand.Reader until the returned function is called.
func (r *R) UseDRBG(label string) (*DRBG, func()) {
	d := NewDRBG(fmt.Sprintf("%d|%s|%s", r.Seed, r.ID, label))
	old := crand.Reader
	crand.Reader = d
	return d, func() { crand.Reader = old }
}

// ---- bounded calls with deadlock evidence ----

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return strings.Fields(string(b))[1]
}

func goroutineBlock(id string) (state, block string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.HasPrefix(g, "goroutine "+id+" ") {
			i := strings.Index(g, "[")
			j := strings.Index(g, "]")
			if i >= 0 && j > i {
				return g[i+1 : j], g
			}
		}
	}
	return "gone", ""
}

// Bounded runs f in its own goroutine. If it does not come back and is found parked in the same blocking
// operation (mutex, channel, select) in samples far apart, that is a deadlock (a violation). If it is
// merely slow, the run is inconclusive.
func (r *R) Bounded(key, what string, f func()) bool {
	done := make(chan string, 1)
	idc := make(chan string, 1)
	go func() {
		idc <- goid()
		var stop bool
		msg := func() (m string) {
			defer func() {
				if p := recover(); p != nil {
					if _, s := p.(stopRun); s {
						stop = true
						return
					}
					m = fmt.Sprintf("panic in %s: %v\n%s", what, p, trimStack(string(debug.Stack())))
				}
			}()
			f()
			return ""
		}()
		if stop {
			msg = "\x00stop"
		}
		done <- msg
	}()
	id := <-idc
	finish := func(m string) bool {
		if m == "\x00stop" {
			panic(stopRun{})
		}
		if m != "" {
			r.Violation(key, "%s", m)
			return false
		}
		return true
	}
	select {
	case m := <-done:
		return finish(m)
	case <-time.After(20 * time.Second):
	}
	var lastState, lastBlock string
	same := 0
	for i := 0; i < 12; i++ {
		st, blk := goroutineBlock(id)
		kind := strings.Split(st, ",")[0]
		blocked := strings.Contains(kind, "chan") || strings.Contains(kind, "select") || strings.Contains(kind, "sync.") || strings.Contains(kind, "semacquire")
		fr := frames(blk)
		if blocked && kind == lastState && fr == lastBlock {
			same++
		} else {
			same = 0
		}
		lastState, lastBlock = kind, fr
		if same >= 3 {
			r.Violation(key, "%s never returns: its goroutine is parked in %q\n%s", what, st, trimStack(blk))
			return false
		}
		select {
		case m := <-done:
			return finish(m)
		case <-time.After(5 * time.Second):
		}
	}
	select {
	case m := <-done:
		return finish(m)
	case <-time.After(120 * time.Second):
		st, blk := goroutineBlock(id)
		r.Inconclusive("%s did not finish (state %s)\n%s", what, st, trimStack(blk))
		return false
	}
}

func frames(b string) string {
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// WaitUntil polls a condition generously; the caller decides what a timeout means.
func WaitUntil(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if cond() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return cond()
}

// ---- generators ----

// Bytes gives n random bytes.
func Bytes(rd *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rd.Read(b)
	return b
}

// Plain gives plaintexts of diverse sizes and contents.
func Plain(rd *rand.Rand) []byte {
	switch rd.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return bytes.Repeat([]byte{0x80}, rd.Intn(40))
	case 2:
		return bytes.Repeat([]byte{0}, 1+rd.Intn(64))
	case 3:
		return Bytes(rd, 16*rd.Intn(12))
	case 4:
		return Bytes(rd, 1000+rd.Intn(4000))
	}
	return Bytes(rd, 1+rd.Intn(200))
}

// Mutate makes one random modification of b that yields different bytes.
func Mutate(rd *rand.Rand, b []byte) ([]byte, string) {
	for {
		o := append([]byte{}, b...)
		var what string
		switch k := rd.Intn(9); {
		case k <= 2 && len(o) > 0:
			i := rd.Intn(len(o))
			bit := rd.Intn(8)
			o[i] ^= 1 << uint(bit)
			what = fmt.Sprintf("flip bit %d of byte %d/%d", bit, i, len(b))
		case k == 3 && len(o) > 0:
			i := rd.Intn(len(o))
			v := []byte{0, 1, 0x7f, 0x80, 0xff, byte(rd.Intn(256))}[rd.Intn(6)]
			o[i] = v
			what = fmt.Sprintf("set byte %d/%d to %#x", i, len(b), v)
		case k == 4 && len(o) > 0:
			n := rd.Intn(len(o))
			o = o[:n]
			what = fmt.Sprintf("truncate to %d/%d", n, len(b))
		case k == 5:
			n := 1 + rd.Intn(20)
			o = append(o, Bytes(rd, n)...)
			what = fmt.Sprintf("append %d bytes", n)
		case k == 6 && len(o) > 0:
			i := rd.Intn(len(o))
			o = append(o[:i], o[i+1:]...)
			what = fmt.Sprintf("delete byte %d/%d", i, len(b))
		case k == 7:
			i := rd.Intn(len(o) + 1)
			o = append(o[:i], append([]byte{byte(rd.Intn(256))}, o[i:]...)...)
			what = fmt.Sprintf("insert byte at %d/%d", i, len(b))
		case k == 8 && len(o) > 1:
			i, n := rd.Intn(len(o)), 1+rd.Intn(16)
			for j := i; j < len(o) && j < i+n; j++ {
				o[j] = byte(rd.Intn(256))
			}
			what = fmt.Sprintf("randomise %d bytes at %d/%d", n, i, len(b))
		}
		if what != "" && !bytes.Equal(o, b) {
			return o, what
		}
	}
}

// Hex shortens bytes for messages.
func Hex(b []byte) string {
	if len(b) > 48 {
		return hex.EncodeToString(b[:48]) + fmt.Sprintf("...(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// SortedKeys returns the keys of an event map.
func SortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
