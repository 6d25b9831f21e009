package c13

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/fingerprint"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// ref is the published algorithm, written independently.
func ref(id string, key []byte) []byte {
	h := append([]byte{0, 0}, key...)
	h = append(h, id...)
	for i := 0; i < 5200; i++ {
		s := sha512.Sum512(append(append([]byte{}, h...), key...))
		h = s[:]
	}
	return h
}

func digits(fp []byte) string {
	var sb strings.Builder
	for i := 0; i < 6; i++ {
		v := new(big.Int).SetBytes(fp[5*i : 5*i+5])
		fmt.Fprintf(&sb, "%05d", v.Mod(v, big.NewInt(100000)))
	}
	return sb.String()
}

func ident(rd *rand.Rand) string {
	switch rd.Intn(5) {
	case 0:
		return ""
	case 1:
		return string(vh.Bytes(rd, 1+rd.Intn(40)))
	case 2:
		return fmt.Sprintf("%x-%x", vh.Bytes(rd, 4), vh.Bytes(rd, 6))
	}
	return fmt.Sprintf("+%d", 1000000+rd.Int63n(1e12))
}

func pub(rd *rand.Rand, i int) []byte {
	k := vh.Bytes(rd, 33)
	k[0] = 5
	if i%3 == 0 {
		return axolotl.NewECKeyPair().PublicKey.Serialize()
	}
	return k
}

var five = regexp.MustCompile(`^\d{5}$`)

type side struct {
	id  string
	key []byte
}

func compute(r *vh.R, l, o side, ver uint32) (string, []byte, bool) {
	var n []string
	var qr []byte
	var err error
	lk, ok := append([]byte{}, l.key...), append([]byte{}, o.key...)
	if p := vh.Try(func() { n, qr, err = fingerprint.CreateFingerprintSimple(ver, l.id, lk, o.id, ok) }); p != "" {
		r.Violation("panic", "CreateFingerprintSimple(%q,%x,%q,%x): %s", l.id, l.key, o.id, o.key, p)
		return "", nil, false
	}
	if err != nil {
		r.Violation("refused", "valid identities refused: %v", err)
		return "", nil, false
	}
	if !bytes.Equal(lk, l.key) || !bytes.Equal(ok, o.key) {
		r.Violation("modifies", "the keys passed in were modified")
	}
	if len(n) != 12 {
		r.Violation("groups", "%d groups", len(n))
	}
	for _, g := range n {
		if !five.MatchString(g) {
			r.Violation("groups", "group %q is not five digits", g)
		}
	}
	r.Event("computed", 1)
	return strings.Join(n, ""), qr, true
}

// TestC13 compares safety numbers with the published algorithm.
func TestC13(t *testing.T) {
	r := vh.Start(t, "C13", "a case is one pair of identities, computed from both sides and after single changes of an identifier or key, or one malformed key or code; oracle: independent implementation of the published algorithm; distinct by identities")
	defer r.Finish()
	for i := 0; i < r.N(260, 6000); i++ {
		r.SetCase("pair/%d", i)
		_, restore := r.UseDRBG(fmt.Sprint(i))
		r.Safe("panic", "pair", func() { pair(r, i) })
		restore()
	}
	r.SetCase("first blocks agree")
	r.Safe("panic", "agree", func() { agree(r) })
	for i := 0; i < r.N(4000, 200000); i++ {
		r.SetCase("blocks/%d", i)
		r.Safe("panic", "blocks", func() { blocks(r, i) })
	}
	for i := 0; i < r.N(600, 20000); i++ {
		r.SetCase("malformed/%d", i)
		malformed(r, i)
	}
	r.Require("computed", 700)
	r.Require("equal_halves", 3)
	r.Require("first_block_agrees", 2)
}

func pair(r *vh.R, i int) {
	rd := r.Rand("pair", i)
	a, b := side{ident(rd), pub(rd, i)}, side{ident(rd), pub(rd, i+1)}
	if i%7 == 0 {
		b.id = a.id
	}
	if i%9 == 0 {
		b.key = append([]byte{}, a.key...)
	}
	if a.id == b.id && bytes.Equal(a.key, b.key) {
		r.Event("equal_halves", 1)
	}
	ver := uint32(rd.Intn(3))
	na, qa, ok1 := compute(r, a, b, ver)
	nb, qb, ok2 := compute(r, b, a, ver)
	if !ok1 || !ok2 {
		return
	}
	if na != nb {
		r.Violation("asymmetric", "the two parties see different numbers: %s and %s", na, nb)
	}
	fa, fb := ref(a.id, a.key), ref(b.id, b.key)
	x, y := digits(fa), digits(fb)
	if x > y {
		x, y = y, x
	}
	if na != x+y {
		r.Violation("algorithm", "number %s, published algorithm gives %s", na, x+y)
	}
	// scanning: each side's code is the mirror of the other's
	pa, err := fingerprint.ScanQRFingerprint(append([]byte{}, qa...))
	pb, err2 := fingerprint.ScanQRFingerprint(append([]byte{}, qb...))
	if err != nil || err2 != nil {
		r.Violation("scan", "our own code cannot be scanned: %v %v", err, err2)
		return
	}
	if pa.GetVersion() != ver || !bytes.Equal(pa.GetLocalFingerprint().GetContent(), fa[:32]) || !bytes.Equal(pa.GetRemoteFingerprint().GetContent(), fb[:32]) ||
		!bytes.Equal(pb.GetLocalFingerprint().GetContent(), fb[:32]) || !bytes.Equal(pb.GetRemoteFingerprint().GetContent(), fa[:32]) {
		r.Violation("scan", "the scanned codes are not the mirror images with the first 32 bytes of each side's fingerprint")
	}
	r.Event("scanned", 2)
	// one change
	c, d := a, b
	what := ""
	switch rd.Intn(4) {
	case 0:
		c.id += "x"
		what = "local identifier"
	case 1:
		d.id = "y" + d.id
		what = "remote identifier"
	case 2:
		c.key = append([]byte{}, c.key...)
		c.key[1+rd.Intn(32)] ^= byte(1 << uint(rd.Intn(8)))
		what = "local key"
	case 3:
		d.key = append([]byte{}, d.key...)
		d.key[1+rd.Intn(32)] ^= byte(1 << uint(rd.Intn(8)))
		what = "remote key"
	}
	nc, qc, ok := compute(r, c, d, ver)
	if ok {
		if nc == na {
			r.Violation("insensitive", "a change of the %s leaves the number unchanged", what)
		}
		if bytes.Equal(qc, qa) {
			r.Violation("insensitive", "a change of the %s leaves the code unchanged", what)
		}
	}
	// several keys per side: order does not matter
	if i%5 == 0 {
		mk := func(ks ...[]byte) (o []axolotl.ECPublicKey) {
			for _, k := range ks {
				o = append(o, *axolotl.NewECPublicKey(k[1:]))
			}
			return
		}
		k1, k2, k3 := pub(rd, 1), pub(rd, 1), pub(rd, 1)
		n1, _, e1 := fingerprint.CreateFingerprint(ver, []byte(a.id), mk(k1, k2, k3), []byte(b.id), mk(b.key))
		n2, _, e2 := fingerprint.CreateFingerprint(ver, []byte(a.id), mk(k3, k1, k2), []byte(b.id), mk(b.key))
		if e1 != nil || e2 != nil || strings.Join(n1, "") != strings.Join(n2, "") {
			r.Violation("key-order", "the order of several identity keys changes the number (%v %v)", e1, e2)
		}
		r.Event("multi_key", 1)
	}
	r.Eval(fmt.Sprintf("%q %x %q %x", a.id, a.key, b.id, b.key))
	if i < 2 {
		r.Sample(map[string]interface{}{"case": fmt.Sprintf("pair/%d", i), "number": na})
	}
}

func malformed(r *vh.R, i int) {
	rd := r.Rand("malformed", i)
	good := pub(rd, 1)
	if i%2 == 0 {
		bad := vh.Bytes(rd, []int{0, 1, 2, 31, 32, 34, 65}[rd.Intn(7)])
		if rd.Intn(5) == 0 {
			bad = nil
		}
		for _, sw := range []bool{false, true} {
			var err error
			l, o := good, bad
			if sw {
				l, o = bad, good
			}
			if p := vh.Try(func() { _, _, err = fingerprint.CreateFingerprintSimple(1, "+1", l, "+2", o) }); p != "" {
				r.Violation("malformed-key", "a key of %d bytes: %s", len(bad), p)
			} else if err == nil {
				r.Violation("malformed-key-accepted", "a key of %d bytes was accepted", len(bad))
			} else {
				r.Event("malformed_key_refused", 1)
			}
		}
		r.Eval(fmt.Sprintf("key %x", bad))
		return
	}
	var code []byte
	switch rd.Intn(3) {
	case 0:
		code = vh.Bytes(rd, rd.Intn(80))
	case 1:
		v := rd.Uint32()
		code, _ = proto.Marshal(&axpb.CombinedFingerprints{Version: &v})
	case 2:
		v := uint32(1)
		code, _ = proto.Marshal(&axpb.CombinedFingerprints{Version: &v, LocalFingerprint: &axpb.LogicalFingerprint{Content: vh.Bytes(rd, rd.Intn(40))}, RemoteFingerprint: &axpb.LogicalFingerprint{}})
		code, _ = vh.Mutate(rd, code)
	}
	if p := vh.Try(func() {
		c, err := fingerprint.ScanQRFingerprint(code)
		if err == nil && c == nil {
			r.Violation("scan-nil", "scan of %x returned neither code nor error", code)
		}
	}); p != "" {
		r.Violation("malformed-code", "%x: %s", code, p)
	}
	r.Event("malformed_code", 1)
	r.Eval(fmt.Sprintf("code %x", code))
}

// agree looks for identities whose fingerprints agree in their first block of digits: there the halves have
// to be put in order by what follows. Among so many identities some pairs agree.
func agree(r *vh.R) {
	rd := r.Rand("agree", 0)
	n := r.N(1500, 6000)
	all := make([]side, n)
	fps := make([][]byte, n)
	for i := range all {
		all[i] = side{fmt.Sprintf("+%d", 1000000+rd.Int63n(1e12)), pub(rd, 1)}
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += 8 {
				fps[i] = ref(all[i].id, all[i].key)
			}
		}(w)
	}
	wg.Wait()
	seen := map[string]int{}
	found := 0
	for i := range all {
		first := digits(fps[i])[:5]
		j, ok := seen[first]
		seen[first] = i
		if !ok || found >= r.N(12, 100) {
			continue
		}
		found++
		r.Event("first_block_agrees", 1)
		na, _, ok1 := compute(r, all[i], all[j], 1)
		nb, _, ok2 := compute(r, all[j], all[i], 1)
		if !ok1 || !ok2 {
			return
		}
		if na != nb {
			r.Violation("asymmetric", "identities %q/%x and %q/%x agree in the first block; the two parties see %s and %s", all[i].id, all[i].key, all[j].id, all[j].key, na, nb)
		}
		x, y := digits(fps[i]), digits(fps[j])
		if x > y {
			x, y = y, x
		}
		if na != x+y {
			r.Violation("algorithm", "number %s, published algorithm gives %s", na, x+y)
		}
		r.Eval(fmt.Sprintf("agree %x %x", all[i].key, all[j].key))
	}
}

// blocks has the digits of arbitrary fingerprints that agree in some leading blocks, with blocks at the limits.
func blocks(r *vh.R, i int) {
	rd := r.Rand("blocks", i)
	a := vh.Bytes(rd, 64)
	b := vh.Bytes(rd, 64)
	for k := 0; k < 6; k++ {
		// five bytes whose value modulo 100000 is near a limit
		if rd.Intn(3) == 0 {
			v := new(big.Int).SetUint64(uint64(rd.Intn(10000000))*100000 + uint64([]int{0, 1, 9, 10, 99999, 10000, 9999}[rd.Intn(7)]))
			v.FillBytes(a[5*k : 5*k+5])
		}
	}
	same := rd.Intn(7)
	for k := 0; k < same; k++ {
		copy(b[5*k:5*k+5], a[5*k:5*k+5])
		if rd.Intn(3) == 0 {
			// other bytes, same digits
			v := new(big.Int).SetBytes(a[5*k : 5*k+5])
			v.Mod(v, big.NewInt(100000))
			v.Add(v, big.NewInt(int64(rd.Intn(10000000))*100000))
			v.FillBytes(b[5*k : 5*k+5])
		}
	}
	ca, cb := append([]byte{}, a...), append([]byte{}, b...)
	n1 := strings.Join(fingerprint.CreateFingerprintNumbers(ca, cb), "")
	n2 := strings.Join(fingerprint.CreateFingerprintNumbers(cb, ca), "")
	x, y := digits(a), digits(b)
	if x > y {
		x, y = y, x
	}
	if n1 != x+y || n2 != x+y {
		r.Violation("blocks", "fingerprints %x and %x agreeing in %d blocks: numbers %s and %s, published algorithm gives %s", a[:30], b[:30], same, n1, n2, x+y)
	}
	if !bytes.Equal(a, ca) || !bytes.Equal(b, cb) {
		r.Violation("modifies", "the fingerprints passed in were modified")
	}
	r.Event("blocks", 1)
	r.Eval(fmt.Sprintf("blocks %x %x", a[:30], b[:30]))
}
