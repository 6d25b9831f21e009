prop="C13"; pkg="fingerprint"; place={"fingerprint/demo_verif_test.go":"demo_test.go"}
needs="two identities whose fingerprints agree in the first block of five digits"
breaks="The halves of a safety number are put in order by their first blocks only, so that two parties whose first blocks agree see different numbers"
edits=[("fingerprint/fingerprint_numbers.go","			return compareFingerprintBlocks(localBlocks[1:], remoteBlocks[1:])","			return 0")]
files={"demo_test.go":'''package fingerprint

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := make([]byte, 64), make([]byte, 64)
	for i := range a {
		a[i], b[i] = byte(i), byte(i)
	}
	for i := 5; i < 64; i++ {
		b[i] = byte(3 * i)
	}
	x, y := fmt.Sprint(CreateFingerprintNumbers(a, b)), fmt.Sprint(CreateFingerprintNumbers(b, a))
	if x != y {
		t.Fatal(x, y)
	}
}
'''}
