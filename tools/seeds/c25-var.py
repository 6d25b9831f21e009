prop="C25"; pkg=""; place={"demo_verif_test.go":"demo_test.go"}
needs="a group or contact whose record is longer than 16383 bytes"
breaks="The length in front of a record has at most two bytes, so that the records from a large one on cannot be read by the linked device"
edits=[("sync.go","	buf := make([]byte, binary.MaxVarintLen32)\n	n := binary.PutUvarint(buf, uint64(value))","	buf := make([]byte, binary.MaxVarintLen32)\n	n := binary.PutUvarint(buf, uint64(value))\n	if n > 2 {\n		n = 2\n	}")]
files={"demo_test.go":'''package textsecure

import (
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, v := range []int{0, 1, 127, 128, 300, 16383, 16384, 70000, 1 << 20, 1<<31 - 1} {
		b := varint32(v)
		if x, n := binary.Uvarint(b); n != len(b) || x != uint64(v) {
			t.Fatalf("%d is encoded as % x", v, b)
		}
	}
}
'''}
