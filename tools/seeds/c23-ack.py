prop="C23"; pkg="crayfish"; place={"crayfish/demo_verif_test.go":"demo_test.go"}
needs="an acknowledgement of the helper that arrives before its answer"
breaks="An acknowledgement counts as the answer of the call that waits, which then fails or is handed something empty, and the true answer is lost"
edits=[("crayfish/backend.go","*response.Type > 1","*response.Type > 0")]
files={"demo_test.go":'''package crayfish

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := &CrayfishInstance{}
	conn := &Conn{send: make(chan []byte, 1), closed: make(chan struct{})}
	c.wsconn = conn
	go func() {
		<-conn.send
		time.Sleep(20 * time.Millisecond)
		ack, ans := CrayfishWebSocketResponseMessageTyp_ACK, CrayfishWebSocketResponseMessageTyp_HANDLE_ENVELOPE
		c.handleCrayfishResponseMessage(&CrayfishWebSocketResponseMessage{Type: &ack, Message: map[string]string{"status": "ok"}})
		c.handleCrayfishResponseMessage(&CrayfishWebSocketResponseMessage{Type: &ans, Message: map[string]interface{}{"message": "aGk=", "sender_device": 3}})
	}()
	a, err := c.HandleEnvelope([]byte("x"))
	if err != nil || a.Message != "aGk=" || a.SenderDevice != 3 {
		t.Fatal(a, err)
	}
}
'''}
