prop="C23"; pkg="crayfish"; place={"crayfish/demo_verif_test.go":"demo_test.go"}
needs="a verification code that starts with a zero and has no digit above seven"
breaks="A verification code that starts with a zero is read as an octal number, so that the helper is asked with another code than the one the user has"
edits=[("crayfish/register.go","strconv.ParseUint(code, 10, 32)","strconv.ParseUint(code, 0, 32)")]
files={"demo_test.go":'''package crayfish

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/registration"
)

func TestDemo(t *testing.T) {
	for _, code := range []string{"123456", "012345", "001234", "000777", "098765", "777777"} {
		c := &CrayfishInstance{}
		conn := &Conn{send: make(chan []byte, 1), closed: make(chan struct{})}
		c.wsconn = conn
		asked := make(chan string, 1)
		go func() {
			var m struct {
				Request struct {
					Message struct {
					Code float64 `json:"confirm_code"`
				}
				}
			}
			json.Unmarshal(<-conn.send, &m)
			asked <- fmt.Sprintf("%06.0f", m.Request.Message.Code)
			typ := CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION
			id := make([]interface{}, 16)
			for i := range id {
				id[i] = float64(7)
			}
			c.handleCrayfishResponseMessage(&CrayfishWebSocketResponseMessage{Type: &typ, Message: map[string]interface{}{"uuid": id}})
		}()
		g, err := c.CrayfishRegisterWithCode(&registration.RegistrationInfo{Password: "p"}, "+491", "", code)
		if err != nil || g.Tel != "+491" {
			t.Fatal(code, g, err)
		}
		if a := <-asked; a != code {
			t.Fatalf("the helper was asked with code %s instead of %s", a, code)
		}
	}
}
'''}
