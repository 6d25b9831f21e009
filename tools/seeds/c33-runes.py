DEMO33='''package verifdemo

import (
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

var _ entities.GroupUser

func validator(title int) *groupsv2.GroupValidator {
	c := &config.Config{}
	c.Group.MaxGroupSize, c.Group.MaxGroupTitleLengthBytes, c.Group.MaxGroupDescriptionLengthBytes = 10, title, 100
	return groupsv2.NewGroupValidator(nil, c)
}
'''
prop="C33"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="a title with characters of several bytes"
breaks="The title of a group is measured in characters while its limit is in bytes"
edits=[("groupsv2/groupValidator.go","	if len(group.GetTitle()) > g.maxGroupTitleLengthBytes {","	if len([]rune(group.GetTitle())) > g.maxGroupTitleLengthBytes {")]
files={"demo_test.go":DEMO33+'''
func TestDemo(t *testing.T) {
	v := validator(10)
	for title, want := range map[string]bool{"0123456789": true, "01234567890": false, "\\u00e4\\u00e4\\u00e4\\u00e4\\u00e4": true, "\\u00e4\\u00e4\\u00e4\\u00e4\\u00e4\\u00e4": false} {
		g := &signalservice.DecryptedGroup{Title: title, AccessControl: &signalservice.AccessControl{
			Attributes: signalservice.AccessControl_MEMBER, Members: signalservice.AccessControl_MEMBER, AddFromInviteLink: signalservice.AccessControl_UNSATISFIABLE}}
		if err := v.ValidateFinalGroupState(g); (err == nil) != want {
			t.Fatal(title, err)
		}
	}
}
'''}
