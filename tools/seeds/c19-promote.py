prop="C19"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="an ordinary member who changes who may add members while the access rules leave attributes to members"
breaks="Whether somebody may change the rule for adding members is decided by the rule for attributes, so that ordinary members can do it"
edits=[("groupsv2/groupChange.go","""	if !isAdminstrator(user, groupImmut) {
		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
	}
	group.DecryptedGroup.AccessControl.Members =""","""	if !isModifyAttributesAllowed(user, groupImmut) {
		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
	}
	group.DecryptedGroup.AccessControl.Members =""")]
files={"demo_test.go":'''package verifdemo

import (
	"testing"

	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

func TestDemo(t *testing.T) {
	u, ad := []byte("0123456789abcdef"), []byte("fedcba9876543210")
	mk := func() *groupsv2.GroupV2 {
		return &groupsv2.GroupV2{MasterKey: make([]byte, 32), DecryptedGroup: &signalservice.DecryptedGroup{
			AccessControl: &signalservice.AccessControl{Attributes: signalservice.AccessControl_MEMBER, Members: signalservice.AccessControl_ADMINISTRATOR},
			Members: []*signalservice.DecryptedMember{
				{Uuid: u, Role: signalservice.Member_DEFAULT}, {Uuid: ad, Role: signalservice.Member_ADMINISTRATOR}}}}
	}
	for who, want := range map[string]bool{string(u): false, string(ad): true} {
		g := mk()
		a := groupsv2.NewGroupChangeApplicator(&groupsv2.GroupValidator{})
		err := a.ApplyModifyMembersAccess(&entities.GroupUser{UserCiphertext: []byte(who), GroupPublicKey: make([]byte, 32)}, nil, g, &signalservice.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: signalservice.AccessControl_MEMBER}, mk())
		if (err == nil) != want || (g.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER) != want {
			t.Fatal(who, err, g.DecryptedGroup.AccessControl)
		}
	}
}
'''}
