DEMO33='''package verifdemo

import (
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

var _ entities.GroupUser

func validator(title int) *groupsv2.GroupValidator {
	c := &config.Config{}
	c.Group.MaxGroupSize, c.Group.MaxGroupTitleLengthBytes, c.Group.MaxGroupDescriptionLengthBytes = 10, title, 100
	return groupsv2.NewGroupValidator(nil, c)
}
'''
prop="C33"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="an invitation in which the submitter wrote who invited"
breaks="An invitation keeps whom the submitter wrote as the one who invited, so that somebody else can be blamed"
edits=[("groupsv2/groupValidator.go","	memberPendingProfileKey.AddedByUserId = member.GetUuid()\n","	if len(memberPendingProfileKey.AddedByUserId) != len(member.GetUuid()) {\n		memberPendingProfileKey.AddedByUserId = member.GetUuid()\n	}\n")]
files={"demo_test.go":DEMO33+'''
func TestDemo(t *testing.T) {
	v := validator(10)
	key := []byte("0123456789abcdef0123456789abcdef")
	me, other, guest := []byte("0123456789abcdef"), []byte("1123456789abcdef"), []byte("2123456789abcdef")
	g := &groupsv2.GroupV2{MasterKey: key, DecryptedGroup: &signalservice.DecryptedGroup{Members: []*signalservice.DecryptedMember{
		{Uuid: me, Role: signalservice.Member_DEFAULT}, {Uuid: other, Role: signalservice.Member_DEFAULT}}}}
	for _, by := range [][]byte{nil, me, other} {
		a := &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{AddedByUserId: by,
			Member: &signalservice.Member{UserId: guest, Role: signalservice.Member_DEFAULT}}}
		err := v.ValidateAddMembersPendingProfileKey(&entities.GroupUser{GroupPublicKey: key, UserCiphertext: me}, g, []*signalservice.GroupChange_Actions_AddPendingMemberAction{a})
		if err != nil || string(a.Added.AddedByUserId) != string(me) {
			t.Fatalf("%s %v", a.Added.AddedByUserId, err)
		}
	}
}
'''}
