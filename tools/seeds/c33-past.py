DEMO33='''package verifdemo

import (
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

var _ entities.GroupUser

func validator(title int) *groupsv2.GroupValidator {
	c := &config.Config{}
	c.Group.MaxGroupSize, c.Group.MaxGroupTitleLengthBytes, c.Group.MaxGroupDescriptionLengthBytes = 10, title, 100
	return groupsv2.NewGroupValidator(nil, c)
}
'''
prop="C33"; pkg="verifdemo"; place={"verifdemo/demo_test.go":"demo_test.go"}
needs="an invitation in which the submitter wrote an earlier time"
breaks="An invitation keeps the time the submitter wrote if it is one of the past, so that an invitation can be made to look old"
edits=[("groupsv2/groupValidator.go","	memberPendingProfileKey.Timestamp = uint64(utils.CurrentTimeMillis())\n","	if now := uint64(utils.CurrentTimeMillis()); memberPendingProfileKey.Timestamp == 0 || memberPendingProfileKey.Timestamp > now {\n		memberPendingProfileKey.Timestamp = now\n	}\n")]
files={"demo_test.go":DEMO33.replace('import (\n\t"testing"\n','import (\n\t"testing"\n\t"time"\n')+'''
func TestDemo(t *testing.T) {
	v := validator(10)
	key := []byte("0123456789abcdef0123456789abcdef")
	me, guest := []byte("0123456789abcdef"), []byte("2123456789abcdef")
	g := &groupsv2.GroupV2{MasterKey: key, DecryptedGroup: &signalservice.DecryptedGroup{Members: []*signalservice.DecryptedMember{{Uuid: me, Role: signalservice.Member_DEFAULT}}}}
	now := uint64(time.Now().UnixNano() / 1000000)
	for _, ts := range []uint64{0, 1, 5, now - 1000, now - 86400000, now + 86400000} {
		a := &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Timestamp: ts,
			Member: &signalservice.Member{UserId: guest, Role: signalservice.Member_DEFAULT}}}
		err := v.ValidateAddMembersPendingProfileKey(&entities.GroupUser{GroupPublicKey: key, UserCiphertext: me}, g, []*signalservice.GroupChange_Actions_AddPendingMemberAction{a})
		if err != nil || a.Added.Timestamp < now || a.Added.Timestamp > now+60000 {
			t.Fatalf("%d: %d %v", ts, a.Added.Timestamp, err)
		}
	}
}
'''}
