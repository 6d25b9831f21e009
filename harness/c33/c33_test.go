package c33

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
	"google.golang.org/protobuf/proto"
)

// TestC33: states of groups and invitations, well formed ones and such with faults. Whether they are accepted
// is compared with the faults they were given.
func TestC33(t *testing.T) {
	r := vh.Start(t, "C33", "group states under random limits, well formed ones at and below every limit, and the same with one to three faults of 24 kinds (lengths and sizes one above the limit and far above, duplicates within and across the lists, roles, access rules, a link without a password, missing entries); lists of invitations with and without faults; acceptance is compared with the faults given, the state must not change; a case is one state or list of invitations, distinct by faults and shape")
	defer r.Finish()
	n := r.N(40000, 1500000)
	for i := 0; i < n && !r.Failed(); i++ {
		state(r, r.Rand("state", i), i)
	}
	for i := 0; i < n/4 && !r.Failed(); i++ {
		invitations(r, r.Rand("invitations", i), i)
	}
	r.Require("accepted", n/5)
	r.Require("refused", n/4)
	r.Require("at a limit", n/20)
	for _, f := range faults {
		r.Require("fault: "+f, n/400)
	}
	r.Require("invitations accepted", n/20)
	r.Require("invitations refused", n/20)
}

var faults = []string{"no title", "long title", "long description", "link without password", "too many", "too many requests", "duplicate member", "duplicate invited", "duplicate request", "member invited", "member requesting", "invited requesting", "member role", "invited role", "attributes rule", "members rule", "link rule", "missing member", "missing invited", "missing request"}

func user(rd *rand.Rand, k int) []byte {
	b := vh.Bytes(rd, 16)
	b[0], b[1] = byte(k), byte(k>>8) // no two are the same
	return b
}

// text is a text of n bytes, also with characters of several bytes.
func text(rd *rand.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		c := []string{"a", "ü", "漢", "😀", " "}[rd.Intn(5)]
		if b.Len()+len(c) <= n {
			b.WriteString(c)
		}
	}
	return b.String()
}

// upTo is at most n, often just n.
func upTo(rd *rand.Rand, n int) int {
	switch rd.Intn(3) {
	case 0:
		return n
	case 1:
		if n > 0 {
			return n - 1
		}
	}
	return rd.Intn(n + 1)
}

func role(rd *rand.Rand) signalservice.Member_Role {
	return []signalservice.Member_Role{signalservice.Member_DEFAULT, signalservice.Member_ADMINISTRATOR}[rd.Intn(2)]
}

func badRole(rd *rand.Rand) signalservice.Member_Role {
	return []signalservice.Member_Role{signalservice.Member_UNKNOWN, 3, 77, -1}[rd.Intn(4)]
}

func state(r *vh.R, rd *rand.Rand, i int) {
	cfg := &config.Config{}
	max := 2 + rd.Intn(7)
	cfg.Group.MaxGroupSize = max
	cfg.Group.MaxGroupTitleLengthBytes = 1 + rd.Intn(40)
	cfg.Group.MaxGroupDescriptionLengthBytes = rd.Intn(80)
	v := groupsv2.NewGroupValidator(nil, cfg)
	k := 0
	next := func() []byte { k++; return user(rd, k) }
	g := &signalservice.DecryptedGroup{
		Title:       text(rd, 1+upTo(rd, cfg.Group.MaxGroupTitleLengthBytes-1)),
		Description: text(rd, upTo(rd, cfg.Group.MaxGroupDescriptionLengthBytes)),
		Revision:    uint32(rd.Intn(100)),
		Avatar:      []string{"", "groups/a/b"}[rd.Intn(2)],
	}
	rules := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_MEMBER, signalservice.AccessControl_ADMINISTRATOR}
	links := append([]signalservice.AccessControl_AccessRequired{signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE}, rules...)
	if rd.Intn(10) > 0 {
		g.AccessControl = &signalservice.AccessControl{Attributes: rules[rd.Intn(3)], Members: rules[rd.Intn(3)], AddFromInviteLink: links[rd.Intn(5)]}
	}
	link := g.AccessControl.GetAddFromInviteLink()
	if link != signalservice.AccessControl_UNSATISFIABLE && link != signalservice.AccessControl_UNKNOWN || rd.Intn(3) == 0 {
		g.InviteLinkPassword = vh.Bytes(rd, []int{16, 16, 1, 40}[rd.Intn(4)])
	}
	all := upTo(rd, max)
	for j := 0; j < all; j++ {
		if rd.Intn(3) == 0 {
			g.PendingMembers = append(g.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: next(), Role: role(rd), AddedByUuid: next(), Timestamp: uint64(rd.Int63())})
		} else {
			g.Members = append(g.Members, &signalservice.DecryptedMember{Uuid: next(), Role: role(rd), ProfileKey: vh.Bytes(rd, 32), JoinedAtRevision: uint32(rd.Intn(9))})
		}
	}
	for j, m := 0, upTo(rd, max); j < m; j++ {
		g.RequestingMembers = append(g.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: next(), ProfileKey: vh.Bytes(rd, 32), Timestamp: uint64(rd.Int63())})
	}
	if all == max || len(g.RequestingMembers) == max || len(g.Title) == cfg.Group.MaxGroupTitleLengthBytes || len(g.Description) == cfg.Group.MaxGroupDescriptionLengthBytes {
		r.Event("at a limit", 1)
	}
	var given []string
	if rd.Intn(5) < 3 {
		for j, m := 0, 1+rd.Intn(3)*rd.Intn(2); j < m; j++ {
			f := faults[rd.Intn(len(faults))]
			if damage(rd, cfg, g, f, next) {
				given = append(given, f)
				r.Event("fault: "+f, 1)
			}
		}
	}
	// the order of the lists does not matter
	rd.Shuffle(len(g.Members), func(a, b int) { g.Members[a], g.Members[b] = g.Members[b], g.Members[a] })
	rd.Shuffle(len(g.PendingMembers), func(a, b int) { g.PendingMembers[a], g.PendingMembers[b] = g.PendingMembers[b], g.PendingMembers[a] })
	rd.Shuffle(len(g.RequestingMembers), func(a, b int) {
		g.RequestingMembers[a], g.RequestingMembers[b] = g.RequestingMembers[b], g.RequestingMembers[a]
	})
	r.SetCase("state=%d limits=%d,%d,%d", i, max, cfg.Group.MaxGroupTitleLengthBytes, cfg.Group.MaxGroupDescriptionLengthBytes)
	before := proto.Clone(g).(*signalservice.DecryptedGroup)
	var err error
	what := fmt.Sprintf("a group state with the faults %q (title %d, description %d bytes; %d members, %d invited, %d requesting)", given, len(g.Title), len(g.Description), len(g.Members), len(g.PendingMembers), len(g.RequestingMembers))
	if !r.Safe("panic", what, func() { err = v.ValidateFinalGroupState(g) }) {
		return
	}
	r.Eval(fmt.Sprintf("%v/%d/%d/%d/%v", given, len(g.Members), len(g.PendingMembers), len(g.RequestingMembers), link))
	if len(given) == 0 && err != nil {
		r.Violation("refused", "%s is refused: %v; %s", what, err, g)
	}
	if len(given) > 0 && err == nil {
		r.Violation("accepted", "%s is accepted; %s", what, g)
	}
	if !proto.Equal(before, g) {
		r.Violation("changed", "%s was changed: %s -> %s", what, before, g)
	}
	if err == nil {
		r.Event("accepted", 1)
	} else {
		r.Event("refused", 1)
	}
}

// damage gives the group a fault; it reports whether that was possible.
func damage(rd *rand.Rand, cfg *config.Config, g *signalservice.DecryptedGroup, f string, next func() []byte) bool {
	max := cfg.Group.MaxGroupSize
	over := 1
	if rd.Intn(3) == 0 {
		over = 1 + rd.Intn(60)
	}
	ac := func() *signalservice.AccessControl {
		if g.AccessControl == nil {
			g.AccessControl = &signalservice.AccessControl{}
		}
		return g.AccessControl
	}
	member := func(u []byte) { g.Members = append(g.Members, &signalservice.DecryptedMember{Uuid: u, Role: role(rd)}) }
	invited := func(u []byte) {
		g.PendingMembers = append(g.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: u, Role: role(rd)})
	}
	request := func(u []byte) {
		g.RequestingMembers = append(g.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: u})
	}
	// there must be someone to do it to, and place for one more, or another fault would be given too
	var m, p, q []byte
	for _, x := range g.Members {
		if x != nil {
			m = x.Uuid
		}
	}
	for _, x := range g.PendingMembers {
		if x != nil {
			p = x.Uuid
		}
	}
	for _, x := range g.RequestingMembers {
		if x != nil {
			q = x.Uuid
		}
	}
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	room := len(g.Members)+len(g.PendingMembers) < max
	roomq := len(g.RequestingMembers) < max
	switch f {
	case "no title":
		g.Title = ""
	case "long title":
		g.Title = text(rd, cfg.Group.MaxGroupTitleLengthBytes+over)
	case "long description":
		g.Description = text(rd, cfg.Group.MaxGroupDescriptionLengthBytes+over)
	case "link without password":
		g.InviteLinkPassword = nil
		if rd.Intn(2) == 0 {
			g.InviteLinkPassword = []byte{}
		}
		ac().AddFromInviteLink = []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_ANY, signalservice.AccessControl_MEMBER, signalservice.AccessControl_ADMINISTRATOR}[rd.Intn(3)]
	case "too many":
		for n := max + over; len(g.Members)+len(g.PendingMembers) < n; {
			if rd.Intn(2) == 0 {
				member(next())
			} else {
				invited(next())
			}
		}
	case "too many requests":
		for n := max + over; len(g.RequestingMembers) < n; {
			request(next())
		}
	case "duplicate member":
		if m == nil || !room {
			return false
		}
		member(cp(m))
	case "duplicate invited":
		if p == nil || !room {
			return false
		}
		invited(cp(p))
	case "duplicate request":
		if q == nil || !roomq {
			return false
		}
		request(cp(q))
	case "member invited":
		if m == nil || !room {
			return false
		}
		invited(cp(m))
	case "member requesting":
		if m == nil || !roomq {
			return false
		}
		request(cp(m))
	case "invited requesting":
		if p == nil || !roomq {
			return false
		}
		request(cp(p))
	case "member role":
		if m == nil {
			return false
		}
		for _, x := range g.Members {
			if x != nil && bytes.Equal(x.Uuid, m) {
				x.Role = badRole(rd)
			}
		}
	case "invited role":
		if p == nil {
			return false
		}
		for _, x := range g.PendingMembers {
			if x != nil && bytes.Equal(x.Uuid, p) {
				x.Role = badRole(rd)
			}
		}
	case "attributes rule":
		ac().Attributes = badRule(rd, true)
	case "members rule":
		ac().Members = badRule(rd, true)
	case "link rule":
		ac().AddFromInviteLink = badRule(rd, false)
		g.InviteLinkPassword = vh.Bytes(rd, 16)
	case "missing member":
		if !room {
			return false
		}
		g.Members = append(g.Members, nil)
	case "missing invited":
		if !room {
			return false
		}
		g.PendingMembers = append(g.PendingMembers, nil)
	case "missing request":
		if !roomq {
			return false
		}
		g.RequestingMembers = append(g.RequestingMembers, nil)
	}
	return true
}

func badRule(rd *rand.Rand, strict bool) signalservice.AccessControl_AccessRequired {
	l := []signalservice.AccessControl_AccessRequired{5, 77, -1}
	if strict {
		l = append(l, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)
	}
	return l[rd.Intn(len(l))]
}

// invitations checks a list of invitations a user submits.
func invitations(r *vh.R, rd *rand.Rand, i int) {
	cfg := &config.Config{}
	cfg.Group.MaxGroupSize = 10
	v := groupsv2.NewGroupValidator(nil, cfg)
	group := &groupsv2.GroupV2{MasterKey: vh.Bytes(rd, 32), Revision: uint32(rd.Intn(1000))}
	group.DecryptedGroup = &signalservice.DecryptedGroup{Title: "t", Revision: group.Revision}
	k := 0
	next := func() []byte { k++; return user(rd, k) }
	n := 1 + rd.Intn(4)
	for j := 0; j < n; j++ {
		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{Uuid: next(), Role: role(rd)})
	}
	me := group.DecryptedGroup.Members[rd.Intn(n)].Uuid
	var given []string
	u := &entities.GroupUser{GroupPublicKey: group.MasterKey, UserCiphertext: me}
	switch rd.Intn(8) {
	case 0:
		u.UserCiphertext, given = next(), []string{"stranger"}
	case 1:
		u.GroupPublicKey, given = vh.Bytes(rd, 32), []string{"of another group"}
	}
	var actions []*signalservice.GroupChange_Actions_AddPendingMemberAction
	m := rd.Intn(4)
	bad := -1
	if rd.Intn(2) == 0 && m > 0 {
		bad = rd.Intn(m)
	}
	type want struct {
		user []byte
		role signalservice.Member_Role
	}
	var wants []want
	for j := 0; j < m; j++ {
		w := want{next(), role(rd)}
		wants = append(wants, w)
		a := &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: w.user, Role: w.role, JoinedAtRevision: uint32(rd.Intn(2000))}}}
		if rd.Intn(2) == 0 { // what a client says of these does not count
			a.Added.AddedByUserId, a.Added.Timestamp = next(), uint64(rd.Int63()>>uint(rd.Intn(64)))
		}
		if j == bad {
			f := []string{"nothing added", "no member", "no user", "unknown role", "a presentation", "a profile key"}[rd.Intn(6)]
			given = append(given, f)
			switch f {
			case "nothing added":
				a.Added = nil
			case "no member":
				a.Added.Member = nil
			case "no user":
				a.Added.Member.UserId = nil
			case "unknown role":
				a.Added.Member.Role = signalservice.Member_UNKNOWN
			case "a presentation":
				a.Added.Member.Presentation = vh.Bytes(rd, 1+rd.Intn(40))
			case "a profile key":
				a.Added.Member.ProfileKey = vh.Bytes(rd, 1+rd.Intn(40))
			}
		}
		actions = append(actions, a)
	}
	if m == 0 {
		given = nil
	}
	r.SetCase("invitations=%d", i)
	before := proto.Clone(group.DecryptedGroup).(*signalservice.DecryptedGroup)
	var err error
	what := fmt.Sprintf("%d invitations with the faults %q", m, given)
	t0 := time.Now().UnixMilli()
	if !r.Safe("panic-invitations", what, func() { err = v.ValidateAddMembersPendingProfileKey(u, group, actions) }) {
		return
	}
	r.Eval(fmt.Sprintf("inv/%v/%d/%d", given, m, n))
	if !proto.Equal(before, group.DecryptedGroup) {
		r.Violation("invitations-group", "%s: the group was changed", what)
	}
	if len(given) > 0 {
		r.Event("invitations refused", 1)
		if err == nil {
			r.Violation("invitations-accepted", "%s are accepted", what)
		}
		return
	}
	r.Event("invitations accepted", 1)
	if err != nil {
		r.Violation("invitations-refused", "%s are refused: %v", what, err)
		return
	}
	for j, a := range actions {
		x := a.GetAdded()
		t1 := time.Now().UnixMilli()
		if !bytes.Equal(x.GetMember().GetUserId(), wants[j].user) || x.GetMember().GetRole() != wants[j].role || !bytes.Equal(x.GetAddedByUserId(), me) ||
			x.GetMember().GetJoinedAtRevision() != group.Revision || int64(x.GetTimestamp()) < t0 || int64(x.GetTimestamp()) > t1 || len(x.GetMember().GetProfileKey()) != 0 || len(x.GetMember().GetPresentation()) != 0 {
			r.Violation("invitations-content", "%s: invitation %d should be of %x as %v by %x at revision %d and now (%d..%d), and is %v", what, j, wants[j].user, wants[j].role, me, group.Revision, t0, t1, x)
		}
	}
}
