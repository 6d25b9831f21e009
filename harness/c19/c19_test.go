package c19

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
	"google.golang.org/protobuf/proto"
)

const (
	any_  = signalservice.AccessControl_ANY
	membr = signalservice.AccessControl_MEMBER
	admin = signalservice.AccessControl_ADMINISTRATOR
	unsat = signalservice.AccessControl_UNSATISFIABLE
	unkn  = signalservice.AccessControl_UNKNOWN
	rUnk  = signalservice.Member_UNKNOWN
	rDef  = signalservice.Member_DEFAULT
	rAdm  = signalservice.Member_ADMINISTRATOR
)

// mem, req: what the model knows of members and of those who asked to join.
type mem struct {
	role signalservice.Member_Role
	pk   string
	rev  uint32
}
type pend struct {
	role signalservice.Member_Role
	by   string
}

// model is a group, written independently of the code: maps by user.
type model struct {
	members map[string]mem
	pending map[string]pend
	reqs    map[string]string
	attr    signalservice.AccessControl_AccessRequired
	memAcc  signalservice.AccessControl_AccessRequired
	link    signalservice.AccessControl_AccessRequired
	title   string
	descr   string
	avatar  string
	pw      string
	ann     bool
	rev     uint32
}

func (m *model) clone() *model {
	c := *m
	c.members, c.pending, c.reqs = map[string]mem{}, map[string]pend{}, map[string]string{}
	for k, v := range m.members {
		c.members[k] = v
	}
	for k, v := range m.pending {
		c.pending[k] = v
	}
	for k, v := range m.reqs {
		c.reqs[k] = v
	}
	return &c
}

func (m *model) show() string {
	var s []string
	for k, v := range m.members {
		s = append(s, fmt.Sprintf("member %x %v %x %d", k, v.role, v.pk, v.rev))
	}
	for k, v := range m.pending {
		s = append(s, fmt.Sprintf("pending %x %v by %x", k, v.role, v.by))
	}
	for k, v := range m.reqs {
		s = append(s, fmt.Sprintf("requesting %x %x", k, v))
	}
	sort.Strings(s)
	s = append(s, fmt.Sprintf("access %v %v %v title %q descr %q avatar %q pw %x announcements %v revision %d", m.attr, m.memAcc, m.link, m.title, m.descr, m.avatar, m.pw, m.ann, m.rev))
	return strings.Join(s, "\n")
}

// read is the group in the code as a model; whatever is listed twice shows.
func read(g *groupsv2.GroupV2) string {
	d := g.DecryptedGroup
	var s []string
	for _, x := range d.Members {
		s = append(s, fmt.Sprintf("member %x %v %x %d", string(x.Uuid), x.Role, string(x.ProfileKey), x.JoinedAtRevision))
	}
	for _, x := range d.PendingMembers {
		s = append(s, fmt.Sprintf("pending %x %v by %x", string(x.Uuid), x.Role, string(x.AddedByUuid)))
	}
	for _, x := range d.RequestingMembers {
		s = append(s, fmt.Sprintf("requesting %x %x", string(x.Uuid), string(x.ProfileKey)))
	}
	sort.Strings(s)
	a := d.AccessControl
	s = append(s, fmt.Sprintf("access %v %v %v title %q descr %q avatar %q pw %x announcements %v revision %d", a.Attributes, a.Members, a.AddFromInviteLink, d.Title, d.Description, d.Avatar, string(d.InviteLinkPassword), g.AnnouncementsOnly, g.Revision))
	return strings.Join(s, "\n")
}

func build(m *model, key []byte) *groupsv2.GroupV2 {
	g := &groupsv2.GroupV2{MasterKey: key, Hexid: fmt.Sprintf("%x", key), Revision: m.rev, AnnouncementsOnly: m.ann}
	d := &signalservice.DecryptedGroup{Title: m.title, Description: m.descr, Avatar: m.avatar, Revision: m.rev,
		AccessControl: &signalservice.AccessControl{Attributes: m.attr, Members: m.memAcc, AddFromInviteLink: m.link}}
	if m.pw != "" {
		d.InviteLinkPassword = []byte(m.pw)
	}
	for _, k := range keys(m.members) {
		v := m.members[k]
		d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: []byte(k), Role: v.role, ProfileKey: []byte(v.pk), JoinedAtRevision: v.rev})
	}
	for k, v := range m.pending {
		d.PendingMembers = append(d.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: []byte(k), Role: v.role, AddedByUuid: []byte(v.by), Timestamp: 77})
	}
	for k, v := range m.reqs {
		d.RequestingMembers = append(d.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: []byte(k), ProfileKey: []byte(v), Timestamp: 78})
	}
	g.DecryptedGroup = d
	return g
}

func keys(m map[string]mem) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cloneGroup(g *groupsv2.GroupV2) *groupsv2.GroupV2 {
	return &groupsv2.GroupV2{MasterKey: append([]byte{}, g.MasterKey...), Hexid: g.Hexid, Revision: g.Revision, AnnouncementsOnly: g.AnnouncementsOnly,
		DecryptedGroup: proto.Clone(g.DecryptedGroup).(*signalservice.DecryptedGroup)}
}

func people(rd *rand.Rand, n int) []string {
	var p []string
	for i := 0; i < n; i++ {
		b := vh.Bytes(rd, 16)
		if i > 0 && i%3 == 0 {
			// one that differs from an earlier one in one byte only
			copy(b, p[i-1])
			b[rd.Intn(16)] ^= 1
		}
		p = append(p, string(b))
	}
	return p
}

func pickAccess(rd *rand.Rand, l ...signalservice.AccessControl_AccessRequired) signalservice.AccessControl_AccessRequired {
	return l[rd.Intn(len(l))]
}

func pickRole(rd *rand.Rand) signalservice.Member_Role {
	return []signalservice.Member_Role{rDef, rDef, rDef, rAdm, rAdm, rUnk}[rd.Intn(6)]
}

// world is one group, its people and the model of it.
type world struct {
	rd    *rand.Rand
	key   []byte
	ppl   []string
	m     *model
	g     *groupsv2.GroupV2
	app   *groupsv2.GroupChangeApplicator
	other []byte
}

func newWorld(rd *rand.Rand, app *groupsv2.GroupChangeApplicator) *world {
	w := &world{rd: rd, key: vh.Bytes(rd, 32), other: vh.Bytes(rd, 32), ppl: people(rd, 10), app: app}
	m := &model{members: map[string]mem{}, pending: map[string]pend{}, reqs: map[string]string{}, rev: uint32(rd.Intn(50)),
		attr: pickAccess(rd, membr, admin, admin, any_), memAcc: pickAccess(rd, membr, admin, admin, any_, unsat),
		link: pickAccess(rd, admin, unsat, any_, any_), title: "title", descr: "descr", avatar: "avatar", pw: string(vh.Bytes(rd, 16)), ann: rd.Intn(2) == 0}
	for i, p := range w.ppl {
		switch k := rd.Intn(6); {
		case k <= 1 || i == 0:
			r := rDef
			if rd.Intn(3) == 0 {
				r = rAdm
			}
			m.members[p] = mem{r, string(vh.Bytes(rd, 8)), uint32(rd.Intn(int(m.rev) + 1))}
		case k == 2:
			m.pending[p] = pend{[]signalservice.Member_Role{rDef, rAdm}[rd.Intn(2)], w.ppl[0]}
		case k == 3:
			m.reqs[p] = string(vh.Bytes(rd, 8))
		}
	}
	w.m = m
	w.g = build(m, w.key)
	return w
}

// step is one action list applied by one user: what it is, how to apply it to the code, and what the rules say:
// the model after it, or nil when it must be refused.
type step struct {
	name  string
	apply func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error
	want  func(u string, in bool, pw string, m *model) *model
	loose bool // the timer is kept encrypted: only refusals are judged
	free  bool // no action at all: nothing may happen, whether that is reported or not
}

func isAdmin(u string, in bool, m *model) bool { return in && m.members[u].role == rAdm }
func isMember(u string, in bool, m *model) bool {
	_, ok := m.members[u]
	return in && ok
}
func mayAttr(u string, in bool, m *model) bool {
	return isMember(u, in, m) && (m.attr == membr || m.attr == any_ || m.attr == admin && isAdmin(u, in, m))
}

// ids is a list of people for an action: mostly of the kind that fits, sometimes strangers, doubles and nothing.
func (w *world) ids(fit []string, self string) []string {
	rd := w.rd
	n := []int{1, 1, 1, 1, 2, 2, 3, 0}[rd.Intn(8)]
	var l []string
	if rd.Intn(4) == 0 {
		return []string{self}
	}
	perm := rd.Perm(len(fit))
	for i := 0; i < n; i++ {
		switch {
		case rd.Intn(14) == 0:
			l = append(l, w.ppl[rd.Intn(len(w.ppl))])
		case rd.Intn(30) == 0:
			l = append(l, "")
		case rd.Intn(14) == 0 && len(l) > 0:
			l = append(l, l[rd.Intn(len(l))])
		case i < len(perm):
			l = append(l, fit[perm[i]])
		}
	}
	return l
}

func dup(l []string) bool {
	s := map[string]bool{}
	for _, x := range l {
		if s[x] {
			return true
		}
		s[x] = true
	}
	return false
}

func sorted(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// who lists the people in or out of the lists of the group
func (w *world) who(mb, pd, rq, out bool) []string {
	s := map[string]bool{}
	for _, p := range w.ppl {
		_, a := w.m.members[p]
		_, b := w.m.pending[p]
		_, c := w.m.reqs[p]
		if a && mb || b && pd || c && rq || !a && !b && !c && out {
			s[p] = true
		}
	}
	return sorted(s)
}

func (w *world) next(self string) step {
	rd := w.rd
	// a hole in the list, or in one of its items
	hole := -1
	if rd.Intn(12) == 0 {
		hole = rd.Intn(3)
	}
	switch rd.Intn(17) {
	case 0, 1: // add members
		ids := w.ids(w.who(false, true, true, true), self)
		var acts []*signalservice.GroupChange_Actions_AddMemberAction
		type it struct {
			id, pk string
			role   signalservice.Member_Role
		}
		var its []it
		for _, id := range ids {
			x := it{id, string(vh.Bytes(rd, 8)), pickRole(rd)}
			if rd.Intn(20) == 0 {
				x.pk = ""
			}
			its = append(its, x)
			acts = append(acts, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{UserId: []byte(id), ProfileKey: []byte(x.pk), Role: x.role}})
		}
		bad := false
		if hole >= 0 && len(acts) > 0 {
			bad = true
			if hole == 0 {
				acts[len(acts)-1] = nil
			} else {
				acts[len(acts)-1].Added = nil
			}
		}
		return step{name: "add members", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyAddMembers(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			ok := isAdmin(u, in, m) || isMember(u, in, m) && (m.memAcc == membr || m.memAcc == any_)
			if !isMember(u, in, m) {
				ok = in && len(ids) == 1 && ids[0] == u && (m.memAcc == any_ || m.link == any_ && pw == m.pw)
			}
			if !ok || bad || dup(ids) {
				return nil
			}
			c := m.clone()
			for _, x := range its {
				if _, there := m.members[x.id]; there || x.id == "" || x.pk == "" || x.role == rUnk || x.role == rAdm && !isAdmin(u, in, m) {
					return nil
				}
				c.members[x.id] = mem{x.role, x.pk, m.rev + 1}
				delete(c.pending, x.id)
				delete(c.reqs, x.id)
			}
			return c
		}}
	case 2: // delete members
		ids := w.ids(w.who(true, false, false, false), self)
		var acts []*signalservice.GroupChange_Actions_DeleteMemberAction
		for _, id := range ids {
			acts = append(acts, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: []byte(id)})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			acts[len(acts)-1] = nil
		}
		return step{name: "delete members", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyDeleteMembers(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || !isAdmin(u, in, m) && !(in && len(ids) == 1 && ids[0] == u) {
				return nil
			}
			c := m.clone()
			for _, id := range ids {
				if _, ok := m.members[id]; !ok {
					return nil
				}
				delete(c.members, id)
			}
			return c
		}}
	case 3, 4: // roles
		ids := w.ids(w.who(true, false, false, false), self)
		var acts []*signalservice.GroupChange_Actions_ModifyMemberRoleAction
		var roles []signalservice.Member_Role
		for _, id := range ids {
			r := pickRole(rd)
			roles = append(roles, r)
			acts = append(acts, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: []byte(id), Role: r})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			acts[len(acts)-1] = nil
		}
		return step{name: "roles", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyMemberRoles(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || !isAdmin(u, in, m) {
				return nil
			}
			c := m.clone()
			for i, id := range ids {
				x, ok := m.members[id]
				if !ok || roles[i] == rUnk {
					return nil
				}
				x.role = roles[i]
				c.members[id] = x
			}
			return c
		}}
	case 5: // invite
		var ids []string
		for _, id := range w.ids(w.who(false, false, false, true), self) {
			// inviting one who asked to join is left to the check of the final state
			if _, asked := w.m.reqs[id]; !asked {
				ids = append(ids, id)
			}
		}
		var acts []*signalservice.GroupChange_Actions_AddPendingMemberAction
		var roles []signalservice.Member_Role
		extra := false
		for _, id := range ids {
			r := pickRole(rd)
			roles = append(roles, r)
			x := &signalservice.Member{UserId: []byte(id), Role: r}
			switch rd.Intn(15) {
			case 0:
				x.ProfileKey = []byte{1}
				extra = true
			case 1:
				x.Presentation = []byte{1}
				extra = true
			}
			acts = append(acts, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: x}})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			switch hole {
			case 0:
				acts[len(acts)-1] = nil
			case 1:
				acts[len(acts)-1].Added = nil
			case 2:
				acts[len(acts)-1].Added.Member = nil
			}
		}
		return step{name: "invite", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyAddMembersPendingProfileKeys(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || extra || !isMember(u, in, m) || !isAdmin(u, in, m) && m.memAcc != membr && m.memAcc != any_ {
				return nil
			}
			c := m.clone()
			for i, id := range ids {
				_, a := m.members[id]
				_, b := m.pending[id]
				if a || b || id == "" || roles[i] == rUnk || roles[i] == rAdm && !isAdmin(u, in, m) {
					return nil
				}
				c.pending[id] = pend{roles[i], u}
			}
			return c
		}}
	case 6: // withdraw an invitation
		ids := w.ids(w.who(false, true, false, false), self)
		var acts []*signalservice.GroupChange_Actions_DeletePendingMemberAction
		for _, id := range ids {
			acts = append(acts, &signalservice.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: []byte(id)})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			acts[len(acts)-1] = nil
		}
		return step{name: "delete pending", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyDeleteMembersPendingProfileKey(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || !isAdmin(u, in, m) && !(in && len(ids) == 1 && ids[0] == u) {
				return nil
			}
			c := m.clone()
			for _, id := range ids {
				if _, ok := m.pending[id]; !ok {
					return nil
				}
				delete(c.pending, id)
			}
			return c
		}}
	case 7: // ask to join
		ids := w.ids(w.who(false, false, false, true), self)
		if rd.Intn(2) == 0 {
			ids = []string{self}
		}
		var acts []*signalservice.GroupChange_Actions_AddRequestingMemberAction
		var pks []string
		for _, id := range ids {
			pk := string(vh.Bytes(rd, 8))
			pks = append(pks, pk)
			acts = append(acts, &signalservice.GroupChange_Actions_AddRequestingMemberAction{Added: &signalservice.RequestingMember{UserId: []byte(id), ProfileKey: []byte(pk), Timestamp: 5}})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			if hole == 0 {
				acts[len(acts)-1] = nil
			} else {
				acts[len(acts)-1].Added = nil
			}
		}
		return step{name: "ask to join", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyAddMembersPendingAdminApproval(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || m.link != admin || pw != m.pw || !in || len(ids) != 1 || ids[0] != u {
				return nil
			}
			_, a := m.members[u]
			_, b := m.pending[u]
			_, q := m.reqs[u]
			if a || b || q {
				return nil
			}
			c := m.clone()
			c.reqs[u] = pks[0]
			return c
		}}
	case 8: // refuse or withdraw a request
		ids := w.ids(w.who(false, false, true, false), self)
		var acts []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction
		for _, id := range ids {
			acts = append(acts, &signalservice.GroupChange_Actions_DeleteRequestingMemberAction{DeletedUserId: []byte(id)})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			acts[len(acts)-1] = nil
		}
		return step{name: "delete requesting", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyDeleteMembersPendingAdminApproval(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || !isAdmin(u, in, m) && !(in && len(ids) == 1 && ids[0] == u) {
				return nil
			}
			c := m.clone()
			for _, id := range ids {
				if _, ok := m.reqs[id]; !ok {
					return nil
				}
				delete(c.reqs, id)
			}
			return c
		}}
	case 9, 10: // let in those who asked
		ids := w.ids(w.who(false, false, true, false), self)
		var acts []*signalservice.GroupChange_Actions_PromoteRequestingMemberAction
		var roles []signalservice.Member_Role
		for _, id := range ids {
			r := pickRole(rd)
			roles = append(roles, r)
			acts = append(acts, &signalservice.GroupChange_Actions_PromoteRequestingMemberAction{UserId: []byte(id), Role: r})
		}
		bad := hole >= 0 && len(acts) > 0
		if bad {
			acts[len(acts)-1] = nil
		}
		return step{name: "promote requesting", apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyPromotePendingAdminApproval(u, pw, g, acts, im)
		}, want: func(u string, in bool, pw string, m *model) *model {
			if len(acts) == 0 {
				return m
			}
			if bad || dup(ids) || !isAdmin(u, in, m) {
				return nil
			}
			c := m.clone()
			for i, id := range ids {
				pk, ok := m.reqs[id]
				if !ok || roles[i] == rUnk {
					return nil
				}
				c.members[id] = mem{roles[i], pk, m.rev + 1}
				delete(c.reqs, id)
			}
			return c
		}}
	}
	if rd.Intn(12) == 0 {
		// what rests on a credential: garbage is never one
		junk := vh.Bytes(rd, []int{0, 1, 32, 97, 650, 713}[rd.Intn(6)])
		mods := []*signalservice.GroupChange_Actions_ModifyMemberProfileKeyAction{{Presentation: junk, UserId: []byte(self), ProfileKey: []byte{1}}}
		proms := []*signalservice.GroupChange_Actions_PromotePendingMemberAction{{Presentation: junk, UserId: []byte(self), ProfileKey: []byte{1}}}
		if hole == 0 {
			mods[0], proms[0] = nil, nil
		}
		never := func(u string, in bool, pw string, m *model) *model { return nil }
		if rd.Intn(2) == 0 {
			return step{name: "profile key", want: never, apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
				return w.app.ApplyModifyMemberProfileKeys(u, pw, g, mods, im)
			}}
		}
		return step{name: "promote invited", want: never, apply: func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyPromoteMembersPendingProfileKey(u, pw, g, proms, im)
		}}
	}
	// the single values
	none := rd.Intn(12) == 0
	acc := pickAccess(rd, unkn, any_, membr, admin, unsat)
	txt := fmt.Sprintf("text %d \x00 é", rd.Intn(1000))
	val := func(name string, f func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error, ok func(u string, in bool, m *model) bool, set func(m *model)) step {
		return step{name: name, free: none, apply: f, want: func(u string, in bool, pw string, m *model) *model {
			if none {
				return m
			}
			if !ok(u, in, m) {
				return nil
			}
			c := m.clone()
			set(c)
			return c
		}}
	}
	one := func(l ...signalservice.AccessControl_AccessRequired) bool {
		for _, x := range l {
			if x == acc {
				return true
			}
		}
		return false
	}
	switch rd.Intn(9) {
	case 0:
		b := rd.Intn(2) == 0
		a := &signalservice.GroupChange_Actions_ModifyAnnouncementsOnlyAction{AnnouncementsOnly: b}
		if none {
			a = nil
		}
		return val("announcements", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyAnnouncementsOnly(u, pw, g, a, im)
		}, isAdmin, func(m *model) { m.ann = b })
	case 1:
		a := &signalservice.GroupChange_Actions_ModifyDescriptionAction{Description: []byte(txt)}
		if none {
			a = nil
		}
		return val("description", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyDescription(u, pw, g, a, im)
		}, mayAttr, func(m *model) { m.descr = txt })
	case 2:
		np := string(vh.Bytes(rd, 16))
		a := &signalservice.GroupChange_Actions_ModifyInviteLinkPasswordAction{InviteLinkPassword: []byte(np)}
		if none {
			a = nil
		}
		return val("link password", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyInviteLinkPassword(u, pw, g, a, im)
		}, isAdmin, func(m *model) { m.pw = np })
	case 3:
		a := &signalservice.GroupChange_Actions_ModifyAddFromInviteLinkAccessControlAction{AddFromInviteLinkAccess: acc}
		if none {
			a = nil
		}
		return val("link access", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyAddFromInviteLinkAccess(u, pw, g, a, im)
		}, func(u string, in bool, m *model) bool { return isAdmin(u, in, m) && one(admin, unsat, any_) }, func(m *model) { m.link = acc })
	case 4:
		a := &signalservice.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: acc}
		if none {
			a = nil
		}
		return val("members access", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyMembersAccess(u, pw, g, a, im)
		}, func(u string, in bool, m *model) bool { return isAdmin(u, in, m) && one(admin, membr) }, func(m *model) { m.memAcc = acc })
	case 5:
		a := &signalservice.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: acc}
		if none {
			a = nil
		}
		return val("attributes access", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyAttributesAccess(u, pw, g, a, im)
		}, func(u string, in bool, m *model) bool { return isAdmin(u, in, m) && one(admin, membr) }, func(m *model) { m.attr = acc })
	case 6:
		if rd.Intn(6) == 0 {
			txt = ""
		}
		a := &signalservice.GroupChange_Actions_ModifyTitleAction{Title: []byte(txt)}
		if none {
			a = nil
		}
		return val("title", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyTitle(u, pw, g, a, im)
		}, func(u string, in bool, m *model) bool { return mayAttr(u, in, m) && txt != "" }, func(m *model) { m.title = txt })
	case 7:
		av := "groups/" + fmt.Sprintf("%x", vh.Bytes(rd, 8))
		a := &signalservice.GroupChange_Actions_ModifyAvatarAction{Avatar: av}
		if none {
			a = nil
		}
		return val("avatar", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
			return w.app.ApplyModifyAvatar(u, pw, g, a, im)
		}, mayAttr, func(m *model) { m.avatar = av })
	}
	a := &signalservice.GroupChange_Actions_ModifyDisappearingMessagesTimerAction{Timer: []byte{1, 2, 3}}
	if none {
		a = nil
	}
	s := val("timer", func(u *entities.GroupUser, pw []byte, g, im *groupsv2.GroupV2) error {
		return w.app.ApplyModifyDisappearingMessageTimer(u, pw, g, a, im)
	}, mayAttr, func(m *model) {})
	s.loose = true
	return s
}

// raw is everything of a group, bit for bit.
func raw(g *groupsv2.GroupV2) []byte {
	a, err := proto.MarshalOptions{Deterministic: true}.Marshal(g.DecryptedGroup)
	if err != nil {
		panic(err)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(&g.GroupContext)
	if err != nil {
		panic(err)
	}
	return append(append(append(a, b...), g.MasterKey...), fmt.Sprint(g.Hexid, g.Revision, g.AnnouncementsOnly, g.JoinStatus)...)
}

func TestC19(t *testing.T) {
	r := vh.Start(t, "C19", "an action is performed exactly as named, and only for those the group's roles and access rules allow; anything else is an error without effect")
	defer r.Finish()
	r.Assume("users are known by their id within the group; actions that rest on a credential presentation and the encrypted timer value are not judged")
	cfg := &config.Config{}
	cfg.Group.MaxGroupSize = 1000
	cfg.Group.MaxGroupTitleLengthBytes = 1000
	app := groupsv2.NewGroupChangeApplicator(groupsv2.NewGroupValidator(nil, cfg))
	n := r.N(4000, 60000)
	for i := 0; i < n; i++ {
		rd := r.Rand("group", i)
		w := newWorld(rd, app)
		var hist []string
		for k := 0; k < 25; k++ {
			// the people who act: mostly members, also the invited, those who asked, strangers, and people of another group
			self := w.ppl[rd.Intn(len(w.ppl))]
			if mb := w.who(true, false, false, false); len(mb) > 0 && rd.Intn(2) == 0 {
				self = mb[rd.Intn(len(mb))]
			}
			in := rd.Intn(15) != 0
			u := &entities.GroupUser{UserCiphertext: []byte(self), GroupPublicKey: append([]byte{}, w.key...), GroupId: []byte("id"), StrGroupId: "id", StrUserUUId: "u"}
			if !in {
				u.GroupPublicKey = w.other
			}
			pw := w.m.pw
			switch rd.Intn(5) {
			case 0:
				pw = string(vh.Bytes(rd, 16))
			case 1:
				pw = pw[:15]
			case 2:
				pw = ""
			}
			s := w.next(self)
			r.SetCase("group %d step %d: %s; before: %v", i, k, s.name, hist)
			hist = append(hist, s.name)
			if len(hist) > 6 {
				hist = hist[1:]
			}
			role := "stranger"
			if !in {
				role = "other group's"
			} else if isAdmin(self, in, w.m) {
				role = "admin"
			} else if isMember(self, in, w.m) {
				role = "member"
			}
			im := cloneGroup(w.g)
			before, beforeIm := raw(w.g), raw(im)
			want := s.want(self, in, pw, w.m)
			var err error
			if p := vh.Try(func() { err = s.apply(u, []byte(pw), w.g, im) }); p != "" {
				r.Violation("panic "+s.name, "%s crashed: %s", s.name, p)
				w.g = build(w.m, w.key)
				continue
			}
			after := raw(w.g)
			if s.free {
				if !bytes.Equal(before, after) {
					r.Violation("nothing "+s.name, "no action for %s had an effect", s.name)
				}
				continue
			}
			if !bytes.Equal(beforeIm, raw(im)) {
				r.Violation("reference "+s.name, "%s changed the reference copy of the group", s.name)
			}
			if want == nil {
				r.Eval(s.name + " refused " + role)
				r.Event("refusals expected", 1)
				if err == nil {
					r.Violation("allowed "+s.name, "%s by a %s (access: members %v, attributes %v, link %v) was not refused\ngroup:\n%s", s.name, role, w.m.memAcc, w.m.attr, w.m.link, w.m.show())
				} else if !bytes.Equal(before, after) {
					r.Violation("partial "+s.name, "%s was refused (%v) but had an effect\nbefore:\n%s\nafter:\n%s", s.name, err, w.m.show(), read(w.g))
				}
				if !bytes.Equal(before, after) {
					w.g = build(w.m, w.key)
				}
				continue
			}
			r.Eval(s.name + " done " + role)
			r.Event("actions expected to be done", 1)
			if err != nil {
				r.Violation("refused "+s.name, "%s by a %s (access: members %v, attributes %v, link %v) was refused: %v\ngroup:\n%s", s.name, role, w.m.memAcc, w.m.attr, w.m.link, err, w.m.show())
				w.g = build(w.m, w.key)
				continue
			}
			if want != w.m {
				r.Event("changed "+s.name, 1)
			}
			if !s.loose {
				if got := read(w.g); got != want.show() {
					r.Violation("effect "+s.name, "%s by a %s did something else\nexpected:\n%s\ngot:\n%s", s.name, role, want.show(), got)
					w.g = build(want, w.key)
				}
			}
			w.m = want
			if s.loose {
				w.g = build(want, w.key)
			}
			if rd.Intn(3) == 0 {
				// the change was the last of its revision
				w.m.rev++
				w.g.Revision++
			}
		}
	}
	for _, s := range []string{"add members", "delete members", "roles", "invite", "delete pending", "ask to join", "delete requesting", "promote requesting", "announcements", "description", "link password", "link access", "members access", "attributes access", "title", "avatar"} {
		r.Require("changed "+s, 10)
	}
	r.Require("refusals expected", 1000)
}
