package textsecure

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	zkgroup "github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/verifharness/vh"
)

// gmember is one entry of a group's lists, in plain.
type gmember struct {
	uuid   string
	role   signalservice.Member_Role
	key    []byte
	joined uint32
}

// sgroup is a group as the server (which here also knows the plaintext) has it.
type sgroup struct {
	master   []byte
	sp       zkgroup.GroupSecretParams
	pub      []byte
	cipher   *zkgroup.ClientZkGroupCipher
	title    string
	avatar   string
	revision uint32
	members  []gmember
	pending  []gmember
	asking   []gmember
	access   signalservice.AccessControl
	answer   func() (sresp, bool) // replaces the answer
	keyOf    map[string][]byte
	queries  int
	given    *sgroup // how the group was when it was last given to the client
	refused  bool    // the last answer to the client was that it is no member
	patches  []*signalservice.GroupChange_Actions
}

func (g *sgroup) hexid() string { return hex.EncodeToString(g.master) }

// groupServer is the simulated group (storage) server, with parameters of its own.
type groupServer struct {
	mu     sync.Mutex
	rd     *rand.Rand
	secret zkgroup.ServerSecretParams
	pub    zkgroup.ServerPublicParams
	groups map[string]*sgroup
	bad    []string
	days   []int64 // days credentials were asked for
	creds  func(a, b int64) (sresp, bool)
	patch  func() (sresp, bool)
	asked  int
}

func (q sreq) BasicAuth() (string, string, bool) {
	return (&http.Request{Header: q.Header}).BasicAuth()
}

func must16(err error) {
	if err != nil {
		panic(err)
	}
}

func newGroupServer(rd *rand.Rand) *groupServer {
	seed := make([]byte, 32)
	for i := range seed {
		seed[i] = byte(i*11 + 3)
	}
	s, err := zkgroup.GenerateServerSecretParamsDeterministic(seed)
	must16(err)
	p, err := s.PublicParams()
	must16(err)
	return &groupServer{rd: rd, secret: s, pub: p, groups: map[string]*sgroup{}}
}

// usable tells whether the package was built with this server's parameters.
func (s *groupServer) usable() bool {
	return config.ZKGROUP_SERVER_PUBLIC_PARAMS == base64.StdEncoding.EncodeToString(s.pub)
}

// setupGroupsV2 gives the group package its state after Setup.
func setupGroupsV2(dir string) {
	groupsv2.Credentials = nil
	must16(groupsv2.SetupGroups(dir))
}

func uuidBytes(u string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(u, "-", ""))
	must16(err)
	return b
}

func uuidString(b []byte) string {
	if len(b) != 16 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

func (s *groupServer) create(title string, members ...string) *sgroup {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := &sgroup{master: vh.Bytes(s.rd, 32), title: title, keyOf: map[string][]byte{}, revision: uint32(s.rd.Intn(50))}
	var err error
	g.sp, err = zkgroup.NewGroupSecretParams(g.master)
	must16(err)
	g.pub, err = g.sp.PublicParams()
	must16(err)
	g.cipher = zkgroup.NewClientZkGroupCipher(g.sp)
	g.access = signalservice.AccessControl{Attributes: signalservice.AccessControl_MEMBER, Members: signalservice.AccessControl_MEMBER, AddFromInviteLink: signalservice.AccessControl_UNSATISFIABLE}
	for i, m := range members {
		r := signalservice.Member_DEFAULT
		if i == 0 {
			r = signalservice.Member_ADMINISTRATOR
		}
		g.members = append(g.members, gmember{uuid: m, role: r, key: vh.Bytes(s.rd, 32), joined: uint32(s.rd.Intn(int(g.revision) + 1))})
	}
	s.groups[hex.EncodeToString(g.pub)] = g
	return g
}

// credential is the profile key credential of a user.
func (s *groupServer) credential(uuid string, key []byte) zkgroup.ProfileKeyCredential {
	u := uuidBytes(uuid)
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(s.pub, u, key)
	must16(err)
	rq, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	must16(err)
	cm, err := zkgroup.ProfileKeyGetCommitment(key, u)
	must16(err)
	rs, err := zkgroup.NewServerZkProfileOperations(s.secret).IssueProfileKeyCredential(rq, u, cm)
	must16(err)
	c, err := s.pub.ReceiveProfileKeyCredential(ctx, rs)
	must16(err)
	return c
}

func (s *groupServer) presentation(g *sgroup, uuid string, key []byte) []byte {
	p, err := s.pub.CreateProfileKeyCredentialPresentation(g.sp, s.credential(uuid, key))
	must16(err)
	return p
}

// sealKey is a profile key as the group has it.
func (s *groupServer) sealKey(g *sgroup, uuid string, key []byte) []byte {
	k := uuid + string(key)
	if c, ok := g.keyOf[k]; ok {
		return c
	}
	p, err := zkgroup.NewProfileKeyCredentialPresentation(s.presentation(g, uuid, key))
	must16(err)
	c, err := p.ProfileKeyCiphertext()
	must16(err)
	g.keyOf[k] = c
	return c
}

func (g *sgroup) sealUUID(uuid string) []byte {
	b, err := g.cipher.EncryptUUID(uuidBytes(uuid))
	must16(err)
	return b
}

func (g *sgroup) blob(b *signalservice.GroupAttributeBlob) []byte {
	p, err := proto.Marshal(b)
	must16(err)
	c, err := g.cipher.EncryptBlob(p)
	must16(err)
	return c
}

// encode is the group as the server sends it.
func (s *groupServer) encode(g *sgroup) *signalservice.Group {
	a := proto.Clone(&g.access).(*signalservice.AccessControl)
	e := &signalservice.Group{
		PublicKey: g.pub, Revision: g.revision, Avatar: g.avatar, AccessControl: a,
		Title: g.blob(&signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_Title{Title: g.title}}),
	}
	for _, m := range g.members {
		e.Members = append(e.Members, &signalservice.Member{UserId: g.sealUUID(m.uuid), Role: m.role, JoinedAtRevision: m.joined, ProfileKey: s.sealKey(g, m.uuid, m.key)})
	}
	for _, m := range g.pending {
		e.PendingMembers = append(e.PendingMembers, &signalservice.PendingMember{Member: &signalservice.Member{UserId: g.sealUUID(m.uuid), Role: m.role}, AddedByUserId: g.sealUUID(g.members[0].uuid), Timestamp: 1600000000000})
	}
	for _, m := range g.asking {
		e.RequestingMembers = append(e.RequestingMembers, &signalservice.RequestingMember{UserId: g.sealUUID(m.uuid), ProfileKey: s.sealKey(g, m.uuid, m.key), Timestamp: 1600000000000})
	}
	return e
}

func pbBytes(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	must16(err)
	return b
}

// change is a change of a group, signed by the server.
func (s *groupServer) change(a *signalservice.GroupChange_Actions) []byte {
	b := pbBytes(a)
	if len(b) == 0 {
		return pbBytes(&signalservice.GroupChange{ChangeEpoch: 1})
	}
	sig, err := s.secret.Sign(b)
	must16(err)
	return pbBytes(&signalservice.GroupChange{Actions: b, ServerSignature: sig, ChangeEpoch: 1})
}

func (s *groupServer) today() int64 { return time.Now().Unix() / 86400 }

func (s *groupServer) authorise(q sreq) (*sgroup, []byte, bool) {
	h := strings.TrimPrefix(q.Header.Get("Authorization"), "Basic ")
	b, err := base64.StdEncoding.DecodeString(h)
	p := strings.SplitN(string(b), ":", 2)
	if err != nil || len(p) != 2 {
		s.bad = append(s.bad, "authorization "+q.Header.Get("Authorization"))
		return nil, nil, false
	}
	pub, err := hex.DecodeString(p[0])
	pres, err2 := hex.DecodeString(p[1])
	if err != nil || err2 != nil || len(pres) == 0 {
		s.bad = append(s.bad, "authorization "+string(b))
		return nil, nil, false
	}
	ap, err := zkgroup.NewAuthCredentialPresentation(pres)
	if err != nil {
		s.bad = append(s.bad, "presentation")
		return nil, nil, false
	}
	if err := zkgroup.NewServerZkAuthOperations(s.secret).VerifyAuthCredentialPresentation(pub, ap); err != nil {
		s.bad = append(s.bad, "the presentation does not verify")
		return nil, nil, false
	}
	if t, err := ap.RedemptionTime(); err != nil || int64(t) != s.today() && int64(t) != s.today()-1 {
		s.bad = append(s.bad, fmt.Sprint("presentation of day ", t))
		return nil, nil, false
	}
	u, err := ap.UUIDCiphertext()
	must16(err)
	return s.groups[p[0]], u, true
}

func (s *groupServer) serve(q sreq) (sresp, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if strings.HasPrefix(q.Path, "/v1/certificate/group/") && q.Method == "GET" {
		p := strings.Split(strings.TrimPrefix(q.Path, "/v1/certificate/group/"), "/")
		if len(p) != 2 {
			return sresp{Status: 404}, true
		}
		a, err := strconv.ParseInt(p[0], 10, 64)
		b, err2 := strconv.ParseInt(p[1], 10, 64)
		if u, pw, ok := q.BasicAuth(); !ok || u != simUUID || pw != simPass {
			s.bad = append(s.bad, "credentials asked for as "+u)
			return sresp{Status: 401}, true
		}
		if err != nil || err2 != nil || b < a || b > a+7 || a < s.today()-1 || b > s.today()+8 {
			s.bad = append(s.bad, "credentials for "+q.Path)
			return sresp{Status: 400}, true
		}
		s.asked++
		if s.creds != nil {
			if r, ok := s.creds(a, b); ok {
				return r, true
			}
		}
		return sresp{Body: s.credentials(a, b)}, true
	}
	if q.Path != "/v1/groups/" {
		return sresp{}, false
	}
	g, u, ok := s.authorise(q)
	if !ok {
		return sresp{Status: 401}, true
	}
	if g == nil {
		return sresp{Status: 404}, true
	}
	g.queries++
	if g.answer != nil {
		if r, ok := g.answer(); ok {
			return r, true
		}
	}
	list := func(l []gmember) int {
		for i, m := range l {
			if string(g.sealUUID(m.uuid)) == string(u) {
				return i
			}
		}
		return -1
	}
	switch q.Method {
	case "GET":
		if list(g.members) < 0 && list(g.pending) < 0 {
			g.refused = true
			return sresp{Status: 403}, true
		}
		cp := *g
		cp.members, cp.pending, cp.asking = append([]gmember{}, g.members...), append([]gmember{}, g.pending...), append([]gmember{}, g.asking...)
		g.given, g.refused = &cp, false
		return sresp{Body: pbBytes(s.encode(g))}, true
	case "PATCH":
		if s.patch != nil {
			if r, ok := s.patch(); ok {
				return r, true
			}
		}
		a := &signalservice.GroupChange_Actions{}
		if err := proto.Unmarshal(q.Body, a); err != nil {
			s.bad = append(s.bad, "undecodable change")
			return sresp{Status: 400}, true
		}
		g.patches = append(g.patches, a)
		if a.Revision != g.revision+1 {
			return sresp{Status: 409}, true
		}
		for _, x := range a.PromotePendingMembers {
			p, err := zkgroup.NewProfileKeyCredentialPresentation(x.Presentation)
			if err == nil {
				err = zkgroup.NewServerZkProfileOperations(s.secret).VerifyProfileKeyCredentialPresentation(g.pub, p)
			}
			if err != nil {
				s.bad = append(s.bad, "promotion without a valid presentation")
				return sresp{Status: 400}, true
			}
			pu, _ := p.UUIDCiphertext()
			k := list(g.pending)
			if string(pu) != string(u) || k < 0 {
				return sresp{Status: 403}, true
			}
			m := g.pending[k]
			m.joined = a.Revision
			kc, err := p.ProfileKeyCiphertext()
			must16(err)
			if m.key, err = g.cipher.DecryptProfileKey(kc, uuidBytes(m.uuid)); err != nil {
				s.bad = append(s.bad, "promotion with an unreadable profile key")
				return sresp{Status: 400}, true
			}
			g.pending = append(append([]gmember{}, g.pending[:k]...), g.pending[k+1:]...)
			g.members = append(g.members, m)
		}
		g.revision = a.Revision
		b := pbBytes(a)
		sig, err := s.secret.Sign(b)
		must16(err)
		return sresp{Body: pbBytes(&signalservice.GroupChange{Actions: b, ServerSignature: sig})}, true
	}
	return sresp{Status: 405}, true
}

func (s *groupServer) credentials(a, b int64) []byte {
	var list []map[string]interface{}
	for d := a; d <= b; d++ {
		c, err := zkgroup.NewServerZkAuthOperations(s.secret).IssueAuthCredential(uuidBytes(simUUID), uint32(d))
		must16(err)
		list = append(list, map[string]interface{}{"credential": []byte(c), "redemptionTime": d})
		s.days = append(s.days, d)
	}
	return js(map[string]interface{}{"credentials": list})
}

// issue gives the profile key credential response to a request, both in hexadecimal.
func (s *groupServer) issue(uuid string, key []byte, version, request string) ([]byte, error) {
	u := uuidBytes(uuid)
	v, err := zkgroup.ProfileKeyGetProfileKeyVersion(key, u)
	must16(err)
	if string(v[:]) != version {
		return nil, fmt.Errorf("version %s, want %s", version, v)
	}
	rq, err := hex.DecodeString(request)
	if err != nil || len(rq) == 0 {
		return nil, fmt.Errorf("request %s", request)
	}
	cm, err := zkgroup.ProfileKeyGetCommitment(key, u)
	must16(err)
	return zkgroup.NewServerZkProfileOperations(s.secret).IssueProfileKeyCredential(rq, u, cm)
}
