package verifharness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// The whole library over one storage: the standalone identity provider serves D1 and the index,
// all of them keep their records in the same place, and any number of instances take turns.

type SysEv struct {
	Op  string   `json:"op"`
	Tok string   `json:"tok"`
	Uid string   `json:"uid"`
	Pw  string   `json:"pw"`
	Oid string   `json:"oid"`
	Kw  string   `json:"kw"`
	It  string   `json:"it"`
	Gs  []string `json:"gs"`
	Sc  []string `json:"sc"`
	Pay string   `json:"pay"`
	Now int64    `json:"now"`

	Res   string   `json:"res"`
	New   string   `json:"new"`
	Exp   int64    `json:"exp"`
	Shown bool     `json:"shown"`
	Opay  string   `json:"opay"`
	Olist []string `json:"olist"`
	Ouid  string   `json:"ouid"`
	Osc   []string `json:"osc"`
	Ogr   []GrpOut `json:"ogr"`
}

type sysInst struct {
	p  *id.Standalone
	d  *d1.D1
	ix *index.SecureIndex
}

type sysStore struct {
	name string
	p    io.Provider
	path string // of a Bolt file
	dir  string
	n    int
}

func newSysStore(kind string) *sysStore {
	s := &sysStore{name: kind}
	bolt := func() io.Provider {
		s.dir = fastDir()
		s.path = filepath.Join(s.dir, "0.db")
		b, err := io.NewBolt(s.path)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return &b
	}
	switch kind {
	case "mem":
		m := io.NewMem()
		s.p = &m
	case "proxy of mem":
		m := io.NewMem()
		p := io.NewProxy(&m)
		s.p = &p
	case "bolt":
		s.p = bolt()
	case "proxy of bolt":
		p := io.NewProxy(bolt())
		s.p = &p
	default:
		s.p = newFStore()
	}
	return s
}

// restart continues with a copy of the Bolt file, as after the process ended.
func (s *sysStore) restart() {
	if s.path == "" {
		return
	}
	b, err := os.ReadFile(s.path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.n++
	s.path = filepath.Join(s.dir, fmt.Sprint(s.n, ".db"))
	if err := os.WriteFile(s.path, b, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
	nb, err := io.NewBolt(s.path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.p = &nb
	if s.name == "proxy of bolt" {
		p := io.NewProxy(&nb)
		s.p = &p
	}
}

func (s *sysStore) done() {
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

type wholeSys struct {
	r                                            *rand.Rand
	t0                                           time.Time
	st                                           *sysStore
	insts                                        []sysInst
	ids, logins, pws, oids, pays, kws, its, tkns *Names
	sealed                                       map[string]data.SealedToken
	ev                                           []any
	keys                                         key.Keys
	conf                                         id.StandaloneConfig

	users, groups, objs, toks []string
	plain                     bool // nothing is presented as something else
	pwOf                      map[string]string
	tokOf                     map[string]string
}

func newWholeSys(r *rand.Rand, kind string) *wholeSys {
	s := &wholeSys{r: r, t0: time.Now(), st: newSysStore(kind), sealed: map[string]data.SealedToken{}, pwOf: map[string]string{}, tokOf: map[string]string{},
		ids: newNames("i"), logins: newNames("l"), pws: newNames("p"), oids: newNames("o"), pays: newNames("c"), kws: newNames("k"), its: newNames("e"), tkns: newNames("t"),
		keys: testKeys(byte(r.Intn(100))), conf: idpConfig(byte(100 + r.Intn(100)))}
	s.logins.bind("bad", "bad")
	s.more()
	return s
}

// more makes another set of instances over the same storage.
func (s *wholeSys) more() {
	p, err := id.NewStandalone(s.conf, s.st.p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	kp := key.NewStatic(s.keys)
	d, err := d1.New(context.Background(), &kp, s.st.p, &p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ix, err := index.NewSecureIndex(context.Background(), &kp, s.st.p, &p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.insts = append(s.insts, sysInst{&p, &d, &ix})
}

func (s *wholeSys) restart() {
	s.st.restart()
	s.insts = nil
	s.more()
	s.ev = append(s.ev, SysEv{Op: "Restart", Gs: []string{}, Sc: []string{}, Olist: []string{}, Osc: []string{}, Ogr: []GrpOut{}})
}

func sysClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, d1.ErrNotAuthenticated), errors.Is(err, index.ErrNotAuthenticated):
		return "notauthn"
	case errors.Is(err, d1.ErrNotAuthorized), errors.Is(err, index.ErrNotAuthorized):
		return "notauthz"
	case errors.Is(err, d1.ErrAccessNotFound), errors.Is(err, d1.ErrObjectNotFound), errors.Is(err, io.ErrNotFound):
		return "notfound"
	}
	return "error"
}

func idNames(n *Names, l []string) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, n.val(x))
	}
	return out
}

func (s *wholeSys) call(e SysEv) SysEv {
	e.Now = int64(time.Since(s.t0) / time.Second)
	e.Olist, e.Osc, e.Ogr = []string{}, []string{}, []GrpOut{}
	if e.Gs == nil {
		e.Gs = []string{}
	}
	if e.Sc == nil {
		e.Sc = []string{}
	}
	tok, uid, oid := "", "", uuid.Nil
	if e.Tok != "" {
		tok = s.logins.val(e.Tok)
	}
	if e.Uid != "" {
		uid = s.ids.val(e.Uid)
	}
	if e.Oid != "" {
		oid = uuid.FromBytesOrNil([]byte(s.oids.val(e.Oid)))
	}
	gs := idNames(s.ids, e.Gs)
	in := pick(s.r, s.insts)
	ctx := context.Background()
	var err error
	user := false
	pan := guarded(func() {
		switch e.Op {
		case "NewUser":
			user = true
			var u, pw string
			if u, pw, err = in.p.NewUser(ctx, scopesSplit(s.r, e.Sc)...); err == nil {
				e.New, e.Pw = s.ids.add(u), s.pws.add(pw)
			}
			e.Shown = err != nil && (u != "" || pw != "")
		case "Login":
			user = true
			var t string
			var x int64
			if t, x, err = in.p.LoginUser(ctx, uid, s.pws.val(e.Pw)); err == nil {
				e.New, e.Exp = s.logins.add(t), x-s.t0.Unix()
			}
			e.Shown = err != nil && t != ""
		case "ChangePw":
			user = true
			var n string
			if n, err = in.p.ChangeUserPassword(ctx, uid, s.pws.val(e.Pw)); err == nil {
				e.New = s.pws.add(n)
			}
			e.Shown = err != nil && n != ""
		case "Identity":
			user = true
			var i id.Identity
			if i, err = in.p.GetIdentity(ctx, tok); err == nil {
				e.Ouid, e.Osc = s.ids.name(i.ID), scopeList(i.Scopes)
				for g, x := range i.Groups {
					e.Ogr = append(e.Ogr, GrpOut{s.ids.name(g), s.ids.name(x.ID), scopeList(x.Scopes)})
				}
			}
			e.Shown = err != nil && (i.ID != "" || len(i.Groups) > 0 || i.Scopes != 0)
		case "NewGroup":
			user = true
			var g string
			if g, err = in.p.NewGroup(ctx, tok, scopesSplit(s.r, e.Sc)...); err == nil {
				e.New = s.ids.add(g)
			}
			e.Shown = err != nil && g != ""
		case "DeleteUser":
			user = true
			err = in.p.DeleteUser(ctx, tok, uid)
		case "AddUser":
			user = true
			err = in.p.AddUserToGroups(ctx, tok, uid, gs...)
		case "RemoveUser":
			user = true
			err = in.p.RemoveUserFromGroups(ctx, tok, uid, gs...)
		case "Add":
			err = in.ix.Add(ctx, tok, s.kws.val(e.Kw), s.its.val(e.It))
		case "DeleteEntry":
			err = in.ix.Delete(ctx, tok, s.kws.val(e.Kw), s.its.val(e.It))
		case "Search":
			var l []string
			l, err = in.ix.Search(ctx, tok, s.kws.val(e.Kw))
			for _, x := range l {
				e.Olist = append(e.Olist, s.its.name(x))
			}
			e.Shown = err != nil && len(l) > 0
		case "CreateToken":
			var t data.SealedToken
			if t, err = in.d.CreateToken(ctx, []byte(s.pays.val(e.Pay))); err == nil {
				str, serr := t.String()
				if serr != nil {
					err = serr
					return
				}
				e.New, e.Exp = s.tkns.add(str), t.ExpiryTime.Unix()-s.t0.Unix()
				s.sealed[e.New] = t
			}
		case "OpenToken":
			user = true
			var t data.SealedToken
			if t, err = data.TokenFromString(s.tkns.val(e.Pay)); err == nil {
				var b []byte
				b, err = in.d.GetTokenContents(ctx, &t)
				if err == nil {
					e.Opay = s.pays.name(string(b))
				}
				e.Shown = err != nil && len(b) > 0
			}
		case "Encrypt":
			var o uuid.UUID
			b := []byte(s.pays.val(e.Pay))
			if o, err = in.d.Encrypt(ctx, tok, &data.Object{Plaintext: b, AssociatedData: append([]byte("about "), b...)}, gs...); err == nil {
				e.New = s.oids.add(string(o.Bytes()))
			}
			e.Shown = err != nil && o != uuid.Nil
		case "Update":
			b := []byte(s.pays.val(e.Pay))
			err = in.d.Update(ctx, tok, oid, &data.Object{Plaintext: b, AssociatedData: append([]byte("about "), b...)})
		case "Decrypt":
			var o data.Object
			if o, err = in.d.Decrypt(ctx, tok, oid); err == nil {
				e.Opay = s.pays.name(string(o.Plaintext))
				if !bytes.Equal(o.AssociatedData, append([]byte("about "), o.Plaintext...)) {
					e.Opay = "other associated data"
				}
			}
			e.Shown = err != nil && (len(o.Plaintext) > 0 || len(o.AssociatedData) > 0)
		case "Delete":
			err = in.d.Delete(ctx, tok, oid)
		case "GetAccessGroups":
			var m map[string]struct{}
			m, err = in.d.GetAccessGroups(ctx, tok, oid)
			for x := range m {
				e.Olist = append(e.Olist, s.ids.name(x))
			}
			e.Shown = err != nil && len(m) > 0
		case "AddGroupsToAccess":
			err = in.d.AddGroupsToAccess(ctx, tok, oid, gs...)
		case "RemoveGroupsFromAccess":
			err = in.d.RemoveGroupsFromAccess(ctx, tok, oid, gs...)
		case "AuthorizeIdentity":
			err = in.d.AuthorizeIdentity(ctx, tok, oid)
		default:
			panic("harness: unknown operation " + e.Op)
		}
	})
	switch {
	case pan != "":
		e.Res = "panic"
	case err != nil && user:
		e.Res = "refused"
	default:
		e.Res = sysClass(err)
	}
	s.ev = append(s.ev, e)
	return e
}

type SysStep struct {
	C struct {
		Op, Tok, Uid, Pw, Oid, Kw, It, Pay string
		Gs, Sc                             []string
	} `json:"c"`
	N string `json:"n"`
}

var sysKinds = []string{"map", "mem", "bolt", "proxy of mem", "map", "proxy of bolt"}

func TestSystemWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	walks := loadWalks[SysStep](t)
	parallel(t, len(walks), func(t *testing.T, wi int) {
		s := newWholeSys(newRand(int64(370000+wi)), sysKinds[wi%len(sysKinds)])
		defer s.st.done()
		s.kws.bind("k", "keyword")
		s.its.bind("i", "identifier")
		s.pays.bind("x", "one")
		s.pays.bind("y", "another")
		ids, logins := map[string]string{}, map[string]string{"bad": "bad"}
		pw, oid := map[string]string{}, ""
		for _, st := range walks[wi] {
			if s.r.Intn(40) == 0 {
				s.restart()
			}
			if s.r.Intn(20) == 0 && len(s.insts) < 4 {
				s.more()
			}
			c := st.C
			lost := c.Uid != "" && ids[c.Uid] == "" || c.Tok != "" && logins[c.Tok] == "" || c.Oid != "" && oid == ""
			for _, g := range c.Gs {
				lost = lost || ids[g] == ""
			}
			if lost { // its creation did not succeed as it should have
				break
			}
			e := SysEv{Op: c.Op, Kw: c.Kw, It: c.It, Pay: c.Pay, Sc: c.Sc, Uid: ids[c.Uid], Tok: logins[c.Tok]}
			for _, g := range c.Gs {
				e.Gs = append(e.Gs, ids[g])
			}
			if c.Op == "Login" {
				e.Pw = pw[c.Uid]
			}
			if c.Oid != "" {
				e.Oid = oid
			}
			r := s.call(e)
			if r.Res != "ok" {
				continue
			}
			switch c.Op {
			case "NewUser":
				ids[st.N], pw[st.N] = r.New, r.Pw
			case "NewGroup":
				ids[st.N] = r.New
			case "Login":
				logins[c.Uid] = r.New
			case "Encrypt":
				oid = r.New
			}
		}
		sink.put("seq", s.st.name, s.ev)
	})
}

// ---- random histories --------------------------------------------------------------------------

func (s *wholeSys) scopes() []string {
	if s.r.Intn(3) > 0 {
		return scopeNames
	}
	return subset(s.r, scopeNames, 0.7)
}

func (s *wholeSys) newUser() {
	r := s.call(SysEv{Op: "NewUser", Sc: s.scopes()})
	if r.Res == "ok" {
		s.users = append(s.users, r.New)
		s.pwOf[r.New] = r.Pw
		s.login(r.New)
	}
}

func (s *wholeSys) login(u string) {
	r := s.call(SysEv{Op: "Login", Uid: u, Pw: s.pwOf[u]})
	if r.Res == "ok" {
		s.toks = append(s.toks, r.New)
		s.tokOf[u] = r.New
	}
}

func (s *wholeSys) anyTok() string {
	switch s.r.Intn(12) {
	case 0:
		return "bad"
	case 1:
		return pick(s.r, s.toks)
	}
	if t, ok := s.tokOf[pick(s.r, s.users)]; ok {
		return t
	}
	return "bad"
}

// things of one kind presented as another
func (s *wholeSys) crossed() {
	switch s.r.Intn(6) {
	case 0: // a token of D1 as a login token, its contents a user ID
		r := s.call(SysEv{Op: "CreateToken", Pay: s.pays.add(s.ids.val(pick(s.r, s.users)))})
		if r.Res == "ok" {
			s.call(SysEv{Op: pick(s.r, []string{"Identity", "NewGroup", "Encrypt", "Search"}), Tok: s.logins.add(s.tkns.val(r.New)), Kw: "k1", Pay: "c1"})
		}
	case 1: // a login token as a token of D1
		s.call(SysEv{Op: "OpenToken", Pay: s.tkns.add(s.logins.val(pick(s.r, s.toks)))})
	case 2: // a user or group as an object
		u, err := uuid.FromString(s.ids.val(pick(s.r, append(s.users, s.groups...))))
		if err == nil {
			s.call(SysEv{Op: pick(s.r, []string{"Decrypt", "GetAccessGroups", "Delete", "Update"}), Tok: s.anyTok(), Oid: s.oids.add(string(u.Bytes())), Pay: "c1"})
		}
	case 3: // an object or a group as a user
		x := ""
		if len(s.objs) > 0 && s.r.Intn(2) == 0 {
			x = s.ids.add(uuid.FromBytesOrNil([]byte(s.oids.val(pick(s.r, s.objs)))).String())
		} else if len(s.groups) > 0 {
			x = pick(s.r, s.groups)
		}
		if x != "" {
			s.call(SysEv{Op: pick(s.r, []string{"DeleteUser", "AddUser", "RemoveUser"}), Tok: s.anyTok(), Uid: x, Gs: subset(s.r, s.groups, 0.2)})
		}
	case 4: // a user as a group
		s.call(SysEv{Op: pick(s.r, []string{"AddUser", "RemoveUser"}), Tok: s.anyTok(), Uid: pick(s.r, s.users), Gs: []string{pick(s.r, s.users)}})
	case 5: // an ID as a keyword
		x := pick(s.r, append(s.users, s.groups...))
		s.call(SysEv{Op: pick(s.r, []string{"Add", "DeleteEntry", "Search"}), Tok: s.anyTok(), Kw: s.kws.add(s.ids.val(x)), It: s.its.add(s.ids.val(x))})
	}
}

func (s *wholeSys) step() {
	g := func() []string { return subset(s.r, append(append([]string{}, s.groups...), s.users...), 0.25) }
	switch n := s.r.Intn(100); {
	case n < 2 && len(s.users) < 7:
		s.newUser()
	case n < 4:
		if u := pick(s.r, s.users); s.r.Intn(2) == 0 {
			s.login(u)
		} else if r := s.call(SysEv{Op: "ChangePw", Uid: u, Pw: s.pwOf[pick(s.r, s.users)]}); r.Res == "ok" {
			s.pwOf[u] = r.New
		}
	case n < 8:
		if r := s.call(SysEv{Op: "NewGroup", Tok: s.anyTok(), Sc: s.scopes()}); r.Res == "ok" {
			s.groups = append(s.groups, r.New)
		}
	case n < 9:
		s.call(SysEv{Op: "DeleteUser", Tok: s.anyTok(), Uid: pick(s.r, s.users)})
		s.newUser()
	case n < 20:
		s.call(SysEv{Op: pick(s.r, []string{"AddUser", "AddUser", "RemoveUser"}), Tok: s.anyTok(), Uid: pick(s.r, s.users), Gs: subset(s.r, s.groups, 0.3)})
	case n < 25:
		s.call(SysEv{Op: "Identity", Tok: s.anyTok()})
	case n < 32 || len(s.objs) == 0:
		if r := s.call(SysEv{Op: "Encrypt", Tok: s.anyTok(), Pay: s.pays.add(string(randBytes(s.r, 1+s.r.Intn(60)))), Gs: g()}); r.Res == "ok" {
			s.objs = append(s.objs, r.New)
		}
	case n < 46:
		s.call(SysEv{Op: "Decrypt", Tok: s.anyTok(), Oid: pick(s.r, s.objs)})
	case n < 52:
		s.call(SysEv{Op: "Update", Tok: s.anyTok(), Oid: pick(s.r, s.objs), Pay: s.pays.add(string(randBytes(s.r, 1+s.r.Intn(60))))})
	case n < 60:
		s.call(SysEv{Op: pick(s.r, []string{"AddGroupsToAccess", "RemoveGroupsFromAccess"}), Tok: s.anyTok(), Oid: pick(s.r, s.objs), Gs: g()})
	case n < 66:
		s.call(SysEv{Op: pick(s.r, []string{"AuthorizeIdentity", "GetAccessGroups"}), Tok: s.anyTok(), Oid: pick(s.r, s.objs)})
	case n < 68:
		s.call(SysEv{Op: "Delete", Tok: s.anyTok(), Oid: pick(s.r, s.objs)})
	case n < 74:
		s.call(SysEv{Op: "Add", Tok: s.anyTok(), Kw: pick(s.r, []string{"k1", "k2"}), It: pick(s.r, []string{"e1", "e2", "e3"})})
	case n < 80:
		s.call(SysEv{Op: "Search", Tok: s.anyTok(), Kw: pick(s.r, []string{"k1", "k2"})})
	case n < 82:
		s.call(SysEv{Op: "DeleteEntry", Tok: s.anyTok(), Kw: pick(s.r, []string{"k1", "k2"}), It: pick(s.r, []string{"e1", "e2", "e3"})})
	case n < 86:
		if r := s.call(SysEv{Op: "CreateToken", Pay: s.pays.add(string(randBytes(s.r, 1+s.r.Intn(60))))}); r.Res == "ok" {
			s.call(SysEv{Op: "OpenToken", Pay: r.New})
		}
	case n < 89:
		names := []string{}
		for k := range s.sealed {
			names = append(names, k)
		}
		if len(names) > 0 {
			sort.Strings(names)
			s.call(SysEv{Op: "OpenToken", Pay: pick(s.r, names)})
		}
	case n < 95 && !s.plain:
		s.crossed()
	case n < 95:
	case n < 96:
		s.restart()
	case n < 97:
		if len(s.insts) < 5 {
			s.more()
		}
	case n < 98:
		time.Sleep(time.Duration(1+2*s.r.Intn(3000)) * time.Second)
		if s.r.Intn(2) == 0 {
			for _, u := range s.users {
				if s.r.Intn(2) == 0 {
					s.login(u)
				}
			}
		}
	default:
		u := pick(s.r, s.users)
		if t, ok := s.tokOf[u]; ok { // what the user is just now, and what follows from it
			s.call(SysEv{Op: "Identity", Tok: t})
			for _, o := range s.objs {
				s.call(SysEv{Op: pick(s.r, []string{"Decrypt", "AuthorizeIdentity"}), Tok: t, Oid: o})
			}
		}
	}
}

func TestSystemRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	parallel(t, tier(60, 800), func(t *testing.T, k int) {
		s := newWholeSys(newRand(int64(380000+k)), sysKinds[k%len(sysKinds)])
		defer s.st.done()
		for i, x := range distinctStrings(s.r, 2) {
			s.kws.bind(fmt.Sprint("k", i+1), x)
		}
		for i, x := range distinctStrings(s.r, 3) {
			s.its.bind(fmt.Sprint("e", i+1), x)
		}
		s.pays.bind("c1", "first")
		s.newUser()
		s.newUser()
		for len(s.ev) < tier(250, 350) {
			s.step()
		}
		sink.put("seq", s.st.name, s.ev)
	})
}
