package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

type GrpOut struct {
	G  string   `json:"g"`
	Id string   `json:"id"`
	Sc []string `json:"sc"`
}

type IdpEv struct {
	Op  string   `json:"op"`
	Tok string   `json:"tok"`
	Uid string   `json:"uid"`
	Pw  string   `json:"pw"`
	Gs  []string `json:"gs"`
	Sc  []string `json:"sc"`
	Now instant  `json:"now"`

	Res      string   `json:"res"`
	Msg      string   `json:"msg"`
	Opw      string   `json:"opw"`
	Otok     string   `json:"otok"`
	Exp      int64    `json:"exp"`
	Validity int64    `json:"validity"`
	Gid      string   `json:"gid"`
	Ouid     string   `json:"ouid"`
	Osc      []string `json:"osc"`
	Ogr      []GrpOut `json:"ogr"`
	Shown    bool     `json:"shown"` // a failing call returned something
	Chg      int      `json:"chg"`
	Flt      int      `json:"flt"`
	VisBad   int      `json:"visbad"`
}

type idpSys struct {
	r                      *rand.Rand
	t0                     time.Time
	st                     *FStore
	p                      []*id.Standalone
	uids, gids, pws, toks  *Names
	cur                    map[string]string // uid name -> password name now
	old                    map[string]string
	users, groups, tokens  []string
	deadToks               []string
	tokOf                  map[string]string
	told                   map[string]time.Time // token -> expiry reported with it
	ev                     []any
	gen                    map[string]bool
	raws                   map[string]bool
	bad                    int
	tokenCryptor, otherTEK crypto.Cryptor
}

func idpConfig(b byte) id.StandaloneConfig {
	k := func(x byte) []byte { return bytes.Repeat([]byte{x}, 32) }
	return id.StandaloneConfig{UEK: k(b), GEK: k(b + 1), TEK: k(b + 2)}
}

func newIdpSys(r *rand.Rand) *idpSys {
	s := &idpSys{r: r, t0: time.Now(), st: newFStore(), uids: newNames("u"), gids: newNames("g"), pws: newNames("p"), toks: newNames("t"),
		cur: map[string]string{}, old: map[string]string{}, gen: map[string]bool{}, raws: map[string]bool{}, tokOf: map[string]string{}, told: map[string]time.Time{}}
	for i := 0; i < 2; i++ {
		p, err := id.NewStandalone(idpConfig(70), s.st)
		if err != nil {
			panic(err)
		}
		s.p = append(s.p, &p)
	}
	var err error
	if s.tokenCryptor, err = crypto.NewAESCryptor(idpConfig(70).TEK); err != nil {
		panic(err)
	}
	k := idpConfig(70).TEK
	k[r.Intn(32)] ^= 1 << r.Intn(8)
	if s.otherTEK, err = crypto.NewAESCryptor(k); err != nil {
		panic(err)
	}
	fields := func(data []byte) (nodeRec, bool) {
		var n nodeRec
		err := json.Unmarshal(data, &n)
		return n, err == nil
	}
	tag := func(id []byte, dt io.DataType, data []byte) string { return fmt.Sprintf("raw %d %x %x", dt, id, data) }
	ftag := func(id []byte, dt io.DataType, n nodeRec) string {
		return fmt.Sprintf("rec %d %x %x %x", dt, id, n.Ciphertext, n.WrappedKey)
	}
	s.st.onWrite = func(id []byte, dt io.DataType, data []byte) {
		s.gen[tag(id, dt, data)] = true
		s.raws[string(data)] = true
		if n, ok := fields(data); ok {
			s.gen[ftag(id, dt, n)] = true
		}
	}
	s.st.onRead = func(id []byte, dt io.DataType, data []byte) {
		if s.gen[tag(id, dt, data)] {
			return
		}
		if n, ok := fields(data); ok {
			if !s.gen[ftag(id, dt, n)] {
				s.bad++
			}
			return
		}
		for g := range s.raws {
			if len(data) < len(g) && strings.HasPrefix(g, string(data)) {
				s.bad++
				return
			}
		}
	}
	return s
}

func (s *idpSys) now() instant { return split(time.Since(s.t0)) }

func scopesSplit(r *rand.Rand, names []string) []id.Scope {
	out := []id.Scope{}
	if r.Intn(3) == 0 {
		return append(out, scopeOf(names))
	}
	for _, n := range names {
		out = append(out, scopeVals[n])
		if r.Intn(4) == 0 {
			out = append(out, scopeVals[n]) // given twice
		}
	}
	return out
}

func scopeList(x id.Scope) []string {
	out := []string{}
	for _, n := range scopeNames {
		if x&scopeVals[n] != 0 {
			out = append(out, n)
			x &^= scopeVals[n]
		}
	}
	if x != 0 {
		out = append(out, fmt.Sprint("unknown ", uint64(x)))
	}
	return out
}

func (s *idpSys) blank(op string) IdpEv {
	return IdpEv{Op: op, Res: "ok", Gs: []string{}, Sc: []string{}, Osc: []string{}, Ogr: []GrpOut{}, Now: s.now(), Validity: int64(data.TokenValidity / time.Second)}
}

// mint makes a login token without the cost of checking a password.
func (s *idpSys) mint(uid string) string {
	t := data.NewToken([]byte(s.uids.val(uid)), data.TokenValidity)
	st, err := t.Seal(&s.tokenCryptor)
	if err != nil {
		panic("harness: " + err.Error())
	}
	str, err := st.String()
	if err != nil {
		panic("harness: " + err.Error())
	}
	e := s.blank("Mint")
	e.Uid, e.Otok = uid, s.toks.add(str)
	e.Exp = st.ExpiryTime.Unix() - s.t0.Unix()
	s.tokens = append(s.tokens, e.Otok)
	s.tokOf[uid] = e.Otok
	s.ev = append(s.ev, e)
	return e.Otok
}

// badToken adds a token string that must authenticate nobody.
func (s *idpSys) badToken() string {
	var str string
	switch s.r.Intn(8) {
	case 0:
		str = ""
	case 1:
		str = pick(s.r, weird)
	case 2: // sealed under another key
		if len(s.users) > 0 {
			t := data.NewToken([]byte(s.uids.val(pick(s.r, s.users))), data.TokenValidity)
			st, _ := t.Seal(&s.otherTEK)
			str, _ = st.String()
		}
	case 3: // the user ID itself
		if len(s.users) > 0 {
			str = s.uids.val(pick(s.r, s.users))
		}
	case 4, 5: // expired, and extended
		if len(s.users) > 0 {
			t := data.NewToken([]byte(s.uids.val(pick(s.r, s.users))), time.Duration(-1-s.r.Intn(1000000)))
			st, _ := t.Seal(&s.tokenCryptor)
			if s.r.Intn(2) == 0 {
				st.ExpiryTime = st.ExpiryTime.Add(time.Duration(1+s.r.Intn(7)) * time.Hour)
			}
			str, _ = st.String()
		}
	case 6:
		str = string(randBytes(s.r, s.r.Intn(300)))
	case 7: // a real one with a bit changed in what it decodes to
		if len(s.tokens) > 0 {
			st, err := data.TokenFromString(s.toks.val(pick(s.r, s.tokens)))
			if err == nil {
				f := pick(s.r, []*[]byte{&st.Ciphertext, &st.WrappedKey})
				if len(*f) > 0 {
					(*f)[s.r.Intn(len(*f))] ^= 1 << s.r.Intn(8)
				}
				str, _ = st.String()
			}
		}
	}
	if _, dup := s.toks.byVal[str]; dup {
		str = fmt.Sprintf("junk %x", s.r.Int63())
	}
	return s.toks.add(str) // never announced to the specification, so it counts as bad
}

func (s *idpSys) wrongPw(right string) string {
	p := s.pws.val(right)
	switch s.r.Intn(16) {
	case 12, 13, 14, 15:
		return other(s.r, p)
	case 0:
		return ""
	case 1:
		return p[:len(p)-1]
	case 2:
		return p + "A"
	case 3:
		return p + "\x00"
	case 4:
		return strings.ToUpper(p)
	case 5:
		return strings.ToLower(p)
	case 6:
		b := []byte(p)
		b[s.r.Intn(len(b))] ^= 1 << s.r.Intn(7)
		return string(b)
	case 7:
		return p[1:]
	case 8:
		return " " + p
	case 9:
		return p + "="
	case 10:
		return p + p
	default:
		return p + "\n"
	}
}

type idpArg struct {
	op, tok, uid string
	pw           string // the password itself
	gs, sc       []string
}

func (s *idpSys) call(a idpArg) IdpEv {
	e := s.blank(a.op)
	e.Tok, e.Uid = a.tok, a.uid
	if a.gs != nil {
		e.Gs = a.gs
	}
	if a.sc != nil {
		e.Sc = a.sc
	}
	tok, uid := "", ""
	if a.tok != "" {
		tok = s.toks.val(a.tok)
	}
	if a.uid != "" {
		uid = s.uids.val(a.uid)
	}
	gids := make([]string, len(e.Gs), len(e.Gs)+2)
	for i, g := range e.Gs {
		gids[i] = s.gids.val(g)
	}
	p := s.p[s.r.Intn(len(s.p))]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.st.end = cancel
	before := s.st.snapshot()
	s.st.begin()
	s.bad = 0
	var err error
	pan := guarded(func() {
		switch a.op {
		case "NewUser":
			var u, pw string
			u, pw, err = p.NewUser(ctx, scopesSplit(s.r, e.Sc)...)
			if err == nil {
				e.Uid, e.Opw = s.uidName(u), s.pws.add(pw)
			}
			e.Shown = err != nil && (u != "" || pw != "")
		case "Login":
			e.Pw = s.pws.name(a.pw)
			var t string
			var x int64
			t, x, err = p.LoginUser(ctx, uid, a.pw)
			if err == nil {
				e.Otok, e.Exp = s.toks.add(t), x-s.t0.Unix()
				s.told[e.Otok] = time.Unix(x, 0)
			}
			e.Shown = err != nil && (t != "" || x != 0)
		case "ChangePw":
			e.Pw = s.pws.name(a.pw)
			var n string
			n, err = p.ChangeUserPassword(ctx, uid, a.pw)
			if err == nil {
				e.Opw = s.pws.add(n)
			}
			e.Shown = err != nil && n != ""
		case "GetIdentity":
			var i id.Identity
			i, err = p.GetIdentity(ctx, tok)
			if err == nil {
				e.Ouid, e.Osc = s.uids.name(i.ID), scopeList(i.Scopes)
				for g, ag := range i.Groups {
					e.Ogr = append(e.Ogr, GrpOut{s.gids.name(g), s.gids.name(ag.ID), scopeList(ag.Scopes)})
				}
				sort.Slice(e.Ogr, func(x, y int) bool { return e.Ogr[x].G < e.Ogr[y].G })
				for g := range i.Groups {
					delete(i.Groups, g)
				}
			}
			e.Shown = err != nil && (i.ID != "" || i.Scopes != 0 || len(i.Groups) > 0)
		case "NewGroup":
			var g string
			g, err = p.NewGroup(ctx, tok, scopesSplit(s.r, e.Sc)...)
			if err == nil {
				e.Gid = s.gidName(g)
			}
			e.Shown = err != nil && g != ""
		case "AddUserToGroups":
			err = p.AddUserToGroups(ctx, tok, uid, gids...)
		case "RemoveUserFromGroups":
			err = p.RemoveUserFromGroups(ctx, tok, uid, gids...)
		case "DeleteUser":
			err = p.DeleteUser(ctx, tok, uid)
		default:
			panic("harness: op " + a.op)
		}
	})
	switch {
	case pan != "":
		e.Res = pan
	case err == nil:
		e.Res = "ok"
	case errors.Is(err, id.ErrNotAuthenticated):
		e.Res, e.Msg = "notauthn", err.Error()
	case errors.Is(err, id.ErrNotAuthorized):
		e.Res = "notauthz"
	default:
		e.Res = "error"
	}
	if e.Res != "ok" { // the call may have stored something under an ID it did not return
		for _, c := range s.st.log {
			if c.kind == "get" {
				continue
			}
			if a.op == "NewUser" && c.key.dt == id.DataTypeSealedUser {
				e.Uid = s.uidName(c.key.id)
			}
			if a.op == "NewGroup" && c.key.dt == id.DataTypeSealedGroup {
				e.Gid = s.gidName(c.key.id)
			}
		}
		if a.op == "NewUser" && e.Uid == "" {
			e.Uid = "nobody"
		}
	}
	e.Chg, _ = diffStore(before, s.st.snapshot(), "")
	e.Flt, e.VisBad = s.st.faults, s.bad
	switch {
	case a.op == "NewUser" && e.Res == "ok":
		s.users = append(s.users, e.Uid)
		s.cur[e.Uid] = e.Opw
	case a.op == "NewUser" && e.Uid != "nobody":
		s.users = append(s.users, e.Uid)
	case a.op == "ChangePw" && e.Res == "ok":
		s.old[e.Uid] = s.cur[e.Uid]
		s.cur[e.Uid] = e.Opw
	case a.op == "Login" && e.Res == "ok":
		s.tokens = append(s.tokens, e.Otok)
		s.tokOf[e.Uid] = e.Otok
	case a.op == "NewGroup" && e.Gid != "":
		s.groups = append(s.groups, e.Gid)
	}
	s.ev = append(s.ev, e)
	return e
}

func (s *idpSys) uidName(u string) string {
	if n, ok := s.uids.byVal[u]; ok {
		return n
	}
	return s.uids.add(u)
}
func (s *idpSys) gidName(u string) string {
	if n, ok := s.gids.byVal[u]; ok {
		return n
	}
	return s.gids.add(u)
}

func (s *idpSys) pw(uid string) string {
	if n := s.cur[uid]; n != "" {
		return s.pws.val(n)
	}
	return "no password known"
}

func (s *idpSys) randScopes() []string {
	return subset(s.r, scopeNames, []float64{0, 0.3, 0.7, 1}[s.r.Intn(4)])
}

// look asks for the identity of everyone.
func (s *idpSys) look(toks []string) {
	for _, t := range toks {
		s.call(idpArg{op: "GetIdentity", tok: t})
	}
}

// parallel runs the bodies in simulated time, several at once.
func parallel(t *testing.T, n int, body func(t *testing.T, k int)) {
	t.Run("all", func(t *testing.T) {
		for k := 0; k < n; k++ {
			t.Run(fmt.Sprint(k), func(t *testing.T) {
				t.Parallel()
				synctest.Test(t, func(t *testing.T) { body(t, k) })
			})
		}
	})
}

type IdpStep struct {
	Op  string   `json:"op"`
	Tok string   `json:"tok"`
	Uid string   `json:"uid"`
	Pw  string   `json:"pw"`
	Gs  []string `json:"gs"`
}

func TestIdpWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	walks := loadWalks[IdpStep](t)
	parallel(t, len(walks), func(t *testing.T, wi int) {
		s := newIdpSys(newRand(int64(wi)))
		slot, gslot := map[string]string{}, map[string]string{}
		user := func(n string) string {
			if slot[n] == "" { // never created
				u := n
				if s.r.Intn(2) == 0 {
					u = fmt.Sprintf("%08x-0000-4000-8000-%012x", s.r.Uint32(), s.r.Int63n(1<<47))
				}
				slot[n] = s.uids.add(u)
			}
			return slot[n]
		}
		expired := ""
		for _, st := range walks[wi] {
			a := idpArg{op: st.Op}
			if st.Uid != "" && st.Op != "NewUser" {
				a.uid = user(st.Uid)
			}
			switch st.Tok {
			case "":
			case "expired":
				a.tok = expired
				if expired == "" {
					a.tok = s.badToken()
				}
			case "junk":
				a.tok = s.badToken()
			default:
				a.tok = s.tokOf[user(st.Tok)]
				if a.tok == "" {
					a.tok = s.badToken()
				}
			}
			for _, g := range st.Gs {
				if st.Op == "NewGroup" {
					continue
				}
				if gslot[g] == "" {
					gslot[g] = s.gids.add(fmt.Sprintf("%08x-0000-4000-8000-%012x", s.r.Uint32(), s.r.Int63n(1<<47)))
				}
				a.gs = append(a.gs, gslot[g])
			}
			switch st.Op {
			case "Expire":
				for u, tk := range s.tokOf {
					expired = tk
					_ = u
				}
				time.Sleep(data.TokenValidity - time.Duration(s.r.Intn(3))*time.Minute)
				s.look(s.tokens[max(0, len(s.tokens)-2):])
				time.Sleep(10 * time.Minute)
				continue
			case "NewUser", "NewGroup":
				a.sc = s.randScopes()
			case "Login", "ChangePw":
				switch st.Pw {
				case "right":
					a.pw = s.pw(a.uid)
				case "old":
					a.pw = "no old password"
					if o := s.old[a.uid]; o != "" {
						a.pw = s.pws.val(o)
					} else if s.r.Intn(3) > 0 {
						continue
					}
				case "other":
					a.pw = "nobody else"
					for u, p := range s.cur {
						if u != a.uid {
							a.pw = s.pws.val(p)
						}
					}
				case "wrong":
					a.pw = "wrong"
					if s.cur[a.uid] != "" {
						a.pw = s.wrongPw(s.cur[a.uid])
					}
				}
				// mostly without the cost of the password
				if st.Op == "Login" && st.Pw == "right" && s.r.Intn(4) > 0 {
					s.mint(a.uid)
					continue
				}
				if st.Op == "ChangePw" && st.Pw == "right" && s.r.Intn(3) > 0 && s.old[a.uid] != "" {
					continue
				}
				if st.Pw != "right" && s.r.Intn(3) > 0 {
					continue
				}
			}
			e := s.call(a)
			if st.Op == "NewUser" && e.Res == "ok" {
				slot[st.Uid] = e.Uid
			}
			if st.Op == "NewGroup" && e.Gid != "" {
				gslot[st.Gs[0]] = e.Gid
			}
			if e.Chg > 0 && len(s.tokens) > 0 && s.r.Intn(2) == 0 {
				s.look([]string{pick(s.r, s.tokens)})
			}
		}
		sink.put("seq", "walk", s.ev)
	})
}

// step makes a random call; slow says whether passwords may be involved.
func (s *idpSys) step(slow bool) IdpEv {
	r := s.r
	tok := func() string {
		if len(s.tokens) == 0 || r.Intn(15) == 0 {
			return s.badToken()
		}
		if r.Intn(3) > 0 { // someone who still exists, mostly
			if t := s.tokOf[pick(r, s.users)]; t != "" {
				return t
			}
		}
		return pick(r, s.tokens)
	}
	user := func() string {
		if len(s.users) > 0 && r.Intn(12) == 0 { // almost a user
			return s.uidName(other(r, s.uids.val(pick(r, s.users))))
		}
		if len(s.users) == 0 || r.Intn(20) == 0 {
			return s.uidName(pick(r, []string{"", "nobody", "\x00", fmt.Sprintf("%08x-0000-4000-8000-%012x", r.Uint32(), r.Int63n(1<<47))}))
		}
		return pick(r, s.users)
	}
	groups := func() []string {
		gs := subset(r, s.groups, []float64{0.2, 0.5, 1}[r.Intn(3)])
		if len(gs) > 0 && r.Intn(4) == 0 {
			gs = append(gs, gs[0])
		}
		if r.Intn(15) == 0 {
			gs = append(gs, s.gidName(pick(r, []string{"", "no group", fmt.Sprintf("%08x-0000-4000-8000-%012x", r.Uint32(), r.Int63n(1<<47))})))
		}
		if r.Intn(12) == 0 && len(s.groups) > 0 { // almost a group
			gs = append(gs, s.gidName(other(r, s.gids.val(pick(r, s.groups)))))
		}
		if r.Intn(20) == 0 && len(s.users) > 0 { // a user ID in place of a group ID
			gs = append(gs, s.gidName(s.uids.val(pick(r, s.users))))
		}
		return gs
	}
	x := r.Intn(100)
	if slow && x < 15 {
		u := user()
		pw := s.pw(u)
		switch r.Intn(5) {
		case 0:
			if s.cur[u] != "" {
				pw = s.wrongPw(s.cur[u])
			}
		case 1:
			if s.old[u] != "" {
				pw = s.pws.val(s.old[u])
			}
		case 2:
			if r.Intn(2) == 0 && len(s.users) > 0 {
				pw = s.pw(pick(r, s.users))
			}
		}
		if x < 10 {
			return s.call(idpArg{op: "Login", uid: u, pw: pw})
		}
		return s.call(idpArg{op: "ChangePw", uid: u, pw: pw})
	}
	switch {
	case x < 40:
		return s.call(idpArg{op: "GetIdentity", tok: tok()})
	case x < 60:
		return s.call(idpArg{op: "AddUserToGroups", tok: tok(), uid: user(), gs: groups()})
	case x < 80:
		return s.call(idpArg{op: "RemoveUserFromGroups", tok: tok(), uid: user(), gs: groups()})
	case x < 84:
		return s.call(idpArg{op: "DeleteUser", tok: tok(), uid: user()})
	case x < 93:
		if len(s.groups) < 8 {
			return s.call(idpArg{op: "NewGroup", tok: tok(), sc: s.randScopes()})
		}
		return s.call(idpArg{op: "GetIdentity", tok: tok()})
	case x < 96:
		if len(s.users) > 0 {
			s.mint(pick(r, s.users))
		}
		return s.call(idpArg{op: "GetIdentity", tok: tok()})
	default: // time passes: a little, or to the very end of a token's life
		d := time.Duration(r.Int63n(int64(data.TokenValidity)))
		if len(s.tokens) > 0 && r.Intn(2) == 0 {
			st, err := data.TokenFromString(s.toks.val(s.tokens[len(s.tokens)-1]))
			if err == nil {
				end := st.ExpiryTime.Truncate(time.Second)
				if x, ok := s.told[s.tokens[len(s.tokens)-1]]; ok {
					end = x
				}
				d = time.Until(end) + pick(r, []time.Duration{-time.Second, -1, 0, 1, time.Second / 2, time.Second, time.Second + 1, 2 * time.Second})
			}
		}
		if d > 0 {
			time.Sleep(d)
		}
		return s.call(idpArg{op: "GetIdentity", tok: tok()})
	}
}

func TestIdpRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	parallel(t, tier(60, 600), func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(300000 + k)))
		time.Sleep(time.Duration(s.r.Int63n(3e9)))
		for i := 0; i < 2+s.r.Intn(2); i++ {
			u := s.call(idpArg{op: "NewUser", sc: s.randScopes()})
			if u.Res == "ok" {
				s.mint(u.Uid)
			}
		}
		for i := 0; i < tier(80, 120); i++ {
			if s.r.Intn(40) == 0 {
				s.call(idpArg{op: "NewUser", sc: s.randScopes()})
			}
			s.step(i%3 == 0)
			if s.r.Intn(10) == 0 { // fresh tokens for those who exist
				u := pick(s.r, s.users)
				s.mint(u)
			}
		}
		for _, u := range s.users {
			if s.r.Intn(2) == 0 {
				s.call(idpArg{op: "Login", uid: u, pw: s.pw(u)})
			}
			for i := 0; i < 3; i++ { // IDs that are almost that user's
				v := s.uidName(other(s.r, s.uids.val(u)))
				s.call(idpArg{op: pick(s.r, []string{"Login", "ChangePw"}), uid: v, pw: s.pw(u)})
				s.call(idpArg{op: "GetIdentity", tok: s.mint(v)})
			}
			s.call(idpArg{op: "GetIdentity", tok: s.mint(u)})
		}
		// tokens of everybody, to their very end
		var toks []string
		for _, u := range s.users {
			if r := s.call(idpArg{op: "Login", uid: u, pw: s.pw(u)}); r.Res == "ok" {
				toks = append(toks, r.Otok)
			}
		}
		for _, d := range []time.Duration{-1, 1, 60, 600, 3600, 86400} {
			for _, tk := range toks {
				if w := time.Until(s.told[tk].Add(d * time.Second)); w > 0 {
					time.Sleep(w)
				}
				s.call(idpArg{op: "GetIdentity", tok: tk})
			}
		}
		sink.put("seq", "random", s.ev)
	})
}

// TestIdpMany: many groups in one call and many memberships of one user.
func TestIdpMany(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	sizes := []int{6, 17, 33, 70, 130, tier(200, 300)}
	if tier(0, 1) == 1 {
		sizes = append(sizes, 600, 1100)
	}
	parallel(t, len(sizes), func(t *testing.T, k int) {
		n := sizes[k]
		s := newIdpSys(newRand(int64(360000 + k)))
		var us [3]string
		for i := range us {
			us[i] = s.call(idpArg{op: "NewUser", sc: s.randScopes()}).Uid
		}
		a, b, c := s.mint(us[0]), s.mint(us[1]), s.mint(us[2])
		var gs []string
		for i := 0; i < n; i++ {
			gs = append(gs, s.call(idpArg{op: "NewGroup", tok: a, sc: s.randScopes()}).Gid)
		}
		foreign := s.call(idpArg{op: "NewGroup", tok: b, sc: s.randScopes()}).Gid
		with := func(at int) []string {
			return append(append(append([]string{}, gs[:at]...), foreign), gs[at:]...)
		}
		look := func() {
			for _, x := range []string{a, b, c} {
				s.call(idpArg{op: "GetIdentity", tok: x})
			}
		}
		look()
		s.call(idpArg{op: "AddUserToGroups", tok: a, uid: us[2], gs: with(n)})
		s.call(idpArg{op: "AddUserToGroups", tok: a, uid: us[2], gs: with(n / 2)})
		look()
		s.call(idpArg{op: "AddUserToGroups", tok: a, uid: us[2], gs: gs})
		look()
		s.call(idpArg{op: "AddUserToGroups", tok: b, uid: us[2], gs: []string{foreign}})
		s.call(idpArg{op: "RemoveUserFromGroups", tok: a, uid: us[2], gs: with(n)})
		s.call(idpArg{op: "RemoveUserFromGroups", tok: a, uid: us[2], gs: with(n - 1)})
		look()
		s.call(idpArg{op: "RemoveUserFromGroups", tok: a, uid: us[2], gs: append(append([]string{gs[0], gs[0]}, gs[1:n-1]...), gs[0])})
		look()
		toks := []string{}
		for _, u := range us {
			if r := s.call(idpArg{op: "Login", uid: u, pw: s.pw(u)}); r.Res == "ok" {
				toks = append(toks, r.Otok)
			}
		}
		s.call(idpArg{op: "ChangePw", uid: us[0], pw: s.pw(us[0])})
		for _, d := range []time.Duration{-1, 1, 600, 7200} {
			for _, tk := range toks {
				if w := time.Until(s.told[tk].Add(d * time.Second)); w > 0 {
					time.Sleep(w)
				}
				s.call(idpArg{op: "GetIdentity", tok: tk})
			}
		}
		sink.put("seq", fmt.Sprint(n, " groups"), s.ev)
	})
}

func TestIdpFaults(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	type cse struct {
		op       string
		nth, mod int
	}
	cases := []cse{}
	for _, op := range []string{"NewUser", "Login", "ChangePw", "GetIdentity", "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser", "AddSelf", "RemoveSelf", "DeleteSelf"} {
		for nth := 1; nth <= 8; nth++ {
			for mod := 0; mod < faultModes; mod++ {
				for rep := 0; rep < tier(1, 4); rep++ {
					cases = append(cases, cse{op, nth, mod})
				}
			}
		}
	}
	extra := tier(90, 900)
	parallel(t, len(cases)+extra, func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(310000 + k)))
		a := s.call(idpArg{op: "NewUser", sc: s.randScopes()}).Uid
		ta := s.mint(a)
		b := s.call(idpArg{op: "NewUser", sc: s.randScopes()}).Uid
		tb := s.mint(b)
		g1 := s.call(idpArg{op: "NewGroup", tok: ta, sc: s.randScopes()}).Gid
		g2 := s.call(idpArg{op: "NewGroup", tok: ta, sc: s.randScopes()}).Gid
		s.call(idpArg{op: "AddUserToGroups", tok: ta, uid: b, gs: []string{g1}})
		if k >= len(cases) {
			if k%2 == 0 { // one kind of storage operation is out of order during several calls
				for round := 0; round < 7; round++ {
					plan := outage(s.r, id.DataTypeSealedUser, id.DataTypeSealedGroup)
					for i := 0; i < 1+s.r.Intn(6); i++ {
						s.st.plan = plan
						s.step(i%5 == 0)
						s.st.plan = nil
						if s.r.Intn(3) == 0 {
							s.look([]string{ta, tb})
						}
					}
					s.look([]string{ta, tb})
					s.step(false)
					s.look([]string{ta, tb})
				}
				sink.put("fault", "outages", s.ev)
				return
			}
			p := []float64{0.03, 0.1, 0.3}[s.r.Intn(3)]
			for i := 0; i < 50; i++ {
				s.st.plan = func(int, string, io.DataType) fault {
					if s.r.Float64() < p {
						return fault(1 + s.r.Intn(2))
					}
					return pass
				}
				s.step(i%5 == 0)
				s.st.plan = nil
				if s.r.Intn(2) == 0 {
					s.look([]string{ta, tb})
				}
			}
			sink.put("fault", "random", s.ev)
			return
		}
		c := cases[k]
		x := idpArg{op: c.op, tok: ta, uid: b}
		switch c.op {
		case "NewUser":
			x = idpArg{op: c.op, sc: s.randScopes()}
		case "Login", "ChangePw":
			x = idpArg{op: c.op, uid: a, pw: s.pw(a)}
		case "GetIdentity":
			x.uid = ""
		case "NewGroup":
			x.uid, x.sc = "", s.randScopes()
		case "AddUserToGroups":
			x.gs = []string{g2, g1}
		case "RemoveUserFromGroups":
			x.gs = []string{g1}
		case "AddSelf":
			x.op, x.uid, x.gs = "AddUserToGroups", a, []string{g2, g1}
		case "RemoveSelf":
			x.op, x.uid, x.gs = "RemoveUserFromGroups", a, []string{g1}
		case "DeleteSelf":
			x.op, x.uid = "DeleteUser", a
		}
		s.st.plan = faultPlan(c.nth, c.mod)
		e := s.call(x)
		s.st.plan = nil
		if e.Flt == 0 {
			return // the call makes fewer storage calls
		}
		s.look([]string{ta, tb})
		if c.op == "ChangePw" {
			s.call(idpArg{op: "Login", uid: a, pw: s.pw(a)})
		}
		if c.op == "NewUser" && e.Uid != "nobody" {
			s.look([]string{s.mint(e.Uid)})
		}
		if e.Gid != "" { // is the new group there, and usable by those who are in it?
			s.call(idpArg{op: "AddUserToGroups", tok: ta, uid: b, gs: []string{e.Gid}})
			s.look([]string{ta, tb})
		}
		if s.r.Intn(2) == 0 {
			s.st.plan = faultPlan(1+s.r.Intn(5), s.r.Intn(faultModes))
		}
		s.call(x)
		s.st.plan = nil
		s.look([]string{ta, tb})
		for i := 0; i < 6; i++ {
			s.step(false)
		}
		s.look([]string{ta, tb})
		sink.put("fault", fmt.Sprintf("%s, call %d, mode %d", c.op, c.nth, c.mod), s.ev)
	})
}

// ---- tampering ---------------------------------------------------------------------------------

func (s *idpSys) edited(what string, edit func(), ops func()) {
	snap := s.st.snapshot()
	cur, old := map[string]string{}, map[string]string{}
	for k, v := range s.cur {
		cur[k] = v
	}
	for k, v := range s.old {
		old[k] = v
	}
	e := s.blank("Edit")
	e.Msg = what
	s.ev = append(s.ev, e)
	edit()
	ops()
	s.st.restore(snap)
	s.cur, s.old = cur, old
	s.ev = append(s.ev, s.blank("Restore"))
}

func (s *idpSys) setKey(k skey, v []byte) { s.st.setRaw([]byte(k.id), k.dt, v) }

func TestIdpTamper(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	// records under IDs that differ little from their own, and groups whose IDs have something in common
	parallel(t, tier(3, 12), func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(330000 + k)))
		u := s.call(idpArg{op: "NewUser", sc: scopeNames}).Uid
		tok := s.mint(u)
		var gs []string
		for i := 0; i < 24; i++ {
			gs = append(gs, s.call(idpArg{op: "NewGroup", tok: tok, sc: s.randScopes()}).Gid)
		}
		own := s.uids.val(u)
		rec, _ := s.st.raw([]byte(own), id.DataTypeSealedUser)
		seen := map[string]bool{own: true}
		for i := 0; i < len(own)+40; i++ {
			b := []byte(own)
			if i >= len(own) {
				b = []byte(relative(s.r, own))
			} else {
				if b[i]++; i%3 == k%3 {
					b[i] ^= 1 << s.r.Intn(8)
				}
				if i%7 == 3 {
					b = b[:i]
				}
			}
			if seen[string(b)] {
				continue
			}
			seen[string(b)] = true
			v := s.uids.add(string(b))
			r2 := rec
			if s.r.Intn(2) == 0 {
				if m, ok := fieldsOf(rec); ok {
					if _, has := m["UID"]; has {
						m["UID"] = string(b)
						r2, _ = json.Marshal(m)
					}
				}
			}
			vt := s.mint(v)
			s.edited("record under a related ID", func() { s.st.setRaw(b, id.DataTypeSealedUser, r2) }, func() {
				s.look([]string{vt})
				if i%9 == k%9 {
					s.call(idpArg{op: "Login", uid: v, pw: s.pw(u)})
				}
			})
		}
		for p := 0; p < 36; p++ {
			by := map[byte]string{}
			for _, g := range gs {
				x := s.gids.val(g)
				if p >= len(x) {
					continue
				}
				if y, ok := by[x[p]]; ok {
					r, _ := s.st.raw([]byte(y), id.DataTypeSealedGroup)
					if m, ok := fieldsOf(r); ok && s.r.Intn(2) == 0 {
						if _, has := m["GID"]; has {
							m["GID"] = x
							r, _ = json.Marshal(m)
						}
					}
					s.edited("group record under a related ID", func() { s.st.setRaw([]byte(x), id.DataTypeSealedGroup, r) }, func() { s.look([]string{tok}) })
					break
				}
				by[x[p]] = x
			}
		}
		sink.put("tamper", "related IDs", s.ev)
	})
	// a large record: every stretch of it
	parallel(t, tier(4, 8), func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(335000 + k)))
		u := s.call(idpArg{op: "NewUser", sc: scopeNames}).Uid
		tok := s.mint(u)
		for i := 0; i < []int{3, 12, 50, 200}[k%4]; i++ {
			s.call(idpArg{op: "NewGroup", tok: tok, sc: s.randScopes()})
		}
		key := skey{s.uids.val(u), id.DataTypeSealedUser}
		rec, _ := s.st.raw([]byte(key.id), key.dt)
		v, ok := getField(rec, "Ciphertext")
		if !ok {
			sink.put("tamper", "large", s.ev)
			return
		}
		at := []int{0, len(v) - 1, len(v) - 12, len(v) - 13, len(v) - 28, len(v) - 29, len(v) / 2}
		for p := 16; p < len(v); p *= 2 {
			at = append(at, p-1, p, p+s.r.Intn(p))
		}
		for _, p := range at {
			if p < 0 || p >= len(v) {
				continue
			}
			w := append([]byte{}, v...)
			switch s.r.Intn(5) {
			default:
				w[p] ^= 1 << s.r.Intn(8)
			case 0:
				s.r.Read(w[p:])
			case 1:
				w = w[:p]
			}
			if string(w) == string(v) {
				continue
			}
			n, _ := setField(rec, "Ciphertext", w)
			s.edited(fmt.Sprintf("large Ciphertext from %d", p), func() { s.setKey(key, n) }, func() { s.look([]string{tok}) })
		}
		s.look([]string{tok})
		sink.put("tamper", "large", s.ev)
	})
	parallel(t, tier(16, 100), func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(320000 + k)))
		us, ts, gs := []string{}, []string{}, []string{}
		for i := 0; i < 3; i++ {
			u := s.call(idpArg{op: "NewUser", sc: subset(s.r, scopeNames, float64(i)/2)}).Uid
			us = append(us, u)
			ts = append(ts, s.mint(u))
			gs = append(gs, s.call(idpArg{op: "NewGroup", tok: ts[i], sc: subset(s.r, scopeNames, float64(i)/2)}).Gid)
		}
		older := s.st.snapshot()
		s.call(idpArg{op: "AddUserToGroups", tok: ts[0], uid: us[1], gs: gs[:1]})
		if s.r.Intn(2) == 0 {
			s.call(idpArg{op: "ChangePw", uid: us[0], pw: s.pw(us[0])})
		}
		s.call(idpArg{op: "RemoveUserFromGroups", tok: ts[2], uid: us[2], gs: gs[2:]})
		keys := []skey{}
		for k := range s.st.snapshot() {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(a, b int) bool { return fmt.Sprint(keys[a]) < fmt.Sprint(keys[b]) })
		use := func() {
			s.look(ts)
			for j := 0; j < 2; j++ {
				a := idpArg{op: pick(s.r, []string{"AddUserToGroups", "RemoveUserFromGroups", "NewGroup"}), tok: pick(s.r, ts), uid: pick(s.r, us), gs: []string{pick(s.r, gs)}}
				if a.op == "NewGroup" {
					a.uid, a.gs, a.sc = "", nil, s.randScopes()
				}
				s.call(a)
			}
			s.look(ts)
		}
		slowUse := func() {
			use()
			u, v := pick(s.r, us), pick(s.r, us)
			s.call(idpArg{op: pick(s.r, []string{"Login", "Login", "ChangePw"}), uid: u, pw: s.pw(v)})
			s.look(ts)
		}
		raw := func(k skey) []byte { b, _ := s.st.raw([]byte(k.id), k.dt); return b }
		for _, a := range keys {
			for _, b := range keys {
				if a == b {
					continue
				}
				ra, rb := raw(a), raw(b)
				retarget := func(r []byte, k skey) []byte { // the record may also claim the other ID
					if m, ok := fieldsOf(r); ok && s.r.Intn(2) == 0 {
						for _, f := range []string{"UID", "GID"} {
							if _, has := m[f]; has {
								m[f] = k.id
							}
						}
						r, _ = json.Marshal(m)
					}
					return r
				}
				do := use
				if a.dt == id.DataTypeSealedUser && b.dt == a.dt {
					do = func() { // the password of one, the ID of the other
						use()
						u, v := s.uids.name(a.id), s.uids.name(b.id)
						if s.r.Intn(2) == 0 {
							u, v = v, u
						}
						s.call(idpArg{op: pick(s.r, []string{"Login", "Login", "ChangePw"}), uid: u, pw: s.pw(v)})
						s.look(ts)
					}
				}
				s.edited("copy", func() { s.setKey(b, retarget(ra, b)) }, do)
				if s.r.Intn(2) == 0 {
					s.edited("exchange", func() { s.setKey(b, retarget(ra, b)); s.setKey(a, retarget(rb, a)) }, use)
				}
				f := pick(s.r, []string{"Ciphertext", "WrappedKey", "both"})
				s.edited("mix "+f, func() {
					n := rb
					for _, g := range []string{"Ciphertext", "WrappedKey"} {
						if f == g || f == "both" {
							if v, ok := getField(ra, g); ok {
								n, _ = setField(n, g, v)
							}
						}
					}
					s.setKey(b, n)
				}, use)
			}
			if o, ok := older[a]; ok {
				s.edited("old", func() { s.setKey(a, o) }, slowUse)
				f := pick(s.r, []string{"Ciphertext", "WrappedKey"})
				s.edited("old "+f, func() {
					if v, ok := getField(o, f); ok {
						if n, ok := setField(raw(a), f, v); ok {
							s.setKey(a, n)
						}
					}
				}, use)
			}
			s.edited("removed", func() { s.setKey(a, nil) }, use)
			for j := 0; j < 3; j++ {
				s.edited("hollow", func() { s.setKey(a, pick(s.r, hollow(raw(a)))) }, use)
			}
			s.edited("cut", func() { r := raw(a); s.setKey(a, r[:s.r.Intn(len(r))]) }, use)
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				for j := 0; j < 3; j++ {
					s.edited("damaged "+f, func() {
						if v, ok := getField(raw(a), f); ok {
							if n, ok := setField(raw(a), f, damage(s.r, v)); ok {
								s.setKey(a, n)
							}
						}
					}, use)
				}
			}
		}
		s.look(ts)
		s.call(idpArg{op: "Login", uid: us[0], pw: s.pw(us[0])})
		// every bit of one record
		if k < tier(2, 6) {
			a := keys[k%len(keys)]
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				v, ok := getField(raw(a), f)
				if !ok {
					continue
				}
				for bit := 0; bit < 8*len(v); bit++ {
					w := append([]byte{}, v...)
					w[bit/8] ^= 1 << (bit % 8)
					n, _ := setField(raw(a), f, w)
					s.edited(fmt.Sprint(f, " bit ", bit), func() { s.setKey(a, n) }, func() { s.look(ts) })
				}
			}
		}
		sink.put("tamper", "", s.ev)
	})
}
