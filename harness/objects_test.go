package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	stdio "io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// ---- identities --------------------------------------------------------------------------------

var scopeNames = []string{"Encrypt", "Decrypt", "Update", "Delete", "CreateToken", "GetTokenContents", "GetAccessGroups", "ModifyAccessGroups", "Index"}
var scopeVals = map[string]id.Scope{
	"Encrypt": id.ScopeEncrypt, "Decrypt": id.ScopeDecrypt, "Update": id.ScopeUpdate, "Delete": id.ScopeDelete,
	"CreateToken": id.ScopeCreateToken, "GetTokenContents": id.ScopeGetTokenContents,
	"GetAccessGroups": id.ScopeGetAccessGroups, "ModifyAccessGroups": id.ScopeModifyAccessGroups, "Index": id.ScopeIndex,
}

func scopeOf(names []string) id.Scope {
	s := id.ScopeNone
	for _, n := range names {
		s |= scopeVals[n]
	}
	return s
}

type GrpEnt struct {
	G  string   `json:"g"`
	Sc []string `json:"sc"`
}

// Ident is an abstract identity; G and Id are names.
type Ident struct {
	Auth bool     `json:"auth"`
	Id   string   `json:"id"`
	Sc   []string `json:"sc"`
	Gr   []GrpEnt `json:"gr"`
}

func (i Ident) norm() Ident {
	if i.Sc == nil {
		i.Sc = []string{}
	}
	if i.Gr == nil {
		i.Gr = []GrpEnt{}
	}
	for k := range i.Gr {
		if i.Gr[k].Sc == nil {
			i.Gr[k].Sc = []string{}
		}
	}
	return i
}

// stubIdP answers with whatever identity is currently assigned to the token.
type stubIdP struct {
	names *Names
	cur   map[string]Ident
	n     int
	end   func() // ends the context of the call being rejected
}

var errStub = errors.New("identity provider says no")

// idpErrors are ways to say no.
var idpErrors = []error{errStub, io.ErrNotFound, io.ErrAlreadyExists, context.DeadlineExceeded, context.Canceled, d1.ErrNotAuthorized, d1.ErrNotAuthenticated, d1.ErrObjectNotFound,
	index.ErrNotAuthorized, index.ErrNotAuthenticated, id.ErrNotAuthenticated, stdio.EOF, os.ErrNotExist, os.ErrPermission, oddError{}, errors.New("")}

// rejection is how the n-th rejected call is answered; what else is returned with an error means nothing.
func (p *stubIdP) rejection(i Ident) (id.Identity, error) {
	p.n++
	if p.end != nil {
		p.end()
	}
	err := idpErrors[p.n%len(idpErrors)]
	if p.n%3 == 0 {
		err = fmt.Errorf("identity provider: %w", err)
	}
	if p.n%4 < 2 {
		return id.Identity{}, err
	}
	return toIdentity(i, p.names), err
}

func (p *stubIdP) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	i, ok := p.cur[token]
	if !ok {
		return id.Identity{}, errStub
	}
	if !i.Auth {
		return p.rejection(i)
	}
	return toIdentity(i, p.names), nil
}

func toIdentity(i Ident, names *Names) id.Identity {
	gs := map[string]id.AccessGroup{}
	for _, g := range i.Gr {
		gid := names.val(g.G)
		gs[gid] = id.AccessGroup{ID: gid, Scopes: scopeOf(g.Sc) | undefined(len(gid))}
	}
	return id.Identity{ID: names.val(i.Id), Scopes: scopeOf(i.Sc) | undefined(len(i.Sc)+len(names.val(i.Id))), Groups: gs}
}

// undefined returns scope bits that mean nothing to the library; an identity provider may have its own.
func undefined(n int) id.Scope {
	return []id.Scope{0, 0, id.ScopeEnd, 1 << 31, 1<<63 | 1<<32, ^(id.ScopeEnd - 1)}[n%6]
}

func testKeys(b byte) key.Keys {
	k := func(x byte) []byte { return bytes.Repeat([]byte{x}, 32) }
	return key.Keys{KEK: k(b), AEK: k(b + 1), TEK: k(b + 2), IEK: k(b + 3)}
}

// ---- system ------------------------------------------------------------------------------------

type ObjEv struct {
	Op string `json:"op"`
	Ident
	Oid string   `json:"oid"`
	Pay string   `json:"pay"`
	Ad  string   `json:"ad"`
	Gs  []string `json:"gs"`

	Res  string   `json:"res"`
	OPay string   `json:"opay"`
	OAd  string   `json:"oad"`
	OGs  []string `json:"ogs"`
	Leak bool     `json:"leak"` // data returned together with an error
	Mut  bool     `json:"mut"`  // caller's buffers modified
	MutG bool     `json:"mutg"` // caller's group slices modified
	Chg  int      `json:"chg"`  // records changed in storage by the call
	Oth  int      `json:"oth"`  // of these, records not belonging to oid
	HasO bool     `json:"haso"`
	HasA bool     `json:"hasa"`
	Flt  int      `json:"flt"` // storage calls failed by injection
	Fm   int      `json:"fm"`  // index of the first failed write of the call
	Ft   string   `json:"ft"`  // record type of that write

	Field string `json:"field"` // Tamper/Save
	Ver   string `json:"ver"`
	Dst   string `json:"dst"`
}

type ObjSys struct {
	r       *rand.Rand
	st      *FStore
	idp     *stubIdP
	d       *d1.D1
	ds      [2]*d1.D1
	mixed   bool   // both instances are used
	names   *Names // principals and groups
	pays    *Names
	ads     *Names
	oids    *Names          // name -> uuid bytes
	genuine map[string]bool // raw records and fields written by the library
	ev      []any
	calls   int  // storage calls of the last operation
	huge    bool // very long contents now and then
}

func newObjSys(r *rand.Rand) *ObjSys {
	s := &ObjSys{r: r, st: newFStore(), names: newNames("g"), pays: newNames("p"), ads: newNames("d"), oids: newNames("o"), genuine: map[string]bool{}}
	s.st.onWrite = func(_ []byte, _ io.DataType, data []byte) {
		s.genuine[string(data)] = true
		for _, f := range []string{"Ciphertext", "AssociatedData", "WrappedKey"} {
			if v, ok := getField(data, f); ok {
				s.genuine[f+string(v)] = true
			}
		}
	}
	s.idp = &stubIdP{names: s.names, cur: map[string]Ident{}}
	kp := key.NewStatic(testKeys(10))
	for i := 0; i < 2; i++ { // two instances over the same storage
		d, err := d1.New(context.Background(), &kp, s.st, s.idp)
		if err != nil {
			panic(err)
		}
		s.ds[i] = &d
	}
	s.d, s.mixed = s.ds[0], r.Intn(2) == 0
	s.pays.bind("p0", "")
	s.ads.bind("d0", "")
	return s
}

func (s *ObjSys) nameIDs(ids []string) {
	for i, x := range distinctStrings(s.r, len(ids)) {
		s.names.bind(ids[i], x)
	}
}

// room is how much longer than its contents of n bytes a buffer is.
func (s *ObjSys) room(n int) int {
	switch k := s.r.Intn(8); {
	case k == 0:
		return 0
	case k == 1 && n < 20000:
		return 4*n + 100 + s.r.Intn(200)
	case k == 2 && n < 20000:
		return n + s.r.Intn(200)
	}
	return s.r.Intn(40)
}

func spare(b []byte, extra int) ([]byte, []byte) {
	full := make([]byte, len(b)+extra)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	return full[:len(b)], full
}

// groupSlice returns the concrete group IDs in a slice with sentinel-filled spare capacity.
func (s *ObjSys) groupSlice(gs []string) (part, full []string) {
	full = make([]string, len(gs)+3)
	for i, g := range gs {
		full[i] = s.names.val(g)
	}
	for i := len(gs); i < len(full); i++ {
		full[i] = "sentinel"
	}
	if len(gs) == 0 && s.r.Intn(2) == 0 {
		return nil, full
	}
	return full[:len(gs)], full
}

func (s *ObjSys) sameGroups(full, gs []string) bool {
	for i := range full {
		want := "sentinel"
		if i < len(gs) {
			want = s.names.val(gs[i])
		}
		if full[i] != want {
			return false
		}
	}
	return true
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, d1.ErrNotAuthenticated):
		return "notauthn"
	case errors.Is(err, d1.ErrNotAuthorized):
		return "notauthz"
	case errors.Is(err, d1.ErrObjectNotFound), errors.Is(err, d1.ErrAccessNotFound):
		return "notfound"
	default:
		return "error"
	}
}

func (s *ObjSys) newPay() string {
	for {
		n := randSize(s.r)
		if s.huge && s.r.Intn(3) == 0 {
			n = pick(s.r, hugeSizes)
		}
		b := randBytes(s.r, n)
		if len(b) == 0 || s.r.Intn(7) == 0 {
			return "p0"
		}
		if _, dup := s.pays.byVal[string(b)]; !dup || s.r.Intn(3) == 0 {
			return s.pays.add(string(b))
		}
	}
}

func (s *ObjSys) newAd() string {
	for {
		n := s.r.Intn(90)
		if s.r.Intn(8) == 0 {
			n = randSize(s.r)
		}
		b := randBytes(s.r, n)
		if len(b) == 0 || s.r.Intn(4) == 0 {
			return "d0"
		}
		if _, dup := s.ads.byVal[string(b)]; !dup || s.r.Intn(3) == 0 {
			return s.ads.add(string(b))
		}
	}
}

func (s *ObjSys) oid(name string) uuid.UUID {
	return uuid.FromBytesOrNil([]byte(s.oids.val(name)))
}

// strangeOid names an object ID that nothing has ever been stored under: any 16 bytes may be asked for.
func (s *ObjSys) strangeOid() string {
	for {
		u := uuid.Must(uuid.NewV4())
		switch s.r.Intn(12) {
		case 0:
			u = uuid.Nil
		case 1:
			u = uuid.Must(uuid.NewV1())
		case 2:
			u = uuid.NewV5(uuid.NamespaceURL, fmt.Sprint(s.r.Int()))
		case 3:
			u.SetVersion(byte(s.r.Intn(16)))
		case 4:
			u.SetVariant(byte(s.r.Intn(4)))
		case 5:
			s.r.Read(u[:])
		case 6:
			for i := range u {
				u[i] = 0xff
			}
		case 7:
			u = uuid.Nil
			u[15] = byte(s.r.Intn(256))
		case 8, 9, 10: // much like one that has been used
			if have := s.liveOids(); len(have) > 0 {
				u = s.oid(pick(s.r, have))
				if s.r.Intn(4) == 0 {
					i, j := s.r.Intn(16), s.r.Intn(16)
					u[i], u[j] = u[j], u[i]
				} else {
					u[pick(s.r, []int{0, 7, 15, s.r.Intn(16)})] ^= 1 << s.r.Intn(8)
				}
			}
		}
		if _, dup := s.oids.byVal[string(u.Bytes())]; !dup {
			return s.oids.add(string(u.Bytes()))
		}
	}
}

func diffStore(a, b map[skey][]byte, own string) (chg, oth int) {
	touch := func(k skey) {
		chg++
		if k.id != own {
			oth++
		}
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			touch(k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			touch(k)
		}
	}
	return
}

// call performs e.Op on the real library and completes e with what was observed.
func (s *ObjSys) call(e ObjEv) ObjEv {
	e.Ident = e.Ident.norm()
	if e.Gs == nil {
		e.Gs = []string{}
	}
	e.OGs = []string{}
	if e.Pay == "" {
		e.Pay, e.Ad = "p0", "d0"
	}
	e.OPay, e.OAd = "p0", "d0"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.idp.end, s.st.end = nil, cancel
	if s.r.Intn(4) == 0 {
		s.idp.end = cancel
	}
	// The same token keeps changing its meaning, so that nothing can be remembered about it.
	tok := pick(s.r, []string{"token-0", "token-1", "", strings.Repeat("t", 9000), "token\x00 \xff\n"}[:2+s.r.Intn(4)])
	s.idp.cur[tok] = e.Ident
	if s.mixed {
		s.d = s.ds[s.r.Intn(2)]
	}
	before := s.st.snapshot()
	s.st.begin()

	var err error
	var newOid uuid.UUID
	pan := guarded(func() {
		switch e.Op {
		case "Encrypt", "Update":
			p, pf := spare([]byte(s.pays.val(e.Pay)), s.room(len(s.pays.val(e.Pay))))
			a, af := spare([]byte(s.ads.val(e.Ad)), s.room(len(s.ads.val(e.Ad))))
			if len(p) == 0 && s.r.Intn(2) == 0 {
				p = nil
			}
			if len(a) == 0 && s.r.Intn(2) == 0 {
				a = nil
			}
			p0, a0 := append([]byte{}, pf...), append([]byte{}, af...)
			obj := data.Object{Plaintext: p, AssociatedData: a}
			if e.Op == "Encrypt" {
				gs, gf := s.groupSlice(e.Gs)
				newOid, err = s.d.Encrypt(ctx, tok, &obj, gs...)
				e.MutG = e.MutG || !s.sameGroups(gf, e.Gs)
				for i := range gf {
					gf[i] = "overwritten"
				}
			} else {
				err = s.d.Update(ctx, tok, s.oid(e.Oid), &obj)
			}
			e.Mut = e.Mut || !bytes.Equal(pf, p0) || !bytes.Equal(af, a0) || len(obj.Plaintext) != len(p) || len(obj.AssociatedData) != len(a)
			for i := range pf {
				pf[i] ^= 0x5a
			}
			for i := range af {
				af[i] ^= 0x5a
			}
		case "Decrypt":
			var o data.Object
			o, err = s.d.Decrypt(ctx, tok, s.oid(e.Oid))
			if err == nil {
				e.OPay, e.OAd = s.pays.name(string(o.Plaintext)), s.ads.name(string(o.AssociatedData))
			}
			e.Leak = err != nil && (len(o.Plaintext) > 0 || len(o.AssociatedData) > 0)
			for i := range o.Plaintext {
				o.Plaintext[i] ^= 0x5a
			}
			for i := range o.AssociatedData {
				o.AssociatedData[i] ^= 0x5a
			}
		case "Delete":
			err = s.d.Delete(ctx, tok, s.oid(e.Oid))
		case "GetAccessGroups":
			var m map[string]struct{}
			m, err = s.d.GetAccessGroups(ctx, tok, s.oid(e.Oid))
			e.Leak = err != nil && len(m) > 0
			empty := len(m)%2 == 0
			for g := range m {
				e.OGs = append(e.OGs, s.names.name(g))
				if empty { // the map is the caller's: empty it, or add to it
					delete(m, g)
				}
			}
			sort.Strings(e.OGs)
			if m != nil {
				m["intruder"] = struct{}{}
			}
		case "AddGroupsToAccess", "RemoveGroupsFromAccess":
			gs, gf := s.groupSlice(e.Gs)
			if e.Op == "AddGroupsToAccess" {
				err = s.d.AddGroupsToAccess(ctx, tok, s.oid(e.Oid), gs...)
			} else {
				err = s.d.RemoveGroupsFromAccess(ctx, tok, s.oid(e.Oid), gs...)
			}
			e.MutG = e.MutG || !s.sameGroups(gf, e.Gs)
			for i := range gf {
				gf[i] = "overwritten"
			}
		case "AuthorizeIdentity":
			err = s.d.AuthorizeIdentity(ctx, tok, s.oid(e.Oid))
		default:
			panic("harness: op " + e.Op)
		}
	})
	if pan != "" {
		e.Res = pan
	} else {
		e.Res = classify(err)
	}
	if e.Op == "Encrypt" {
		e.Leak = err != nil && newOid != uuid.Nil
		e.Oid = ""
		if err == nil && pan == "" {
			if _, dup := s.oids.byVal[string(newOid.Bytes())]; dup {
				e.Oid = s.oids.name(string(newOid.Bytes())) // a reused ID: the specification will object
			} else {
				e.Oid = s.oids.add(string(newOid.Bytes()))
			}
		} else {
			for _, c := range s.st.log { // the call may have left records under an ID not returned
				if c.kind != "get" && len(c.key.id) == 16 {
					if _, dup := s.oids.byVal[c.key.id]; !dup {
						e.Oid = s.oids.add(c.key.id)
					}
				}
			}
		}
	}
	after := s.st.snapshot()
	own := ""
	if e.Oid != "" {
		own = s.oids.val(e.Oid)
		_, e.HasO = after[skey{own, io.DataTypeSealedObject}]
		_, e.HasA = after[skey{own, io.DataTypeSealedAccess}]
	}
	e.Chg, e.Oth = diffStore(before, after, own)
	s.calls = s.st.calls
	e.Flt, e.Fm, e.Ft = s.st.faults, s.st.failMut, s.st.failDT
	s.ev = append(s.ev, e)
	return e
}

func (s *ObjSys) all(idn string, groups ...string) Ident {
	i := Ident{Auth: true, Id: idn, Sc: scopeNames}
	for _, g := range groups {
		i.Gr = append(i.Gr, GrpEnt{g, scopeNames})
	}
	return i
}

// ---- walks generated from the specification ----------------------------------------------------

type WalkFile struct {
	Walks []struct {
		Steps []map[string]any `json:"steps"`
	} `json:"walks"`
}

func loadWalks[T any](t *testing.T) [][]T {
	if inPath == "" {
		return nil
	}
	b, err := os.ReadFile(inPath)
	if err != nil {
		t.Fatal(err)
	}
	var w [][]T
	if err := json.Unmarshal(b, &w); err != nil {
		t.Fatal(err)
	}
	return w
}

type ObjStep struct {
	Op string `json:"op"`
	Ident
	Oid string   `json:"oid"`
	Pay string   `json:"pay"`
	Gs  []string `json:"gs"`
}

func TestObjectsWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[ObjStep](t) {
		s := newObjSys(newRand(int64(wi)))
		s.nameIDs([]string{"a", "b", "c", "d", "e", "g1", "g2", "g3"})
		slot := map[string]string{} // the specification's object slots -> current object
		mkPay := map[string]string{}
		for _, st := range w {
			e := ObjEv{Op: st.Op, Ident: st.Ident, Gs: st.Gs}
			if st.Op == "Encrypt" || st.Op == "Update" {
				if mkPay[st.Pay] == "" {
					mkPay[st.Pay] = s.newPay()
				}
				e.Pay, e.Ad = mkPay[st.Pay], s.newAd()
			}
			if st.Op != "Encrypt" {
				e.Oid = slot[st.Oid]
				if e.Oid == "" { // never created: an ID nothing is stored under
					e.Oid = s.strangeOid()
					slot[st.Oid] = e.Oid
				}
			}
			r := s.call(e)
			if st.Op == "Encrypt" && r.Res == "ok" {
				slot[st.Oid] = r.Oid
			}
			if len(s.ev) >= 400 {
				break
			}
		}
		sink.put("seq", "walk", s.ev)
	}
}

// ---- random histories --------------------------------------------------------------------------

var objOps = []string{"Encrypt", "Update", "Decrypt", "Delete", "GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess", "AuthorizeIdentity"}

func randIdent(r *rand.Rand, pool []string) Ident {
	i := Ident{Auth: r.Intn(15) != 0, Id: pick(r, pool)}
	switch r.Intn(4) {
	case 0:
		i.Sc = subset(r, scopeNames, 0.5)
	case 1:
		i.Sc = []string{pick(r, scopeNames)}
	case 2: // all but one
		x := pick(r, scopeNames)
		for _, s := range scopeNames {
			if s != x {
				i.Sc = append(i.Sc, s)
			}
		}
	default:
		i.Sc = scopeNames
	}
	for _, g := range pool {
		if g == i.Id || r.Intn(4) != 0 {
			continue
		}
		sc := scopeNames
		switch r.Intn(3) {
		case 0:
			sc = subset(r, scopeNames, 0.5)
		case 1:
			x := pick(r, scopeNames)
			sc = nil
			for _, s := range scopeNames {
				if s != x {
					sc = append(sc, s)
				}
			}
		}
		i.Gr = append(i.Gr, GrpEnt{g, sc})
	}
	return i
}

func randGroups(r *rand.Rand, pool []string) []string {
	gs := subset(r, pool, []float64{0, 0.1, 0.3, 0.6, 1}[r.Intn(5)])
	if len(gs) > 0 && r.Intn(3) == 0 {
		gs = append(gs, pick(r, gs)) // repeated
	}
	r.Shuffle(len(gs), func(a, b int) { gs[a], gs[b] = gs[b], gs[a] })
	return gs
}

func (s *ObjSys) randStep(pool, oids []string, opsBias []string) ObjEv {
	r := s.r
	e := ObjEv{Op: pick(r, opsBias)}
	if r.Intn(3) == 0 {
		e.Ident = randIdent(r, pool)
	} else {
		e.Ident = s.all(pick(r, pool))
		if r.Intn(2) == 0 {
			e.Ident = s.all(e.Id, func() (o []string) {
				for _, g := range pool {
					if g != e.Id && r.Intn(3) == 0 {
						o = append(o, g)
					}
				}
				return
			}()...)
		}
	}
	if e.Op == "Delete" && r.Intn(2) == 0 {
		e.Op = "Decrypt"
	}
	if e.Op == "Encrypt" || len(oids) == 0 {
		e.Op = "Encrypt"
		e.Pay, e.Ad, e.Gs = s.newPay(), s.newAd(), randGroups(r, pool)
		return e
	}
	e.Oid = pick(r, oids)
	switch e.Op {
	case "Update":
		e.Pay, e.Ad = s.newPay(), s.newAd()
		if r.Intn(4) == 0 && len(s.pays.byName) > 1 { // the same payload again
			for n := range s.pays.byName {
				e.Pay = n
				break
			}
		}
	case "AddGroupsToAccess", "RemoveGroupsFromAccess":
		e.Gs = randGroups(r, pool)
	}
	return e
}

func (s *ObjSys) liveOids() []string {
	out := []string{}
	for n := range s.oids.byName {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func TestObjectsRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	n := tier(250, 4000)
	for k := 0; k < n; k++ {
		s := newObjSys(newRand(int64(100000 + k)))
		pool := []string{"a", "b", "c", "g1", "g2", "g3", "g4"}
		if k%5 == 0 { // long lists
			last := 44
			if k%25 == 0 {
				last = pick(s.r, []int{70, 140, 270})
			}
			for i := 5; i <= last; i++ {
				pool = append(pool, fmt.Sprintf("g%d", i))
			}
		}
		s.huge = k%40 == 1
		s.nameIDs(pool)
		maxObj := 1 + s.r.Intn(4)
		s.strangeOid()
		steps := tier(60, 100)
		if len(pool) > 60 {
			steps = 25
		}
		for i := 0; i < steps; i++ {
			ops := objOps
			oids := s.liveOids()
			if len(oids) > maxObj {
				ops = objOps[1:]
			}
			if s.r.Intn(20) == 0 && len(oids) < 12 {
				oids = []string{s.strangeOid()}
				maxObj++
				ops = objOps[1:]
			}
			e := s.randStep(pool, oids, ops)
			e = s.call(e)
			if focusOps := e.Res == "ok" && (e.Op == "Update" || e.Op == "Encrypt" || e.Op == "AddGroupsToAccess" || e.Op == "RemoveGroupsFromAccess"); focusOps && s.r.Intn(2) == 0 {
				anyone := s.all(pick(s.r, pool))
				if s.r.Intn(2) == 0 {
					anyone = s.all("a", pool[1:]...)
				}
				s.call(ObjEv{Op: "GetAccessGroups", Ident: anyone, Oid: e.Oid})
				s.call(ObjEv{Op: "Decrypt", Ident: e.Ident, Oid: e.Oid})
			}
		}
		sink.put("seq", "random", s.ev)
	}
	// many groups in one call
	for k, n := range []int{40, 100, 300, 600, 1100, 2100, 4200, tier(5000, 70000)} {
		s := newObjSys(newRand(int64(190000 + k)))
		s.names.bind("a", "caller")
		s.names.bind("b", "another")
		var gs []string
		for i := 0; i < n; i++ {
			g := fmt.Sprint("g", i)
			s.names.bind(g, fmt.Sprintf("%x group", i*7919))
			gs = append(gs, g)
		}
		few := func(m int) []string { return gs[n-m:] }
		all := s.all("a", gs[0], gs[n/2], gs[n-1])
		member := func(of []string) Ident { // of very many groups
			i := s.all("b", of...)
			if k%2 == 1 && len(of) < 3000 {
				i.Sc = nil
			}
			return i
		}
		get := func() { s.call(ObjEv{Op: "GetAccessGroups", Ident: all, Oid: "o1"}) }
		s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: s.newPay(), Ad: s.newAd(), Gs: few(k % 3 * n / 2)})
		get()
		s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("a"), Oid: "o1", Gs: gs})
		get()
		s.call(ObjEv{Op: "Update", Ident: s.all("b", gs[n-1]), Oid: "o1", Pay: s.newPay(), Ad: s.newAd()})
		s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: s.all("b", gs[n/3]), Oid: "o1", Gs: gs[1:]})
		get()
		s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("b", gs[0]), Oid: "o1", Gs: few(n / 2)})
		s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: s.all("a"), Oid: "o1", Gs: append(append([]string{"a"}, gs[:n-1]...), gs[:n-1]...)})
		get()
		s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: all, Oid: "o1", Gs: few(1)})
		get()
		if n < 6000 {
			s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: s.newPay(), Ad: s.newAd(), Gs: []string{gs[n/2]}})
			others := append(append([]string{}, gs[:n/2]...), gs[n/2+1:]...)
			for _, of := range [][]string{gs, others} {
				for _, op := range []string{"Decrypt", "AuthorizeIdentity", "GetAccessGroups"} {
					for range 3 { // (groups come in any order)
						s.call(ObjEv{Op: op, Ident: member(of), Oid: "o2"})
					}
				}
				s.call(ObjEv{Op: "Update", Ident: member(of), Oid: "o2", Pay: s.newPay(), Ad: s.newAd()})
			}
			short := member(gs)
			short.Gr = append([]GrpEnt{}, short.Gr...)
			short.Gr[n/2].Sc = nil // on the list, but without the scope; the others have it
			s.call(ObjEv{Op: "Decrypt", Ident: short, Oid: "o2"})
			s.call(ObjEv{Op: "AddGroupsToAccess", Ident: member(gs), Oid: "o2", Gs: few(2)})
			get()
		}
		sink.put("seq", fmt.Sprint(n, " groups at once"), s.ev)
	}
}

// ---- faults ------------------------------------------------------------------------------------

// probe reads everything about an object with callers that may and may not use it.
func (s *ObjSys) probe(oid string, pool []string) {
	if oid == "" {
		return
	}
	a := s.all("a", pool[1:]...)
	s.call(ObjEv{Op: "GetAccessGroups", Ident: a, Oid: oid})
	s.call(ObjEv{Op: "Decrypt", Ident: a, Oid: oid})
	x := pick(s.r, pool)
	s.call(ObjEv{Op: "Decrypt", Ident: s.all(x), Oid: oid})
}

type objState struct {
	store map[skey][]byte
	n     int
}

// TestObjectsFaults fails every storage call of every operation, in several ways, in several states,
// and then keeps using the object.
func TestObjectsFaults(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	pool := []string{"a", "b", "g1", "g2"}
	states := []string{"fresh", "updated", "modified", "halfdeleted", "deleted"}
	ops := append([]string{}, objOps...)
	rounds := tier(2, 12)
	for round := 0; round < rounds; round++ {
		for _, stn := range states {
			for _, op := range ops {
				for nth := 1; nth <= 8; nth++ {
					for mode := 0; mode < faultModes; mode++ {
						s := newObjSys(newRand(int64(round*10007 + nth*31 + mode)))
						s.nameIDs(pool)
						e := s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: s.newPay(), Ad: s.newAd(), Gs: []string{"g1"}})
						other := s.call(ObjEv{Op: "Encrypt", Ident: s.all("b"), Pay: s.newPay(), Ad: s.newAd()})
						oid := e.Oid
						switch stn {
						case "updated":
							s.call(ObjEv{Op: "Update", Ident: s.all("b", "g1"), Oid: oid, Pay: s.newPay(), Ad: s.newAd()})
						case "modified":
							s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("a"), Oid: oid, Gs: []string{"b"}})
						case "halfdeleted":
							s.st.plan = func(_ int, kind string, dt io.DataType) fault {
								if kind == "delete" && dt == io.DataTypeSealedAccess {
									return errBefore
								}
								return pass
							}
							s.call(ObjEv{Op: "Delete", Ident: s.all("a"), Oid: oid})
							s.st.plan = nil
						case "deleted":
							s.call(ObjEv{Op: "Delete", Ident: s.all("a"), Oid: oid})
						}
						step := ObjEv{Op: op, Ident: s.all("a"), Oid: oid}
						switch op {
						case "Encrypt":
							step.Oid = ""
							step.Pay, step.Ad, step.Gs = s.newPay(), s.newAd(), []string{"g2"}
						case "Update":
							step.Pay, step.Ad = s.newPay(), s.newAd()
						case "AddGroupsToAccess":
							step.Gs = []string{"g2", "b"}
						case "RemoveGroupsFromAccess":
							step.Gs = []string{"g1"}
						}
						s.st.plan = faultPlan(nth, mode)
						r := s.call(step)
						s.st.plan = nil
						if s.calls < nth {
							nth = 1 << 20 // the operation makes fewer calls
							break
						}
						if r.Flt == 0 {
							continue
						}
						if op == "Encrypt" {
							oid = r.Oid
						}
						s.probe(oid, pool)
						s.probe(other.Oid, pool)
						// go on using it: retry, or something else, possibly failing again
						next := step
						if s.r.Intn(3) == 0 {
							next = s.randStep(pool, []string{other.Oid}, objOps[1:])
							next.Ident = s.all("a", "g1", "g2", "b")
							if oid != "" {
								next.Oid = oid
							}
						}
						if next.Op != "Encrypt" || s.r.Intn(2) == 0 {
							if s.r.Intn(3) == 0 {
								s.st.plan = faultPlan(1+s.r.Intn(4), s.r.Intn(faultModes))
							}
							s.call(next)
							s.st.plan = nil
							s.probe(oid, pool)
						}
						// a permitted caller can always finish with Update and Delete
						if oid != "" {
							s.call(ObjEv{Op: "Update", Ident: s.all("a", "g1", "g2", "b"), Oid: oid, Pay: s.newPay(), Ad: s.newAd()})
							s.probe(oid, pool)
							s.call(ObjEv{Op: "Delete", Ident: s.all("a", "g1", "g2", "b"), Oid: oid})
							s.probe(oid, pool)
						}
						s.probe(other.Oid, pool)
						sink.put("fault", fmt.Sprintf("%s in state %s, call %d, mode %d", op, stn, nth, mode), s.ev)
					}
				}
			}
		}
	}
	// random histories with random failures
	for k := 0; k < tier(150, 2500); k++ {
		s := newObjSys(newRand(int64(700000 + k)))
		s.nameIDs(pool)
		p := []float64{0.02, 0.1, 0.3}[s.r.Intn(3)]
		for i := 0; i < 50; i++ {
			down := s.r.Intn(10) == 0
			s.st.plan = func(int, string, io.DataType) fault {
				if down || s.r.Float64() < p {
					return fault(1 + s.r.Intn(2))
				}
				return pass
			}
			ops := objOps
			if len(s.liveOids()) > 3 {
				ops = objOps[1:]
			}
			e := s.call(s.randStep(pool, s.liveOids(), ops))
			s.st.plan = nil
			if s.r.Intn(3) == 0 {
				s.probe(e.Oid, pool)
			}
		}
		sink.put("fault", "random faults", s.ev)
	}
	// one kind of storage operation is out of order during several calls
	for k := 0; k < tier(150, 2500); k++ {
		s := newObjSys(newRand(int64(730000 + k)))
		s.nameIDs(pool)
		for i := 0; i < 1+s.r.Intn(3); i++ {
			s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: s.newPay(), Ad: s.newAd(), Gs: []string{"g1"}})
		}
		for round := 0; round < 5; round++ {
			plan := outage(s.r, io.DataTypeSealedObject, io.DataTypeSealedAccess)
			for i := 0; i < 2+s.r.Intn(6); i++ {
				s.st.plan = plan
				x := s.randStep(pool, s.liveOids(), objOps)
				if s.r.Intn(3) > 0 {
					x.Ident = s.all("a", "g1", "g2", "b")
				}
				e := s.call(x)
				s.st.plan = nil
				if s.r.Intn(3) == 0 {
					s.probe(e.Oid, pool)
				}
			}
			for i := 0; i < 2; i++ {
				x := s.randStep(pool, s.liveOids(), objOps[1:])
				x.Ident = s.all("a", "g1", "g2", "b")
				s.probe(s.call(x).Oid, pool)
			}
		}
		for _, oid := range s.liveOids() {
			s.probe(oid, pool)
		}
		sink.put("fault", "outages", s.ev)
	}
}
