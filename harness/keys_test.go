package verifharness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type keyVec struct {
	KEK int `json:"KEK"`
	AEK int `json:"AEK"`
	TEK int `json:"TEK"`
	IEK int `json:"IEK"`
	UEK int `json:"UEK"`
	GEK int `json:"GEK"`
	LEK int `json:"LEK"`
}

func (v *keyVec) each() []*int { return []*int{&v.KEK, &v.AEK, &v.TEK, &v.IEK, &v.UEK, &v.GEK, &v.LEK} }

type KeyEv struct {
	Op   string   `json:"op"`
	Comp string   `json:"comp"`
	K    keyVec   `json:"k"`
	Prov bool     `json:"prov"`
	N    int      `json:"n"`
	Pay  string   `json:"pay"`
	Res  string   `json:"res"`
	Out  []string `json:"out"`
	Note string   `json:"note"`
}

type keyProv struct {
	keys key.Keys
	err  error
}

func (p *keyProv) GetKeys(context.Context) (key.Keys, error) { return p.keys, p.err }

var errProv = errors.New("no keys")

func makeKey(r *rand.Rand, n int) []byte {
	if n < 0 {
		return nil
	}
	b := make([]byte, n, n+r.Intn(40))
	switch r.Intn(4) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		r.Read(b)
	}
	return b
}

// create tries to make a component with keys of the given lengths (-1: nil).
func create(r *rand.Rand, comp string, l keyVec, prov bool) KeyEv {
	e := KeyEv{Op: "create", Comp: comp, K: l, Prov: prov, Res: "ok", Out: []string{}}
	st := newFStore()
	idp := &stubIdP{names: newNames("g"), cur: map[string]Ident{}}
	kp := &keyProv{keys: key.Keys{KEK: makeKey(r, l.KEK), AEK: makeKey(r, l.AEK), TEK: makeKey(r, l.TEK), IEK: makeKey(r, l.IEK)}}
	if !prov {
		kp.err = errProv
	}
	for _, p := range e.K.each() {
		if *p < 0 {
			*p = 0
		}
	}
	var err error
	sc := id.StandaloneConfig{UEK: makeKey(r, l.UEK), GEK: makeKey(r, l.GEK), TEK: makeKey(r, l.LEK)}
	given := [][]byte{kp.keys.KEK, kp.keys.AEK, kp.keys.TEK, kp.keys.IEK, sc.UEK, sc.GEK, sc.TEK}
	var before [][]byte
	for _, b := range given {
		before = append(before, clone(b[:cap(b)]))
	}
	pan := guarded(func() {
		switch comp {
		case "d1":
			_, err = d1.New(context.Background(), kp, st, idp)
		case "index":
			_, err = index.NewSecureIndex(context.Background(), kp, st, idp)
		case "standalone":
			_, err = id.NewStandalone(sc, st)
		case "cryptor":
			_, err = crypto.NewAESCryptor(kp.keys.KEK)
		}
	})
	if pan != "" {
		e.Res = "panic"
	} else if err != nil {
		e.Res = "err"
	}
	for i, b := range given {
		if !bytes.Equal(b[:cap(b)], before[i]) {
			e.Res = "keys changed"
		}
	}
	return e
}

func TestKeysCreate(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(1000000)
	full := keyVec{32, 32, 32, 32, 32, 32, 32}
	for _, comp := range []string{"d1", "index", "standalone", "cryptor"} {
		var ev []any
		ev = append(ev, create(r, comp, full, true), create(r, comp, full, false))
		for i := range full.each() {
			for n := -1; n <= 70; n++ {
				v := full
				*v.each()[i] = n
				ev = append(ev, create(r, comp, v, true))
			}
			for _, n := range []int{96, 128, 256, 288, 32 + 65536, 1024} {
				v := full
				*v.each()[i] = n
				ev = append(ev, create(r, comp, v, true))
			}
			for j := range full.each() {
				for _, n := range [][2]int{{-1, -1}, {16, 48}, {31, 33}, {33, 31}, {24, 40}, {64, 0}, {16, 16}, {24, 24}} {
					v := full
					*v.each()[i], *v.each()[j] = n[0], n[1]
					ev = append(ev, create(r, comp, v, r.Intn(4) > 0))
				}
			}
		}
		for k := 0; k < tier(100, 1000); k++ {
			v := full
			for _, p := range v.each() {
				*p = pick(r, []int{-1, 0, 16, 24, 31, 32, 32, 32, 33, 48, 64})
			}
			ev = append(ev, create(r, comp, v, r.Intn(4) > 0))
		}
		for _, n := range []int{-1, 0, 16, 24, 31, 33, 64} { // all the same
			var v keyVec
			for _, p := range v.each() {
				*p = n
			}
			ev = append(ev, create(r, comp, v, true), create(r, comp, v, false))
		}
		sink.put("create", comp, ev)
	}
}

// keySys runs instances with different keys over one storage.
type keySys struct {
	r        *rand.Rand
	st       *FStore
	idp      *stubIdP
	vals     [2][7][]byte
	ev       []any
	oid      uuid.UUID
	uid, pw  string
	toks     []data.SealedToken
	logins   []string
	n        int
	byPay    map[string]string
	keep     bool
	cacheD   map[keyVec]*d1.D1
	cacheI   map[keyVec]*index.SecureIndex
	cacheS   map[keyVec]*id.Standalone
	variants [7]string
	wipe     int // what becomes of the buffers the keys came in: nothing, zeros, random bytes, other keys
}

// spoil changes the buffers an instance got its keys in.
func (s *keySys) spoil(bufs ...[]byte) {
	for i, b := range bufs {
		switch s.wipe {
		case 1:
			for j := range b {
				b[j] = 0
			}
		case 2:
			s.r.Read(b)
		case 3:
			copy(b, s.vals[s.r.Intn(2)][(i+s.r.Intn(7))%7])
		}
	}
}

var variantNames = []string{"bit", "bit", "bit", "other", "first", "last", "reversed", "swapped"}

func newKeySys(r *rand.Rand, bit int) *keySys {
	s := &keySys{r: r, st: newFStore(), byPay: map[string]string{}, keep: r.Intn(2) == 0, wipe: r.Intn(4),
		cacheD: map[keyVec]*d1.D1{}, cacheI: map[keyVec]*index.SecureIndex{}, cacheS: map[keyVec]*id.Standalone{}}
	s.idp = &stubIdP{names: newNames("g"), cur: map[string]Ident{}}
	s.idp.names.bind("a", "caller")
	s.idp.names.bind("b", "another")
	s.idp.cur["tok"] = Ident{Auth: true, Id: "a", Sc: scopeNames}
	for i := range s.vals[0] {
		s.vals[0][i] = rnd32(r)
	}
	for i := range s.vals[0] {
		b := clone(s.vals[0][i])
		v := pick(r, variantNames)
		if bit >= 0 {
			v = "bit"
		}
		switch v {
		case "bit":
			k := bit
			if k < 0 {
				k = r.Intn(256)
			}
			b[k/8] ^= 1 << (k % 8)
		case "other":
			b = rnd32(r)
		case "first":
			b[0] ^= byte(1 + r.Intn(255))
		case "last":
			b[31] ^= byte(1 + r.Intn(255))
		case "reversed":
			for x, y := 0, 31; x < y; x, y = x+1, y-1 {
				b[x], b[y] = b[y], b[x]
			}
		case "swapped":
			b = clone(s.vals[0][(i+1+r.Intn(6))%7])
		}
		s.vals[1][i] = b
		s.variants[i] = v
	}
	return s
}

func (s *keySys) keys(k keyVec) (key.Keys, id.StandaloneConfig) {
	var b [7][]byte
	for i, p := range k.each() {
		b[i] = clone(s.vals[*p-1][i])
	}
	return key.Keys{KEK: b[0], AEK: b[1], TEK: b[2], IEK: b[3]}, id.StandaloneConfig{UEK: b[4], GEK: b[5], TEK: b[6]}
}

func (s *keySys) d1(k keyVec) *d1.D1 {
	if d, ok := s.cacheD[k]; ok && s.keep {
		return d
	}
	ks, _ := s.keys(k)
	kp := key.NewStatic(ks)
	d, err := d1.New(context.Background(), &kp, s.st, s.idp)
	if err != nil {
		panic(err)
	}
	s.spoil(ks.KEK, ks.AEK, ks.TEK, ks.IEK)
	s.cacheD[k] = &d
	return &d
}

func (s *keySys) index(k keyVec) *index.SecureIndex {
	if d, ok := s.cacheI[k]; ok && s.keep {
		return d
	}
	ks, _ := s.keys(k)
	s.cacheI[k] = newIndex(ks, s.st, s.idp)
	s.spoil(ks.KEK, ks.AEK, ks.TEK, ks.IEK)
	return s.cacheI[k]
}

func (s *keySys) standalone(k keyVec) *id.Standalone {
	if d, ok := s.cacheS[k]; ok && s.keep {
		return d
	}
	_, c := s.keys(k)
	d, err := id.NewStandalone(c, s.st)
	if err != nil {
		panic(err)
	}
	s.spoil(c.UEK, c.GEK, c.TEK)
	s.cacheS[k] = &d
	return &d
}

func (s *keySys) call(op string, k keyVec, n int) {
	ctx := context.Background()
	e := KeyEv{Op: op, K: k, N: n, Res: "ok", Out: []string{}, Prov: true, Note: fmt.Sprint(s.variants, s.wipe)}
	s.n++
	e.Pay = fmt.Sprint("p", s.n)
	raw := append([]byte(e.Pay+" "), randBytes(s.r, s.r.Intn(50))...)
	s.byPay[string(raw)] = e.Pay
	pay := func(b []byte) string {
		if p, ok := s.byPay[string(b)]; ok {
			return p
		}
		return "?"
	}
	var err error
	pan := guarded(func() {
		switch op {
		case "Encrypt":
			var o uuid.UUID
			if o, err = s.d1(k).Encrypt(ctx, "tok", &data.Object{Plaintext: raw, AssociatedData: []byte("x")}); err == nil {
				s.oid = o
			}
		case "Update":
			err = s.d1(k).Update(ctx, "tok", s.oid, &data.Object{Plaintext: raw, AssociatedData: []byte("x")})
		case "Decrypt":
			var o data.Object
			if o, err = s.d1(k).Decrypt(ctx, "tok", s.oid); err == nil {
				e.Out = append(e.Out, pay(o.Plaintext))
			}
		case "GetGroups":
			var m map[string]struct{}
			m, err = s.d1(k).GetAccessGroups(ctx, "tok", s.oid)
			if _, ok := m["caller"]; err == nil && !ok {
				e.Out = append(e.Out, "wrong")
			}
		case "Authorize":
			err = s.d1(k).AuthorizeIdentity(ctx, "tok", s.oid)
		case "AddGroups":
			err = s.d1(k).AddGroupsToAccess(ctx, "tok", s.oid, "another")
		case "Delete":
			err = s.d1(k).Delete(ctx, "tok", s.oid)
		case "Add":
			err = s.index(k).Add(ctx, "tok", "keyword", e.Pay)
		case "Search":
			e.Out, err = s.index(k).Search(ctx, "tok", "keyword")
			if e.Out == nil {
				e.Out = []string{}
			}
		case "NewUser":
			var u, p string
			if u, p, err = s.standalone(k).NewUser(ctx, id.ScopeAll); err == nil {
				s.uid, s.pw, s.logins = u, p, nil
			}
		case "Login":
			var tk string
			if tk, _, err = s.standalone(k).LoginUser(ctx, s.uid, s.pw); err == nil {
				s.logins = append(s.logins, tk)
			}
		case "ChangePassword":
			var p string
			if p, err = s.standalone(k).ChangeUserPassword(ctx, s.uid, s.pw); err == nil {
				s.pw = p
			}
		case "Identity":
			var i id.Identity
			if i, err = s.standalone(k).GetIdentity(ctx, s.login(n)); err == nil && i.ID != s.uid {
				e.Out = append(e.Out, "wrong")
			}
		case "NewGroup":
			_, err = s.standalone(k).NewGroup(ctx, s.login(n), id.ScopeAll)
		case "CreateToken":
			var tk data.SealedToken
			if tk, err = s.d1(k).CreateToken(ctx, raw); err == nil {
				s.toks = append(s.toks, tk)
			}
		case "Open":
			if n > len(s.toks) {
				err = errProv
				return
			}
			var b []byte
			tk := cloneTok(s.toks[n-1])
			if b, err = s.d1(k).GetTokenContents(ctx, &tk); err == nil {
				e.Out = append(e.Out, pay(b))
			}
		default:
			panic("harness: unknown step " + op)
		}
	})
	if pan != "" {
		e.Res = "panic"
	} else if err != nil {
		e.Res = "err"
	}
	s.ev = append(s.ev, e)
}

func (s *keySys) login(n int) string {
	if n > len(s.logins) {
		return ""
	}
	return s.logins[n-1]
}

type keyStep struct {
	Op string `json:"op"`
	K  keyVec `json:"k"`
	N  int    `json:"n"`
}

var oneKeys = keyVec{1, 1, 1, 1, 1, 1, 1}

func TestKeysWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	walks := loadWalks[keyStep](t)
	reps := tier(2, 12)
	spread(len(walks)*reps, func(i int) {
		s := newKeySys(newRand(int64(1010000+i)), -1)
		for _, st := range walks[i/reps] {
			s.call(st.Op, st.K, st.N)
		}
		sink.put("keys", fmt.Sprint("walk ", i/reps), s.ev)
	})
}

// TestKeysBits: instances whose keys differ in one bit, every bit of every key.
func TestKeysBits(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	spread(256, func(bit int) {
		if !thorough && bit%8 != int(seed+int64(bit/8))%8 && bit > 0 && bit < 255 {
			return
		}
		s := newKeySys(newRand(int64(1020000+bit)), bit)
		s.call("Encrypt", oneKeys, 0)
		s.call("Add", oneKeys, 0)
		s.call("CreateToken", oneKeys, 0)
		s.call("NewUser", oneKeys, 0)
		s.call("Login", oneKeys, 0)
		s.call("NewGroup", oneKeys, 1)
		for i := 0; i < 8; i++ {
			k := oneKeys
			if i < 7 {
				*k.each()[i] = 2
			}
			for _, op := range []string{"Decrypt", "GetGroups", "Authorize", "Search"} {
				s.call(op, k, 0)
			}
			s.call("Open", k, 1)
			s.call("Identity", k, 1)
			if i == 4 || i == 7 {
				s.call("Login", k, 0)
			}
			if i < 4 {
				s.call("Update", k, 0)
				s.call("Encrypt", oneKeys, 0)
			}
		}
		sink.put("keys", fmt.Sprint("bit ", bit), s.ev)
	})
}

// TestKeysRandom: histories of instances with any combination of keys.
func TestKeysRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	ops := []string{"Encrypt", "Update", "Decrypt", "Decrypt", "GetGroups", "Authorize", "AddGroups", "Delete", "Add", "Search", "Search", "NewUser", "Login", "ChangePassword", "Identity", "Identity", "NewGroup", "CreateToken", "Open", "Open"}
	spread(tier(40, 300), func(i int) {
		s := newKeySys(newRand(int64(1030000+i)), -1)
		p := pick(s.r, []float64{0.05, 0.2, 0.5})
		for len(s.ev) < 60 {
			k := oneKeys
			for _, x := range k.each() {
				if s.r.Float64() < p {
					*x = 2
				}
			}
			op := pick(s.r, ops)
			n := 0
			switch op {
			case "Identity", "NewGroup":
				if len(s.logins) == 0 {
					continue
				}
				n = 1 + s.r.Intn(len(s.logins))
			case "Open":
				if len(s.toks) == 0 {
					continue
				}
				n = 1 + s.r.Intn(len(s.toks))
			}
			s.call(op, k, n)
		}
		sink.put("keys", "random", s.ev)
	})
}
