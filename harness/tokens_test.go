package verifharness

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// Instants and durations are [seconds, nanoseconds] relative to the start of the simulated clock.
type instant [2]int64

func split(d time.Duration) instant {
	s := int64(d) / 1e9
	n := int64(d) % 1e9
	if n < 0 {
		s, n = s-1, n+1e9
	}
	return instant{s, n}
}

type TokEv struct {
	Op       string  `json:"op"`
	Tid      int     `json:"tid"`
	Pay      string  `json:"pay"`
	Key      string  `json:"key"`
	Validity instant `json:"validity"`
	Now      instant `json:"now"`
	Exp      instant `json:"exp"`
	C        int     `json:"c"`
	W        int     `json:"w"`
	Via      string  `json:"via"`
	Res      string  `json:"res"`
	OPay     string  `json:"opay"`
	OExp     instant `json:"oexp"`
	Mut      bool    `json:"mut"`
	Leak     bool    `json:"leak"`
	Same     bool    `json:"same"`
}

type tokSys struct {
	r     *rand.Rand
	t0    time.Time
	pays  *Names
	keys  map[string]crypto.Cryptor
	ds    map[string]*d1.D1
	toks  []data.SealedToken
	tkey  []string
	tpay  []string
	ev    []any
	zones []*time.Location
}

var zoneList = []*time.Location{time.UTC, time.FixedZone("", 0), time.FixedZone("A", 3600), time.FixedZone("B", -4*3600-30*60), time.FixedZone("C", 14*3600), time.FixedZone("D", -12*3600), time.FixedZone("E", 5*3600+45*60)}

func newTokSys(r *rand.Rand, keyNames []string) *tokSys {
	s := &tokSys{r: r, t0: time.Now(), pays: newNames("p"), keys: map[string]crypto.Cryptor{}, ds: map[string]*d1.D1{}}
	s.pays.bind("p0", "")
	for i, k := range keyNames {
		ks := testKeys(10)
		ks.TEK = bytes.Repeat([]byte{byte(100 + i)}, 32)
		if i > 0 && r.Intn(2) == 0 { // keys that differ in one bit only
			ks.TEK = bytes.Repeat([]byte{100}, 32)
			ks.TEK[r.Intn(32)] ^= 1 << r.Intn(8)
		}
		kp := key.NewStatic(ks)
		d, err := d1.New(context.Background(), &kp, newFStore(), &stubIdP{})
		if err != nil {
			panic(err)
		}
		c, err := crypto.NewAESCryptor(ks.TEK)
		if err != nil {
			panic(err)
		}
		s.keys[k], s.ds[k] = c, &d
	}
	return s
}

func (s *tokSys) rel(t time.Time) instant { return split(t.Sub(s.t0)) }

// rel for instants that may be far away (differences beyond the range of a Duration)
func (s *tokSys) relWall(t time.Time) instant {
	n := int64(t.Nanosecond()) - int64(s.t0.Nanosecond())
	sec := t.Unix() - s.t0.Unix()
	if n < 0 {
		n, sec = n+1e9, sec-1
	}
	const lim = 2000000000
	if sec > lim {
		sec = lim
	}
	if sec < -lim {
		sec = -lim
	}
	return instant{sec, n}
}

func (s *tokSys) newPay() string {
	for {
		b := randBytes(s.r, randSize(s.r))
		if len(b) == 0 {
			return "p0"
		}
		if _, dup := s.pays.byVal[string(b)]; !dup {
			return s.pays.add(string(b))
		}
	}
}

func (s *tokSys) create(pay, k string, validity time.Duration) {
	e := TokEv{Op: "Create", Pay: pay, Key: k, Validity: split(validity), Now: s.rel(time.Now()), OPay: "p0"}
	b, full := spare([]byte(s.pays.val(pay)), s.r.Intn(40))
	before := append([]byte{}, full...)
	var tok data.SealedToken
	var err error
	pan := guarded(func() {
		if validity == data.TokenValidity && s.r.Intn(2) == 0 {
			e.Via = "d1"
			tok, err = s.ds[k].CreateToken(context.Background(), b)
		} else {
			t := data.NewToken(b, validity)
			c := s.keys[k]
			tok, err = t.Seal(&c)
		}
	})
	e.Mut = !bytes.Equal(before, full)
	for i := range full {
		full[i] ^= 0x5a
	}
	e.Res = tokRes(pan, err)
	e.Exp = s.relWall(tok.ExpiryTime)
	s.toks = append(s.toks, tok)
	s.tkey = append(s.tkey, k)
	s.tpay = append(s.tpay, pay)
	e.Tid = len(s.toks)
	s.ev = append(s.ev, e)
}

func tokRes(pan string, err error) string {
	if pan != "" {
		return pan
	}
	if err != nil {
		return "no"
	}
	return "ok"
}

func cloneTok(t data.SealedToken) data.SealedToken {
	t.Ciphertext = append([]byte{}, t.Ciphertext...)
	t.WrappedKey = append([]byte{}, t.WrappedKey...)
	return t
}

// open presents a token to the library in one of several ways
func (s *tokSys) open(tok data.SealedToken, k, via string) (e TokEv) {
	before := cloneTok(tok)
	var out []byte
	var exp time.Time
	var err error
	pan := guarded(func() {
		t := tok
		switch via {
		case "string", "string2":
			n := 1
			if via == "string2" {
				n = 3
			}
			for i := 0; i < n && err == nil; i++ {
				var str string
				if str, err = t.String(); err == nil {
					t, err = data.TokenFromString(str)
				}
			}
			if err != nil {
				return
			}
			fallthrough
		case "d1":
			out, err = s.ds[k].GetTokenContents(context.Background(), &t)
			exp = t.ExpiryTime
		default:
			c := s.keys[k]
			var pt data.Token
			pt, err = t.Unseal(&c)
			out, exp = pt.Plaintext, pt.ExpiryTime
		}
	})
	e.Key, e.Via, e.Now = k, via, s.rel(time.Now())
	e.Res, e.OPay = tokRes(pan, err), "p0"
	if e.Res == "ok" {
		e.OPay, e.OExp = s.pays.name(string(out)), s.relWall(exp)
	} else {
		e.Leak = len(out) > 0
	}
	for i := range out {
		out[i] ^= 0x5a
	}
	e.Mut = !bytes.Equal(before.Ciphertext, tok.Ciphertext) || !bytes.Equal(before.WrappedKey, tok.WrappedKey) || !before.ExpiryTime.Equal(tok.ExpiryTime)
	return e
}

var vias = []string{"direct", "d1", "string", "string2"}

func (s *tokSys) present(exp time.Time, c, w int, k, via string) {
	tok := data.SealedToken{ExpiryTime: exp, Ciphertext: s.toks[c-1].Ciphertext, WrappedKey: s.toks[w-1].WrappedKey}
	e := s.open(tok, k, via)
	e.Op, e.C, e.W, e.Exp = "Present", c, w, s.relWall(exp)
	s.ev = append(s.ev, e)
}

func (s *tokSys) encode(c int) {
	e := TokEv{Op: "Encode", C: c, OPay: "p0", Now: s.rel(time.Now())}
	t := s.toks[c-1]
	pan := guarded(func() {
		str, err := t.String()
		if err != nil {
			e.Res = "no"
			return
		}
		u, err := data.TokenFromString(str)
		e.Res = tokRes("", err)
		e.OExp = s.relWall(u.ExpiryTime)
		e.Same = bytes.Equal(u.Ciphertext, t.Ciphertext) && bytes.Equal(u.WrappedKey, t.WrappedKey) && u.ExpiryTime.Equal(t.ExpiryTime)
	})
	if pan != "" {
		e.Res = pan
	}
	s.ev = append(s.ev, e)
}

type tokStep struct {
	Op  string `json:"op"`
	V   int    `json:"v"`
	Key string `json:"key"`
	Exp int    `json:"exp"`
	C   int    `json:"c"`
	W   int    `json:"w"`
}

func TestTokensWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	walks := loadWalks[tokStep](t)
	synctest.Test(t, func(t *testing.T) {
		defer func(l *time.Location) { time.Local = l }(time.Local)
		for wi, w := range walks {
			r := newRand(int64(wi))
			time.Local = zoneList[wi%len(zoneList)]
			tick := []time.Duration{1, time.Second, 999999999, data.TokenValidity, 24 * time.Hour, 123456789}[wi%6]
			time.Sleep(time.Duration(r.Int63n(3e9)))
			s := newTokSys(r, []string{"k1", "k2"})
			base := time.Now() // model time 0
			for _, st := range w {
				switch st.Op {
				case "Tick":
					time.Sleep(tick)
				case "Create":
					s.create(s.newPay(), st.Key, time.Duration(st.V)*tick)
				case "Present":
					exp := base.Add(time.Duration(st.Exp) * tick)
					for i, u := range s.toks {
						if u.ExpiryTime.Equal(exp) && (i+1 == st.C || r.Intn(2) == 0) {
							exp = u.ExpiryTime // exactly the value the library made
						}
					}
					s.present(exp, st.C, st.W, st.Key, pick(r, vias))
				}
				if len(s.ev) >= 400 {
					break
				}
			}
			sink.put("seq", "walk", s.ev)
		}
	})
}

func TestTokensRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	synctest.Test(t, func(t *testing.T) {
		defer func(l *time.Location) { time.Local = l }(time.Local)
		for k := 0; k < tier(400, 6000); k++ {
			r := newRand(int64(90000 + k))
			time.Local = zoneList[k%len(zoneList)]
			s := newTokSys(r, []string{"k1", "k2"})
			n := 1 + r.Intn(4)
			for i := 0; i < n; i++ {
				v := []time.Duration{data.TokenValidity, data.TokenValidity, 0, 1, -1, time.Second, time.Duration(r.Int63n(int64(72 * time.Hour))), time.Duration(r.Int63n(int64(20000 * time.Hour))), 100 * time.Millisecond}[r.Intn(9)]
				s.create(s.newPay(), pick(r, []string{"k1", "k2"}), v)
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Int63n(int64(2 * time.Hour))))
				}
			}
			for i := 0; i < 25; i++ {
				c := 1 + r.Intn(n)
				tok := s.toks[c-1]
				// move to an interesting instant relative to this token's expiry, if still ahead
				if r.Intn(3) == 0 {
					d := time.Until(tok.ExpiryTime) + []time.Duration{-1, 0, 1, -time.Second, time.Second, -time.Minute, -500, 500}[r.Intn(8)]
					if d > 0 {
						time.Sleep(d)
					}
				}
				switch r.Intn(5) {
				case 0: // mixed
					w := 1 + r.Intn(n)
					exp := pick(r, s.toks).ExpiryTime
					if r.Intn(3) == 0 {
						exp = exp.Add(time.Duration(r.Int63n(5) - 2))
					}
					if r.Intn(4) == 0 {
						exp = time.Now().Add(time.Hour)
					}
					s.present(exp, c, w, pick(r, []string{"k1", "k2"}), pick(r, vias))
				case 1:
					s.encode(c)
				case 2:
					s.present(tok.ExpiryTime, c, c, pick(r, []string{"k1", "k2"}), pick(r, vias))
				default:
					s.present(tok.ExpiryTime, c, c, s.tkey[c-1], pick(r, vias))
				}
			}
			sink.put("seq", "random", s.ev)
		}
	})
}

// TestTokensTamper changes every bit of every field and of the string form, and presents garbage.
func TestTokensTamper(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	synctest.Test(t, func(t *testing.T) {
		for k := 0; k < tier(3, 25); k++ {
			r := newRand(int64(40000 + k))
			s := newTokSys(r, []string{"k1", "k2"})
			time.Sleep(time.Duration(r.Int63n(3e9)))
			pl := []int{0, 3, 36, 1, 200}[k%5]
			pay := "p0"
			if pl > 0 {
				b := make([]byte, pl)
				r.Read(b)
				pay = s.pays.add(string(b))
			}
			s.create(pay, "k1", data.TokenValidity)
			s.create(s.newPay(), "k1", data.TokenValidity)
			s.create(s.newPay(), "k2", data.TokenValidity)
			prefix := append([]any{}, s.ev...)
			flush := func(note string, force bool) {
				if len(s.ev) > 150 || force {
					sink.put("tamper", note, s.ev)
					s.ev = append([]any{}, prefix...)
				}
			}
			tok := s.toks[0]
			mutants := func(b []byte) [][]byte {
				var out [][]byte
				for i := 0; i < 8*len(b); i++ {
					c := append([]byte{}, b...)
					c[i/8] ^= 1 << (i % 8)
					out = append(out, c)
				}
				for i := range b {
					out = append(out, b[:i])
				}
				for i := 0; i < 20; i++ {
					out = append(out, damage(r, b))
				}
				return append(out, nil, append(append([]byte{}, b...), 0), append([]byte{0}, b...), append(append([]byte{}, b...), b...))
			}
			for _, m := range mutants(tok.Ciphertext) {
				u := tok
				u.Ciphertext = m
				e := s.open(u, "k1", pick(r, vias))
				e.Op, e.C, e.W, e.Exp = "Present", 0, 1, s.relWall(u.ExpiryTime)
				s.ev = append(s.ev, e)
				flush("ciphertext", false)
			}
			for _, m := range mutants(tok.WrappedKey) {
				u := tok
				u.WrappedKey = m
				e := s.open(u, "k1", pick(r, vias))
				e.Op, e.C, e.W, e.Exp = "Present", 1, 0, s.relWall(u.ExpiryTime)
				s.ev = append(s.ev, e)
				flush("wrapped key", false)
			}
			for i := 0; i < 62; i++ {
				for _, sg := range []int64{-1, 1} {
					exp := tok.ExpiryTime.Add(time.Duration(sg << i))
					if y := exp.Year(); y < 1 || y > 9990 {
						continue
					}
					s.present(exp, 1, 1, "k1", pick(r, vias))
				}
				flush("expiry", false)
			}
			for _, via := range vias {
				s.present(tok.ExpiryTime, 1, 1, "k1", via)
			}
			flush("fields", true)

			// altered string forms
			str := guardStr(func() (string, error) { return tok.String() })
			try := func(x string, c int) {
				e := TokEv{Op: "String", C: c, Key: "k1", OPay: "p0", Via: "string", Now: s.rel(time.Now())}
				var out []byte
				var exp time.Time
				var err error
				pan := guarded(func() {
					var u data.SealedToken
					u, err = data.TokenFromString(x)
					if err == nil {
						out, err = s.ds["k1"].GetTokenContents(context.Background(), &u)
						exp = u.ExpiryTime
					}
				})
				e.Res = tokRes(pan, err)
				if e.Res == "ok" {
					e.OPay, e.OExp = s.pays.name(string(out)), s.relWall(exp)
				}
				s.ev = append(s.ev, e)
				flush("string", false)
			}
			try(str, 1)
			for i := range str {
				for _, b := range []byte{str[i] ^ 1, str[i] ^ 32, 'A', '_', '=', '\n', 0, 0xff, byte(r.Intn(256))} {
					try(str[:i]+string([]byte{b})+str[i+1:], 1)
				}
				if i%3 == 0 || thorough {
					try(str[:i], 1)
					try(str[i:], 1)
					try(str[:i]+str[i+1:], 1)
					try(str[:i]+"A"+str[i:], 1)
				}
			}
			// changes of the decoded JSON
			if raw, err := base64.RawURLEncoding.DecodeString(str); err == nil {
				for i := 0; i < 8*len(raw); i++ {
					c := append([]byte{}, raw...)
					c[i/8] ^= 1 << (i % 8)
					try(base64.RawURLEncoding.EncodeToString(c), 1)
				}
				for i := 0; i < tier(300, 2000); i++ {
					c := damage(r, raw)
					if r.Intn(2) == 0 {
						c = damage(r, c)
					}
					try(base64.RawURLEncoding.EncodeToString(c), 1)
				}
			}
			// garbage
			for i := 0; i < tier(200, 1500); i++ {
				g := []string{"", "null", "{}", "[]", "0", "\"\"", "{\"ExpiryTime\":null}", "{\"ExpiryTime\":\"2999-01-01T00:00:00Z\"}",
					"{\"ExpiryTime\":\"2999-01-01T00:00:00Z\",\"Ciphertext\":\"\",\"WrappedKey\":\"\"}", "{\"ExpiryTime\":\"2999-01-01T00:00:00Z\",\"Ciphertext\":null,\"WrappedKey\":\"AAAAAAAAAAAAAAAAAAAAAA==\"}",
					"{\"ExpiryTime\":\"9999-12-31T23:59:59Z\",\"Ciphertext\":[1,2],\"WrappedKey\":{}}", string(randBytes(r, r.Intn(100)))}[r.Intn(12)]
				if r.Intn(3) > 0 {
					g = base64.RawURLEncoding.EncodeToString([]byte(g))
				}
				try(g, 0)
			}
			flush("string", true)
		}

		// login tokens of the standalone provider
		ctx := context.Background()
		st := newFStore()
		sp, err := id.NewStandalone(id.StandaloneConfig{UEK: bytes.Repeat([]byte{1}, 32), GEK: bytes.Repeat([]byte{2}, 32), TEK: bytes.Repeat([]byte{3}, 32)}, st)
		if err != nil {
			t.Fatal(err)
		}
		r := newRand(777)
		s := newTokSys(r, []string{"k1"})
		uid, pwd, err := sp.NewUser(ctx, id.ScopeAll)
		if err != nil {
			t.Fatal(err)
		}
		now := s.rel(time.Now())
		tok, exp, err := sp.LoginUser(ctx, uid, pwd)
		if err != nil {
			t.Fatal(err)
		}
		_ = exp
		p := s.pays.add(uid)
		create := TokEv{Op: "Create", Pay: p, Key: "k1", Validity: split(data.TokenValidity), Now: now, Via: "login", Res: "ok", OPay: "p0", Tid: 1}
		if u, err := data.TokenFromString(tok); err == nil {
			create.Exp = s.relWall(u.ExpiryTime)
			s.ev = append(s.ev, create)
			n := 0
			try := func(x string) {
				e := TokEv{Op: "String", C: 1, Key: "k1", OPay: "p0", Via: "identity", Now: s.rel(time.Now()), OExp: create.Exp}
				var ident id.Identity
				var err error
				pan := guarded(func() { ident, err = sp.GetIdentity(ctx, x) })
				e.Res = tokRes(pan, err)
				if e.Res == "ok" {
					e.OPay = s.pays.name(ident.ID)
				}
				s.ev = append(s.ev, e)
				if n++; n%150 == 0 {
					sink.put("tamper", "login token", s.ev)
					s.ev = []any{create}
				}
			}
			for i := range tok {
				for _, b := range []byte{tok[i] ^ 1, tok[i] ^ 32, 'A', byte(r.Intn(256))} {
					try(tok[:i] + string([]byte{b}) + tok[i+1:])
				}
				try(tok[:i])
			}
			for _, g := range []string{"", uid, pwd, base64.RawURLEncoding.EncodeToString([]byte(uid)), "null", "e30", base64.RawURLEncoding.EncodeToString([]byte(fmt.Sprintf(`{"ExpiryTime":"2999-01-01T00:00:00Z","Ciphertext":"%s"}`, uid)))} {
				try(g)
			}
			sink.put("tamper", "login token", s.ev)
		}
	})
}

func guardStr(f func() (string, error)) (out string) {
	guarded(func() {
		s, err := f()
		if err == nil {
			out = s
		}
	})
	return
}
