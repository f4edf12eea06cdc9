package verifharness

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
)

type EnvStep struct {
	Op   string `json:"op"`
	Kek  string `json:"kek"`
	Pt   string `json:"pt"`
	Aad  string `json:"aad"`
	Ct   int    `json:"ct"`
	Calt string `json:"calt"`
	Wk   int    `json:"wk"`
	Walt string `json:"walt"`
}

type EnvEv struct {
	EnvStep
	N    int    `json:"n"`
	Res  string `json:"res"`
	Out  string `json:"out"`
	Mut  bool   `json:"mut"`
	Note string `json:"note"`
}

// a kind of value that is sealed: how to make one, and a place to decrypt into
type family struct {
	name string
	mk   func(r *rand.Rand) any
	dst  func() any // pointer
}

type nested struct {
	Name string
	List []string
	Map  map[string]int64
	In   struct{ A, B uint64 }
	P    *string
	Raw  []byte
}

func rstr(r *rand.Rand) string { return distinctStrings(r, 3)[r.Intn(3)] }

var families = []family{
	{"bytes", func(r *rand.Rand) any { return randBytes(r, randSize(r)) }, func() any { return new([]byte) }},
	{"string", func(r *rand.Rand) any { return rstr(r) }, func() any { return new(string) }},
	{"access", func(r *rand.Rand) any {
		a := data.Access{Groups: map[string]struct{}{}, WrappedDEK: randBytes(r, 40)}
		for i := 0; i < r.Intn(5); i++ {
			a.Groups[rstr(r)] = struct{}{}
		}
		return a
	}, func() any { return new(data.Access) }},
	{"token", func(r *rand.Rand) any {
		return data.Token{Plaintext: randBytes(r, randSize(r)), ExpiryTime: time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()}
	}, func() any { return new(data.Token) }},
	{"node", func(r *rand.Rand) any {
		return data.Node{Identifier: rstr(r), NextCounter: pick(r, []uint64{0, 1, 1 << 32, 1<<53 + 1, math.MaxUint64, r.Uint64()})}
	}, func() any { return new(data.Node) }},
	{"user", func(r *rand.Rand) any {
		u := id.User{SaltAndHash: randBytes(r, 40), Scopes: id.Scope(r.Intn(1 << 12)), Groups: map[string]struct{}{}}
		for i := 0; i < r.Intn(5); i++ {
			u.Groups[rstr(r)] = struct{}{}
		}
		return u
	}, func() any { return new(id.User) }},
	{"group", func(r *rand.Rand) any { return id.Group{Scopes: id.Scope(r.Uint64())} }, func() any { return new(id.Group) }},
	{"nested", func(r *rand.Rand) any {
		s := rstr(r)
		n := nested{Name: rstr(r), List: distinctStrings(r, 1+r.Intn(4)), Map: map[string]int64{rstr(r): math.MinInt64, "k": r.Int63()}, P: &s, Raw: randBytes(r, 1+r.Intn(30))}
		n.In.A, n.In.B = math.MaxUint64, r.Uint64()
		return n
	}, func() any { return new(nested) }},
	{"int", func(r *rand.Rand) any { return pick(r, []int64{0, -1, math.MinInt64, math.MaxInt64, r.Int63()}) }, func() any { return new(int64) }},
}

func isNilOrEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return false
}

func sameValue(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if isNilOrEmpty(va) && isNilOrEmpty(vb) {
		return true
	}
	return reflect.DeepEqual(a, b)
}

type envItem struct{ ct, wk []byte }

type envSys struct {
	r     *rand.Rand
	fam   family
	keks  map[string][]byte
	pts   map[string]any
	aads  map[string]any
	items []envItem
	ev    []any
	old   map[string]*crypto.Cryptor // long-lived cryptors
}

func newEnvSys(r *rand.Rand, fam family, aadFam family) *envSys {
	s := &envSys{r: r, fam: fam, keks: map[string][]byte{}, pts: map[string]any{}, aads: map[string]any{}, old: map[string]*crypto.Cryptor{}}
	k := make([]byte, 32)
	r.Read(k)
	s.keks["k1"], s.keks["k2"] = k, flipped(r, k)
	for {
		s.pts["p"], s.pts["q"], s.pts["z"] = fam.mk(r), fam.mk(r), fam.mk(r)
		if !sameValue(s.pts["p"], s.pts["q"]) && !sameValue(s.pts["p"], s.pts["z"]) && !sameValue(s.pts["q"], s.pts["z"]) {
			break
		}
	}
	for {
		s.aads["a"], s.aads["b"] = aadFam.mk(r), aadFam.mk(r)
		if b, ok := s.aads["a"].([]byte); ok && len(b) > 0 && r.Intn(2) == 0 {
			s.aads["b"] = pick(r, [][]byte{flipped(r, b), b[:len(b)-1], append(clone(b), 0)})
		}
		if !sameValue(s.aads["a"], s.aads["b"]) {
			return s
		}
	}
}

func (s *envSys) cryptor(kek string) *crypto.Cryptor {
	if c := s.old[kek]; c != nil && s.r.Intn(4) > 0 {
		return c
	}
	k := clone(s.keks[kek])
	c, err := crypto.NewAESCryptor(k)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if s.r.Intn(2) == 0 { // the caller may use its key slice again
		for i := range k {
			k[i] = 0
		}
	}
	s.old[kek] = &c
	return &c
}

func altered(r *rand.Rand, b []byte, how string) []byte {
	c := clone(b)
	switch how {
	case "flip":
		return flipped(r, b)
	case "cut":
		return c[:len(c)-1-r.Intn(min(len(c), 20))]
	case "cutfront":
		return c[1+r.Intn(min(len(c)-1, 20)):]
	case "longer":
		return append(c, randBytes(r, 1+r.Intn(20))...)
	case "empty":
		return []byte{}
	case "tail": // the last byte
		c[len(c)-1] ^= byte(1 + r.Intn(255))
	}
	return c
}

func (s *envSys) step(st EnvStep) {
	if st.Op == "enc" {
		s.enc(st)
		return
	}
	it, iw := s.items[st.Ct-1], s.items[st.Wk-1]
	s.dec(st, altered(s.r, it.ct, st.Calt), altered(s.r, iw.wk, st.Walt), "")
}

func (s *envSys) enc(st EnvStep) {
	c := s.cryptor(st.Kek)
	e := EnvEv{EnvStep: st, Note: s.fam.name}
	pt, aad := s.pts[st.Pt], s.aads[st.Aad]
	var full, before []byte
	if b, ok := pt.([]byte); ok {
		var part []byte
		part, full = spare(b, s.r.Intn(2)*60) // room behind it, which is not ours to write
		before = clone(full)
		pt = part
	}
	var wk, ct []byte
	var err error
	pan := guarded(func() { wk, ct, err = c.Encrypt(pt, aad) })
	e.Res = "ok"
	if pan != "" {
		e.Res = pan
	} else if err != nil {
		e.Res = "error"
	}
	e.Mut = !bytes.Equal(full, before)
	s.items = append(s.items, envItem{ct, wk})
	s.ev = append(s.ev, e)
}

func (s *envSys) dec(st EnvStep, ct, wk []byte, note string) {
	c := s.cryptor(st.Kek)
	e := EnvEv{EnvStep: st, Note: s.fam.name + " " + note}
	ctp, ctf := spare(ct, s.r.Intn(2)*40)
	wkp, wkf := spare(wk, s.r.Intn(2)*40)
	c0, w0 := clone(ctf), clone(wkf)
	times := 1 + s.r.Intn(2)
	for k := 0; k < times; k++ {
		dst := s.fam.dst()
		fresh := s.r.Intn(2) == 0
		if !fresh && s.fam.name != "access" && s.fam.name != "user" && s.fam.name != "nested" { // (maps and pointers are merged into)
			reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(s.pts["z"]))
		}
		start := clonedValue(dst)
		var err error
		pan := guarded(func() { err = c.Decrypt(dst, s.aads[st.Aad], wkp, ctp) })
		got := reflect.ValueOf(dst).Elem().Interface()
		res, out := "ok", ""
		switch {
		case pan != "":
			res = pan
		case err != nil:
			res = "error"
			if !sameValue(got, start) {
				e.Mut = true
			}
		default:
			out = "?"
			for _, n := range []string{"p", "q"} {
				if sameValue(got, s.pts[n]) {
					out = n
				}
			}
		}
		if k > 0 && (res != e.Res || out != e.Out) {
			res += ", then " + res
		}
		e.Res, e.Out = res, out
	}
	e.Mut = e.Mut || !bytes.Equal(ctf, c0) || !bytes.Equal(wkf, w0)
	s.ev = append(s.ev, e)
}

func clonedValue(ptr any) any {
	v := reflect.ValueOf(ptr).Elem().Interface()
	if b, ok := v.([]byte); ok && b != nil {
		return clone(b)
	}
	return v
}

func TestEnvelopeWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[EnvStep](t) {
		for fi, fam := range families {
			if fi > 0 && !thorough && (wi+fi)%4 != 0 {
				continue
			}
			r := newRand(int64(700000 + 20*wi + fi))
			s := newEnvSys(r, fam, families[r.Intn(3)])
			for _, st := range w {
				s.step(st)
			}
			sink.put("cryptor", fam.name, s.ev)
		}
	}
}

// every bit of ciphertext and wrapped key, every length of garbage; the AEAD by itself; key lengths
func TestEnvelopeRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(710000)
	for k := 0; k < tier(10, 60); k++ {
		s := newEnvSys(r, families[k%len(families)], families[r.Intn(2)])
		s.enc(EnvStep{Op: "enc", Kek: "k1", Pt: "p", Aad: "a"})
		s.enc(EnvStep{Op: "enc", Kek: "k1", Pt: "q", Aad: "a"})
		it, other := s.items[0], s.items[1]
		good := EnvStep{Op: "dec", Kek: "k1", Aad: "a", Ct: 1, Wk: 1, Calt: "no", Walt: "no"}
		alt := func(c, w bool) EnvStep {
			st := good
			if c {
				st.Calt = "yes"
			}
			if w {
				st.Walt = "yes"
			}
			return st
		}
		bits := 8 * len(it.ct)
		for i := 0; i < bits; i++ {
			if bits > 2000 && r.Intn(bits) > 1000 && i < bits-300 {
				continue
			}
			c := clone(it.ct)
			c[i/8] ^= 1 << (i % 8)
			s.dec(alt(true, false), c, it.wk, fmt.Sprintf("ciphertext bit %d", i))
		}
		for i := 0; i < 8*len(it.wk); i++ {
			if i%16 == 0 { // (a cryptor that has just decrypted the real thing)
				s.dec(good, it.ct, it.wk, "")
			}
			c := clone(it.wk)
			c[i/8] ^= 1 << (i % 8)
			s.dec(alt(false, true), it.ct, c, fmt.Sprintf("wrapped key bit %d", i))
		}
		for i := 0; i < len(it.ct) && i < 400; i++ {
			s.dec(alt(true, false), it.ct[:i], it.wk, "cut")
			if i > 0 {
				s.dec(alt(true, false), it.ct[i:], it.wk, "cut in front")
			}
			if len(other.ct) > i {
				s.dec(alt(true, false), append(clone(it.ct[:i]), other.ct[i:]...), it.wk, "mixed")
			}
		}
		for i := 0; i < len(it.wk); i++ {
			s.dec(alt(false, true), it.ct, it.wk[:i], "cut")
			s.dec(alt(false, true), it.ct, append(clone(it.wk), randBytes(r, 1+i)...), "longer")
		}
		for i := 0; i < 120; i++ {
			s.dec(alt(true, true), randBytes(r, i), randBytes(r, r.Intn(60)), "garbage")
			s.dec(alt(true, false), randBytes(r, i), it.wk, "garbage")
			s.dec(alt(false, true), it.ct, randBytes(r, i), "garbage")
		}
		s.dec(alt(true, false), nil, it.wk, "nil")
		s.dec(alt(false, true), it.ct, nil, "nil")
		s.dec(alt(true, false), append(clone(it.ct), it.ct...), it.wk, "twice")
		if n := len(it.ct); n >= 28 { // nonce and tag exchanged with those of the other item
			c := clone(it.ct)
			copy(c[n-12:], other.ct[len(other.ct)-12:])
			s.dec(alt(true, false), c, it.wk, "other nonce")
			c = clone(it.ct)
			copy(c[n-28:n-12], other.ct[len(other.ct)-28:len(other.ct)-12])
			s.dec(alt(true, false), c, it.wk, "other tag")
		}
		s.dec(good, it.ct, it.wk, "")
		sink.put("cryptor", "alterations", s.ev)
	}
	// large payloads
	for _, n := range bigSizes {
		s := newEnvSys(r, families[0], families[0])
		s.pts["p"] = randBytes(r, n)
		s.enc(EnvStep{Op: "enc", Kek: "k1", Pt: "p", Aad: "a"})
		s.step(EnvStep{Op: "dec", Kek: "k1", Aad: "a", Ct: 1, Wk: 1, Calt: "no", Walt: "no"})
		for i := 0; i < 10; i++ {
			s.step(EnvStep{Op: "dec", Kek: "k1", Aad: "a", Ct: 1, Wk: 1, Calt: "flip", Walt: "no"})
		}
		sink.put("cryptor", "large", s.ev)
	}
	for k := 0; k < tier(12, 100); k++ {
		aeadRound(sink, r)
	}
	for k := 0; k < tier(2, 10); k++ { // long associated data, differing anywhere
		n := pick(r, []int{4097, 65536, 65537, 70000, 200000, 1<<20 + 1})
		for _, at := range []int{0, n / 2, n - 1, r.Intn(n), n} {
			s := newEnvSys(r, families[0], families[0])
			a := make([]byte, n)
			r.Read(a)
			b := append(clone(a), 0)
			if at < n {
				b = clone(a)
				b[at] ^= 1
			}
			longAads(sink, r, a, b)
			s.aads["a"], s.aads["b"] = a, b
			aadPair(sink, s)
		}
	}
	for _, p := range oddPairs { // values that are easily taken for each other
		for k := 0; k < 2; k++ {
			s := newEnvSys(r, families[r.Intn(len(families))], families[0])
			s.aads["a"], s.aads["b"] = p[k], p[1-k]
			aadPair(sink, s)
		}
	}
	ev := []any{}
	for n := 0; n <= 80; n++ {
		key := make([]byte, n)
		a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
		for what, f := range map[string]func() error{
			"NewAESCryptor":    func() error { _, err := crypto.NewAESCryptor(key); return err },
			"Encrypt":          func() error { _, err := a.Encrypt([]byte("x"), nil, key); return err },
			"NewKMAC256Tagger": func() error { _, err := crypto.NewKMAC256Tagger(key); return err },
			"Decrypt": func() error {
				k32 := make([]byte, 32)
				c, err := a.Encrypt([]byte("x"), nil, k32)
				if err != nil {
					return err
				}
				_, err = a.Decrypt(c, nil, key)
				return err
			},
		} {
			e := EnvEv{EnvStep: EnvStep{Op: "key"}, N: n, Res: "ok", Note: what}
			var err error
			if pan := guarded(func() { err = f() }); pan != "" {
				e.Res = pan
			} else if err != nil {
				e.Res = "error"
			}
			ev = append(ev, e)
		}
	}
	sink.put("keys", "", ev)
}

// different values with different JSON forms
var oddPairs = [][2]any{
	{nil, ""}, {"", "0"}, {nil, "null"}, {nil, 0}, {nil, false}, {true, "true"}, {1, "1"}, {1, true}, {uint64(1 << 53), uint64(1<<53 + 1)},
	{0.1, 0.10000000000000002}, {[]string{}, []string{""}}, {[]string{"a", "b"}, []string{"a,b"}}, {[]string{"a", "b"}, []string{"b", "a"}},
	{[]string{"a"}, "a"}, {"a", "A"}, {"a", "a "}, {"a", " a"}, {"a", "a\x00"}, {"é", "e\u0301"}, {"a\n", "a"}, {"a\r\n", "a\n"}, {"<", "&lt;"}, {"\"", "\\\""},
	{map[string]int{"a": 1}, map[string]int{"A": 1}}, {map[string]int{}, map[string]int{"": 0}}, {map[string]any{"a": nil}, map[string]any{}},
	{struct{ A string }{""}, struct{ B string }{""}}, {struct{ A, B string }{"x", ""}, struct{ A, B string }{"", "x"}}, {int64(math.MaxInt64), uint64(math.MaxInt64 + 1)},
	{-1, 1}, {[]byte{0}, []byte{0, 0}}, {[]byte{}, []byte{0}}, {[]any{1, "1"}, []any{"1", 1}}, {[][]string{{"a"}, {"b"}}, [][]string{{"a", "b"}}},
}

// sealed with one, opened with the other
func aadPair(sink *Sink, s *envSys) {
	for _, a := range []string{"a", "b"} {
		s.enc(EnvStep{Op: "enc", Kek: "k1", Pt: pick(s.r, []string{"p", "q"}), Aad: a})
	}
	for range 2 {
		for n := 1; n <= 2; n++ {
			for _, a := range []string{"a", "b"} {
				s.step(EnvStep{Op: "dec", Kek: "k1", Aad: a, Ct: n, Wk: n, Calt: "no", Walt: "no"})
			}
		}
	}
	sink.put("cryptor", "pairs", s.ev)
}

func longAads(sink *Sink, r *rand.Rand, a, b []byte) {
	g := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	key, pt := randBytes32(r), randBytes(r, 100)
	ct, err := g.Encrypt(clone(pt), a, key)
	ev := []any{EnvEv{EnvStep: EnvStep{Op: "enc", Kek: "k1", Pt: "p", Aad: "a"}, Res: resOf(err), Note: "aead"}}
	for _, ad := range []string{"a", "b", "a"} {
		in := a
		if ad == "b" {
			in = b
		}
		out, err := g.Decrypt(clone(ct), in, key)
		e := EnvEv{EnvStep: EnvStep{Op: "dec", Kek: "k1", Aad: ad, Ct: 1, Wk: 1, Calt: "no", Walt: "no"}, Res: resOf(err), Note: "aead, long"}
		if err == nil {
			e.Out = "?"
			if bytes.Equal(out, pt) {
				e.Out = "p"
			}
		}
		ev = append(ev, e)
	}
	sink.put("aead", "long", ev)
}

func resOf(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func randBytes32(r *rand.Rand) []byte {
	k := make([]byte, 32)
	r.Read(k)
	return k
}

func aeadRound(sink *Sink, r *rand.Rand) {
	a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	keys := map[string][]byte{"k1": randBytes(r, 32)}
	keys["k2"] = flipped(r, keys["k1"])
	pts := map[string][]byte{"p": randBytes(r, r.Intn(300)), "q": append(randBytes(r, 8+r.Intn(60)), 1)}
	aads := map[string][]byte{"a": randBytes(r, r.Intn(100))}
	aads["b"] = append(clone(aads["a"]), 0)
	if len(aads["a"]) > 0 && r.Intn(2) == 0 {
		aads["b"] = flipped(r, aads["a"])
	}
	if bytes.Equal(pts["p"], pts["q"]) {
		return
	}
	ev := []any{}
	var cts [][]byte
	enc := func(k, p, ad string) {
		e := EnvEv{EnvStep: EnvStep{Op: "enc", Kek: k, Pt: p, Aad: ad}, Res: "ok", Note: "aead"}
		adp, adf := spare(aads[ad], 7)
		kp, kf := spare(keys[k], 7)
		a0, k0 := clone(adf), clone(kf)
		var ct []byte
		var err error
		if pan := guarded(func() { ct, err = a.Encrypt(clone(pts[p]), adp, kp) }); pan != "" {
			e.Res = pan
		} else if err != nil {
			e.Res = "error"
		}
		e.Mut = !bytes.Equal(adf, a0) || !bytes.Equal(kf, k0)
		cts = append(cts, ct)
		ev = append(ev, e)
	}
	dec := func(n int, ct []byte, alt, ad, k, note string) {
		e := EnvEv{EnvStep: EnvStep{Op: "dec", Kek: k, Aad: ad, Ct: n, Wk: n, Calt: alt, Walt: "no"}, Note: "aead " + note}
		adp, adf := spare(aads[ad], 7)
		kp, kf := spare(keys[k], 7)
		a0, k0 := clone(adf), clone(kf)
		buf := clone(ct)
		var out []byte
		var err error
		pan := guarded(func() { out, err = a.Decrypt(buf, adp, kp) })
		switch {
		case pan != "":
			e.Res = pan
		case err != nil:
			e.Res = "error"
			for _, p := range pts {
				e.Mut = e.Mut || len(out) > 0 || len(p) >= 8 && bytes.Contains(buf, p)
			}
		default:
			e.Res, e.Out = "ok", "?"
			for n, p := range pts {
				if bytes.Equal(p, out) {
					e.Out = n
				}
			}
		}
		e.Mut = e.Mut || !bytes.Equal(adf, a0) || !bytes.Equal(kf, k0)
		ev = append(ev, e)
	}
	enc("k1", "p", "a")
	enc("k1", "q", "a")
	enc("k2", "p", "a")
	enc("k1", "p", "b")
	for n := range cts {
		for _, k := range []string{"k1", "k2"} {
			for _, ad := range []string{"a", "b"} {
				dec(n+1, cts[n], "no", ad, k, "")
			}
		}
	}
	ct := cts[1]
	for i := 0; i < 8*len(ct); i++ {
		c := clone(ct)
		c[i/8] ^= 1 << (i % 8)
		dec(2, c, "yes", "a", "k1", fmt.Sprintf("bit %d", i))
	}
	for i := 0; i < len(ct); i++ {
		dec(2, ct[:i], "yes", "a", "k1", "cut")
		dec(2, append(clone(ct), randBytes(r, 1+i)...), "yes", "a", "k1", "longer")
	}
	for i := 0; i < 100; i++ {
		dec(2, randBytes(r, i), "yes", "a", "k1", "garbage")
	}
	sink.put("aead", "", ev)
}
