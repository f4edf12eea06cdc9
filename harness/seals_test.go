package verifharness

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	stdio "io"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type SealEv struct {
	Op      string   `json:"op"`
	Kind    string   `json:"kind"`
	Found   []string `json:"found"`
	Related bool     `json:"related"`
	Key     string   `json:"key"`
	Pair    string   `json:"pair"`
	Koff    int      `json:"koff"`
	Noff    int      `json:"noff"`
	Own     bool     `json:"own"`
	Opened  bool     `json:"opened"`
	Note    string   `json:"note"`
}

func sealEv(op, kind, note string) SealEv {
	return SealEv{Op: op, Kind: kind, Found: []string{}, Note: note}
}

type written struct {
	id   []byte
	dt   io.DataType
	data []byte
	op   string
}

type secret struct {
	cls string
	val string
}

// sealSys is one deployment: standalone users, objects and an index over one storage provider.
type sealSys struct {
	mu      sync.Mutex
	r       *rand.Rand
	rec     *recorder
	bias    int
	keys    key.Keys
	cfg     id.StandaloneConfig
	st      *FStore
	idp     *id.Standalone
	d       *d1.D1
	ix      *index.SecureIndex
	op      string
	writes  []written
	secrets []secret
	public  map[string]bool // associated data: stored as it is by design
	kws     map[string]bool
	users   []sealUser
	rootTok string
	groups  []string
	objs    []uuid.UUID
	lists   map[string][]string
	ev      []any // C09
	tokens  []data.SealedToken
	same    map[string][]byte
	sameStr map[string]string
	ratios  []any
}

type sealUser struct{ uid, pw, tok string }

func rnd32(r *rand.Rand) []byte { b := make([]byte, 32); r.Read(b); return b }

func newSealSys(r *rand.Rand, rec *recorder) *sealSys {
	s := &sealSys{r: r, rec: rec, st: newFStore(), public: map[string]bool{}, kws: map[string]bool{}, lists: map[string][]string{}, same: map[string][]byte{}, sameStr: map[string]string{}}
	s.keys = key.Keys{KEK: rnd32(r), AEK: rnd32(r), TEK: rnd32(r), IEK: rnd32(r)}
	s.cfg = id.StandaloneConfig{UEK: rnd32(r), GEK: rnd32(r), TEK: rnd32(r)}
	for _, k := range [][]byte{s.keys.KEK, s.keys.AEK, s.keys.TEK, s.keys.IEK, s.cfg.UEK, s.cfg.GEK, s.cfg.TEK} {
		s.secret("key", string(k))
	}
	s.st.onWrite = func(id []byte, dt io.DataType, data []byte) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.writes = append(s.writes, written{clone(id), dt, clone(data), s.op})
	}
	s.open()
	return s
}

// open makes new instances over the same storage and keys.
func (s *sealSys) open() {
	p, err := id.NewStandalone(s.cfg, s.st)
	if err != nil {
		panic(err)
	}
	s.idp = &p
	kp := key.NewStatic(s.keys)
	d, err := d1.New(context.Background(), &kp, s.st, s.idp)
	if err != nil {
		panic(err)
	}
	s.d = &d
	x, err := index.NewSecureIndex(context.Background(), &kp, s.st, s.idp)
	if err != nil {
		panic(err)
	}
	s.ix = &x
}

func (s *sealSys) secret(cls, val string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.secrets = append(s.secrets, secret{cls, val})
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (s *sealSys) word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[s.r.Intn(len(letters))]
	}
	return string(b)
}

func isRegular(content string) bool { return content == "regular" }

// payload of a class of contents
func (s *sealSys) payload(content string) []byte {
	switch content {
	case "empty":
		return []byte{}
	case "same":
		if s.same["pay"] == nil {
			b := make([]byte, 24+s.r.Intn(3000))
			s.r.Read(b)
			s.same["pay"] = b
			s.secret("payload", string(b))
		}
		return clone(s.same["pay"])
	case "regular":
		n := []int{4096, 5000, 16384, 65536, 100000}[s.r.Intn(5)]
		unit := make([]byte, 1+s.r.Intn(64))
		s.r.Read(unit)
		return bytes.Repeat(unit, n/len(unit)+1)[:n]
	}
	n := 16 + s.r.Intn(200)
	switch s.r.Intn(20) {
	case 0, 1:
		n = 4000 + s.r.Intn(5000)
	case 2:
		n = 300 + s.r.Intn(3000)
	case 3:
		n = 70000 + s.r.Intn(3000)
	}
	var b []byte
	if s.r.Intn(2) == 0 {
		b = []byte(s.word(n))
	} else {
		b = make([]byte, n)
		s.r.Read(b)
	}
	s.secret("payload", string(b))
	return b
}

func (s *sealSys) str(cls, content string) string {
	switch content {
	case "empty":
		return ""
	case "same":
		if s.sameStr[cls] == "" {
			s.sameStr[cls] = s.word([]int{24, 24, 41, 70, 140, 300}[s.r.Intn(6)])
			s.secret(cls, s.sameStr[cls])
		}
		return s.sameStr[cls]
	case "regular":
		return strings.Repeat(s.word(1), 4096)
	}
	n := 20 + s.r.Intn(30)
	switch s.r.Intn(12) {
	case 0, 1:
		n = 50 + s.r.Intn(400)
	case 2:
		n = 1000 + s.r.Intn(4000)
	}
	w := s.word(n)
	s.secret(cls, w)
	return w
}

func (s *sealSys) ad() []byte {
	switch s.r.Intn(4) {
	case 0:
		return nil
	case 1:
		if s.same["ad"] == nil {
			s.same["ad"] = []byte(s.word(40))
			s.public[string(s.same["ad"])] = true
		}
		return clone(s.same["ad"])
	}
	b := []byte(s.word(1 + s.r.Intn(60)))
	s.public[string(b)] = true
	return b
}

func (s *sealSys) members() []string {
	out := []string{}
	for i := s.r.Intn(4); i > 0; i-- {
		out = append(out, s.str("member", "fresh"))
	}
	return append(out, subset(s.r, s.groups, 0.5)...)
}

func (s *sealSys) newID(kind, x string) {
	e := sealEv("id", kind, s.op)
	e.Key = x
	s.ev = append(s.ev, e)
}

// caller returns the first user, who calls everything; they are created outside the walks.
func (s *sealSys) root() string {
	if s.rootTok == "" {
		uid, pw, err := s.idp.NewUser(context.Background(), id.ScopeAll)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.addUser(uid, pw)
		tok, _, err := s.idp.LoginUser(context.Background(), uid, pw)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.rootTok = tok
		s.seenToken(tok)
	}
	return s.rootTok
}

func (s *sealSys) addUser(uid, pw string) {
	s.newID("user", uid)
	s.secret("uid", uid)
	if u, err := uuid.FromString(uid); err == nil {
		s.secret("uid", string(u.Bytes()))
	}
	s.password(pw)
	s.users = append(s.users, sealUser{uid: uid, pw: pw})
}

func (s *sealSys) password(pw string) {
	s.secret("password", pw)
	if raw, err := base64.RawURLEncoding.DecodeString(pw); err == nil && len(raw) >= 8 {
		s.secret("password", string(raw))
	}
}

func (s *sealSys) seenToken(tok string) {
	if t, err := data.TokenFromString(tok); err == nil {
		s.sealed("login", s.cfg.TEK, t.WrappedKey, t.Ciphertext, nil)
	}
}

// sealed records the use of a wrapped data key; unwrapped is set if the key is known already.
func (s *sealSys) sealed(kind string, kek, wrapped, ciphertext, unwrapped []byte) bool {
	k := unwrapped
	if k == nil {
		w, err := crypto.NewKWP(kek)
		if err != nil {
			return false
		}
		if k, err = w.Unwrap(wrapped); err != nil || len(k) != 32 || len(ciphertext) < 28 {
			return false
		}
	}
	n := ciphertext[len(ciphertext)-12:]
	e := sealEv("seal", kind, s.op)
	e.Key = hex.EncodeToString(k)
	e.Pair = e.Key + hex.EncodeToString(n)
	e.Koff, e.Noff = s.rec.offset(k), s.rec.offset(n)
	s.secret("key", string(k))
	s.ev = append(s.ev, e)
	return true
}

// look opens what was written since the last look.
func (s *sealSys) look(from int) {
	s.mu.Lock()
	ws := s.writes[from:]
	s.mu.Unlock()
	aek, _ := crypto.NewAESCryptor(s.keys.AEK)
	uek, _ := crypto.NewAESCryptor(s.cfg.UEK)
	objs := map[string][]byte{}
	for _, w := range ws {
		if w.data == nil {
			continue
		}
		switch w.dt {
		case io.DataTypeSealedObject:
			objs[string(w.id)] = w.data
		case io.DataTypeSealedAccess:
			var a data.SealedAccess
			if json.Unmarshal(w.data, &a) != nil {
				continue
			}
			a.OID = uuid.FromBytesOrNil(w.id)
			if !s.sealed("acc", s.keys.AEK, a.WrappedKey, a.Ciphertext, nil) {
				continue
			}
			pa, err := a.Unseal(&aek)
			var o data.SealedObject
			raw, ok := objs[string(w.id)]
			if err != nil || !ok || json.Unmarshal(raw, &o) != nil {
				continue
			}
			s.sealed("obj", s.keys.KEK, pa.WrappedDEK, o.Ciphertext, nil)
			delete(objs, string(w.id))
		case io.DataTypeSealedNode:
			var n data.SealedNode
			if json.Unmarshal(w.data, &n) != nil {
				continue
			}
			for kw := range s.kws {
				if s.sealed("node", crypto.KMACKDF(crypto.EncryptionKeyLength, s.keys.IEK, []byte("id"), []byte(kw)), n.WrappedKey, n.Ciphertext, nil) {
					break
				}
			}
		case id.DataTypeSealedUser:
			var u id.SealedUser
			if json.Unmarshal(w.data, &u) != nil || !s.sealed("user", s.cfg.UEK, u.WrappedKey, u.Ciphertext, nil) {
				continue
			}
			var plain id.User
			if uek.Decrypt(&plain, string(w.id), u.WrappedKey, u.Ciphertext) == nil && len(plain.SaltAndHash) >= 24 {
				s.secret("hash", string(plain.SaltAndHash[8:]))
			}
		case id.DataTypeSealedGroup:
			var g id.SealedGroup
			if json.Unmarshal(w.data, &g) == nil {
				s.sealed("group", s.cfg.GEK, g.WrappedKey, g.Ciphertext, nil)
			}
		}
	}
}

func (s *sealSys) must(err error) {
	if err != nil {
		panic("harness: a call that should succeed failed: " + err.Error())
	}
}

// step runs one call; errors are other properties' business.
func (s *sealSys) step(op, content string) {
	ctx := context.Background()
	tok := s.root()
	s.op = op + " " + content
	from := len(s.writes)
	lastObj := func() uuid.UUID { return s.objs[len(s.objs)-1] }
	object := func() *data.Object {
		o := &data.Object{Plaintext: s.payload(content), AssociatedData: s.ad()}
		if isRegular(content) {
			o.AssociatedData = nil
		}
		return o
	}
	kw := func() string {
		if s.sameStr["kw"] == "" {
			s.sameStr["kw"] = s.word(24)
			s.secret("keyword", s.sameStr["kw"])
			s.kws[s.sameStr["kw"]] = true
		}
		return s.sameStr["kw"]
	}
	guarded(func() {
		switch op {
		case "Encrypt":
			ms := s.members()
			if content == "same" {
				ms = append(ms, s.str("member", "same"))
			}
			if oid, err := s.d.Encrypt(ctx, tok, object(), ms...); err == nil {
				s.newID("obj", oid.String())
				s.objs = append(s.objs, oid)
			}
		case "Update":
			s.d.Update(ctx, tok, lastObj(), object())
		case "AddGroups":
			s.d.AddGroupsToAccess(ctx, tok, lastObj(), s.str("member", content))
		case "RemoveGroups":
			s.d.RemoveGroupsFromAccess(ctx, tok, lastObj(), s.str("member", "same"))
		case "Decrypt":
			s.d.Decrypt(ctx, tok, lastObj())
		case "DeleteObject":
			if s.d.Delete(ctx, tok, lastObj()) == nil {
				s.objs = s.objs[:len(s.objs)-1]
			}
		case "Add":
			x := s.str("identifier", content)
			w := kw()
			if s.ix.Add(ctx, tok, w, x) == nil {
				s.lists[w] = append(s.lists[w], x)
			}
		case "DeleteEntry":
			w := kw()
			l := s.lists[w]
			if len(l) == 0 {
				return
			}
			x := l[s.r.Intn(len(l))]
			if s.ix.Delete(ctx, tok, w, x) == nil {
				var rest []string
				for _, y := range l {
					if y != x {
						rest = append(rest, y)
					}
				}
				s.lists[w] = rest
			}
		case "Search":
			s.ix.Search(ctx, tok, kw())
		case "NewUser":
			if uid, pw, err := s.idp.NewUser(ctx, scopeOf(subset(s.r, scopeNames, 0.5))); err == nil {
				s.addUser(uid, pw)
			}
		case "ChangePassword":
			u := &s.users[s.r.Intn(len(s.users))]
			if pw, err := s.idp.ChangeUserPassword(ctx, u.uid, u.pw); err == nil {
				u.pw = pw
				s.password(pw)
			}
		case "Login":
			u := &s.users[s.r.Intn(len(s.users))]
			if t, _, err := s.idp.LoginUser(ctx, u.uid, u.pw); err == nil {
				s.seenToken(t)
			}
		case "NewGroup":
			if g, err := s.idp.NewGroup(ctx, tok, scopeOf(subset(s.r, scopeNames, 0.5))); err == nil {
				s.newID("group", g)
				s.secret("gid", g)
				if u, err := uuid.FromString(g); err == nil {
					s.secret("gid", string(u.Bytes()))
				}
				s.groups = append(s.groups, g)
			}
		case "Join":
			if len(s.groups) > 0 {
				s.idp.AddUserToGroups(ctx, tok, s.users[len(s.users)-1].uid, s.groups...)
			}
		case "Leave":
			if len(s.groups) > 0 {
				s.idp.RemoveUserFromGroups(ctx, tok, s.users[len(s.users)-1].uid, s.groups[:1]...)
			}
		case "DeleteUser":
			if n := len(s.users); n > 1 && s.idp.DeleteUser(ctx, tok, s.users[n-1].uid) == nil {
				s.users = s.users[:n-1]
			}
		case "CreateToken":
			if t, err := s.d.CreateToken(ctx, s.payload(content)); err == nil {
				s.sealed("token", s.keys.TEK, t.WrappedKey, t.Ciphertext, nil)
				s.tokens = append(s.tokens, t)
			}
		case "Restart":
			s.open()
		default:
			panic("harness: unknown step " + op)
		}
	})
	s.look(from)
	if isRegular(content) {
		s.measure(from)
	}
}

func (s *sealSys) measure(from int) {
	s.mu.Lock()
	ws := s.writes[from:]
	s.mu.Unlock()
	check := func(kind string, b []byte) {
		if len(b) < 3000 {
			return
		}
		var buf bytes.Buffer
		f, _ := flate.NewWriter(&buf, 9)
		f.Write(b)
		f.Close()
		e := sealEv("size", kind, fmt.Sprintf("%s, %d bytes", s.op, len(b)))
		e.Koff = buf.Len() * 1000 / len(b)
		s.ratios = append(s.ratios, e)
	}
	for _, w := range ws {
		check(kindOf(w.dt), bytes.Join(blobs(w.data), nil))
	}
	for _, t := range s.tokens {
		check("token", t.Ciphertext)
	}
	s.tokens = nil
}

func kindOf(dt io.DataType) string {
	switch dt {
	case io.DataTypeSealedObject:
		return "obj"
	case io.DataTypeSealedAccess:
		return "acc"
	case io.DataTypeSealedNode:
		return "node"
	case id.DataTypeSealedUser:
		return "user"
	case id.DataTypeSealedGroup:
		return "group"
	}
	return "other"
}

// strs lists all strings in a JSON document (keys included).
func strs(b []byte) []string {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return nil
	}
	var out []string
	var walk func(any)
	walk = func(x any) {
		switch y := x.(type) {
		case string:
			out = append(out, y)
		case []any:
			for _, z := range y {
				walk(z)
			}
		case map[string]any:
			for k, z := range y {
				out = append(out, k)
				walk(z)
			}
		}
	}
	walk(v)
	return out
}

func unbase64(x string) ([]byte, bool) {
	for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if b, err := enc.DecodeString(x); err == nil {
			return b, true
		}
	}
	return nil, false
}

// blobs are the byte strings a record holds: ciphertexts and wrapped keys.
func blobs(b []byte) [][]byte {
	var out [][]byte
	for _, x := range strs(b) {
		if len(x) < 20 {
			continue
		}
		if _, err := uuid.FromString(x); err == nil {
			continue
		}
		if y, err := base64.StdEncoding.DecodeString(x); err == nil {
			out = append(out, y)
		}
	}
	return out
}

// views are all the byte strings an observer gets from b by undoing common encodings.
func views(b []byte, depth int) [][]byte {
	out := [][]byte{b}
	if depth == 0 {
		return out
	}
	for _, x := range strs(b) {
		out = append(out, views([]byte(x), depth-1)...)
	}
	if len(b) >= 8 {
		if y, ok := unbase64(string(b)); ok {
			out = append(out, views(y, depth-1)...)
		}
		if y, err := hex.DecodeString(string(b)); err == nil {
			out = append(out, views(y, depth-1)...)
		}
		unzip := func(r stdio.Reader, err error) {
			if err != nil {
				return
			}
			if y, _ := stdio.ReadAll(stdio.LimitReader(r, 1<<20)); len(y) >= 8 {
				out = append(out, views(y, depth-1)...)
			}
		}
		if b[0] == 0x1f {
			r, err := gzip.NewReader(bytes.NewReader(b))
			unzip(r, err)
		}
		if b[0] == 0x78 {
			r, err := zlib.NewReader(bytes.NewReader(b))
			unzip(r, err)
		}
	}
	return out
}

type win [8]byte

// forms lists encodings of a secret whose windows give it away.
func forms(v string) []string {
	b := []byte(v)
	out := []string{v, hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b)), strings.ToLower(v), strings.ToUpper(v)}
	if len(b) > 400 { // enough of a long payload, from anywhere
		b = append(append(clone(b[:150]), b[len(b)/2:len(b)/2+150]...), b[len(b)-100:]...)
	}
	for a := 0; a < 3 && a < len(b); a++ {
		x := b[a : a+(len(b)-a)/3*3]
		out = append(out, base64.StdEncoding.EncodeToString(x), base64.URLEncoding.EncodeToString(x))
	}
	for a := 0; a < 5 && a < len(b); a++ {
		x := b[a : a+(len(b)-a)/5*5]
		out = append(out, base32.StdEncoding.EncodeToString(x))
	}
	out = append(out, strings.Trim(fmt.Sprint(b), "[]"), strings.ReplaceAll(strings.Trim(fmt.Sprint(b), "[]"), " ", ","))
	rev := clone(b)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return append(out, string(rev))
}

// longer tells whether what v and x have in common at v[k] goes on beyond 8 bytes.
func longer(v []byte, k int, x string) bool {
	x = strings.ToLower(x)
	for a := k - 8; a <= k; a += 4 {
		if a >= 0 && a+16 <= len(v) && strings.Contains(x, strings.ToLower(string(v[a:a+16]))) {
			return true
		}
	}
	return false
}

func isText(b []byte) bool {
	for _, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '+' || c == '/' || c == '-' || c == '_' || c == '=') {
			return false
		}
	}
	return true
}

// certain tells whether 8 bytes of text at v[k] that occur in x too are there because of x: more than
// 8 agree, or they stand alone.
func certain(v []byte, k int, x string) bool {
	from, to := k, k+8
	for from > 0 && from > k-11 && isText(v[from-1:from]) {
		from--
	}
	for to < len(v) && to < k+19 && isText(v[to:to+1]) {
		to++
	}
	if to-from < 11 {
		return true
	}
	fs := forms(x)
	for a := max(from, k-3); a <= k && a+11 <= to; a++ {
		for _, f := range fs {
			if strings.Contains(f, string(v[a:a+11])) {
				return true
			}
		}
	}
	return false
}

// judgeWrites turns everything written into events.
func (s *sealSys) judgeWrites() []any {
	idx := map[win][]int{}
	for i, sec := range s.secrets {
		seen := map[win]bool{}
		for _, f := range forms(sec.val) {
			for k := 0; k+8 <= len(f); k++ {
				var w win
				copy(w[:], f[k:])
				if !seen[w] && distinctIn(w) >= 3 {
					seen[w] = true
					idx[w] = append(idx[w], i)
				}
			}
		}
	}
	type origin struct {
		n   int
		rec string
	}
	pieces := map[win]origin{}
	var ev []any
	at := map[int]int{}
	for n, wr := range s.writes {
		if wr.data == nil && len(wr.id) == 0 {
			continue
		}
		e := sealEv("write", kindOf(wr.dt), wr.op)
		found, shown := map[string]bool{}, map[int]bool{}
		vs := views(wr.data, 3)
		vs = append(vs, views(wr.id, 3)...)
		own := string(wr.id)
		if u, err := uuid.FromString(own); err == nil {
			own += string(u.Bytes())
		}
		for _, v := range vs {
			for k := 0; k+8 <= len(v); k++ {
				var w win
				copy(w[:], v[k:])
				for _, i := range idx[w] {
					sec := s.secrets[i]
					cls := sec.cls
					if (cls == "uid" || cls == "gid") && bytes.IndexByte(w[:], '-') >= 0 && !longer(v, k, sec.val) {
						continue // IDs have their dashes and version digit in common
					}
					if shown[i] {
						continue
					}
					if shown[i] = !isText(w[:]) || certain(v, k, sec.val); !shown[i] {
						continue // in that much text 8 letters may agree by chance
					}
					isOwn := strings.Contains(own, sec.val)
					switch {
					case cls == "uid" && e.Kind == "user" && isOwn, cls == "gid" && e.Kind == "group" && isOwn:
					case cls == "gid" && e.Kind == "user":
						cls = "membership"
					case cls == "uid" || cls == "gid":
						cls = "member"
					}
					found[cls] = true
				}
			}
		}
		for c := range found {
			e.Found = append(e.Found, c)
		}
		sort.Strings(e.Found)
		rec := string(wr.id) + "/" + string(wr.data)
		for _, b := range blobs(wr.data) {
			if s.public[string(b)] {
				continue
			}
			for k := 0; k+8 <= len(b); k++ {
				var w win
				copy(w[:], b[k:])
				if o, ok := pieces[w]; ok && o.rec != rec {
					e.Related = true
					e.Note = fmt.Sprintf("%s; with write %d", wr.op, o.n)
				} else {
					pieces[w] = origin{n, rec}
				}
			}
		}
		at[n] = len(ev)
		ev = append(ev, e)
	}
	for n, where := range s.contentFields() {
		if k, ok := at[n]; ok {
			e := ev[k].(SealEv)
			e.Related, e.Note = true, where
			ev[k] = e
		}
	}
	return append(ev, s.ratios...)
}

// fields lists the values in a JSON document by where they are.
func fields(b []byte) map[string]string {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	if dec.Decode(&v) != nil {
		return nil
	}
	out := map[string]string{}
	var walk func(string, any)
	walk = func(path string, x any) {
		switch y := x.(type) {
		case string:
			out[path] = y
		case json.Number:
			out[path] = y.String()
		case []any:
			for i, z := range y {
				walk(fmt.Sprint(path, "/", i), z)
			}
		case map[string]any:
			for k, z := range y {
				walk(path+"/"+k, z)
			}
		}
	}
	walk("", v)
	return out
}

// contentFields finds values that are stored again with the same content, another one having been stored
// with other content in between: they follow from the content.
func (s *sealSys) contentFields() map[int]string {
	type seen struct {
		n     int
		other bool
	}
	out := map[int]string{}
	last := map[string]map[string]*seen{} // kind and path -> value
	for n, w := range s.writes {
		same, fresh := strings.HasSuffix(w.op, " same"), strings.HasSuffix(w.op, " fresh")
		if w.data == nil || !same && !fresh {
			continue
		}
		for path, v := range fields(w.data) {
			if len(v) < 4 || strings.Contains(path, "AssociatedData") {
				continue
			}
			if k, err := strconv.ParseInt(v, 10, 64); err == nil && k < 1<<20 && k > -1<<20 {
				continue // lengths show anyway
			}
			if _, err := uuid.FromString(v); err == nil {
				continue
			}
			if b, ok := unbase64(v); ok && s.public[string(b)] || s.public[v] {
				continue
			}
			key := kindOf(w.dt) + path
			if last[key] == nil {
				last[key] = map[string]*seen{}
			}
			if fresh {
				for x, o := range last[key] {
					if x == v { // not only with that content
						delete(last[key], x)
						continue
					}
					o.other = true
				}
				continue
			}
			if o, ok := last[key][v]; ok && o.other {
				out[n] = fmt.Sprintf("%s; %s as in write %d", w.op, path, o.n)
			} else if !ok {
				last[key][v] = &seen{n: n}
			}
		}
	}
	return out
}

func distinctIn(w win) int {
	var seen [256]bool
	n := 0
	for _, c := range w {
		if !seen[c] {
			seen[c] = true
			n++
		}
	}
	return n
}

// mixes exchanges the stored versions of an object and of its access record.
func (s *sealSys) mixes() {
	ctx := context.Background()
	tok := s.root()
	s.op = "versions"
	oid, err := s.d.Encrypt(ctx, tok, &data.Object{Plaintext: s.payload("same")})
	if err != nil {
		return
	}
	type ver struct{ o, a []byte }
	get := func() ver {
		o, _ := s.st.raw(oid.Bytes(), io.DataTypeSealedObject)
		a, _ := s.st.raw(oid.Bytes(), io.DataTypeSealedAccess)
		return ver{o, a}
	}
	vs := []ver{get()}
	for i := 0; i < 5; i++ {
		from := len(s.writes)
		if s.d.Update(ctx, tok, oid, &data.Object{Plaintext: s.payload([]string{"same", "empty", "fresh", "same", "empty"}[i])}) != nil {
			return
		}
		s.look(from)
		if i == 3 {
			s.d.AddGroupsToAccess(ctx, tok, oid, s.str("member", "fresh"))
		}
		vs = append(vs, get())
	}
	for i := range vs {
		for j := range vs {
			s.st.setRaw(oid.Bytes(), io.DataTypeSealedObject, vs[i].o)
			s.st.setRaw(oid.Bytes(), io.DataTypeSealedAccess, vs[j].a)
			e := sealEv("mix", "obj", fmt.Sprint(i, " with ", j))
			var err error
			pan := guarded(func() { _, err = s.d.Decrypt(ctx, tok, oid) })
			e.Own, e.Opened = i == j, pan == "" && err == nil
			s.ev = append(s.ev, e)
		}
	}
}

type sealStep struct {
	Op      string `json:"op"`
	Content string `json:"content"`
}

var sealOps = []sealStep{{"Encrypt", "same"}, {"Encrypt", "fresh"}, {"Encrypt", "empty"}, {"Encrypt", "regular"}, {"Update", "same"}, {"Update", "fresh"}, {"Update", "empty"}, {"Update", "regular"},
	{"AddGroups", "same"}, {"AddGroups", "fresh"}, {"RemoveGroups", ""}, {"DeleteObject", ""}, {"Decrypt", ""}, {"Add", "same"}, {"Add", "fresh"}, {"Add", "empty"}, {"Add", "regular"}, {"DeleteEntry", ""}, {"Search", ""},
	{"NewUser", ""}, {"ChangePassword", ""}, {"Login", ""}, {"NewGroup", ""}, {"Join", ""}, {"Leave", ""}, {"DeleteUser", ""}, {"CreateToken", "same"}, {"CreateToken", "fresh"}, {"CreateToken", "empty"}, {"CreateToken", "regular"}, {"Restart", ""}}

// allKeys spreads the keys of everything over traces, equal keys into one.
type allKeys struct {
	mu sync.Mutex
	by map[string][]any
}

func (a *allKeys) add(ev []any) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, x := range ev {
		e := x.(SealEv)
		if e.Op != "seal" && e.Op != "id" {
			continue
		}
		n := 2
		if len(e.Key) < n {
			continue
		}
		if e.Op == "seal" {
			e.Op = "key"
		}
		a.by[e.Key[:n]] = append(a.by[e.Key[:n]], e)
	}
}

func (a *allKeys) put(sink *Sink) {
	var ks []string
	for k := range a.by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sink.put("fresh", "keys and identifiers beginning with "+k, a.by[k])
	}
}

func TestSeals(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	rec, undo := record()
	defer undo()
	all := &allKeys{by: map[string][]any{}}
	finish := func(s *sealSys, note string) {
		sink.put("show", note, s.judgeWrites())
		sink.put("fresh", note, s.ev)
		all.add(s.ev)
	}
	walks := loadWalks[sealStep](t)
	spread(len(walks), func(i int) {
		s := newSealSys(newRand(int64(900000+i)), rec)
		for _, st := range walks[i] {
			s.step(st.Op, st.Content)
		}
		finish(s, fmt.Sprint("walk ", i))
	})
	spread(tier(12, 60), func(i int) {
		s := newSealSys(newRand(int64(910000+i)), rec)
		s.mixes()
		for len(s.ev) < 150 {
			st := pick(s.r, sealOps)
			if len(s.objs) == 0 && (st.Op == "Update" || st.Op == "AddGroups" || st.Op == "RemoveGroups" || st.Op == "Decrypt" || st.Op == "DeleteObject") {
				continue
			}
			s.step(st.Op, st.Content)
		}
		finish(s, fmt.Sprint("random ", i))
	})
	// the same thing over and over
	spread(len(sealOps), func(i int) {
		st := sealOps[i]
		if st.Content == "regular" {
			return
		}
		s := newSealSys(newRand(int64(920000+i)), rec)
		s.root()
		s.step("NewUser", "")
		s.step("NewGroup", "")
		s.step("Encrypt", "same")
		for k := 0; k < tier(40, 200); k++ {
			if st.Op == "DeleteObject" {
				s.step("Encrypt", "same")
			}
			if st.Op == "DeleteEntry" {
				s.step("Add", "same")
				s.step("Add", "fresh")
			}
			if st.Op == "DeleteUser" {
				s.step("NewUser", "")
			}
			s.step(st.Op, st.Content)
		}
		finish(s, fmt.Sprint("repeated ", st.Op, " ", st.Content))
	})
	// several callers at once on one instance
	for k := 0; k < tier(2, 8); k++ {
		s := newSealSys(newRand(int64(930000+k)), rec)
		tok := s.root()
		s.step("Encrypt", "same")
		pay := s.payload("same")
		s.kws["shared"] = true
		s.op = "concurrent"
		from := len(s.writes)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 6; i++ {
					guarded(func() {
						ctx := context.Background()
						oid, err := s.d.Encrypt(ctx, tok, &data.Object{Plaintext: clone(pay)})
						if err == nil {
							s.d.Update(ctx, tok, oid, &data.Object{Plaintext: clone(pay)})
						}
						s.ix.Add(ctx, tok, "shared", "x")
						t, err := s.d.CreateToken(ctx, pay)
						if err == nil {
							s.mu.Lock()
							s.tokens = append(s.tokens, t)
							s.mu.Unlock()
						}
					})
				}
			}()
		}
		wg.Wait()
		// an access record follows its object record: judge object by object
		s.mu.Lock()
		ws := s.writes[from:]
		sort.SliceStable(ws, func(i, j int) bool { return bytes.Compare(ws[i].id, ws[j].id) < 0 })
		s.mu.Unlock()
		s.look(from)
		for _, t := range s.tokens {
			s.sealed("token", s.keys.TEK, t.WrappedKey, t.Ciphertext, nil)
		}
		finish(s, "concurrent")
	}
	// other processes with the same keys and the same calls
	if env("VERIF_CHILD", "") == "" {
		var joint []any
		for c := 1; c <= tier(3, 8); c++ {
			joint = append(joint, sealChild(t, c)...)
		}
		for len(joint) > 0 {
			n := min(len(joint), 400)
			sink.put("fresh", "several processes", joint[:n])
			joint = joint[n:]
		}
		all.put(sink)
	}
}

// sealChild runs TestSealsChild in a new process and returns its events.
func sealChild(t *testing.T, c int) []any {
	bin := env("VERIF_HARNESS", os.Args[0])
	out := fmt.Sprintf("%s.child%d", outPath, c)
	cmd := exec.Command(bin, "-test.run", "^TestSealsChild$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+strconv.Itoa(c), "VERIF_OUT="+out)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("child: %v\n%s", err, b)
	}
	defer os.Remove(out)
	b, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	var tr struct{ Ev []SealEv }
	if err := json.Unmarshal(b, &tr); err != nil {
		t.Fatal(err)
	}
	var ev []any
	for _, e := range tr.Ev {
		e.Note += fmt.Sprintf(", process %d", c)
		if e.Koff >= 0 {
			e.Koff += c * 100_000_000
		}
		if e.Noff >= 0 {
			e.Noff += c * 100_000_000
		}
		ev = append(ev, e)
	}
	return ev
}

func TestSealsChild(t *testing.T) {
	if env("VERIF_CHILD", "") == "" {
		t.Skip()
	}
	sink := newSink(t)
	defer sink.close(t)
	rec, undo := record()
	defer undo()
	s := newSealSys(rand.New(rand.NewSource(1)), rec)
	for i := 0; i < 3; i++ {
		for _, st := range sealOps {
			if len(s.objs) == 0 && (st.Op == "Update" || st.Op == "AddGroups" || st.Op == "RemoveGroups" || st.Op == "Decrypt") {
				s.step("Encrypt", "same")
			}
			if st.Op == "DeleteUser" || st.Op == "DeleteObject" || st.Op == "DeleteEntry" {
				continue
			}
			s.step(st.Op, st.Content)
		}
	}
	sink.put("fresh", "", s.ev)
}
