package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type LinEv struct {
	Op   string   `json:"op"` // begin, end, state
	N    int      `json:"n"`
	Kind string   `json:"kind"`
	Item string   `json:"item"`
	Cop  string   `json:"cop"`
	By   string   `json:"by"`
	Grs  []string `json:"grs"`
	Pay  string   `json:"pay"`
	Ad   string   `json:"ad"`
	Gs   []string `json:"gs"`
	Id   string   `json:"id"`
	I    int      `json:"i"`
	Uid  string   `json:"uid"`
	Pw   string   `json:"pw"`
	Npw  string   `json:"npw"`
	Res  string   `json:"res"`
	Seq  []string `json:"seq"`
	HasO bool     `json:"haso"`
	HasA bool     `json:"hasa"`
}

// LCall is a call in terms of the specification.
type LCall struct {
	Op  string   `json:"op"`
	By  string   `json:"by"`
	Gs  []string `json:"gs"`
	Id  string   `json:"id"`
	Uid string   `json:"uid"`
	Pw  string   `json:"pw"`
	I   int      `json:"i"`
}

// linRec is a history.
type linRec struct {
	mu   sync.Mutex
	n    int
	ev   []*LinEv
	hurt string // what became of an argument
}

// sharedScopes make up all scopes; callers share the slice, which has room at its end.
var sharedScopes = makeScopes()

func makeScopes() []id.Scope {
	return []id.Scope{id.ScopeDelete, id.ScopeEncrypt, id.ScopeIndex, id.ScopeUpdate, id.ScopeEncrypt, id.ScopeNone, id.ScopeAll, id.ScopeDecrypt, id.ScopeDecrypt, 1 << 60, 1 << 61}
}

// linWorld is one run of the library on one item.
type linWorld struct {
	*linRec
	kind string
	sfx  string // of the names in a history on several items
	st   *FStore
	base map[skey][]byte
	ctx  context.Context

	d    *d1.D1
	ix   *index.SecureIndex
	sa   *id.Standalone
	item string
	oid  uuid.UUID
	big  int // size of payloads
	pays map[string]string
	ads  map[string]string

	uid, tok, pw map[string]string // users
	gid          map[string]string
	names        map[string]string // concrete -> name

	shared   *data.Object // what Encrypt and Update store, if callers share it
	sharedGs []string     // an argument slice with room at its end, if callers share it
	fun      *linFun
}

// linIdP knows the callers of objects and of the index; it never changes.
type linIdP struct{}

var linMembers = map[string][]string{"m": {"g"}, "k": {"g", "h"}}

func (p linIdP) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	fineGate()
	gs := map[string]id.AccessGroup{}
	for _, g := range linMembers[token] {
		gs[g] = id.AccessGroup{ID: g, Scopes: id.ScopeAll}
	}
	if token == "" {
		return id.Identity{}, errStub
	}
	return id.Identity{ID: token, Scopes: id.ScopeAll, Groups: gs}, nil
}

func linRes(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, d1.ErrNotAuthenticated), errors.Is(err, id.ErrNotAuthenticated), errors.Is(err, index.ErrNotAuthenticated):
		return "notauthn"
	case errors.Is(err, d1.ErrNotAuthorized), errors.Is(err, id.ErrNotAuthorized), errors.Is(err, index.ErrNotAuthorized):
		return "notauthz"
	case errors.Is(err, d1.ErrObjectNotFound), errors.Is(err, d1.ErrAccessNotFound), errors.Is(err, id.ErrUserNotFound):
		return "notfound"
	default:
		return "error"
	}
}

func newLinWorld(kind string) *linWorld {
	w := &linWorld{linRec: &linRec{}, kind: kind, st: newFStore(), pays: map[string]string{}, ads: map[string]string{}, uid: map[string]string{}, tok: map[string]string{},
		pw: map[string]string{}, gid: map[string]string{}, names: map[string]string{}, ctx: context.Background(), item: "all"}
	w.open()
	return w
}

// open makes a new instance of the library over the store.
func (w *linWorld) open() {
	kp := key.NewStatic(testKeys(30))
	switch w.kind {
	case "obj":
		d, err := d1.New(w.ctx, &kp, w.st, linIdP{})
		w.must(err)
		w.d = &d
	case "idx":
		ix, err := index.NewSecureIndex(w.ctx, &kp, w.st, linIdP{})
		w.must(err)
		w.ix = &ix
		w.item = "k"
	case "idp":
		sa, err := id.NewStandalone(idpConfig(80), w.st)
		w.must(err)
		w.sa = &sa
	}
}

func (w *linWorld) must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// fork copies a world that is at rest.
func (w *linWorld) fork() *linWorld {
	c := newLinWorld(w.kind)
	w.copyTo(c)
	c.n = w.n
	c.ev = append(c.ev, w.ev...)
	c.st.restore(w.st.snapshot())
	return c
}

func (w *linWorld) copyTo(c *linWorld) {
	c.item, c.oid, c.big, c.sfx, c.kind = w.item, w.oid, w.big, w.sfx, w.kind
	cp := func(dst, src map[string]string) {
		for k, v := range src {
			dst[k] = v
		}
	}
	cp(c.pays, w.pays)
	cp(c.ads, w.ads)
	cp(c.uid, w.uid)
	cp(c.tok, w.tok)
	cp(c.pw, w.pw)
	cp(c.gid, w.gid)
	cp(c.names, w.names)
}

// call makes one call and records its begin and end.
func (w *linWorld) call(c LCall) string {
	w.mu.Lock()
	w.n++
	n := w.n
	b := &LinEv{Op: "begin", N: n, Kind: w.kind, Item: w.item, Cop: c.Op, By: c.By, Uid: c.Uid, Pw: c.Pw, Id: c.Id, I: c.I, Gs: append([]string{}, c.Gs...), Grs: append([]string{}, linMembers[c.By]...), Seq: []string{}}
	var obj data.Object
	if w.kind == "idp" && w.sfx != "" {
		for _, x := range []*string{&b.By, &b.Uid, &b.Pw} {
			if *x != "" {
				*x += w.sfx
			}
		}
	}
	if (c.Op == "Encrypt" || c.Op == "Update") && w.shared != nil {
		b.Pay, b.Ad = "ps", "ds"
		w.pays[sharedPay], w.ads[sharedAd] = b.Pay, b.Ad
	} else if c.Op == "Encrypt" || c.Op == "Update" {
		b.Pay, b.Ad = fmt.Sprint("p", n), fmt.Sprint("d", n)
		pay := fmt.Sprintf("payload %d of %d", n, w.big)
		for len(pay) < w.big {
			pay += pay
		}
		w.pays[pay], w.ads["data "+fmt.Sprint(n)] = b.Pay, b.Ad
		obj = data.Object{Plaintext: []byte(pay), AssociatedData: []byte("data " + fmt.Sprint(n))}
	}
	gids := append(append(make([]string, 0, len(c.Gs)+2), c.Gs...), "<end>", "<end>")[:len(c.Gs)]
	if w.sharedGs != nil && w.kind == "obj" && len(c.Gs) > 0 {
		gids = w.sharedGs
		b.Gs = append([]string{}, gids...)
	}
	if w.kind == "idp" {
		for i, g := range c.Gs {
			gids[i] = w.gid[g]
		}
	}
	gidsWere := fmt.Sprint(gids[:cap(gids)])
	tok, uid, pw := c.By, "", ""
	if w.kind == "idp" {
		tok, uid, pw = w.tok[c.By], w.uid[c.Uid], w.pw[c.Pw]
	}
	if w.kind == "fun" {
		b.Pay = c.Id
	}
	w.ev = append(w.ev, b)
	w.mu.Unlock()
	arg := &obj
	if w.shared != nil {
		arg = w.shared
	}

	e := &LinEv{Op: "end", N: n, Kind: w.kind, Item: w.item, Cop: c.Op, Gs: []string{}, Grs: []string{}, Seq: []string{}}
	var err error
	var after func() // under the lock
	pan := guarded(func() {
		ctx := w.ctx
		switch c.Op {
		case "Encrypt":
			var oid uuid.UUID
			oid, err = w.d.Encrypt(ctx, tok, arg, gids...)
			after = func() {
				w.oid, w.item = oid, fmt.Sprint("x", w.sfx)
				if w.sfx != "" {
					w.item += fmt.Sprint(".", n)
				}
				b.Item, e.Item = w.item, w.item
			}
		case "Update":
			err = w.d.Update(ctx, tok, w.oid, arg)
		case "Decrypt":
			var o data.Object
			o, err = w.d.Decrypt(ctx, tok, w.oid)
			after = func() {
				if err == nil {
					e.Pay, e.Ad = nameOr(w.pays, string(o.Plaintext)), nameOr(w.ads, string(o.AssociatedData))
				}
			}
		case "Delete":
			err = w.d.Delete(ctx, tok, w.oid)
		case "GetAccessGroups":
			var m map[string]struct{}
			m, err = w.d.GetAccessGroups(ctx, tok, w.oid)
			for g := range m {
				e.Gs = append(e.Gs, g)
			}
			sort.Strings(e.Gs)
		case "AddGroupsToAccess":
			err = w.d.AddGroupsToAccess(ctx, tok, w.oid, gids...)
		case "RemoveGroupsFromAccess":
			err = w.d.RemoveGroupsFromAccess(ctx, tok, w.oid, gids...)
		case "AuthorizeIdentity":
			err = w.d.AuthorizeIdentity(ctx, tok, w.oid)
		case "Add":
			err = w.ix.Add(ctx, "a", "the keyword"+w.sfx, c.Id)
		case "DeleteEntry":
			err = w.ix.Delete(ctx, "a", "the keyword"+w.sfx, c.Id)
		case "Search":
			var ids []string
			ids, err = w.ix.Search(ctx, "a", "the keyword"+w.sfx)
			e.Seq = append(e.Seq, ids...)
		case "NewUser":
			var u, p string
			u, p, err = w.sa.NewUser(ctx, sharedScopes[:9]...)
			after = func() {
				b.Uid, b.Npw = c.Uid+w.sfx, fmt.Sprint("w", n)+w.sfx
				w.uid[c.Uid], w.names[u], w.pw[fmt.Sprint("w", n)] = u, c.Uid, p
			}
		case "Login":
			var t string
			t, _, err = w.sa.LoginUser(ctx, uid, pw)
			after = func() {
				if err == nil {
					w.tok[c.Uid] = t
				}
			}
		case "ChangePw":
			var p string
			p, err = w.sa.ChangeUserPassword(ctx, uid, pw)
			after = func() {
				b.Npw = fmt.Sprint("w", n) + w.sfx
				if err == nil {
					w.pw[fmt.Sprint("w", n)] = p
				}
			}
		case "GetIdentity":
			var i id.Identity
			i, err = w.sa.GetIdentity(ctx, tok)
			after = func() {
				if err == nil {
					for g := range i.Groups {
						e.Gs = append(e.Gs, nameOr(w.names, g))
					}
					sort.Strings(e.Gs)
					if nameOr(w.names, i.ID) != c.By {
						e.Gs = append(e.Gs, "identity of "+nameOr(w.names, i.ID))
					}
				}
			}
		case "NewGroup":
			var g string
			g, err = w.sa.NewGroup(ctx, tok, sharedScopes[:9]...)
			after = func() {
				name := c.Id
				if name == "" {
					name = fmt.Sprint("n", n)
				}
				b.Gs = []string{name}
				if err == nil {
					w.gid[name], w.names[g] = g, name
				}
			}
		case "AddUserToGroups":
			err = w.sa.AddUserToGroups(ctx, tok, uid, gids...)
		case "RemoveUserFromGroups":
			err = w.sa.RemoveUserFromGroups(ctx, tok, uid, gids...)
		case "DeleteUser":
			err = w.sa.DeleteUser(ctx, tok, uid)
		default:
			e.Pay, err = w.fun.call(c)
		}
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	e.Res = linRes(err)
	if now := fmt.Sprint(gids[:cap(gids)]); now != gidsWere && w.sharedGs == nil {
		w.hurt = fmt.Sprintf("%s changed the groups %s to %s", c.Op, gidsWere, now)
	}
	if pan != "" {
		e.Res = pan
	}
	if after != nil {
		after()
	}
	if e.Res != "ok" {
		e.Gs, e.Seq, e.Pay, e.Ad = []string{}, []string{}, "", ""
	}
	w.ev = append(w.ev, e)
	return e.Res
}

func nameOr(m map[string]string, k string) string {
	if v, ok := m[k]; ok {
		return v
	}
	return "?" + k
}

func (w *linWorld) state() {
	e := &LinEv{Op: "state", Kind: w.kind, Item: w.item, Gs: []string{}, Grs: []string{}, Seq: []string{}}
	_, e.HasO = w.st.raw(w.oid.Bytes(), io.DataTypeSealedObject)
	_, e.HasA = w.st.raw(w.oid.Bytes(), io.DataTypeSealedAccess)
	w.ev = append(w.ev, e)
}

var linCryptor, _ = crypto.NewAESCryptor(idpConfig(80).TEK)

func (w *linWorld) mint(u string) {
	t := data.NewToken([]byte(w.uid[u]), data.TokenValidity)
	st, err := t.Seal(&linCryptor)
	w.must(err)
	w.tok[u], err = st.String()
	w.must(err)
}

// LinSetup is a starting state.
type LinSetup struct {
	Kind string   `json:"kind"`
	Gs   []string `json:"gs"`  // obj: the access list besides a
	Seq  []string `json:"seq"` // idx: the identifiers
}

func (s LinSetup) build(big int) *linWorld {
	w := newLinWorld(s.Kind)
	w.big = big
	s.on(w)
	return w
}

func (s LinSetup) on(w *linWorld) {
	ok := func(c LCall) {
		if r := w.call(c); r != "ok" {
			panic("harness: setup: " + c.Op + ": " + r)
		}
	}
	switch s.Kind {
	case "obj":
		ok(LCall{Op: "Encrypt", By: "a", Gs: s.Gs})
	case "idx":
		for _, x := range s.Seq {
			ok(LCall{Op: "Add", Id: x})
		}
	case "idp":
		for _, u := range []string{"a", "b", "c"} {
			ok(LCall{Op: "NewUser", Uid: u})
			w.mint(u)
		}
		ok(LCall{Op: "NewGroup", By: "a", Id: "g"})
		ok(LCall{Op: "NewGroup", By: "a", Id: "h"})
		ok(LCall{Op: "AddUserToGroups", By: "a", Uid: "b", Gs: []string{"g"}})
	case "fun":
		ok(LCall{Op: "Seal", Id: "s1" + w.sfx})
		ok(LCall{Op: "Seal", Id: "s2" + w.sfx})
	}
}

// settleNames gives groups that were seen before the call that made them returned their names.
func (w *linWorld) settleNames() {
	for _, e := range w.ev {
		for i, g := range e.Gs {
			if n, ok := w.names[strings.TrimPrefix(g, "?")]; ok && strings.HasPrefix(g, "?") {
				e.Gs[i] = n
			}
		}
		if e.Op == "end" {
			sort.Strings(e.Gs)
		}
	}
}

// probe looks at what the overlapping calls left behind.
func (w *linWorld) probe() {
	w.settleNames()
	switch w.kind {
	case "obj":
		w.state()
		for _, u := range []string{"a", "b", "m", "c"} {
			w.call(LCall{Op: "GetAccessGroups", By: u})
			w.call(LCall{Op: "Decrypt", By: u})
		}
		w.call(LCall{Op: "AddGroupsToAccess", By: "a", Gs: []string{"c"}})
		w.call(LCall{Op: "Update", By: "c"})
		w.call(LCall{Op: "Decrypt", By: "c"})
		w.call(LCall{Op: "RemoveGroupsFromAccess", By: "c", Gs: []string{"b"}})
		w.call(LCall{Op: "Decrypt", By: "b"})
		w.call(LCall{Op: "Delete", By: "c"})
		w.state()
		w.call(LCall{Op: "Decrypt", By: "c"})
	case "idx":
		search := func() { w.call(LCall{Op: "Search"}) }
		search()
		w.call(LCall{Op: "Add", Id: "9"})
		search()
		w.call(LCall{Op: "DeleteEntry", Id: "1"})
		search()
		w.call(LCall{Op: "DeleteEntry", Id: "9"})
		search()
	case "idp":
		ids := func() {
			for _, u := range []string{"a", "b", "c"} {
				w.call(LCall{Op: "GetIdentity", By: u})
			}
		}
		ids()
		for _, u := range []string{"a", "b"} {
			for _, p := range w.passwordsOf(u) {
				w.call(LCall{Op: "Login", Uid: u, Pw: p})
			}
		}
		w.call(LCall{Op: "AddUserToGroups", By: "b", Uid: "c", Gs: []string{"g"}})
		w.call(LCall{Op: "RemoveUserFromGroups", By: "a", Uid: "b", Gs: []string{"g"}})
		w.call(LCall{Op: "AddUserToGroups", By: "b", Uid: "c", Gs: []string{"g"}})
		ids()
	case "fun":
		for i := range w.fun.sealed {
			w.call(LCall{Op: "Open", I: i + 1})
		}
		w.call(LCall{Op: "Same", Id: "tag" + w.sfx})
	}
}

// passwordsOf lists every password u ever had, if it can have changed; checking one is slow.
func (w *linWorld) passwordsOf(u string) []string {
	var out []string
	changed := false
	for _, e := range w.ev {
		npw := strings.TrimSuffix(e.Npw, w.sfx)
		if e.Op == "begin" && (e.Cop == "NewUser" || e.Cop == "ChangePw") && e.Uid == u+w.sfx && w.pw[npw] != "" {
			out = append(out, npw)
			changed = changed || e.Cop == "ChangePw"
		}
	}
	if !changed {
		return nil
	}
	return out
}

// firstPw replaces the password name "" of Login and ChangePw by the user's present one.
func (w *linWorld) firstPw(c LCall) LCall {
	if (c.Op == "Login" || c.Op == "ChangePw") && c.Pw == "" {
		for _, e := range w.ev {
			if e.Op == "begin" && e.Npw != "" && e.Uid == c.Uid+w.sfx {
				c.Pw = strings.TrimSuffix(e.Npw, w.sfx)
			}
		}
	}
	return c
}

// linFun is a caller of the cryptographic helpers, which it shares with other callers.
type linFun struct {
	*linHelpers
	sealed []linSealed
	solo   map[string]string // results of calls made alone
	intact func() string
}

type linHelpers struct {
	cryptor crypto.Cryptor
	tagger  crypto.Tagger
	kwp     *crypto.KWP
	random  crypto.RandomInterface
}

type linSealed struct{ wrapped, ct []byte }

func newLinHelpers() *linHelpers {
	k := testKeys(50)
	c, err := crypto.NewAESCryptor(k.KEK)
	if err != nil {
		panic(err)
	}
	t, err := crypto.NewKMAC256Tagger(k.AEK)
	if err != nil {
		panic(err)
	}
	p, err := crypto.NewKWP(k.TEK)
	if err != nil {
		panic(err)
	}
	return &linHelpers{c, t, p, &crypto.NativeRandom{}}
}

// same makes a call whose result depends on the input alone.
func (f *linFun) same(x string) (string, error) {
	switch {
	case strings.HasPrefix(x, "tag"):
		t, err := f.tagger.Tag(strings.Repeat(x, 30))
		return string(t), err
	case strings.HasPrefix(x, "kdf"):
		return string(crypto.KMACKDF(40, []byte(strings.Repeat(x, 10)), []byte(x), []byte(x))), nil
	case strings.HasPrefix(x, "kwp"):
		w, err := f.kwp.Wrap([]byte(x + x + x))
		if err != nil {
			return "", err
		}
		u, err := f.kwp.Unwrap(append([]byte{}, w...))
		return string(w) + string(u), err
	case strings.HasPrefix(x, "tok"):
		t := data.NewToken([]byte(x), data.TokenValidity)
		st, err := t.Seal(&f.cryptor)
		if err != nil {
			return "", err
		}
		str, err := st.String()
		if err != nil {
			return "", err
		}
		back, err := data.TokenFromString(str)
		if err != nil {
			return "", err
		}
		tok, err := back.Unseal(&f.cryptor)
		return string(tok.Plaintext), err
	case strings.HasPrefix(x, "rnd"):
		b, err := f.random.GetBytes(32)
		return fmt.Sprint(len(b), bytes.Equal(b, make([]byte, 32))), err
	case x == "shared": // the shared arguments are as they were
		return f.intact(), nil
	}
	panic("harness: same " + x)
}

func (f *linFun) call(c LCall) (string, error) {
	switch c.Op {
	case "Seal":
		wrapped, ct, err := f.sealOne(c.Id)
		f.sealed = append(f.sealed, linSealed{wrapped, ct})
		return "", err
	case "Open":
		var out string
		x := f.sealed[c.I-1]
		err := f.cryptor.Decrypt(&out, "aad", x.wrapped, x.ct)
		return strings.TrimSuffix(out, sharedPay), err
	case "Same":
		got, err := f.same(c.Id)
		want, ok := f.solo[c.Id]
		if !ok {
			f.solo[c.Id] = got
			want = got
		}
		if got != want {
			return "?" + c.Id, err
		}
		return c.Id, err
	}
	panic("harness: op " + c.Op)
}

func (f *linFun) sealOne(x string) ([]byte, []byte, error) {
	return f.cryptor.Encrypt(x+sharedPay, "aad")
}

var sharedPay, sharedAd = strings.Repeat("a payload of several callers", 20), "data of several callers"

type linSeen struct {
	mu sync.Mutex
	m  map[string]bool
}

// histories are judged once each
func (l *linSeen) put(sink *Sink, kind string, w *linRec, note string) {
	ev := make([]any, len(w.ev))
	for i, e := range w.ev {
		ev[i] = e
	}
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.m[string(b)] {
		return
	}
	l.m[string(b)] = true
	sink.put(kind, note, ev)
}

// prepare forks the world and returns a schedule of the calls; fine makes every log line, every use
// of randomness and every look at the caller's identity a gate as well.
func (w *linWorld) prepare(calls []LCall, fine bool) (*linWorld, *sched) {
	f := w.fork()
	bodies := make([]func(), len(calls))
	for i, c := range calls {
		c := f.firstPw(c)
		bodies[i] = func() { f.call(c) }
	}
	s := newSched(bodies...)
	f.st.gate = func(context.Context, string) { gate() }
	if s.fine = fine; fine {
		f.ctx = gatedLog()
		f.st.after = func(context.Context, string) { gate() }
	}
	return f, s
}

type gateWriter struct{}

func (gateWriter) Write(p []byte) (int, error) { fineGate(); return len(p), nil }

func gatedLog() context.Context {
	return zerolog.New(gateWriter{}).Level(zerolog.DebugLevel).WithContext(context.Background())
}

type LinStep struct {
	Step string   `json:"step"` // "setup" or "call"
	Kind string   `json:"kind"`
	Gs   []string `json:"gs"`
	Seq  []string `json:"seq"`
	Op   string   `json:"op"`
	By   string   `json:"by"`
	Id   string   `json:"id"`
	Uid  string   `json:"uid"`
	I    int      `json:"i"`
}

type linScenario struct {
	setup LinSetup
	calls []LCall
}

func linScenarios(t *testing.T) []linScenario {
	var out []linScenario
	for _, w := range loadWalks[LinStep](t) {
		s := linScenario{}
		for _, st := range w {
			if st.Step == "setup" {
				s = linScenario{setup: LinSetup{st.Kind, st.Gs, st.Seq}}
			} else {
				s.calls = append(s.calls, LCall{Op: st.Op, By: st.By, Gs: st.Gs, Id: st.Id, Uid: st.Uid})
			}
		}
		if len(s.calls) >= 2 {
			out = append(out, s)
		}
	}
	return out
}

func (s linScenario) String() string {
	x := s.setup.Kind + fmt.Sprint(s.setup.Gs, s.setup.Seq) + ": "
	for _, c := range s.calls {
		x += fmt.Sprint(c.Op, "(", c.By, " ", c.Uid, " ", c.Gs, c.Id, ") ")
	}
	return x
}

// TestLinPairs: the scenarios of the specification; every schedule of two calls (up to a limit, then
// random ones), random schedules of three.
func TestLinPairs(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	seen := &linSeen{m: map[string]bool{}}
	scs := linScenarios(t)
	cut, ran := 0, 0
	var mu sync.Mutex
	spread(len(scs), func(i int) {
		sc := scs[i]
		r := rand.New(rand.NewSource(seed*7919 + int64(i)))
		pw := strings.Contains(sc.String(), "ChangePw") || strings.Contains(sc.String(), "Login") // slow
		limit, some := tier(150, 20000), tier(60, 2000)
		if pw {
			limit, some = tier(40, 2000), tier(10, 100)
		}
		if len(sc.calls) > 2 {
			limit, some = 0, tier(8, 60)
			if pw {
				some = tier(1, 6)
			}
			if r.Intn(tier(6, 1)) != 0 {
				return
			}
		}
		w := sc.setup.build(0)
		var f *linWorld
		flush := func() {
			if f != nil {
				f.st.gate, f.st.after = nil, nil
				f.probe()
				seen.put(sink, "lin", f.linRec, sc.String())
			}
			f = nil
		}
		all := everySchedule(limit, func() *sched {
			flush()
			var s *sched
			f, s = w.prepare(sc.calls, false)
			return s
		})
		flush()
		for k := 0; k < some && !all; k++ {
			var s *sched
			f, s = w.prepare(sc.calls, false)
			randomSchedule(r, s)
			flush()
		}
		mu.Lock()
		defer mu.Unlock()
		ran++
		if !all {
			cut++
		}
	})
	fmt.Printf("COUNT scenarios=%d schedules=%d not_all_schedules=%d\n", ran, schedRuns.Load(), cut)
}

// TestLinFine: some scenarios under random schedules that also stop at identity checks, log lines
// and uses of randomness.
func TestLinFine(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	defer gateRandomness()()
	seen := &linSeen{m: map[string]bool{}}
	scs := linScenarios(t)
	spread(len(scs), func(i int) {
		sc := scs[i]
		r := newRand(int64(i))
		some := tier(4, 60)
		if strings.Contains(sc.String(), "ChangePw") || strings.Contains(sc.String(), "Login") {
			some = tier(1, 8)
		}
		w := sc.setup.build([]int{0, 3000}[r.Intn(2)])
		for k := 0; k < some; k++ {
			f, s := w.prepare(sc.calls, true)
			randomSchedule(r, s)
			f.st.gate, f.st.after = nil, nil
			f.probe()
			seen.put(sink, "lin", f.linRec, sc.String())
		}
	})
	fmt.Printf("COUNT scenarios=%d schedules=%d\n", len(scs), schedRuns.Load())
}

// runTo lets p go on until it has ended or is stuck, or has moved n times.
func (s *sched) runTo(p *sproc, n int) {
	for i := 0; i < n && (p.state == "new" || p.state == "stopped"); i++ {
		s.move(p)
	}
}

// TestLinShare: a call is held up somewhere, before or after a storage operation; another call runs
// from begin to end; a third one starts afterwards and must see what the second did, whatever the
// first one knows; then the first one goes on.
func TestLinShare(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	seen := &linSeen{m: map[string]bool{}}
	scs := linScenarios(t)
	spread(len(scs), func(i int) {
		sc := scs[i]
		if strings.Contains(sc.String(), "ChangePw") || strings.Contains(sc.String(), "Login") {
			return
		}
		r := newRand(int64(5000 + i))
		w := sc.setup.build(0)
		for order := 0; order < 2; order++ {
			a, b := sc.calls[order], sc.calls[1-order]
			other := randomLaneCall(r, w, false)
			if other.Op == "Encrypt" {
				other = a
			}
			for _, c := range []LCall{a, other} {
				if c.Op == "Encrypt" || r.Intn(tier(4, 1)) != 0 && (w.kind != "obj" || c.Op != "Decrypt") {
					continue
				}
				for q := 1; q < 40; q++ {
					f, s := w.prepare([]LCall{a, b, c}, false)
					f.st.after = func(context.Context, string) { gate() }
					s.runTo(s.procs[0], q)
					over := s.procs[0].state == "done"
					if over {
						q = 100
					}
					s.runTo(s.procs[1], 1000)
					s.runTo(s.procs[2], 1000)
					s.run(func(int, []*sproc) int { return 0 })
					f.st.gate, f.st.after = nil, nil
					f.probe()
					seen.put(sink, "lin", f.linRec, sc.String()+" held up")
				}
			}
		}
	})
	fmt.Printf("COUNT scenarios=%d schedules=%d\n", len(scs), schedRuns.Load())
}

// TestLinStress: a few callers at once on one item, nothing held up; also run under the race detector.
func TestLinStress(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	seen := &linSeen{m: map[string]bool{}}
	setups := []LinSetup{{Kind: "obj", Gs: []string{"b", "g"}}, {Kind: "idx", Seq: []string{"1", "2"}}, {Kind: "idp"}}
	bases := make([]*linWorld, len(setups))
	for i, s := range setups {
		bases[i] = s.build(0)
	}
	rounds := tier(60, 600)
	for round := 0; round < rounds; round++ {
		for bi, base := range bases {
			r := newRand(int64(round*10 + bi))
			f := base.fork()
			f.st.gate = func(context.Context, string) {
				if rand.Intn(3) == 0 {
					time.Sleep(time.Duration(rand.Intn(30)) * time.Microsecond)
				}
			}
			f.st.after = f.st.gate
			callers, each := 2, 2+r.Intn(2)
			if r.Intn(2) == 0 { // (how many calls overlap decides what judging costs)
				callers, each = 3, 1
				if base.kind == "idx" {
					each = 2
				}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for c := 0; c < callers; c++ {
				cr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for k := 0; k < each; k++ {
						c := randomLaneCall(cr, f, false)
						if c.Op == "Encrypt" { // would be another object
							c.Op = "Decrypt"
						}
						f.call(c)
					}
				}()
			}
			close(start)
			wg.Wait()
			f.st.gate, f.st.after = nil, nil
			f.probe()
			seen.put(sink, "lin", f.linRec, "stress")
		}
	}
	fmt.Printf("COUNT rounds=%d\n", rounds)
}
