package verifharness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// What the library asks of its providers while it works: under which context, for which caller,
// with which token, and when.

type CallEv struct {
	What   string `json:"what"` // begin, end of context, ask, answer, return
	Op     string `json:"op"`
	K      int    `json:"k"`
	By     int    `json:"by"`
	Who    string `json:"who"` // idp, io, keys
	For    string `json:"for"` // what is asked
	Tok    int    `json:"tok"`
	Dl     int64  `json:"dl"`
	Done   bool   `json:"done"`
	Failed bool   `json:"failed"`
	Res    string `json:"res"`
	Cause  bool   `json:"cause"`
}

type CallCase struct {
	Op    string `json:"op"`
	At    int    `json:"at"`
	F     string `json:"f"`
	Other string `json:"other"`
	Of    string `json:"of"`
}

type callTag struct{}

type oneCall struct {
	CallCase
	k        int
	asks     int
	tok      string
	ctx      context.Context
	cancel   context.CancelFunc
	deadline time.Time
	ended    bool
	honour   bool // providers give up when the context has ended
	failures []error
}

type callsSys struct {
	mu   sync.Mutex
	r    *rand.Rand
	t0   time.Time
	off  bool
	busy bool // providers take their time
	ev   []any
	n    int
	run  map[int]*oneCall
	gor  map[int64]int
	toks map[string]int

	st   *FStore
	p    id.Standalone
	d    d1.D1
	ix   index.SecureIndex
	keys key.Keys
	iop  io.Provider

	uid, uid2, pwd, gid, gid2 string
	logins                    []string
	stranger, powerless       string // tokens of users without access, without scopes
	oid                       uuid.UUID
	sealed                    data.SealedToken
}

func (c *callsSys) rnd(n int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r.Intn(n)
}

// ask is a request to a provider that arrives with ctx; do answers it.
func (c *callsSys) ask(ctx context.Context, who, what, tok string, do func() error) error {
	if c.off {
		return do()
	}
	k := 0
	if ctx != nil {
		k, _ = ctx.Value(callTag{}).(int)
	}
	by := goid()
	c.mu.Lock()
	call, now := c.run[k], false
	if call != nil {
		call.asks++
		now = call.asks == call.At
	}
	c.mu.Unlock()
	if now {
		switch call.F {
		case "cancel", "cancel unnoticed":
			c.end(call)
		case "expire":
			time.Sleep(time.Until(call.deadline) + time.Second)
			c.end(call)
		}
	}
	e := CallEv{What: "ask", K: k, Who: who, For: what}
	c.mu.Lock()
	e.By = c.gor[by]
	if who == "idp" {
		e.Tok = c.tok(tok)
	}
	if ctx != nil {
		e.Dl, e.Done = c.dl(ctx), ctx.Err() != nil
	}
	if call != nil {
		e.Op = call.Op
	}
	c.ev = append(c.ev, e)
	c.mu.Unlock()

	var err error
	given, quiet := false, false
	fail := func() {
		err, given = fmt.Errorf("provider out of order %d", len(call.failures)), true
	}
	if c.busy {
		time.Sleep(time.Duration(c.rnd(5)) * time.Second)
	}
	if now {
		switch call.F {
		case "fail":
			fail()
		case "fail after":
			do()
			fail()
		case "gone":
			err, given, quiet = io.ErrNotFound, true, true
		case "garbage":
			if err = do(); err == nil {
				err = errGarbage
			}
			given, quiet = true, true
		case "slow":
			time.Sleep(10 * time.Minute)
		case "other":
			if locks() { // it would wait for this call
				break
			}
			over := make(chan struct{})
			go func() {
				defer close(over)
				if call.Of == "ends first" {
					c.end(call)
				}
				c.one(CallCase{Op: call.Other, F: call.Of})
			}()
			<-over
		}
	}
	if !given && call != nil && call.honour && ctx != nil && ctx.Err() != nil {
		err, given = fmt.Errorf("provider: %w", ctx.Err()), true
	}
	if !given {
		err = do()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	a := CallEv{What: "answer", K: k, Who: who, For: what, Op: e.Op, Failed: given && !quiet && who != "idp"}
	if a.Failed {
		call.failures = append(call.failures, err)
	}
	c.ev = append(c.ev, a)
	return err
}

func (c *callsSys) tok(s string) int {
	if _, ok := c.toks[s]; !ok {
		c.toks[s] = len(c.toks) + 1
	}
	return c.toks[s]
}

func (c *callsSys) dl(ctx context.Context) int64 {
	if d, ok := ctx.Deadline(); ok {
		return int64(d.Sub(c.t0) / time.Second)
	}
	return 0
}

// end ends the context of a call.
func (c *callsSys) end(call *oneCall) {
	c.mu.Lock()
	defer c.mu.Unlock()
	call.cancel()
	if !call.ended {
		call.ended = true
		c.ev = append(c.ev, CallEv{What: "end of context", K: call.k, Op: call.Op})
	}
}

var errGarbage = errors.New("harness: the answer is garbage")

func real(err error) error {
	if err == errGarbage {
		return nil
	}
	return err
}

func asked(op string, id []byte, dt io.DataType) string { return fmt.Sprintf("%s %d %x", op, dt, id) }

type askIO struct{ c *callsSys }

func (p *askIO) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return real(p.c.ask(ctx, "io", asked("put", id, dt), "", func() error { return p.c.st.Put(ctx, id, dt, b) }))
}
func (p *askIO) Get(ctx context.Context, id []byte, dt io.DataType) (b []byte, err error) {
	err = p.c.ask(ctx, "io", asked("get", id, dt), "", func() error {
		var e error
		b, e = p.c.st.Get(ctx, id, dt)
		return e
	})
	if err == errGarbage {
		junk := [][]byte{nil, {}, []byte("{}"), []byte("null"), []byte("garbage"), b[:len(b)/2], append([]byte("x"), b...)}
		return junk[p.c.rnd(len(junk))], nil
	}
	if err != nil {
		return nil, err
	}
	return b, nil
}
func (p *askIO) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return real(p.c.ask(ctx, "io", asked("update", id, dt), "", func() error { return p.c.st.Update(ctx, id, dt, b) }))
}
func (p *askIO) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	return real(p.c.ask(ctx, "io", asked("delete", id, dt), "", func() error { return p.c.st.Delete(ctx, id, dt) }))
}

type askIdp struct{ c *callsSys }

func (p *askIdp) GetIdentity(ctx context.Context, token string) (i id.Identity, err error) {
	err = p.c.ask(ctx, "idp", "identity", token, func() error {
		var e error
		i, e = p.c.p.GetIdentity(ctx, token)
		return e
	})
	if err != nil {
		return id.Identity{}, err
	}
	return i, nil
}

type askKeys struct{ c *callsSys }

func (p *askKeys) GetKeys(ctx context.Context) (k key.Keys, err error) {
	err = p.c.ask(ctx, "keys", "keys", "", func() error { k = p.c.keys; return nil })
	if err == errGarbage {
		return key.Keys{}, nil
	}
	return k, err
}

func newCallsSys(r *rand.Rand) *callsSys {
	c := &callsSys{r: r, t0: time.Now(), run: map[int]*oneCall{}, gor: map[int64]int{}, toks: map[string]int{}, st: newFStore(), keys: testKeys(byte(r.Intn(90))), off: true}
	c.iop = &askIO{c}
	if r.Intn(3) == 0 {
		p := io.NewProxy(c.iop)
		c.iop = &p
	}
	check := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	ctx := context.Background()
	conf := idpConfig(byte(r.Intn(90)))
	login, err := crypto.NewAESCryptor(conf.TEK)
	check(err)
	c.p, err = id.NewStandalone(conf, c.iop)
	check(err)
	c.d, err = d1.New(ctx, &askKeys{c}, c.iop, &askIdp{c})
	check(err)
	c.ix, err = index.NewSecureIndex(ctx, &askKeys{c}, c.iop, &askIdp{c})
	check(err)
	c.uid, c.pwd, err = c.p.NewUser(ctx, id.ScopeAll)
	check(err)
	c.uid2, _, err = c.p.NewUser(ctx, id.ScopeAll)
	check(err)
	token := func(uid string) string {
		tok := data.NewToken([]byte(uid), 10*365*24*time.Hour)
		st, err := tok.Seal(&login)
		check(err)
		t, err := st.String()
		check(err)
		return t
	}
	for i := 0; i < 4; i++ {
		c.logins = append(c.logins, token(c.uid))
	}
	uid, _, err := c.p.NewUser(ctx, id.ScopeAll)
	check(err)
	c.stranger = token(uid)
	uid, _, err = c.p.NewUser(ctx)
	check(err)
	c.powerless = token(uid)
	c.gid, err = c.p.NewGroup(ctx, c.logins[0], id.ScopeAll)
	check(err)
	c.gid2, err = c.p.NewGroup(ctx, c.logins[0], id.ScopeAll)
	check(err)
	check(c.p.AddUserToGroups(ctx, c.logins[0], c.uid2, c.gid))
	c.oid, err = c.d.Encrypt(ctx, c.logins[0], &data.Object{Plaintext: []byte("text"), AssociatedData: []byte("about")}, c.gid)
	check(err)
	for _, x := range []string{"a", "b", "a", "c", "a"} {
		check(c.ix.Add(ctx, c.logins[0], "k", x))
	}
	c.sealed, err = c.d.CreateToken(ctx, []byte("contents"))
	check(err)
	c.off = false
	return c
}

// one makes one call of the library.
func (c *callsSys) one(cs CallCase) {
	c.mu.Lock()
	c.n++
	call := &oneCall{CallCase: cs, k: c.n, honour: cs.F != "cancel unnoticed"}
	call.tok = pick(c.r, c.logins)
	switch cs.F {
	case "stranger":
		call.tok = c.stranger
	case "powerless":
		call.tok = c.powerless
	case "bad token":
		call.tok = pick(c.r, []string{"", " ", "bad", call.tok + " ", "\n" + call.tok, " " + call.tok + "\r\n", call.tok + "=", "Bearer " + call.tok, call.tok + "\x00", relative(c.r, call.tok)})
	}
	ctx := context.WithValue(context.Background(), callTag{}, call.k)
	if c.r.Intn(2) == 0 || cs.F == "expire" {
		call.deadline = time.Now().Add(time.Duration(30+c.r.Intn(1000)) * time.Minute)
		ctx, call.cancel = context.WithDeadline(ctx, call.deadline)
	} else {
		ctx, call.cancel = context.WithCancel(ctx)
	}
	call.ctx = ctx
	c.run[call.k] = call
	c.gor[goid()] = call.k
	c.ev = append(c.ev, CallEv{What: "begin", Op: cs.Op, K: call.k, Tok: c.tok(call.tok), Dl: c.dl(ctx)})
	c.mu.Unlock()
	if cs.F == "ended before" {
		c.end(call)
	}
	var err error
	pan := guarded(func() { err = c.work(ctx, call) })
	c.mu.Lock()
	defer c.mu.Unlock()
	e := CallEv{What: "return", Op: cs.Op, K: call.k, Res: "ok", Cause: len(call.failures) == 0}
	for _, f := range call.failures {
		e.Cause = e.Cause || errors.Is(err, f) || ctx.Err() != nil && errors.Is(err, ctx.Err())
	}
	switch {
	case pan != "":
		e.Res = "panic"
	case err == nil:
	case errors.Is(err, d1.ErrNotAuthenticated), errors.Is(err, index.ErrNotAuthenticated), errors.Is(err, id.ErrNotAuthenticated):
		e.Res = "notauthn"
	default:
		e.Res = "error"
	}
	c.ev = append(c.ev, e)
	delete(c.gor, goid())
	if !call.ended {
		defer call.cancel() // only now
	}
}

func (c *callsSys) work(ctx context.Context, call *oneCall) (err error) {
	tok := call.tok
	oid, gid2, kw, uid2 := c.oid, c.gid2, "k", c.uid2
	if call.F == "missing" { // what the call is about is not there
		oid, gid2, kw, uid2 = uuid.Must(uuid.NewV4()), "none", "none", "none"
	}
	obj := &data.Object{Plaintext: []byte("other text"), AssociatedData: []byte("other")}
	switch call.Op {
	case "New":
		_, err = d1.New(ctx, &askKeys{c}, c.iop, &askIdp{c})
	case "NewIndex":
		_, err = index.NewSecureIndex(ctx, &askKeys{c}, c.iop, &askIdp{c})
	case "Encrypt":
		_, err = c.d.Encrypt(ctx, tok, obj, c.gid)
	case "Update":
		err = c.d.Update(ctx, tok, oid, obj)
	case "Decrypt":
		_, err = c.d.Decrypt(ctx, tok, oid)
	case "Delete":
		err = c.d.Delete(ctx, tok, oid)
	case "GetAccessGroups":
		_, err = c.d.GetAccessGroups(ctx, tok, oid)
	case "AddGroupsToAccess":
		err = c.d.AddGroupsToAccess(ctx, tok, oid, c.gid2)
	case "RemoveGroupsFromAccess":
		err = c.d.RemoveGroupsFromAccess(ctx, tok, oid, c.gid)
	case "AuthorizeIdentity":
		err = c.d.AuthorizeIdentity(ctx, tok, oid)
	case "CreateToken":
		_, err = c.d.CreateToken(ctx, []byte("x"))
	case "GetTokenContents":
		_, err = c.d.GetTokenContents(ctx, &c.sealed)
	case "Add":
		err = c.ix.Add(ctx, tok, kw, "d")
	case "Search":
		_, err = c.ix.Search(ctx, tok, kw)
	case "DeleteEntry":
		err = c.ix.Delete(ctx, tok, kw, "a")
	case "GetIdentity":
		_, err = c.p.GetIdentity(ctx, tok)
	case "NewUser":
		_, _, err = c.p.NewUser(ctx, id.ScopeAll)
	case "LoginUser":
		_, _, err = c.p.LoginUser(ctx, c.uid, c.pwd)
	case "ChangeUserPassword":
		_, err = c.p.ChangeUserPassword(ctx, c.uid, c.pwd)
	case "AddUser":
		err = c.p.AddUserToGroups(ctx, tok, uid2, gid2)
	case "RemoveUser":
		err = c.p.RemoveUserFromGroups(ctx, tok, uid2, c.gid)
	case "DeleteUser":
		err = c.p.DeleteUser(ctx, tok, uid2)
	case "NewGroup":
		_, err = c.p.NewGroup(ctx, tok, id.ScopeAll)
	default:
		panic("harness: unknown operation " + call.Op)
	}
	return err
}

// settle lets everything that is still running finish and hands out the trace.
func (c *callsSys) settle(sink *Sink, note string) {
	synctest.Wait()
	time.Sleep(48 * time.Hour)
	synctest.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	sink.put("calls", note, c.ev)
	c.ev, c.run, c.n, c.toks = nil, map[int]*oneCall{}, 0, map[string]int{}
	c.t0 = time.Now()
}

func TestCallsCases(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	walks := loadWalks[CallCase](t)
	locks()
	parallel(t, len(walks), func(t *testing.T, wi int) {
		c := newCallsSys(newRand(int64(410000 + wi)))
		snap := c.st.snapshot()
		for _, cs := range walks[wi] {
			c.busy = c.r.Intn(2) == 0 || cs.At == 0
			c.one(cs)
			c.settle(sink, cs.Op+" / "+cs.F)
			c.st.restore(snap)
		}
	})
}

var callOps = []string{"New", "NewIndex", "Encrypt", "Update", "Decrypt", "Delete", "GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess", "AuthorizeIdentity", "CreateToken", "GetTokenContents",
	"Add", "Search", "DeleteEntry", "GetIdentity", "NewUser", "LoginUser", "ChangeUserPassword", "AddUser", "RemoveUser", "DeleteUser", "NewGroup"}

// overlapping calls, with providers that take their time
func TestCallsRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	alone := locks()
	parallel(t, tier(80, 600), func(t *testing.T, k int) {
		c := newCallsSys(newRand(int64(440000 + k)))
		c.busy = true
		var wg sync.WaitGroup
		for i := 0; i < 2+c.r.Intn(4); i++ {
			r := rand.New(rand.NewSource(c.r.Int63()))
			if alone {
				wg.Wait()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 12; j++ {
					c.one(CallCase{Op: pick(r, callOps), At: 1 + r.Intn(8), F: pick(r, []string{"none", "none", "fail", "fail after", "gone", "garbage", "cancel", "cancel unnoticed", "expire", "ended before", "bad token", "slow", "stranger", "powerless", "missing"})})
					time.Sleep(time.Duration(r.Intn(3)) * time.Second)
				}
			}()
		}
		wg.Wait()
		c.settle(sink, "overlapping")
	})
}
