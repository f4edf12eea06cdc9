package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"
	zlog "github.com/rs/zerolog/log"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type LogEv struct {
	Kind    string   `json:"kind"`
	Logger  string   `json:"logger"`
	Stack   []string `json:"stack"`
	Level   string   `json:"level"`
	Base    bool     `json:"base"`
	Methods []string `json:"methods"`
	Uids    []string `json:"uids"`
	Oids    []string `json:"oids"`
	Xuid    string   `json:"xuid"`
	Xoid    string   `json:"xoid"`
	Foreign bool     `json:"foreign"`
	Write   bool     `json:"write"`
	Lines   int      `json:"lines"`
	Line    string   `json:"line"`
}

func goid() int64 {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	n, _ := strconv.ParseInt(s[:strings.IndexByte(s, ' ')], 10, 64)
	return n
}

// parent is the goroutine that started this one.
func parent() int64 {
	b := make([]byte, 1<<16)
	s := string(b[:runtime.Stack(b, false)])
	i := strings.LastIndex(s, " in goroutine ")
	if i < 0 {
		return 0
	}
	s = s[i+len(" in goroutine "):]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// logCall is one call of the library at work on some goroutine.
type logCall struct {
	logger string
	base   [][2]string
	stack  []string
	xuid   string
	xoid   string
	ev     []LogEv
	lines  int
}

// capture is the writer behind all loggers; it knows which call writes.
type capture struct {
	mu    sync.Mutex
	calls map[int64]*logCall
	stray []LogEv
	oids  map[string]bool // objects of all calls
}

func pairs(line []byte) ([][2]string, bool) {
	d := json.NewDecoder(bytes.NewReader(line))
	d.UseNumber()
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		return nil, false
	}
	var out [][2]string
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, false
		}
		var v json.RawMessage
		if d.Decode(&v) != nil {
			return nil, false
		}
		var s string
		if json.Unmarshal(v, &s) != nil {
			s = string(v)
		}
		out = append(out, [2]string{k.(string), s})
	}
	return out, true
}

func (c *capture) Write(p []byte) (int, error) {
	g := goid()
	c.mu.Lock()
	defer c.mu.Unlock()
	call := c.of(g)
	if call == nil {
		c.stray = append(c.stray, blankLog("stray", string(p)))
		return len(p), nil
	}
	ev := blankLog("lib", string(p))
	ev.Logger = call.logger
	ev.Stack = append(ev.Stack, call.stack...)
	ev.Xuid, ev.Xoid = call.xuid, call.xoid
	ps, ok := pairs(p)
	ev.Base = ok
	k := 0
	for _, x := range ps {
		switch x[0] {
		case "level":
			ev.Level = x[1]
			continue
		case "probe":
			ev.Kind = "probe"
			ev.Write = x[1] != "get" && x[1] != "auth"
			continue
		case "own":
			ev.Kind = "own"
			continue
		}
		if k < len(call.base) {
			if x != call.base[k] {
				ev.Base = false
			}
			k++
			continue
		}
		for _, b := range call.base {
			if x[0] == b[0] {
				ev.Base = false
			}
		}
		switch x[0] {
		case "method":
			ev.Methods = append(ev.Methods, x[1])
		case "uid":
			ev.Uids = append(ev.Uids, x[1])
		case "oid":
			ev.Oids = append(ev.Oids, x[1])
			ev.Foreign = ev.Foreign || c.oids[x[1]]
		}
	}
	ev.Base = ev.Base && k == len(call.base)
	if ev.Kind == "lib" {
		call.lines++
	}
	if len(ev.Line) > 200 {
		ev.Line = ev.Line[:200]
	}
	call.ev = append(call.ev, ev)
	return len(p), nil
}

func blankLog(kind, line string) LogEv {
	if len(line) > 300 {
		line = line[:300]
	}
	return LogEv{Kind: kind, Stack: []string{}, Methods: []string{}, Uids: []string{}, Oids: []string{}, Line: line}
}

// setupCtx carries a debug logger that nobody but the preparing calls themselves may write to.
func (s *logSys) setupCtx() (context.Context, func()) {
	busy := &atomic.Bool{}
	busy.Store(true)
	return zerolog.New(setupWriter{s.cap, busy}).Level(zerolog.TraceLevel).WithContext(context.Background()), func() { busy.Store(false) }
}

type setupWriter struct {
	c    *capture
	busy *atomic.Bool
}

func (w setupWriter) Write(p []byte) (int, error) {
	if !w.busy.Load() {
		return strayWriter{w.c}.Write(p)
	}
	return len(p), nil
}

type strayWriter struct{ c *capture }

func (w strayWriter) Write(p []byte) (int, error) {
	w.c.mu.Lock()
	defer w.c.mu.Unlock()
	w.c.stray = append(w.c.stray, blankLog("stray", string(p)))
	return len(p), nil
}

// during runs f as a call on this goroutine.
func (c *capture) during(call *logCall, f func()) {
	g := goid()
	c.mu.Lock()
	c.calls[g] = call
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		for h, x := range c.calls {
			if h == g || x == call {
				delete(c.calls, h)
			}
		}
		c.mu.Unlock()
	}()
	f()
}

// of is the call that goroutine g (the current one) works for: its own, or that of the goroutine
// which started it.
func (c *capture) of(g int64) *logCall {
	call := c.calls[g]
	if call == nil {
		if call = c.calls[parent()]; call != nil {
			c.calls[g] = call
		}
	}
	return call
}

func (c *capture) push(op string) func() {
	g := goid()
	c.mu.Lock()
	defer c.mu.Unlock()
	call := c.of(g)
	if call == nil {
		return func() {}
	}
	call.stack = append(call.stack, op)
	return func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		call.stack = call.stack[:len(call.stack)-1]
	}
}

// logIdP stands in front of the identity provider and tells the capture about nested calls.
type logIdP struct {
	real id.Provider
	cap  *capture
	nest bool
}

func (p *logIdP) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	zerolog.Ctx(ctx).Info().Str("probe", "auth").Msg("")
	dawdle(ctx)
	if p.nest {
		defer p.cap.push("GetIdentity")()
	}
	return p.real.GetIdentity(ctx, token)
}

var errLog = errors.New("no such user")

type fixedIdP struct {
	mu sync.RWMutex
	m  map[string]id.Identity
}

func (p *fixedIdP) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	p.mu.RLock()
	defer p.mu.RUnlock()
	i, ok := p.m[token]
	if !ok {
		return id.Identity{}, errLog
	}
	return i, nil
}

type logSys struct {
	cap  *capture
	st   *FStore
	fix  *fixedIdP
	sa   *id.Standalone
	keys key.Keys
	d    map[string]*d1.D1
	ix   map[string]*index.SecureIndex
	idps map[string]*logIdP
}

func newLogSys() *logSys {
	s := &logSys{cap: &capture{calls: map[int64]*logCall{}, oids: map[string]bool{}}, st: newFStore(), fix: &fixedIdP{m: map[string]id.Identity{}}, keys: testKeys(120),
		d: map[string]*d1.D1{}, ix: map[string]*index.SecureIndex{}}
	s.st.gate = func(ctx context.Context, kind string) {
		zerolog.Ctx(ctx).Info().Str("probe", kind).Msg("")
		dawdle(ctx)
	}
	ctx, done := s.setupCtx()
	defer done()
	sa, err := id.NewStandalone(idpConfig(90), s.st)
	if err != nil {
		panic(err)
	}
	s.sa = &sa
	s.idps = map[string]*logIdP{"stub": {s.fix, s.cap, false}, "standalone": {s.sa, s.cap, true}}
	for n, p := range s.idps {
		kp := key.NewStatic(s.keys)
		d, err := d1.New(ctx, &kp, s.st, p)
		if err != nil {
			panic(err)
		}
		s.d[n] = &d
		x, err := index.NewSecureIndex(ctx, &kp, s.st, p)
		if err != nil {
			panic(err)
		}
		s.ix[n] = &x
	}
	return s
}

// logUser is a caller and the things it owns.
type logUser struct {
	name     string
	idp      string
	uid      string
	pw       string
	tok      string
	noScope  string // token of a caller without scopes
	noUid    string
	denied   string // token of a caller not on any list
	deniedID string
	gids     []string
	n        atomic.Int64
	other    string // a user to be changed
	oid      uuid.UUID
	sealed   data.SealedToken
}

func (s *logSys) must(err error) {
	if err != nil {
		panic("harness: preparing: " + err.Error())
	}
}

func (s *logSys) newUser(idp, name string) *logUser {
	ctx, done := s.setupCtx()
	defer done()
	u := &logUser{name: name, idp: idp}
	mk := func(sc id.Scope) (string, string, string) {
		if idp == "stub" {
			uid, tok := "user-"+name+"-"+fmt.Sprint(sc), "tok-"+name+"-"+fmt.Sprint(sc)
			if _, ok := s.fix.m[tok]; ok {
				uid, tok = uid+"x", tok+"x"
			}
			s.fix.mu.Lock()
			s.fix.m[tok] = id.Identity{ID: uid, Scopes: sc}
			s.fix.mu.Unlock()
			return uid, "", tok
		}
		uid, pw, err := s.sa.NewUser(ctx, sc)
		s.must(err)
		tok, _, err := s.sa.LoginUser(ctx, uid, pw)
		s.must(err)
		return uid, pw, tok
	}
	u.uid, u.pw, u.tok = mk(id.ScopeAll)
	u.noUid, _, u.noScope = mk(id.ScopeNone)
	u.deniedID, _, u.denied = mk(id.ScopeAll)
	if idp == "standalone" {
		var err error
		for i := 0; i < 16; i++ {
			g, err := s.sa.NewGroup(ctx, u.tok, id.ScopeAll)
			s.must(err)
			u.gids = append(u.gids, g)
		}
		u.other, _, err = s.sa.NewUser(ctx)
		s.must(err)
	}
	s.ensure(u)
	return u
}

// ensure makes sure there is an object (and a user) to work on.
func (s *logSys) ensure(u *logUser) {
	ctx, done := s.setupCtx()
	defer done()
	if plan := s.st.plan; plan != nil {
		s.st.plan = nil
		defer func() { s.st.plan = plan }()
	}
	if _, ok := s.st.raw(u.oid.Bytes(), io.DataTypeSealedAccess); !ok || u.oid == uuid.Nil {
		o, err := s.d[u.idp].Encrypt(ctx, u.tok, &data.Object{Plaintext: []byte("x")})
		s.must(err)
		u.oid = o
		s.cap.mu.Lock()
		s.cap.oids[o.String()] = true
		s.cap.mu.Unlock()
	}
	if u.idp == "standalone" {
		if _, ok := s.st.raw([]byte(u.other), id.DataTypeSealedUser); !ok {
			o, _, err := s.sa.NewUser(ctx)
			s.must(err)
			u.other = o
		}
	}
	if u.sealed.Ciphertext == nil {
		t, err := s.d[u.idp].CreateToken(ctx, []byte("x"))
		s.must(err)
		u.sealed = t
	}
}

type logCase struct {
	Op      string `json:"op"`
	Logger  string `json:"logger"`
	Idp     string `json:"idp"`
	Outcome string `json:"outcome"`
}

// run makes one call and returns the lines it wrote.
func (s *logSys) run(ctx context.Context, u *logUser, c logCase, base [][2]string) []LogEv {
	call := &logCall{logger: c.Logger, base: base, stack: []string{c.Op}, xuid: u.uid}
	tok := u.tok
	oid := u.oid
	switch c.Outcome {
	case "unauth":
		tok, call.xuid = "nobody", ""
	case "scope":
		tok, call.xuid = u.noScope, u.noUid
	case "denied":
		tok, call.xuid = u.denied, u.deniedID
	case "missing":
		oid = uuid.Must(uuid.NewV4())
	}
	switch c.Op {
	case "Update", "Decrypt", "Delete", "GetGroups", "AddGroups", "RemoveGroups", "Authorize":
		call.xoid = oid.String()
	case "Encrypt":
		call.xoid = "*"
	case "CreateToken", "Open", "New", "NewIndex":
		call.xuid = ""
	case "NewUser":
		call.xuid = "*"
	case "Login", "ChangePassword", "GetIdentity":
		call.xuid = "*"
	}
	uid, pw := u.other, u.pw
	if c.Outcome == "missing" {
		uid = "no such user"
	}
	if c.Outcome == "unauth" {
		pw = "wrong"
	}
	d, x := s.d[u.idp], s.ix[u.idp]
	// Arguments of all sizes: what is logged must not depend on them.
	c0 := int(u.n.Add(1))
	length := []int{7, 0, 1, 16, 300, 5000, 7, 70000}[c0%8]
	obj := &data.Object{Plaintext: bytes.Repeat([]byte("p"), length), AssociatedData: bytes.Repeat([]byte("a"), []int{2, 0, 100, 3000}[c0/3%4])}
	groups := []string{}
	for i := 0; i < []int{2, 0, 1, 12, 60, 3}[c0%6]; i++ {
		groups = append(groups, fmt.Sprint("group-", i))
	}
	gids := u.gids[:min(len(u.gids), []int{1, 1, 2, 16, 0}[c0%5])]
	kw, ident := "kw-"+u.name, "identifier"
	if c0%4 == 1 {
		kw, ident = "kw-"+u.name+strings.Repeat("k", 2000), strings.Repeat("i", 3000)
	} else if c0%16 == 6 {
		kw, ident = "", ""
	}
	s.cap.during(call, func() {
		guarded(func() {
			switch c.Op {
			case "Encrypt":
				if o, err := d.Encrypt(ctx, tok, obj, append([]string{"someone"}, groups...)...); err == nil {
					call.xoid = o.String()
				}
			case "Update":
				d.Update(ctx, tok, oid, obj)
			case "Decrypt":
				d.Decrypt(ctx, tok, oid)
			case "Delete":
				d.Delete(ctx, tok, oid)
			case "GetGroups":
				d.GetAccessGroups(ctx, tok, oid)
			case "AddGroups":
				d.AddGroupsToAccess(ctx, tok, oid, groups...)
			case "RemoveGroups":
				d.RemoveGroupsFromAccess(ctx, tok, oid, groups...)
			case "Authorize":
				d.AuthorizeIdentity(ctx, tok, oid)
			case "CreateToken":
				d.CreateToken(ctx, obj.Plaintext)
			case "Open":
				t := u.sealed
				if c.Outcome == "missing" {
					t = data.SealedToken{}
				}
				d.GetTokenContents(ctx, &t)
			case "Add":
				x.Add(ctx, tok, kw, ident)
			case "Search":
				x.Search(ctx, tok, kw)
			case "DeleteEntry":
				x.Delete(ctx, tok, kw, ident)
			case "GetIdentity":
				s.sa.GetIdentity(ctx, tok)
			case "NewUser":
				s.sa.NewUser(ctx, id.ScopeAll)
			case "Login":
				if c.Outcome == "missing" {
					s.sa.LoginUser(ctx, uid, pw)
				} else {
					s.sa.LoginUser(ctx, u.uid, pw)
				}
			case "ChangePassword":
				if c.Outcome == "missing" {
					s.sa.ChangeUserPassword(ctx, uid, pw)
				} else if p, err := s.sa.ChangeUserPassword(ctx, u.uid, pw); err == nil {
					u.pw = p
				}
			case "Join":
				s.sa.AddUserToGroups(ctx, tok, uid, gids...)
			case "Leave":
				s.sa.RemoveUserFromGroups(ctx, tok, uid, gids...)
			case "DeleteUser":
				s.sa.DeleteUser(ctx, tok, uid)
			case "NewGroup":
				if g, err := s.sa.NewGroup(ctx, tok, id.ScopeAll); err == nil {
					s.sa.RemoveUserFromGroups(context.Background(), tok, u.uid, g)
				}
			case "New":
				kp := &keyProv{keys: s.keys}
				if c.Outcome == "missing" {
					kp.err = errProv
				}
				d1.New(ctx, kp, s.st, s.idps[u.idp])
			case "NewIndex":
				kp := &keyProv{keys: s.keys}
				if c.Outcome == "missing" {
					kp.err = errProv
				}
				index.NewSecureIndex(ctx, kp, s.st, s.idps[u.idp])
			default:
				panic("harness: unknown case " + c.Op)
			}
		})
		call.stack = nil
		zerolog.Ctx(ctx).Warn().Str("own", "x").Msg("")
	})
	for i := range call.ev {
		if call.ev[i].Xoid == "*" {
			call.ev[i].Xoid = call.xoid
		}
	}
	if c.Logger == "none" || c.Logger == "disabled" {
		q := blankLog("quiet", "")
		q.Stack, q.Logger, q.Lines = []string{c.Op}, c.Logger, len(call.ev)
		if len(call.ev) > 0 {
			q.Line = call.ev[0].Line
		}
		return []LogEv{q}
	}
	return call.ev
}

type hookSpy struct{ n *atomic.Int64 }

func (h hookSpy) Run(e *zerolog.Event, l zerolog.Level, m string) { h.n.Add(1) }

// loggerCtx makes a context with a logger of the given kind and lists the fields it carries.
func (s *logSys) loggerCtx(kind string, r *rand.Rand) (context.Context, [][2]string) {
	ctx := context.WithValue(context.Background(), ctxKey{}, kind)
	l := zerolog.New(s.cap).Level(zerolog.DebugLevel)
	var base [][2]string
	add := func(k, v string) {
		l = l.With().Str(k, v).Logger()
		base = append(base, [2]string{k, v})
	}
	switch kind {
	case "none":
		return ctx, nil
	case "disabled":
		l = l.Level(zerolog.Disabled)
	case "info":
		l = l.Level(zerolog.InfoLevel)
		add("lname", kind)
	case "fields":
		for i := 0; i < 3+r.Intn(20); i++ {
			add(fmt.Sprint("f", i), strings.Repeat("v", r.Intn(100)))
		}
	case "spare": // memory with room behind the fields
		l.UpdateContext(func(c zerolog.Context) zerolog.Context {
			for i := 0; i < 1+r.Intn(6); i++ {
				base = append(base, [2]string{fmt.Sprint("s", i), strings.Repeat("w", r.Intn(60))})
				c = c.Str(base[len(base)-1][0], base[len(base)-1][1])
			}
			return c
		})
	case "hook":
		var n atomic.Int64
		add("lname", kind)
		l = l.Hook(hookSpy{&n})
	case "child":
		add("app", "x")
		ctx = l.WithContext(ctx)
		l2 := zerolog.Ctx(ctx).With().Str("child", "y").Logger()
		base = append(base, [2]string{"child", "y"})
		l = l2
	case "trace":
		l = l.Level(zerolog.TraceLevel)
		add("lname", kind)
	}
	return l.WithContext(ctx), base
}

type ctxKey struct{}

// silence points every other way of writing at the capture until undone.
func (s *logSys) silence() func() {
	oz, oo, oe, gl := zlog.Logger, os.Stdout, os.Stderr, zerolog.GlobalLevel()
	zlog.Logger = zerolog.New(strayWriter{s.cap})
	stdlog.SetOutput(strayWriter{s.cap})
	f, err := os.Create(filepath.Join(scratch, fmt.Sprintf("stray-%d-%d", os.Getpid(), goid())))
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Stdout, os.Stderr = f, f
	return func() {
		zlog.Logger = oz
		zerolog.SetGlobalLevel(gl)
		os.Stdout, os.Stderr = oo, oe
		stdlog.SetOutput(oe)
		b, _ := os.ReadFile(f.Name())
		f.Close()
		os.Remove(f.Name())
		if len(b) > 0 {
			s.cap.stray = append(s.cap.stray, blankLog("stray", string(b)))
		}
	}
}

// slowness is in the context of calls whose first provider calls take long.
type slowness struct {
	n     atomic.Int64
	calls int64
	d     time.Duration
}

type slowKey struct{}

func dawdle(ctx context.Context) {
	if s, ok := ctx.Value(slowKey{}).(*slowness); ok && s.n.Add(1) <= s.calls {
		time.Sleep(s.d)
	}
}

// TestLogSlow: calls whose providers take their time.
func TestLogSlow(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	s := newLogSys()
	r := newRand(1120000)
	long := []time.Duration{time.Second / 4, 1100 * time.Millisecond, 2200 * time.Millisecond}
	if tier(0, 1) == 1 {
		long = append(long, 5500*time.Millisecond, 11*time.Second)
	}
	type job struct {
		u    *logUser
		c    logCase
		ctx  context.Context
		base [][2]string
		out  []LogEv
	}
	var jobs []*job
	for _, op := range logOps {
		for _, kind := range []string{"debug", "none"} {
			for k, d := range long {
				idp := "standalone"
				switch op {
				case "GetIdentity", "Join", "Leave", "DeleteUser", "NewGroup":
				default:
					idp = "stub"
				}
				j := &job{u: s.newUser(idp, fmt.Sprint(op, kind, k)), c: logCase{Op: op, Logger: kind, Idp: idp, Outcome: pick(r, []string{"ok", "ok", "ok", "denied", "missing"})}}
				j.ctx, j.base = s.loggerCtx(kind, r)
				j.ctx = context.WithValue(j.ctx, slowKey{}, &slowness{calls: int64(1 + r.Intn(4)), d: d})
				jobs = append(jobs, j)
			}
		}
	}
	undo := s.silence()
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.out = s.run(j.ctx, j.u, j.c, j.base)
		}()
	}
	wg.Wait()
	undo()
	for _, j := range jobs {
		ev := []any{}
		for _, e := range j.out {
			ev = append(ev, e)
		}
		sink.put("log", fmt.Sprint("slow providers, ", j.c.Op), ev)
	}
	var ev []any
	for _, e := range s.cap.stray {
		ev = append(ev, e)
	}
	sink.put("log", "stray", ev)
}

func TestLogCases(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	s := newLogSys()
	undo := s.silence()
	defer undo()
	for wi, w := range loadWalks[logCase](t) {
		r := newRand(int64(1100000 + wi))
		users := map[string]*logUser{"stub": s.newUser("stub", fmt.Sprint("s", wi)), "standalone": s.newUser("standalone", fmt.Sprint("a", wi))}
		ctxs := map[string]context.Context{}
		bases := map[string][][2]string{}
		var ev []any
		zerolog.SetGlobalLevel(pick(r, []zerolog.Level{zerolog.TraceLevel, zerolog.DebugLevel}))
		for _, c := range w {
			if c.Logger == "debug" && r.Intn(3) == 0 {
				c.Logger = "trace"
			}
			if ctxs[c.Logger] == nil || r.Intn(40) == 0 {
				ctxs[c.Logger], bases[c.Logger] = s.loggerCtx(c.Logger, r)
			}
			u := users[c.Idp]
			s.ensure(u)
			s.st.begin()
			if c.Outcome == "fault" {
				if r.Intn(2) == 0 {
					s.st.plan = faultPlan(1+r.Intn(4), r.Intn(faultModes))
				} else { // records that have been altered or damaged
					from, how := 1+r.Intn(3), pick(r, []string{"flip", "cut", "empty", "longer", "tail", "junk", "json"})
					s.st.garble = func(n int, v []byte) []byte {
						switch {
						case n < from || len(v) == 0:
							return v
						case how == "junk":
							return []byte("\x00\xff{[")
						case how == "json":
							return []byte("{}")
						}
						return altered(r, v, how)
					}
				}
			}
			out := s.run(ctxs[c.Logger], u, c, bases[c.Logger])
			s.st.plan, s.st.garble = nil, nil
			for _, e := range out {
				ev = append(ev, e)
			}
			if c.Op == "ChangePassword" && c.Outcome == "fault" { // the password may have been lost
				users[c.Idp] = s.newUser(c.Idp, fmt.Sprint(c.Idp, wi, "-", len(ev)))
			}
		}
		undo()
		for _, e := range s.cap.stray {
			ev = append(ev, e)
		}
		s.cap.stray = nil
		undo = s.silence()
		sink.put("log", "cases", ev)
	}
	undo()
	undo = func() {}
}

var logOps = []string{"Encrypt", "Update", "Decrypt", "Delete", "CreateToken", "Open", "GetGroups", "AddGroups", "RemoveGroups", "Authorize", "Add", "Search", "DeleteEntry", "GetIdentity", "Join", "Leave", "DeleteUser", "NewGroup", "New", "NewIndex"}

// TestLogConcurrent: callers that share a logger, at the same time.
func TestLogConcurrent(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	kinds := []string{"spare", "fields", "spare", "debug", "hook", "child", "spare", "trace"}
	for k := 0; k < tier(12, 80); k++ {
		s := newLogSys()
		r := newRand(int64(1110000 + k))
		kind := kinds[k%len(kinds)]
		ctx, base := s.loggerCtx(kind, r)
		const G = 6
		us := make([]*logUser, G)
		seeds := make([]int64, G)
		for g := range us {
			us[g] = s.newUser([]string{"stub", "stub", "stub", "standalone"}[(g+k)%4], fmt.Sprint("c", g))
			seeds[g] = r.Int63()
		}
		undo := s.silence()
		evs := make([][]LogEv, G)
		var wg sync.WaitGroup
		for g := range us {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seeds[g]))
				for i := 0; i < 40; i++ {
					op := pick(rr, logOps)
					if us[g].idp == "stub" && (op == "GetIdentity" || op == "Join" || op == "Leave" || op == "DeleteUser" || op == "NewGroup") {
						op = pick(rr, []string{"Decrypt", "Update", "Search"})
					}
					if op == "DeleteUser" && rr.Intn(4) > 0 {
						op = "Join"
					}
					if (op == "Delete" || op == "DeleteUser") && rr.Intn(3) > 0 {
						continue
					}
					s.ensure(us[g])
					evs[g] = append(evs[g], s.run(ctx, us[g], logCase{Op: op, Logger: kind, Idp: us[g].idp, Outcome: pick(rr, []string{"ok", "ok", "ok", "ok", "unauth", "scope", "denied", "missing"})}, base)...)
				}
			}()
		}
		wg.Wait()
		undo()
		for g := range evs {
			ev := []any{}
			for _, e := range evs[g] {
				ev = append(ev, e)
			}
			sink.put("log", fmt.Sprint("concurrent ", kind), ev)
		}
		var ev []any
		for _, e := range s.cap.stray {
			ev = append(ev, e)
		}
		sink.put("log", "stray", ev)
	}
}

// TestLogStreams: what a process that only uses the library writes to its standard streams.
func TestLogStreams(t *testing.T) {
	if os.Getenv("VERIF_LOGCHILD") != "" {
		logChild()
		return
	}
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(2, 6); k++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestLogStreams$")
		cmd.Env = append(os.Environ(), fmt.Sprint("VERIF_LOGCHILD=", k+1), "VERIF_OUT=")
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		if err := cmd.Run(); err != nil {
			os.Stdout.Write(out.Bytes())
			os.Stderr.Write(errs.Bytes())
			panic("harness: child: " + err.Error())
		}
		ev := []any{}
		for _, line := range strings.Split(errs.String()+strings.TrimSuffix(out.String(), "PASS\n"), "\n") {
			if line != "" && len(ev) < 20 && !strings.HasPrefix(line, "coverage: ") {
				ev = append(ev, blankLog("stray", line))
			}
		}
		q := blankLog("quiet", "")
		q.Stack, q.Logger, q.Lines = []string{"Encrypt"}, "none", len(ev)
		sink.put("log", "standard streams", append(ev, q))
	}
}

func logChild() {
	k, _ := strconv.Atoi(os.Getenv("VERIF_LOGCHILD"))
	r := newRand(int64(1130000 + k))
	zerolog.SetGlobalLevel([]zerolog.Level{zerolog.TraceLevel, zerolog.DebugLevel, zerolog.InfoLevel}[k%3])
	s := newLogSys()
	us := map[string]*logUser{"stub": s.newUser("stub", "x"), "standalone": s.newUser("standalone", "y")}
	for _, op := range append([]string{"NewUser", "Login"}, logOps...) {
		for _, kind := range []string{"none", "disabled", "debug", "info"} {
			for _, outcome := range []string{"ok", "unauth", "scope", "denied", "missing", "fault"} {
				idp := "standalone"
				if op != "GetIdentity" && op != "Join" && op != "Leave" && op != "DeleteUser" && op != "NewGroup" && op != "NewUser" && op != "Login" && r.Intn(2) == 0 {
					idp = "stub"
				}
				ctx, base := s.loggerCtx(kind, r)
				s.ensure(us[idp])
				if outcome == "fault" {
					if r.Intn(2) == 0 {
						s.st.plan = faultPlan(1+r.Intn(3), r.Intn(faultModes))
					} else {
						s.st.garble = func(n int, v []byte) []byte { return []byte("{damaged") }
					}
				}
				s.st.begin()
				s.run(ctx, us[idp], logCase{Op: op, Logger: kind, Idp: idp, Outcome: outcome}, base)
				s.st.plan, s.st.garble = nil, nil
			}
		}
	}
}
