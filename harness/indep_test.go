package verifharness

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// multi is one instance of every part of the library, used by several callers ("lanes"), each with
// an object, a keyword, users or sealed data of its own. The callers share the context, the logger
// and argument slices.
type multi struct {
	rec     *linRec
	st      *FStore
	ctx     context.Context
	d       *d1.D1
	ix      *index.SecureIndex
	sa      *id.Standalone
	hel     *linHelpers
	obj     *data.Object
	objFull []byte
	gs      []string // full length of the shared slice
	lanes   map[string]*linWorld
}

func newMulti(ctx context.Context) *multi {
	m := &multi{rec: &linRec{}, st: newFStore(), ctx: ctx, lanes: map[string]*linWorld{}}
	m.open()
	return m
}

func (m *multi) open() {
	kp := key.NewStatic(testKeys(30))
	d, err := d1.New(m.ctx, &kp, m.st, linIdP{})
	must(err)
	ix, err := index.NewSecureIndex(m.ctx, &kp, m.st, linIdP{})
	must(err)
	sa, err := id.NewStandalone(idpConfig(80), m.st)
	must(err)
	m.d, m.ix, m.sa, m.hel = &d, &ix, &sa, newLinHelpers()
	pay, full := spare([]byte(sharedPay), 64)
	m.objFull = full
	m.obj = &data.Object{Plaintext: pay, AssociatedData: []byte(sharedAd)}
	m.gs = []string{"b", "g", "<end>", "<end>"}
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// intact tells whether the shared arguments are as they were.
func (m *multi) intact() string {
	pay, full := spare([]byte(sharedPay), 64)
	if string(full) != string(m.objFull) || string(m.obj.Plaintext) != string(pay) || string(m.obj.AssociatedData) != sharedAd {
		return "the object has changed"
	}
	if fmt.Sprint(m.gs) != fmt.Sprint([]string{"b", "g", "<end>", "<end>"}) {
		return fmt.Sprint("the groups have changed: ", m.gs)
	}
	if fmt.Sprint(sharedScopes) != fmt.Sprint(makeScopes()) {
		return fmt.Sprint("the scopes have changed: ", sharedScopes)
	}
	return m.rec.hurt
}

func (m *multi) attach(name string, w *linWorld) {
	w.linRec, w.st, w.ctx, w.d, w.ix, w.sa = m.rec, m.st, m.ctx, m.d, m.ix, m.sa
	if w.kind == "obj" && strings.HasSuffix(name, "s") {
		w.shared, w.sharedGs = m.obj, m.gs[:2]
	}
	if w.kind == "fun" {
		f := &linFun{linHelpers: m.hel, solo: map[string]string{"shared": ""}, intact: m.intact}
		if w.fun != nil {
			f.sealed = append(f.sealed, w.fun.sealed...)
			for k, v := range w.fun.solo {
				f.solo[k] = v
			}
		}
		w.fun = f
	}
	m.lanes[name] = w
}

// lane adds a caller: kind, a number, and "s" if it uses the shared arguments.
func (m *multi) lane(kind, name string, big int) *linWorld {
	w := &linWorld{kind: kind, sfx: " " + name, big: big, pays: map[string]string{}, ads: map[string]string{}, uid: map[string]string{}, tok: map[string]string{},
		pw: map[string]string{}, gid: map[string]string{}, names: map[string]string{}, item: map[string]string{"idx": "k", "idp": "all", "obj": "x", "fun": "f"}[kind] + " " + name}
	m.attach(name, w)
	LinSetup{Kind: kind, Gs: []string{"b"}, Seq: []string{"1 " + name, "2 " + name}}.on(w)
	if kind == "fun" {
		for _, x := range funInputs {
			w.call(LCall{Op: "Same", Id: x + w.sfx})
		}
	}
	return w
}

var funInputs = []string{"tag", "kdf", "kwp", "tok", "rnd"}

func (m *multi) fork(ctx context.Context) *multi {
	c := &multi{rec: &linRec{n: m.rec.n, ev: append([]*LinEv{}, m.rec.ev...)}, st: newFStore(), ctx: ctx, lanes: map[string]*linWorld{}}
	c.st.restore(m.st.snapshot())
	c.open()
	for name, w := range m.lanes {
		x := &linWorld{pays: map[string]string{}, ads: map[string]string{}, uid: map[string]string{}, tok: map[string]string{}, pw: map[string]string{}, gid: map[string]string{}, names: map[string]string{}, fun: w.fun}
		w.copyTo(x)
		c.attach(name, x)
	}
	return c
}

// laneCall gives a call of the specification the names of a lane.
func laneCall(w *linWorld, c LCall) LCall {
	if w.kind == "idx" && c.Id != "" {
		c.Id += w.sfx
	}
	if w.kind == "fun" && c.Id != "" {
		c.Id += w.sfx
	}
	return w.firstPw(c)
}

func baseMulti() *multi {
	m := newMulti(context.Background())
	for _, k := range []string{"obj", "idx", "idp", "fun"} {
		for i := 1; i <= 2; i++ {
			m.lane(k, fmt.Sprint(k, i), 0)
		}
	}
	m.lane("obj", "obj3s", 0)
	m.lane("obj", "obj4s", 0)
	return m
}

func (m *multi) probeAll(names ...string) {
	for _, n := range names {
		m.lanes[n].probe()
	}
	m.lanes["fun1"].call(LCall{Op: "Same", Id: "shared"})
}

// only keeps the events of some lanes: the others did nothing but be set up
func (m *multi) only(names ...string) *linRec {
	keep := map[string]bool{}
	for _, n := range names {
		keep[n] = true
	}
	out := &linRec{}
	for _, e := range m.rec.ev {
		_, lane, _ := strings.Cut(strings.SplitN(e.Item, ".", 2)[0], " ")
		if keep[lane] || lane == "fun1" {
			out.ev = append(out.ev, e)
		}
	}
	return out
}

// TestIndepPairs: two calls on different items, of all kinds, under schedules that stop at every
// storage operation, identity check, log line and use of randomness.
func TestIndepPairs(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	defer gateRandomness()()
	seen := &linSeen{m: map[string]bool{}}
	base := baseMulti()
	scs := loadWalks[LinStep](t)
	spread(len(scs), func(i int) {
		r := newRand(int64(i))
		calls := scs[i]
		names := make([]string, len(calls))
		count := map[string]int{}
		pw := false
		for j, c := range calls {
			count[c.Kind]++
			names[j] = fmt.Sprint(c.Kind, count[c.Kind])
			pw = pw || c.Op == "ChangePw" || c.Op == "Login" || c.Op == "NewUser"
		}
		some := tier(6, 150)
		if pw {
			some = tier(2, 20)
		}
		dfs := some / 2
		one := func(f *multi) {
			f.st.gate, f.st.after = nil, nil
			f.ctx = context.Background()
			for _, w := range f.lanes {
				w.ctx = f.ctx
			}
			f.probeAll(names...)
			note := ""
			for j, c := range calls {
				note += fmt.Sprint(c.Op, " on ", names[j], " ")
			}
			seen.put(sink, "indep", f.only(names...), note)
		}
		prep := func() (*multi, *sched) {
			if r.Intn(2) == 0 { // with shared arguments
				for j, c := range calls {
					if c.Kind == "obj" {
						names[j] = fmt.Sprint("obj", 3+j%2, "s")
					}
				}
			}
			f := base.fork(gatedLog())
			var bodies []func()
			for j, c := range calls {
				w := f.lanes[names[j]]
				lc := laneCall(w, LCall{Op: c.Op, By: c.By, Gs: c.Gs, Id: c.Id, Uid: c.Uid, I: c.I})
				bodies = append(bodies, func() { w.call(lc) })
			}
			s := newSched(bodies...)
			s.fine = true
			f.st.gate = func(context.Context, string) { gate() }
			f.st.after = f.st.gate
			return f, s
		}
		var f *multi
		all := everySchedule(dfs, func() *sched {
			if f != nil {
				one(f)
			}
			var s *sched
			f, s = prep()
			return s
		})
		if f != nil {
			one(f)
		}
		for k := 0; k < some && !all; k++ {
			f, s := prep()
			randomSchedule(r, s)
			one(f)
		}
	})
	fmt.Printf("COUNT scenarios=%d schedules=%d\n", len(scs), schedRuns.Load())
}

// randomLaneCall makes up a call for a lane.
func randomLaneCall(r *rand.Rand, w *linWorld, slow bool) LCall {
	who := []string{"a", "a", "b", "c", "m"}
	switch w.kind {
	case "obj":
		ops := []string{"Encrypt", "Update", "Decrypt", "Decrypt", "GetAccessGroups", "AddGroupsToAccess", "RemoveGroupsFromAccess", "AuthorizeIdentity", "Update", "Delete"}
		return LCall{Op: ops[r.Intn(len(ops))], By: who[r.Intn(len(who))], Gs: []string{[]string{"b", "c", "g"}[r.Intn(3)]}}
	case "idx":
		return LCall{Op: []string{"Add", "Search", "DeleteEntry"}[r.Intn(3)], Id: fmt.Sprint(r.Intn(5))}
	case "fun":
		switch r.Intn(3) {
		case 0:
			return LCall{Op: "Seal", Id: fmt.Sprint("s", r.Intn(100))}
		case 1:
			return LCall{Op: "Open", I: 1 + r.Intn(len(w.fun.sealed))}
		}
		return LCall{Op: "Same", Id: funInputs[r.Intn(len(funInputs))]}
	}
	if slow && r.Intn(6) == 0 {
		return LCall{Op: []string{"Login", "ChangePw"}[r.Intn(2)], Uid: []string{"a", "b"}[r.Intn(2)]}
	}
	ops := []string{"GetIdentity", "GetIdentity", "NewGroup", "AddUserToGroups", "RemoveUserFromGroups", "DeleteUser"}
	c := LCall{Op: ops[r.Intn(len(ops))], By: []string{"a", "a", "b", "c"}[r.Intn(4)], Uid: []string{"a", "b", "c"}[r.Intn(3)], Gs: [][]string{{"g"}, {"h"}, {"g", "h"}, {"h", "g"}, {"g", "g"}, {"h", "g", "h"}}[r.Intn(6)]}
	if c.Op == "DeleteUser" && r.Intn(4) != 0 {
		c.Op = "GetIdentity"
	}
	if c.Op == "GetIdentity" || c.Op == "NewGroup" {
		c.Uid, c.Gs = "", nil
	}
	return c
}

// TestIndepRandom: many callers at once, nothing held up; also run under the race detector.
func TestIndepRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	rounds := tier(6, 60)
	total := 0
	for round := 0; round < rounds; round++ {
		r := newRand(int64(round))
		log := io.Discard
		m := newMulti(zerolog.New(log).Level([]zerolog.Level{zerolog.DebugLevel, zerolog.InfoLevel, zerolog.Disabled}[round%3]).WithContext(context.Background()))
		n := tier(3, 6)
		names := []string{"fun1"}
		m.lane("fun", "fun1", 0)
		for i := 1; i <= n; i++ {
			for _, k := range []string{"obj", "idx", "idp", "fun"} {
				name := fmt.Sprint(k, i)
				if k == "obj" && i%2 == 0 {
					name += "s"
				}
				if name != "fun1" {
					m.lane(k, name, []int{0, 1000, 40000}[r.Intn(3)])
					names = append(names, name)
				}
			}
		}
		if round%2 == 0 { // let other goroutines in at storage operations
			m.st.gate = func(context.Context, string) {
				if rand.Intn(4) == 0 {
					time.Sleep(time.Duration(rand.Intn(50)) * time.Microsecond)
				}
			}
			m.st.after = m.st.gate
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		sort.Strings(names)
		for li, name := range names {
			w := m.lanes[name]
			lr := newRand(int64(round)*1000 + int64(li))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < tier(25, 40); k++ {
					w.mu.Lock()
					c := laneCall(w, randomLaneCall(lr, w, true))
					w.mu.Unlock()
					w.call(c)
				}
			}()
		}
		close(start)
		wg.Wait()
		m.st.gate, m.st.after = nil, nil
		m.lanes["fun1"].call(LCall{Op: "Same", Id: "shared"})
		// one history per lane: events of other lanes say nothing about it
		for _, name := range names {
			var ev []any
			for _, e := range m.rec.ev {
				_, lane, _ := strings.Cut(strings.SplitN(e.Item, ".", 2)[0], " ")
				if lane == name {
					ev = append(ev, e)
				}
			}
			total += len(ev)
			sink.put("indep", fmt.Sprint("round ", round, " ", name), ev)
		}
	}
	fmt.Printf("COUNT rounds=%d\n", rounds)
}

// TestIndepTight: callers that repeat calls of a few kinds on their own data as fast as they can, so
// that calls meet within a few instructions. Repeated calls that change nothing must go on giving
// the same result; a repetition with a result seen before is not recorded again.
func TestIndepTight(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	reads := map[string][]LCall{
		"obj": {{Op: "Decrypt", By: "a"}, {Op: "GetAccessGroups", By: "a"}, {Op: "AuthorizeIdentity", By: "a"}, {Op: "Decrypt", By: "b"}, {Op: "Decrypt", By: "c"}, {Op: "AddGroupsToAccess", By: "a", Gs: []string{"b"}}},
		"idx": {{Op: "Search"}},
		"idp": {{Op: "GetIdentity", By: "a"}, {Op: "GetIdentity", By: "b"}, {Op: "GetIdentity", By: "c"}},
		"fun": {{Op: "Same", Id: "tag"}, {Op: "Same", Id: "kdf"}, {Op: "Same", Id: "kwp"}, {Op: "Same", Id: "tok"}, {Op: "Open", I: 1}},
	}
	var plans [][]string // the kinds of the lanes
	for _, k := range []string{"obj", "idx", "idp", "fun"} {
		for _, n := range []int{2, 4, 8} {
			p := []string{}
			for i := 0; i < n; i++ {
				p = append(p, k)
			}
			plans = append(plans, p)
		}
	}
	plans = append(plans, []string{"obj", "idx", "idp", "fun", "obj", "idx", "idp", "fun"})
	total := 0
	for rep := 0; rep < tier(1, 6); rep++ {
		for pi, plan := range plans {
			m := newMulti(context.Background())
			if pi%2 == 1 {
				m.ctx = zerolog.New(io.Discard).Level(zerolog.DebugLevel).WithContext(m.ctx)
			}
			m.lane("fun", "fun1", 0)
			names, count := []string{}, map[string]int{}
			for _, k := range plan {
				count[k]++
				name := fmt.Sprint(k, count[k])
				names = append(names, name)
				if name != "fun1" {
					w := m.lane(k, name, []int{0, 1000}[pi%2])
					if k == "obj" && len(names)%2 == 0 {
						w.call(LCall{Op: "AddGroupsToAccess", By: "a", Gs: []string{"c"}})
					}
				}
			}
			// a record of its own for each lane
			for _, name := range names {
				own := &linRec{n: m.rec.n}
				for _, e := range m.rec.ev {
					_, lane, _ := strings.Cut(strings.SplitN(e.Item, ".", 2)[0], " ")
					if lane == name {
						own.ev = append(own.ev, e)
					}
				}
				m.lanes[name].linRec = own
			}
			var wg sync.WaitGroup
			calls := make([]int, len(names))
			end := time.Now().Add(time.Duration(tier(900, 3000)) * time.Millisecond)
			for li, name := range names {
				w := m.lanes[name]
				r := newRand(int64(rep)*10007 + int64(pi)*101 + int64(li))
				wg.Add(1)
				go func() {
					defer wg.Done()
					seen := map[string]bool{}
					mine := reads[w.kind]
					for time.Now().Before(end) {
						c := mine[r.Intn(len(mine))]
						for k := 0; k < 1+r.Intn(30); k++ {
							w.call(laneCall(w, c))
							calls[li]++
							b, e := w.ev[len(w.ev)-2], w.ev[len(w.ev)-1]
							sum := fmt.Sprint(b.Cop, b.By, b.Gs, b.Id, b.I, e.Res, e.Pay, e.Ad, e.Gs, e.Seq)
							if seen[sum] {
								w.ev = w.ev[:len(w.ev)-2]
							}
							seen[sum] = true
						}
					}
				}()
			}
			wg.Wait()
			for li, name := range names {
				var ev []any
				for _, e := range m.lanes[name].ev {
					ev = append(ev, e)
				}
				total += calls[li]
				sink.put("indep", fmt.Sprint("tight ", plan, " ", name), ev)
			}
		}
	}
	fmt.Printf("COUNT tight_calls=%d\n", total)
}
