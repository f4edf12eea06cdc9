package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type IdxEv struct {
	Op   string   `json:"op"`
	Auth bool     `json:"auth"`
	Sc   []string `json:"sc"`
	Kw   string   `json:"kw"`
	Id   string   `json:"id"`
	From string   `json:"from"` // Bulk

	Res    string   `json:"res"`
	Ids    []string `json:"ids"`
	Chg    int      `json:"chg"`
	Calls  int      `json:"calls"`
	Flt    int      `json:"flt"`
	VisBad int      `json:"visbad"` // records read that the library never wrote under their label
}

type nodeRec struct{ Ciphertext, WrappedKey []byte }

type IdxSys struct {
	r    *rand.Rand
	st   *FStore
	idp  *stubIdP
	ix   []*index.SecureIndex // several instances over the same store and key
	kws  *Names
	ids  *Names
	ev   []any
	gen  map[string]bool   // label + raw, and label + fields, written by the library
	raws map[string][]byte // everything it ever wrote
	bad  int
}

func newIndex(k key.Keys, st io.Provider, idp *stubIdP) *index.SecureIndex {
	kp := key.NewStatic(k)
	x, err := index.NewSecureIndex(context.Background(), &kp, st, idp)
	if err != nil {
		panic(err)
	}
	return &x
}

func newIdxSys(r *rand.Rand) *IdxSys {
	s := &IdxSys{r: r, st: newFStore(), kws: newNames("k"), ids: newNames("i"), gen: map[string]bool{}, raws: map[string][]byte{}}
	s.idp = &stubIdP{names: newNames("g"), cur: map[string]Ident{}}
	s.idp.names.bind("a", "caller")
	s.idp.names.bind("g", "group of the caller")
	s.idp.names.bind("h", "another group of the caller")
	for i := 0; i < 2; i++ {
		s.ix = append(s.ix, newIndex(testKeys(40), s.st, s.idp))
	}
	fields := func(data []byte) (nodeRec, bool) {
		var n nodeRec
		d := json.NewDecoder(bytes.NewReader(data))
		d.DisallowUnknownFields()
		err := d.Decode(&n)
		return n, err == nil
	}
	tag := func(id, data []byte) string { return fmt.Sprintf("raw %x %x", id, data) }
	ftag := func(id []byte, n nodeRec) string { return fmt.Sprintf("rec %x %x %x", id, n.Ciphertext, n.WrappedKey) }
	s.st.onWrite = func(id []byte, _ io.DataType, data []byte) {
		s.gen[tag(id, data)] = true
		s.raws[string(data)] = append([]byte{}, data...)
		if n, ok := fields(data); ok {
			s.gen[ftag(id, n)] = true
		}
	}
	s.st.onRead = func(id []byte, _ io.DataType, data []byte) {
		if s.gen[tag(id, data)] {
			return
		}
		if n, ok := fields(data); ok {
			if !s.gen[ftag(id, n)] {
				s.bad++
			}
			return
		}
		for _, g := range s.raws { // cut short
			if len(data) < len(g) && bytes.HasPrefix(g, data) {
				s.bad++
				return
			}
		}
	}
	return s
}

func (s *IdxSys) names(n *Names, names []string) {
	for i, x := range distinctStrings(s.r, len(names)) {
		n.bind(names[i], x)
	}
}

func (s *IdxSys) blank(op string) IdxEv {
	return IdxEv{Op: op, Auth: true, Sc: []string{"Index"}, Ids: []string{}, Res: "ok"}
}

func (s *IdxSys) call(e IdxEv) IdxEv {
	if e.Sc == nil {
		e.Sc = []string{}
	}
	e.Ids = []string{}
	tok := pick(s.r, []string{"token-0", "token-1", "", strings.Repeat("t", 9000), "token\x00 \xff\n"}[:2+s.r.Intn(4)])
	i := Ident{Auth: e.Auth, Id: "a", Sc: e.Sc}
	switch s.r.Intn(5) { // the scopes of groups do not matter
	case 4:
		i.Gr = []GrpEnt{{"a", []string{"Index"}}, {"g", scopeNames}}
	case 0:
		i.Gr = []GrpEnt{{"g", scopeNames}, {"h", nil}}
	case 1:
		i.Gr = []GrpEnt{{"g", []string{"Index"}}}
	case 2:
		i.Gr = []GrpEnt{{"g", nil}, {"h", []string{"Encrypt", "Decrypt"}}}
	}
	s.idp.cur[tok] = i
	ix := s.ix[s.r.Intn(len(s.ix))]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.idp.end, s.st.end = nil, cancel
	if s.r.Intn(4) == 0 {
		s.idp.end = cancel
	}
	before := s.st.snapshot()
	s.st.begin()
	s.bad = 0
	var err error
	var ids []string
	pan := guarded(func() {
		switch e.Op {
		case "Add":
			err = ix.Add(ctx, tok, s.kws.val(e.Kw), s.ids.val(e.Id))
		case "Delete":
			err = ix.Delete(ctx, tok, s.kws.val(e.Kw), s.ids.val(e.Id))
		case "Search":
			ids, err = ix.Search(ctx, tok, s.kws.val(e.Kw))
		default:
			panic("harness: op " + e.Op)
		}
	})
	for _, x := range ids {
		e.Ids = append(e.Ids, s.ids.name(x))
	}
	for i := range ids {
		ids[i] = "overwritten"
	}
	switch {
	case pan != "":
		e.Res = pan
	case err == nil:
		e.Res = "ok"
	case errors.Is(err, index.ErrNotAuthenticated):
		e.Res = "notauthn"
	case errors.Is(err, index.ErrNotAuthorized):
		e.Res = "notauthz"
	default:
		e.Res = "error"
	}
	e.Chg, _ = diffStore(before, s.st.snapshot(), "")
	e.Calls, e.Flt, e.VisBad = s.st.calls, s.st.faults, s.bad
	s.ev = append(s.ev, e)
	return e
}

func (s *IdxSys) do(op, kw, id string) IdxEv {
	return s.call(IdxEv{Op: op, Auth: true, Sc: []string{"Index"}, Kw: kw, Id: id})
}

// bulk replaces the only entry of kw n times.
func (s *IdxSys) bulk(kw, from, to string, n int) {
	e := s.blank("Bulk")
	e.Kw, e.From, e.Id = kw, from, to
	tok := "t"
	s.idp.cur[tok] = Ident{Auth: true, Id: "a", Sc: []string{"Index"}}
	cur := s.ids.val(from)
	for i := 0; i < n && e.Res == "ok"; i++ {
		next := fmt.Sprintf("bulk-%d", i)
		if i == n-1 {
			next = s.ids.val(to)
		}
		ix := s.ix[i%len(s.ix)]
		var err error
		if p := guarded(func() {
			if err = ix.Add(context.Background(), tok, s.kws.val(kw), next); err == nil {
				err = ix.Delete(context.Background(), tok, s.kws.val(kw), cur)
			}
		}); p != "" {
			e.Res = p
		} else if err != nil {
			e.Res = "error"
		}
		cur = next
	}
	s.ev = append(s.ev, e)
}

// fill adds many identifiers to kw, one after the other.
func (s *IdxSys) fill(kw string, ids []string) {
	e := s.blank("Fill")
	e.Kw, e.Ids = kw, ids
	s.idp.cur["t"] = Ident{Auth: true, Id: "a", Sc: []string{"Index"}}
	for i, x := range ids {
		var err error
		if p := guarded(func() { err = s.ix[i%len(s.ix)].Add(context.Background(), "t", s.kws.val(kw), s.ids.val(x)) }); p != "" {
			e.Res = p
		} else if err != nil {
			e.Res = "error"
		}
	}
	s.ev = append(s.ev, e)
}

type IdxStep struct {
	Op   string   `json:"op"`
	Auth bool     `json:"auth"`
	Sc   []string `json:"sc"`
	Kw   string   `json:"kw"`
	Id   string   `json:"id"`
}

func TestIndexWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[IdxStep](t) {
		s := newIdxSys(newRand(int64(wi)))
		s.names(s.kws, []string{"k", "l"})
		s.names(s.ids, []string{"i", "j", "h"})
		for _, st := range w {
			if st.Op == "Search" {
				st.Id = ""
			}
			s.call(IdxEv{Op: st.Op, Auth: st.Auth, Sc: st.Sc, Kw: st.Kw, Id: st.Id})
			if st.Op != "Search" && s.r.Intn(3) == 0 {
				s.do("Search", st.Kw, "")
			}
		}
		sink.put("seq", "walk", s.ev)
	}
}

func numbered(p string, n int) []string {
	out := []string{}
	for i := 1; i <= n; i++ {
		out = append(out, fmt.Sprintf("%s%d", p, i))
	}
	return out
}

func (s *IdxSys) randCaller(e *IdxEv) {
	e.Auth, e.Sc = true, []string{"Index"}
	switch s.r.Intn(12) {
	case 0:
		e.Auth = false
	case 1: // everything else
		e.Sc = nil
		for _, x := range scopeNames {
			if x != "Index" {
				e.Sc = append(e.Sc, x)
			}
		}
	case 2:
		e.Sc = subset(s.r, scopeNames, 0.5)
	case 3:
		e.Sc = []string{pick(s.r, scopeNames)}
	case 4:
		e.Sc = scopeNames
	}
}

func (s *IdxSys) randStep(kws, ids []string) IdxEv {
	e := IdxEv{Kw: pick(s.r, kws), Id: pick(s.r, ids)}
	s.randCaller(&e)
	switch x := s.r.Intn(10); {
	case x < 5:
		e.Op = "Add"
	case x < 7:
		e.Op = "Delete"
	default:
		e.Op, e.Id = "Search", ""
	}
	return e
}

// related keywords: each the start, end or other spelling of others
func relatedStrings(r *rand.Rand) []string {
	base := pick(r, []string{"invoice", "a", "", "é", strings.Repeat("k", 200), "\x00\x01"})
	seen := map[string]bool{}
	out := []string{}
	for _, x := range []string{base, base + "s", base + base, base + "\x00", "\x00" + base, strings.ToUpper(base) + "|", base + " ", base + "\x01", base + "\x02", "x" + base, base + "xy", base + "\x00\x00"} {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func (s *IdxSys) prepare(k int) (kws, ids []string) {
	kws, ids = numbered("k", 5), numbered("i", 5)
	s.names(s.kws, kws)
	s.names(s.ids, ids)
	if k%3 == 0 {
		s.kws = newNames("k")
		for i, x := range relatedStrings(s.r)[:5] {
			s.kws.bind(kws[i], x)
		}
	}
	if k%4 == 0 {
		s.ids = newNames("i")
		for i, x := range relatedStrings(s.r)[:5] {
			s.ids.bind(ids[i], x)
		}
	}
	if k%7 == 0 { // long ones
		s.kws.bind("k5", strings.Repeat("long", 400+s.r.Intn(20000)))
		s.ids.bind("i5", strings.Repeat("long", 400+s.r.Intn(20000)))
	}
	return
}

func TestIndexRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(300, 5000); k++ {
		s := newIdxSys(newRand(int64(200000 + k)))
		kws, ids := s.prepare(k)
		kws, ids = kws[:1+s.r.Intn(5)], ids[:1+s.r.Intn(5)]
		for i := 0; i < tier(60, 100); i++ {
			e := s.call(s.randStep(kws, ids))
			if e.Op != "Search" && s.r.Intn(3) == 0 {
				s.do("Search", pick(s.r, kws), "")
			}
		}
		for _, k := range kws {
			s.do("Search", k, "")
		}
		sink.put("seq", "random", s.ev)
	}
	// long lists
	for k := 0; k < tier(3, 12); k++ {
		s := newIdxSys(newRand(int64(210000 + k)))
		kws, ids := []string{"k1", "k2"}, numbered("i", 4)
		s.names(s.kws, kws)
		s.names(s.ids, ids)
		n := tier(150, 300)
		if k == 0 { // more entries at a time than one byte counts
			n = tier(600, 2500)
		}
		for i := 0; i < n; i++ {
			s.do("Add", "k1", pick(s.r, ids))
			if i%40 == 0 {
				s.do("Add", "k2", pick(s.r, ids))
				s.do("Search", "k1", "")
			}
		}
		s.do("Search", "k1", "")
		for _, i := range ids {
			s.do("Delete", "k1", i)
			s.do("Search", "k1", "")
			s.do("Add", "k1", "i1")
		}
		s.do("Search", "k2", "")
		sink.put("seq", "long list", s.ev)
	}
	// long lives: positions far beyond what fits one and two bytes
	for k := 0; k < tier(3, 6); k++ {
		s := newIdxSys(newRand(int64(220000 + k)))
		kws, ids := []string{"k1", "k2", "k3"}, numbered("i", 6)
		s.names(s.kws, kws)
		s.names(s.ids, ids)
		at := 0
		s.do("Add", "k1", "i1")
		s.do("Add", "k2", "i1")
		goals := []int{126, 254, 510, 1022}
		if k == 0 || thorough {
			goals = append(goals, 4094, 16381)
		}
		if thorough {
			goals = append(goals, 32766, 65534)
		}
		for _, goal := range goals {
			s.bulk("k1", "i1", "i1", goal-at)
			at = goal
			s.do("Search", "k1", "")
			for j := 0; j < 10; j++ { // several entries around the boundary
				s.call(s.randStep([]string{"k1"}, ids))
				s.do("Search", "k1", "")
			}
			for _, i := range ids[1:] {
				s.do("Delete", "k1", i)
			}
			s.do("Delete", "k1", "i1")
			s.do("Search", "k1", "")
			s.do("Add", "k1", "i1")
			// removing all restarts the list at 0
			at = 0
		}
		s.do("Search", "k2", "")
		sink.put("seq", "long life", s.ev)
	}
}

// TestIndexFaults fails every storage call of every operation on lists of several shapes.
// very long lists (every Add walks the whole list)
func TestIndexLong(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	sizes := []int{520, 1030, tier(1300, 5200)}
	parallel(t, len(sizes), func(t *testing.T, k int) {
		n := sizes[k]
		s := newIdxSys(newRand(int64(230000 + k)))
		s.names(s.kws, []string{"k1", "k2"})
		ids := make([]string, n)
		for i := range ids {
			ids[i] = fmt.Sprint("i", i)
			s.ids.bind(ids[i], fmt.Sprintf("%x", i*7919))
		}
		s.do("Add", "k2", "i1")
		s.fill("k1", ids)
		s.do("Search", "k1", "")
		for _, i := range []int{n - 1, n / 2, 0, n - 2} {
			s.do("Delete", "k1", ids[i])
		}
		s.do("Search", "k1", "")
		s.do("Add", "k1", ids[n-1])
		s.do("Add", "k1", ids[5])
		s.do("Delete", "k1", ids[5])
		s.do("Search", "k1", "")
		s.do("Search", "k2", "")
		sink.put("seq", fmt.Sprint(n, " entries"), s.ev)
	})
}

func TestIndexFaults(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	ids := numbered("i", 3)
	var shapes [][]string
	var rec func(p []string, n int)
	rec = func(p []string, n int) {
		shapes = append(shapes, append([]string{}, p...))
		if n == 0 {
			return
		}
		for _, i := range ids[:2] {
			rec(append(append([]string{}, p...), i), n-1)
		}
	}
	rec(nil, tier(4, 5))
	for si, shape := range shapes {
		for _, op := range []string{"Add", "Delete", "Search"} {
			for nth := 1; nth <= 40; nth++ {
				for mode := 0; mode < faultModes; mode++ {
					s := newIdxSys(newRand(int64(si*100003 + nth*31 + mode)))
					s.names(s.kws, []string{"k1", "k2"})
					s.names(s.ids, ids)
					for _, i := range shape {
						s.do("Add", "k1", i)
					}
					if len(shape) > 1 && s.r.Intn(3) == 0 { // gaps in the counters
						s.do("Delete", "k1", pick(s.r, shape))
						s.do("Add", "k1", pick(s.r, ids[:2]))
					}
					s.do("Add", "k2", "i1")
					s.st.plan = faultPlan(nth, mode)
					step := IdxEv{Op: op, Auth: true, Sc: []string{"Index"}, Kw: "k1", Id: "i1"}
					if op == "Search" {
						step.Id = ""
					}
					r := s.call(step)
					s.st.plan = nil
					if r.Calls < nth {
						nth = 1 << 20
						break
					}
					if r.Flt == 0 {
						continue
					}
					s.do("Search", "k1", "")
					for j := 0; j < 5; j++ {
						switch s.r.Intn(4) {
						case 0:
							s.do("Add", "k1", pick(s.r, ids))
						case 1:
							s.do("Delete", "k1", pick(s.r, ids))
						case 2: // retry
							if s.r.Intn(2) == 0 {
								s.st.plan = faultPlan(1+s.r.Intn(6), s.r.Intn(faultModes))
							}
							s.call(step)
							s.st.plan = nil
						case 3:
							s.do("Add", "k1", "i3")
						}
						s.do("Search", "k1", "")
					}
					s.call(step)
					s.do("Search", "k1", "")
					s.do("Search", "k2", "")
					sink.put("fault", fmt.Sprintf("%s on %v, call %d, mode %d", op, shape, nth, mode), s.ev)
				}
			}
		}
	}
	for k := 0; k < tier(300, 5000); k++ {
		s := newIdxSys(newRand(int64(230000 + k)))
		kws, ids := s.prepare(k)
		kws, ids = kws[:1+s.r.Intn(3)], ids[:1+s.r.Intn(4)]
		p := []float64{0.01, 0.05, 0.2}[s.r.Intn(3)]
		for i := 0; i < 60; i++ {
			s.st.plan = func(int, string, io.DataType) fault {
				if s.r.Float64() < p {
					return fault(1 + s.r.Intn(2))
				}
				return pass
			}
			e := s.call(s.randStep(kws, ids))
			s.st.plan = nil
			if e.Flt > 0 || s.r.Intn(4) == 0 {
				s.do("Search", e.Kw, "")
			}
		}
		sink.put("fault", "random faults", s.ev)
	}
}

// TestIndexOutages: one kind of storage operation is out of order during several calls.
func TestIndexOutages(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(400, 8000); k++ {
		s := newIdxSys(newRand(int64(290000 + k)))
		ids := numbered("i", 9)
		s.names(s.kws, []string{"k1", "k2"})
		s.names(s.ids, ids)
		list := ids[:3+s.r.Intn(5)]
		for _, i := range list {
			s.do("Add", "k1", i)
		}
		for round := 0; round < 1+s.r.Intn(3); round++ {
			down := pick(s.r, []string{"delete", "delete", "delete", "update", "put", "any write"})
			f := errBefore
			if s.r.Intn(4) == 0 {
				f = errAfter
			}
			s.st.plan = func(_ int, kind string, _ io.DataType) fault {
				if kind == down || down == "any write" && kind != "get" {
					return f
				}
				return pass
			}
			switch k % 3 {
			case 0: // from the back
				for i := len(list) - 2; i >= s.r.Intn(3); i-- {
					s.do("Delete", "k1", list[i])
				}
			case 1:
				for _, i := range s.r.Perm(len(list)) {
					s.do("Delete", "k1", list[i])
				}
			default:
				for i := 0; i < 2+s.r.Intn(6); i++ {
					op := pick(s.r, []string{"Delete", "Delete", "Delete", "Add", "Search"})
					id := ""
					if op != "Search" {
						id = pick(s.r, ids)
					}
					s.do(op, "k1", id)
				}
			}
			s.st.plan = nil
			if s.r.Intn(2) == 0 {
				s.do("Search", "k1", "")
			}
			for i := 0; i < 1+s.r.Intn(3); i++ {
				s.do("Delete", "k1", pick(s.r, []string{list[len(list)-1], pick(s.r, ids)}))
			}
			for i := 0; i < 1+s.r.Intn(3); i++ {
				s.do("Add", "k1", pick(s.r, ids))
				s.do("Search", "k1", "")
			}
		}
		for _, i := range s.r.Perm(len(ids)) {
			s.do("Delete", "k1", ids[i])
			s.do("Add", "k1", pick(s.r, ids))
			s.do("Search", "k1", "")
		}
		sink.put("fault", "outages", s.ev)
	}
}

// ---- tampering ---------------------------------------------------------------------------------

func (s *IdxSys) labels() []string {
	out := []string{}
	for k := range s.st.snapshot() {
		out = append(out, k.id)
	}
	sort.Strings(out)
	return out
}

func (s *IdxSys) get(l string) []byte { b, _ := s.st.raw([]byte(l), io.DataTypeSealedNode); return b }
func (s *IdxSys) set(l string, b []byte) {
	s.st.setRaw([]byte(l), io.DataTypeSealedNode, b)
}

// edited runs operations on the edited store and then puts everything back.
func (s *IdxSys) edited(what string, edit func(), ops func()) {
	snap := s.st.snapshot()
	e := s.blank("Edit")
	e.From = what
	s.ev = append(s.ev, e)
	edit()
	ops()
	s.st.restore(snap)
	s.ev = append(s.ev, s.blank("Restore"))
}

func (s *IdxSys) useAll(kws, ids []string) {
	for _, k := range kws {
		s.do("Search", k, "")
	}
	snap := s.st.snapshot()
	for _, k := range kws {
		s.do("Delete", k, pick(s.r, ids))
		s.do("Search", k, "")
	}
	s.st.restore(snap)
	for _, k := range kws {
		s.do("Add", k, pick(s.r, ids))
		s.do("Search", k, "")
	}
}

func TestIndexTamper(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(25, 250); k++ {
		s := newIdxSys(newRand(int64(240000 + k)))
		kws, ids := s.prepare(k + 1)
		kws, ids = kws[:2+s.r.Intn(2)], ids[:2+s.r.Intn(3)]
		same := s.r.Intn(2) == 0 // the same identifiers under every keyword
		for i := 0; i < 2+s.r.Intn(4); i++ {
			x := pick(s.r, ids)
			for _, kw := range kws {
				if !same {
					x = pick(s.r, ids)
				}
				s.do("Add", kw, x)
			}
		}
		old := map[string][]byte{} // earlier records, by label
		for _, l := range s.labels() {
			old[l] = s.get(l)
		}
		for i := 0; i < s.r.Intn(4); i++ {
			s.do("Delete", pick(s.r, kws), pick(s.r, ids))
			s.do("Add", pick(s.r, kws), pick(s.r, ids))
		}
		ls := s.labels()
		use := func() { s.useAll(kws, ids) }
		for _, a := range ls { // every exchange, copy and mixture of two records
			for _, b := range ls {
				ra, rb := s.get(a), s.get(b)
				if a == b {
					continue
				}
				s.edited("copy", func() { s.set(b, ra) }, use)
				if a < b {
					s.edited("exchange", func() { s.set(a, rb); s.set(b, ra) }, use)
				}
				if s.r.Intn(4) == 0 {
					f := pick(s.r, []string{"Ciphertext", "WrappedKey"})
					s.edited("mix "+f, func() {
						if v, ok := getField(ra, f); ok {
							if n, ok := setField(rb, f, v); ok {
								s.set(b, n)
							}
						}
					}, use)
				}
			}
			// older records, at their own label and elsewhere
			for l, o := range old {
				if s.r.Intn(3) == 0 || l == a {
					s.edited("old", func() { s.set(a, o) }, use)
					if l == a {
						f := pick(s.r, []string{"Ciphertext", "WrappedKey"})
						s.edited("old "+f, func() {
							if v, ok := getField(o, f); ok {
								if n, ok := setField(s.get(a), f, v); ok {
									s.set(a, n)
								}
							}
						}, use)
					}
				}
			}
			s.edited("removed", func() { s.set(a, nil) }, use)
			for j := 0; j < 3; j++ {
				s.edited("hollow", func() { s.set(a, pick(s.r, hollow(s.get(a)))) }, use)
			}
			s.edited("cut", func() { r := s.get(a); s.set(a, r[:s.r.Intn(len(r))]) }, use)
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				for j := 0; j < 2; j++ {
					s.edited("damaged "+f, func() {
						if v, ok := getField(s.get(a), f); ok {
							if n, ok := setField(s.get(a), f, damage(s.r, v)); ok {
								s.set(a, n)
							}
						}
					}, use)
				}
			}
			// beyond the end of a list
			s.edited("beyond", func() {
				for l := range old {
					if _, ok := s.st.raw([]byte(l), io.DataTypeSealedNode); !ok {
						s.set(l, s.get(a))
					}
				}
			}, use)
		}
		for i := 0; i < 10; i++ { // several random edits
			s.edited("several", func() {
				for j := 0; j < 1+s.r.Intn(3); j++ {
					a, b := pick(s.r, ls), pick(s.r, ls)
					switch s.r.Intn(3) {
					case 0:
						s.set(a, s.get(b))
					case 1:
						x, y := s.get(a), s.get(b)
						s.set(a, y)
						s.set(b, x)
					case 2:
						s.set(a, damage(s.r, s.get(a)))
					}
				}
			}, func() {
				for j := 0; j < 10; j++ {
					s.do(pick(s.r, []string{"Search", "Add", "Delete"}), pick(s.r, kws), pick(s.r, ids))
				}
			})
		}
		for _, kw := range kws {
			s.do("Search", kw, "")
		}
		sink.put("tamper", "", s.ev)
	}
	// entries whose labels have something in common
	for k := 0; k < tier(2, 6); k++ {
		s := newIdxSys(newRand(int64(245000 + k)))
		s.names(s.kws, []string{"k1", "k2"})
		s.names(s.ids, []string{"i1", "i2"})
		for i := 0; i < tier(60, 150); i++ {
			s.do("Add", "k1", pick(s.r, []string{"i1", "i2"}))
			s.do("Add", "k2", pick(s.r, []string{"i1", "i2"}))
		}
		ls := s.labels()
		done := map[string]bool{}
		for n := 1; n <= 2; n++ {
			for p := 0; p < 32; p++ {
				by := map[string]string{}
				for _, l := range ls {
					if len(l) < p+n || done[l] {
						continue
					}
					if m, ok := by[l[p:p+n]]; ok {
						a, b := s.get(l), s.get(m)
						what := fmt.Sprintf("labels equal in bytes %d to %d", p, p+n)
						use := func() { s.do("Search", "k1", ""); s.do("Search", "k2", "") }
						s.edited(what, func() { s.set(l, b) }, use)
						s.edited(what, func() { s.set(l, b); s.set(m, a) }, use)
						break
					}
					by[l[p:p+n]] = l
				}
			}
		}
		sink.put("tamper", "related labels", s.ev)
	}
	// large records: every stretch of them
	for k, n := range []int{70, 270, 1100, 4200, 17000, 66000} {
		s := newIdxSys(newRand(int64(247000 + k)))
		s.names(s.kws, []string{"k1"})
		for _, i := range []string{"i1", "i2"} {
			b := make([]byte, n+s.r.Intn(30))
			s.r.Read(b)
			s.ids.bind(i, string(b))
			s.do("Add", "k1", i)
		}
		for _, l := range s.labels() {
			raw := s.get(l)
			v, ok := getField(raw, "Ciphertext")
			if !ok {
				continue
			}
			at := []int{0, len(v) - 1, len(v) - 12, len(v) - 13, len(v) - 28, len(v) - 29, len(v) / 2}
			for p := 16; p < len(v); p *= 2 {
				at = append(at, p-1, p, p+s.r.Intn(p))
			}
			for _, p := range at {
				if p < 0 || p >= len(v) {
					continue
				}
				w := append([]byte{}, v...)
				switch s.r.Intn(5) {
				default:
					w[p] ^= 1 << s.r.Intn(8)
				case 0:
					s.r.Read(w[p:])
				case 1:
					w = w[:p]
				}
				if string(w) == string(v) {
					continue
				}
				n, _ := setField(raw, "Ciphertext", w)
				s.edited(fmt.Sprintf("large Ciphertext from %d", p), func() { s.set(l, n) }, func() {
					s.do("Search", "k1", "")
					s.do("Add", "k1", "i1")
				})
			}
		}
		sink.put("tamper", "large", s.ev)
	}
	// every bit of every field of one record
	for k := 0; k < tier(1, 3); k++ {
		s := newIdxSys(newRand(int64(250000 + k)))
		s.names(s.kws, []string{"k1"})
		s.names(s.ids, []string{"i1", "i2"})
		s.do("Add", "k1", "i1")
		s.do("Add", "k1", "i2")
		for _, l := range s.labels() {
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				raw := s.get(l)
				v, ok := getField(raw, f)
				if !ok {
					continue
				}
				for bit := 0; bit < 8*len(v); bit++ {
					w := append([]byte{}, v...)
					w[bit/8] ^= 1 << (bit % 8)
					n, _ := setField(raw, f, w)
					s.edited(fmt.Sprintf("%s bit %d", f, bit), func() { s.set(l, n) }, func() {
						s.do("Search", "k1", "")
						if bit%8 == 0 {
							s.do("Add", "k1", "i1")
						}
					})
				}
				for cut := 0; cut < len(v); cut++ {
					n, _ := setField(raw, f, v[:cut])
					s.edited(fmt.Sprintf("%s cut %d", f, cut), func() { s.set(l, n) }, func() { s.do("Search", "k1", "") })
				}
			}
		}
		sink.put("tamper", "bits", s.ev)
	}
}
