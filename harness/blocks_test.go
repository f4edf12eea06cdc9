package verifharness

// C36: the exported building blocks of packages data and id, used on their own.

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
)

type BlGroup struct {
	ID     string `json:"id"`
	Scopes []int  `json:"scopes"`
}

type BlEv struct {
	Op      string    `json:"op"`
	H       int       `json:"h"`
	G       int       `json:"g"`
	Ct      int       `json:"ct"`
	Wk      int       `json:"wk"`
	Kind    string    `json:"kind"`
	Bind    string    `json:"bind"`
	Cry     string    `json:"cry"`
	Content string    `json:"content"`
	Open    string    `json:"open"`
	Alt     string    `json:"alt"`
	Ids     any       `json:"ids"`
	Set     any       `json:"set"`
	Args    [][]int   `json:"args"`
	Groups  []BlGroup `json:"groups"`
	B       bool      `json:"b"`
	Res     string    `json:"res"`
	Mut     bool      `json:"mut"`
	Note    string    `json:"note"`
}

type BlStep struct {
	Op  string   `json:"op"`
	H   int      `json:"h"`
	Ids []string `json:"ids"`
}

type blItem struct {
	kind   string
	bind   string // name
	cry    string
	open   []byte
	access data.SealedAccess
	object data.SealedObject
	node   data.SealedNode
	key    []byte // wrapped key of an object
}

type blSys struct {
	r     *rand.Rand
	ev    []any
	ids   *Names // group IDs
	vals  *Names // contents and keys
	binds *Names // object IDs and labels
	opens *Names
	crys  map[string]*crypto.Cryptor
	acc   map[int]*data.Access
	items []*blItem // 1..
}

func newBl(seed int64) *blSys {
	s := &blSys{r: newRand(seed), ids: newNames("g"), vals: newNames("v"), binds: newNames("b"), opens: newNames("o"), crys: map[string]*crypto.Cryptor{}, acc: map[int]*data.Access{}, items: []*blItem{nil}}
	k := randBytes32(s.r)
	for _, n := range []string{"k1", "k2"} {
		c, err := crypto.NewAESCryptor(k)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.crys[n] = &c
		k = append([]byte{}, k...)
		k[s.r.Intn(32)] ^= 1 << s.r.Intn(8)
	}
	return s
}

func (s *blSys) emit(e BlEv) {
	if e.Ids == nil {
		e.Ids = []string{}
	}
	if e.Set == nil {
		e.Set = []string{}
	}
	if e.Args == nil {
		e.Args = [][]int{}
	}
	if e.Groups == nil {
		e.Groups = []BlGroup{}
	}
	s.ev = append(s.ev, e)
}

func blRes(p string, err error) string {
	switch {
	case p != "":
		return p
	case err != nil:
		return "fail"
	}
	return "ok"
}

func (s *blSys) setOf(m map[string]struct{}) []string {
	out := []string{}
	for g := range m {
		out = append(out, s.ids.name(g))
	}
	sort.Strings(out)
	return out
}

// the given IDs in a slice with more behind it
func withTail(xs []string) ([]string, func() bool) {
	full := append(append([]string{}, xs...), "behind 1", "behind 2")
	was := append([]string{}, full...)
	return full[:len(xs)], func() bool { return !reflect.DeepEqual(full, was) }
}

func guardedBytes(b []byte) ([]byte, func() bool) {
	if b == nil {
		return nil, func() bool { return false }
	}
	full := append(append([]byte{}, b...), 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a)
	was := append([]byte{}, full...)
	return full[:len(b)], func() bool { return !bytes.Equal(full, was) }
}

func names(n *Names, xs []string) []string {
	out := []string{}
	for _, x := range xs {
		out = append(out, n.add(x))
	}
	return out
}

func (s *blSys) newAccess(h int, key []byte) {
	k, mut := guardedBytes(key)
	e := BlEv{Op: "new", H: h, Content: s.vals.add(string(key))}
	e.Res = blRes(guarded(func() {
		a := data.NewAccess(k)
		e.Set, e.B = s.setOf(a.GetGroups()), bytes.Equal(a.WrappedDEK, key)
		s.acc[h] = &a
	}), nil)
	e.Mut = mut()
	s.emit(e)
}

func (s *blSys) change(op string, h int, ids []string) {
	a := s.acc[h]
	arg, mut := withTail(ids)
	e := BlEv{Op: op, H: h, Ids: names(s.ids, ids)}
	e.Res = blRes(guarded(func() {
		switch op {
		case "add":
			a.AddGroups(arg...)
		case "remove":
			a.RemoveGroups(arg...)
		case "contains":
			e.B = a.ContainsGroups(arg...)
		}
	}), nil)
	e.Mut = mut()
	s.emit(e)
}

func (s *blSys) groups(h int) {
	e := BlEv{Op: "groups", H: h}
	e.Res = blRes(guarded(func() {
		e.Set, e.Content = s.setOf(s.acc[h].GetGroups()), s.vals.name(string(s.acc[h].WrappedDEK))
	}), nil)
	s.emit(e)
}

func oidOf(b []byte) uuid.UUID { return uuid.FromBytesOrNil(b) }

func (s *blSys) sealAccess(h int, bind []byte, cry string) int {
	e := BlEv{Op: "seal", Kind: "access", H: h, G: len(s.items), Bind: s.binds.add(string(bind)), Cry: cry}
	it := &blItem{kind: "access", bind: e.Bind, cry: cry}
	a := s.acc[h]
	was := s.setOf(a.Groups)
	key := append([]byte{}, a.WrappedDEK...)
	var err error
	e.Res = blRes(guarded(func() { it.access, err = a.Seal(oidOf(bind), s.crys[cry]) }), err)
	if e.Res == "ok" && (!bytes.Equal(it.access.OID.Bytes(), bind)) {
		e.Res = "another ID"
	}
	e.Mut = !reflect.DeepEqual(was, s.setOf(a.Groups)) || !bytes.Equal(key, a.WrappedDEK)
	s.items = append(s.items, it)
	s.emit(e)
	return e.G
}

func (s *blSys) sealObject(plain, ad, bind []byte, cry string) int {
	p, m1 := guardedBytes(plain)
	q, m2 := guardedBytes(ad)
	e := BlEv{Op: "seal", Kind: "object", G: len(s.items), Bind: s.binds.add(string(bind)), Cry: cry, Open: s.opens.add(string(ad)), Content: s.vals.add(string(plain))}
	it := &blItem{kind: "object", bind: e.Bind, cry: cry, open: ad}
	o := data.Object{Plaintext: p, AssociatedData: q}
	var err error
	e.Res = blRes(guarded(func() { it.key, it.object, err = o.Seal(oidOf(bind), s.crys[cry]) }), err)
	if e.Res == "ok" && (!bytes.Equal(it.object.OID.Bytes(), bind) || !bytes.Equal(it.object.AssociatedData, ad)) {
		e.Res = "another ID or other associated data"
	}
	e.Mut = m1() || m2()
	it.object.AssociatedData = append([]byte{}, it.object.AssociatedData...)
	s.items = append(s.items, it)
	s.emit(e)
	return e.G
}

func nodeText(n data.Node) string { return fmt.Sprintf("%d %s", n.NextCounter, n.Identifier) }

func (s *blSys) sealNode(n data.Node, label []byte, cry string) int {
	l, mut := guardedBytes(label)
	e := BlEv{Op: "seal", Kind: "node", G: len(s.items), Bind: s.binds.add(string(label)), Cry: cry, Content: s.vals.add(nodeText(n))}
	it := &blItem{kind: "node", bind: e.Bind, cry: cry}
	was := n
	var err error
	e.Res = blRes(guarded(func() { it.node, err = n.Seal(l, s.crys[cry]) }), err)
	e.Mut = mut() || was != n
	s.items = append(s.items, it)
	s.emit(e)
	return e.G
}

// what the sealed form is after having been written down and read again
func again[T any](r *rand.Rand, v T) T {
	var out T
	switch r.Intn(3) {
	case 0:
		b, err := json.Marshal(v)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if err := json.Unmarshal(b, &out); err != nil {
			panic("harness: " + err.Error())
		}
		return out
	case 1:
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(v); err != nil {
			return v
		}
		if err := gob.NewDecoder(&buf).Decode(&out); err != nil {
			panic("harness: " + err.Error())
		}
		return out
	}
	return v
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// alteration of some bytes: "" none
func (s *blSys) alter(b []byte) []byte {
	b = cp(b)
	switch k := s.r.Intn(6); {
	case k == 0 && len(b) > 0:
		return b[:s.r.Intn(len(b))]
	case k == 1:
		return append(b, byte(s.r.Intn(256)))
	case k == 2 && len(b) > 0:
		return b[1:]
	case k == 3:
		return append([]byte{byte(s.r.Intn(256))}, b...)
	case len(b) > 0:
		b[s.r.Intn(len(b))] ^= 1 << s.r.Intn(8)
		return b
	}
	return []byte{1}
}

// unseal the ciphertext of ct with the wrapped key of wk, under bind, cry and what is in the clear
func (s *blSys) unseal(ct, wk, h int, bind []byte, open []byte, cry, alt string) {
	c, w := s.items[ct], s.items[wk]
	e := BlEv{Op: "unseal", Kind: c.kind, Ct: ct, Wk: wk, H: h, Cry: cry, Alt: alt}
	var err error
	change := func(which string, b []byte) []byte {
		if alt == which {
			return s.alter(b)
		}
		return cp(b)
	}
	bind = change("bind", bind)
	if c.kind != "node" && len(bind) != 16 {
		bind = oidOf(bind).Bytes()
	}
	if alt == "bind" {
		e.Alt = "" // judged as another bind
	}
	e.Bind = s.binds.add(string(bind))
	set := []string{}
	switch c.kind {
	case "access":
		v := data.SealedAccess{OID: oidOf(bind), Ciphertext: change("ct", c.access.Ciphertext), WrappedKey: change("wk", w.access.WrappedKey)}
		v = again(s.r, v)
		was := data.SealedAccess{OID: v.OID, Ciphertext: cp(v.Ciphertext), WrappedKey: cp(v.WrappedKey)}
		var a data.Access
		e.Res = blRes(guarded(func() { a, err = v.Unseal(s.crys[cry]) }), err)
		e.Mut = v.OID != was.OID || !bytes.Equal(v.Ciphertext, was.Ciphertext) || !bytes.Equal(v.WrappedKey, was.WrappedKey)
		set = s.setOf(a.GetGroups())
		if e.Res == "ok" {
			e.Content = s.vals.name(string(a.WrappedDEK))
			s.acc[h] = &a
		} else if len(a.WrappedDEK) > 0 {
			e.Content = "data"
		}
	case "object":
		e.Open = s.opens.add(string(open))
		v := data.SealedObject{OID: oidOf(bind), Ciphertext: change("ct", c.object.Ciphertext), AssociatedData: cp(open)}
		v = again(s.r, v)
		key := change("wk", w.key)
		k := cp(key)
		was := data.SealedObject{OID: v.OID, Ciphertext: cp(v.Ciphertext), AssociatedData: cp(v.AssociatedData)}
		var o data.Object
		e.Res = blRes(guarded(func() { o, err = v.Unseal(key, s.crys[cry]) }), err)
		e.Mut = v.OID != was.OID || !bytes.Equal(v.Ciphertext, was.Ciphertext) || !bytes.Equal(v.AssociatedData, was.AssociatedData) || !bytes.Equal(k, key)
		if e.Res == "ok" {
			e.Content = s.vals.name(string(o.Plaintext))
			if !bytes.Equal(o.AssociatedData, open) {
				e.Content = "other associated data"
			}
		} else if len(o.Plaintext)+len(o.AssociatedData) > 0 {
			e.Content = "data"
		}
	case "node":
		v := data.SealedNode{Ciphertext: change("ct", c.node.Ciphertext), WrappedKey: change("wk", w.node.WrappedKey)}
		v = again(s.r, v)
		was := data.SealedNode{Ciphertext: cp(v.Ciphertext), WrappedKey: cp(v.WrappedKey)}
		l, mut := guardedBytes(bind)
		var n data.Node
		e.Res = blRes(guarded(func() { n, err = v.Unseal(l, s.crys[cry]) }), err)
		e.Mut = mut() || !bytes.Equal(v.Ciphertext, was.Ciphertext) || !bytes.Equal(v.WrappedKey, was.WrappedKey)
		if e.Res == "ok" {
			e.Content = s.vals.name(nodeText(n))
		} else if n != (data.Node{}) {
			e.Content = "data"
		}
	}
	e.Set = set
	if alt != "" && e.Alt != "" {
		e.Note = "altered: " + alt
	}
	s.emit(e)
}

func TestBlocksWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[BlStep](t) {
		s := newBl(int64(910000 + wi))
		vals := distinctStrings(s.r, 3)
		if wi%2 == 1 {
			near := nearlyAll(vals[0])
			vals = []string{vals[0], pick(s.r, near), ""}
			for vals[1] == vals[0] || vals[1] == "" {
				vals[1] = vals[0] + "."
			}
		}
		at := map[string]string{"x": vals[0], "y": vals[1], "z": vals[2]}
		bind := randBytes32(s.r)[:16]
		last := 0
		for _, st := range w {
			ids := []string{}
			for _, x := range st.Ids {
				ids = append(ids, at[x])
			}
			switch st.Op {
			case "new":
				s.newAccess(st.H, randBytes(s.r, s.r.Intn(60)))
			case "seal":
				last = s.sealAccess(st.H, bind, "k1")
			case "unseal":
				s.unseal(last, last, st.H, bind, nil, "k1", "")
			case "groups":
				s.groups(st.H)
			default:
				s.change(st.Op, st.H, ids)
			}
			if st.Op != "groups" {
				for h := range s.acc { // the other one is as it was
					s.groups(h)
				}
			}
		}
		sink.put("blocks", "walk", s.ev)
	}
}

func TestBlocksRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(60, 600); k++ {
		s := newBl(int64(920000 + k))
		r := s.r
		ids := distinctStrings(r, pick(r, []int{2, 5, 30, 300}))
		if k%3 == 0 {
			ids = append(ids, nearlyAll(ids[0])...)
		}
		binds := [][]byte{randBytes32(r)[:16], randBytes32(r)[:16], make([]byte, 16)}
		near := cp(binds[0])
		near[r.Intn(16)] ^= 1 << r.Intn(8)
		binds = append(binds, near)
		plains := [][]byte{nil, {0}, randBytes(r, 1+r.Intn(40)), randBytes(r, pick(r, []int{15, 16, 17, 31, 32, 33, 4095, 4096, 4097, 70000}))}
		plains = append(plains, append(cp(plains[3]), 0), append(cp(plains[2]), 0, 0))
		opens := [][]byte{nil, {0}, randBytes(r, 1+r.Intn(40)), {0, 0}, cp(binds[1])}
		opens = append(opens, append(cp(opens[2]), 0))
		labels := [][]byte{randBytes32(r), randBytes32(r), {}, randBytes32(r)[:16]}
		labels = append(labels, append(cp(labels[0]), 0))
		s.newAccess(1, randBytes(r, r.Intn(100)))
		s.newAccess(2, randBytes(r, r.Intn(100)))
		kinds := map[string][]int{}
		for n := 0; n < 60; n++ {
			h := 1 + r.Intn(2)
			cry := pick(r, []string{"k1", "k1", "k2"})
			switch r.Intn(14) {
			case 0:
				s.newAccess(h, randBytes(r, r.Intn(100)))
			case 1, 2, 3:
				x := subset(r, ids, pick(r, []float64{0, 0.1, 0.5, 1}))
				x = append(x, subset(r, x, 0.2)...) // some twice
				r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
				s.change(pick(r, []string{"add", "add", "remove"}), h, x)
			case 4:
				if s.acc[h].Groups == nil {
					break
				}
				in := []string{}
				for g := range s.acc[h].Groups {
					in = append(in, g)
				}
				sort.Strings(in)
				x := subset(r, in, pick(r, []float64{0, 0.3, 1}))
				if r.Intn(2) == 0 { // one that may not be in it, anywhere
					at := r.Intn(len(x) + 1)
					x = append(x[:at:at], append([]string{pick(r, ids)}, x[at:]...)...)
				}
				s.change("contains", h, x)
			case 5:
				s.groups(h)
			case 6:
				kinds["access"] = append(kinds["access"], s.sealAccess(h, pick(r, binds), cry))
			case 7:
				kinds["object"] = append(kinds["object"], s.sealObject(pick(r, plains), pick(r, opens), pick(r, binds), cry))
			case 8:
				kinds["node"] = append(kinds["node"], s.sealNode(data.Node{Identifier: pick(r, ids), NextCounter: pick(r, []uint64{0, 1, 127, 128, 1 << 32, 1<<64 - 1})}, pick(r, labels), cry))
			default:
				kind := pick(r, []string{"access", "object", "node"})
				if len(kinds[kind]) == 0 {
					break
				}
				ct := pick(r, kinds[kind])
				it := s.items[ct]
				wk, bind, open, alt := ct, []byte(s.binds.val(it.bind)), it.open, ""
				cry = it.cry
				switch r.Intn(7) {
				case 0:
					wk = pick(r, kinds[kind])
				case 1:
					if kind == "node" {
						bind = pick(r, labels)
					} else {
						bind = pick(r, binds)
					}
				case 2:
					cry = pick(r, []string{"k1", "k2"})
				case 3:
					if kind == "object" {
						open = pick(r, opens)
					}
				case 4:
					alt = pick(r, []string{"ct", "wk", "bind"})
				}
				s.unseal(ct, wk, h, bind, open, cry, alt)
			}
		}
		s.groups(1)
		s.groups(2)
		sink.put("blocks", "random", s.ev)
	}
}

// labels of positions, under two keys one bit apart
func TestBlocksLabels(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(4, 12); k++ {
		s := newBl(int64(930000 + k))
		key := randBytes32(s.r)
		other := cp(key)
		other[s.r.Intn(32)] ^= 1 << s.r.Intn(8)
		counters := []uint64{}
		for i := uint64(0); i < uint64(tier(150, 300)); i++ {
			counters = append(counters, i)
		}
		for b := 0; b < 64; b++ {
			counters = append(counters, 1<<b, 1<<b-1, 1<<b+1)
		}
		counters = append(counters, 1<<64-1)
		s.r.Shuffle(len(counters), func(i, j int) { counters[i], counters[j] = counters[j], counters[i] })
		for n, kk := range [][]byte{key, other, key} {
			tg, err := crypto.NewKMAC256Tagger(kk)
			if err != nil {
				panic("harness: " + err.Error())
			}
			for _, c := range counters {
				e := BlEv{Op: "label", Cry: fmt.Sprint("t", n%2), Content: fmt.Sprint(c)}
				node := data.Node{Identifier: pick(s.r, []string{"", "a", "b"}), NextCounter: c}
				was := node
				var l []byte
				e.Res = blRes(guarded(func() { l, err = node.NextLabel(&tg) }), err)
				e.Open, e.Mut = fmt.Sprintf("%x", l), node != was
				s.emit(e)
			}
		}
		sink.put("blocks", "labels", s.ev)
	}
}

func bitsOf(s id.Scope) []int {
	out := []int{}
	for b := 0; b < 64; b++ {
		if s>>b&1 == 1 {
			out = append(out, b)
		}
	}
	return out
}

func TestBlocksScopes(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	named := []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken, id.ScopeGetTokenContents, id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex}
	s := newBl(940000)
	e := BlEv{Op: "scopes", Set: bitsOf(id.ScopeAll), Ids: bitsOf(id.ScopeNone), Res: "ok"}
	for _, x := range named {
		e.Args = append(e.Args, bitsOf(x))
	}
	s.emit(e)
	has := func(a, b id.Scope) {
		e := BlEv{Op: "scopehas", Set: bitsOf(a), Ids: bitsOf(b)}
		e.Res = blRes(guarded(func() { e.B = a.Contains(b) }), nil)
		s.emit(e)
	}
	for a := id.Scope(0); a < id.ScopeEnd; a++ { // every set of scopes against every scope, and some sets
		for _, b := range named {
			has(a, b)
		}
		for n := 0; n < tier(6, 60); n++ {
			has(a, id.Scope(s.r.Intn(int(id.ScopeEnd))))
		}
		has(a, a)
		has(a, 0)
		has(a, id.ScopeAll)
		if len(s.ev) > 2000 {
			sink.put("blocks", "scopes", s.ev)
			s.ev = nil
		}
	}
	word := func() id.Scope {
		switch s.r.Intn(4) {
		case 0:
			return pick(s.r, named)
		case 1:
			return id.Scope(s.r.Uint64())
		case 2:
			return id.Scope(1) << s.r.Intn(64)
		}
		return id.Scope(s.r.Intn(int(id.ScopeEnd)))
	}
	for n := 0; n < tier(300, 3000); n++ {
		a, b := word(), word()
		has(a, b)
		has(a|b, b)
		xs := []id.Scope{}
		for i := s.r.Intn(5); i > 0; i-- {
			xs = append(xs, word())
		}
		full := append(append([]id.Scope{}, xs...), 1, 2)
		was := append([]id.Scope{}, full...)
		e := BlEv{Op: "scopeunion"}
		for _, x := range xs {
			e.Args = append(e.Args, bitsOf(x))
		}
		e.Res = blRes(guarded(func() { e.Set = bitsOf(id.ScopeUnion(full[:len(xs)]...)) }), nil)
		e.Mut = !reflect.DeepEqual(was, full)
		s.emit(e)
	}
	sink.put("blocks", "scopes", s.ev)
	for n := 0; n < tier(60, 600); n++ {
		s := newBl(int64(941000 + n))
		ids := distinctStrings(s.r, pick(s.r, []int{1, 2, 3, 8, 60}))
		ids = append(ids, nearlyAll(ids[0])[:20]...)
		own := pick(s.r, ids)
		if n%7 == 0 {
			own = ""
		}
		who := id.Identity{ID: own, Scopes: word(), Groups: map[string]id.AccessGroup{}}
		groups := []BlGroup{}
		for _, g := range subset(s.r, ids, pick(s.r, []float64{0, 0.3, 0.8})) {
			if _, there := who.Groups[g]; there {
				continue
			}
			x := id.AccessGroup{ID: g, Scopes: word()}
			who.Groups[g] = x
			groups = append(groups, BlGroup{s.ids.add(g), bitsOf(x.Scopes)})
		}
		if len(groups) == 0 && n%2 == 0 {
			who.Groups = nil
		}
		was := fmt.Sprintf("%#v", len(who.Groups))
		e := BlEv{Op: "ids", Content: s.ids.add(own), Groups: groups}
		e.Res = blRes(guarded(func() {
			m := who.GetIDs()
			e.Set = s.setOf(m)
			m["something else"] = struct{}{} // the caller's own
		}), nil)
		e.Mut = fmt.Sprintf("%#v", len(who.Groups)) != was
		s.emit(e)
		s.emit(e2(who, s, groups, e))
		for _, x := range append(append([]string{}, ids...), own, "", strings.Repeat("x", 70)) {
			e := BlEv{Op: "idscope", Content: s.ids.add(own), Ids: bitsOf(who.Scopes), Groups: groups, Open: s.ids.add(x)}
			e.Res = blRes(guarded(func() { e.Set = bitsOf(who.GetIDScope(x)) }), nil)
			s.emit(e)
		}
		sink.put("blocks", "identity", s.ev)
	}
}

// asked once more, after the answer has been written to
func e2(who id.Identity, s *blSys, groups []BlGroup, e BlEv) BlEv {
	e.Res = blRes(guarded(func() { e.Set = s.setOf(who.GetIDs()) }), nil)
	return e
}
