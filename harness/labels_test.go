package verifharness

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type LabEv struct {
	Op      string   `json:"op"`
	Key     string   `json:"key"`
	Kw      string   `json:"kw"`
	Pos     int      `json:"pos"`
	Res     string   `json:"res"`
	Fresh   []string `json:"fresh"`   // labels new in storage
	Vals    []string `json:"vals"`    // contents written: record, ciphertext, wrapped key
	Live    int      `json:"live"`    // records in storage / entries seen
	Entries int      `json:"entries"` // entries there should be
	Shared  int      `json:"shared"`  // pieces that new labels have in common with others
}

type labels struct {
	r    *rand.Rand
	lab  *Names
	val  *Names
	ev   []any
	idp  *stubIdP
	vals []string
	piec map[string]bool
}

func newLabels(r *rand.Rand) *labels {
	l := &labels{r: r, lab: newNames("l"), val: newNames("v"), idp: &stubIdP{names: newNames("g"), cur: map[string]Ident{}}, piec: map[string]bool{}}
	l.idp.names.bind("a", "caller")
	l.idp.cur["t"] = Ident{Auth: true, Id: "a", Sc: []string{"Index"}}
	return l
}

func (l *labels) store() *FStore {
	st := newFStore()
	n := 0
	st.onWrite = func(_ []byte, _ io.DataType, data []byte) {
		if data == nil {
			return
		}
		n++
		name := func(x string) string {
			if y, ok := l.val.byVal[x]; ok {
				return y // a repetition
			}
			return l.val.add(x)
		}
		l.vals = append(l.vals, name("raw"+string(data)))
		if m, ok := fieldsOf(data); ok { // every field of the record that has something to say
			for _, f := range sortedKeys(m) {
				if v, ok := m[f].(string); ok && len(v) >= 8 {
					l.vals = append(l.vals, name("field "+v))
				}
			}
		}
	}
	return st
}

func labKeys(iek []byte) key.Keys {
	k := testKeys(60)
	k.IEK = iek
	return k
}

func (l *labels) begin(op string) (LabEv, func(st *FStore, before map[skey][]byte, err error, pan string) LabEv) {
	e := LabEv{Op: op, Fresh: []string{}}
	l.vals = []string{}
	return e, func(st *FStore, before map[skey][]byte, err error, pan string) LabEv {
		e.Res = "ok"
		if err != nil {
			e.Res = "error"
		}
		if pan != "" {
			e.Res = pan
		}
		for k := range st.snapshot() {
			if _, ok := before[k]; !ok {
				e.Fresh = append(e.Fresh, l.label(k.id, &e))
			}
		}
		e.Live = len(st.snapshot())
		e.Vals = l.vals
		return e
	}
}

// label names a label and counts the pieces it has in common with other labels.
func (l *labels) label(x string, e *LabEv) string {
	if n, ok := l.lab.byVal[x]; ok {
		return n
	}
	n := 12
	for i := range x {
		if x[i] >= 0x80 {
			n = 5
		}
	}
	for i := 0; i+n <= len(x); i++ {
		p := fmt.Sprint(i, x[i:i+n])
		if l.piec[p] {
			e.Shared++
		}
		l.piec[p] = true
	}
	return l.lab.add(x)
}

// counters asks for the labels of positions that no list reaches.
func (l *labels) counters(tk []byte) {
	var cs []uint64
	for b := uint(0); b < 64; b++ {
		for _, d := range []uint64{^uint64(0), 0, 1} {
			cs = append(cs, uint64(1)<<b+d)
		}
	}
	for i := 0; i < 40; i++ {
		c := l.r.Uint64() >> l.r.Intn(64)
		cs = append(cs, c, c^1<<l.r.Intn(64), c<<8, c>>8)
	}
	cs = append(cs, 0, ^uint64(0), ^uint64(0)-1)
	for _, c := range cs {
		for _, k := range []byte{0, 1} {
			key := append([]byte{}, tk...)
			key[5] ^= k
			tg, err := crypto.NewKMAC256Tagger(key)
			if err != nil {
				panic("harness: " + err.Error())
			}
			e := LabEv{Op: "Add", Fresh: []string{}, Vals: []string{}, Res: "ok", Key: fmt.Sprint("tagger ", k), Kw: fmt.Sprint("counter ", c)}
			n := data.Node{NextCounter: c}
			var lab []byte
			if p := guarded(func() { lab, err = n.NextLabel(&tg) }); p != "" {
				e.Res = p
			} else if err != nil {
				e.Res = "error"
			} else {
				e.Fresh = append(e.Fresh, l.label(string(lab), &e))
			}
			l.ev = append(l.ev, e)
		}
	}
}

// fill adds n entries of one keyword to a store.
func (l *labels) fill(ix *index.SecureIndex, st *FStore, kn, kw, kwn string, n int, id func(i int) string) {
	for i := 0; i < n; i++ {
		before := st.snapshot()
		_, end := l.begin("Add")
		var err error
		pan := guarded(func() { err = ix.Add(context.Background(), "t", kw, id(i)) })
		e := end(st, before, err, pan)
		e.Key, e.Kw, e.Pos = kn, kwn, i
		l.ev = append(l.ev, e)
	}
}

func (l *labels) foreign(iek []byte, st *FStore, kws []string) {
	ix := newIndex(labKeys(iek), st, l.idp)
	e, _ := l.begin("Foreign")
	e.Res, e.Vals = "ok", []string{}
	for _, kw := range kws {
		var ids []string
		var err error
		if pan := guarded(func() { ids, err = ix.Search(context.Background(), "t", kw) }); pan != "" {
			e.Res = pan
		} else if err != nil {
			e.Res = "error"
		}
		e.Live += len(ids)
	}
	l.ev = append(l.ev, e)
}

func manyKeywords(r *rand.Rand) []string {
	seen := map[string]bool{}
	out := []string{}
	add := func(xs ...string) {
		for _, x := range xs {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	for i := 0; i < 3; i++ {
		add(relatedStrings(r)...)
	}
	add(distinctStrings(r, 15)...)
	for _, n := range []int{31, 32, 33, 63, 64, 65, 134, 135, 136, 137, 255, 256, 257, 511, 512, 513, 8191, 8192, 65536} {
		b := strings.Repeat("q", n)
		add(b, b[:n-1]+"r", "r"+b[1:])
	}
	for i := 0; i < 12; i++ {
		add("label"+fmt.Sprint(i), "id"+fmt.Sprint(i), fmt.Sprint(i), string([]byte{byte(i)}))
	}
	return out
}

func TestLabels(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(6, 60); k++ {
		r := newRand(int64(260000 + k))
		l := newLabels(r)
		base := make([]byte, 32)
		if k%3 != 0 {
			r.Read(base)
		}
		kws := manyKeywords(r)
		r.Shuffle(len(kws), func(a, b int) { kws[a], kws[b] = kws[b], kws[a] })
		kws = kws[:40]
		st, st2 := l.store(), l.store()
		ix, ix2 := newIndex(labKeys(base), st, l.idp), newIndex(labKeys(append([]byte{}, base...)), st2, l.idp)
		n := 1 + r.Intn(4)
		for i, kw := range kws {
			l.fill(ix, st, "K", kw, fmt.Sprint("w", i), n, func(int) string { return "same" })
		}
		// another instance over the same key, other identifiers, another order
		for _, i := range r.Perm(len(kws))[:20] {
			l.fill(ix2, st2, "K", kws[i], fmt.Sprint("w", i), n, func(j int) string { return fmt.Sprint("other", i, j) })
		}
		// keys that differ in one bit, byte by byte
		for b := 0; b < 32; b++ {
			iek := append([]byte{}, base...)
			iek[b] ^= 1 << r.Intn(8)
			stb := l.store()
			ixb := newIndex(labKeys(iek), stb, l.idp)
			for _, i := range r.Perm(len(kws))[:3] {
				l.fill(ixb, stb, fmt.Sprint("K", b), kws[i], fmt.Sprint("w", i), 2, func(int) string { return "same" })
			}
			l.foreign(iek, st, kws)
		}
		sink.put("labels", "", l.ev)
	}
	// many positions
	for k := 0; k < tier(1, 3); k++ {
		r := newRand(int64(270000 + k))
		l := newLabels(r)
		iek := make([]byte, 32)
		r.Read(iek)
		st, st2 := l.store(), l.store()
		n := tier(280, 700)
		l.fill(newIndex(labKeys(iek), st, l.idp), st, "K", "kw", "w", n, func(int) string { return "same" })
		l.fill(newIndex(labKeys(iek), st2, l.idp), st2, "K", "kw", "w", n/2, func(int) string { return "different" })
		sink.put("labels", "positions", l.ev)
	}
	for k := 0; k < tier(1, 10); k++ {
		l := newLabels(newRand(int64(275000 + k)))
		tk := make([]byte, 32)
		l.r.Read(tk)
		l.counters(tk)
		sink.put("labels", "counters", l.ev)
	}
	// histories with deletions
	for k := 0; k < tier(20, 300); k++ {
		r := newRand(int64(280000 + k))
		l := newLabels(r)
		st := l.store()
		ix := newIndex(labKeys([]byte(strings.Repeat("i", 32))), st, l.idp)
		have := map[string][]string{}
		kws := manyKeywords(r)[:6]
		for i := 0; i < 60; i++ {
			kw, id := pick(r, kws), fmt.Sprint(r.Intn(3))
			_, end := l.begin("Churn")
			var err error
			before := st.snapshot()
			var pan string
			if r.Intn(3) > 0 {
				pan = guarded(func() { err = ix.Add(context.Background(), "t", kw, id) })
				have[kw] = append(have[kw], id)
			} else {
				pan = guarded(func() { err = ix.Delete(context.Background(), "t", kw, id) })
				rest := []string{}
				for _, x := range have[kw] {
					if x != id {
						rest = append(rest, x)
					}
				}
				have[kw] = rest
			}
			e := end(st, before, err, pan)
			for _, xs := range have {
				e.Entries += len(xs)
			}
			l.ev = append(l.ev, e)
		}
		sink.put("labels", "churn", l.ev)
	}
}
