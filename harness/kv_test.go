package verifharness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/io"
)

type KvEv struct {
	Op   string `json:"op"` // begin, end, call, crash, open
	What string `json:"what"`
	N    int    `json:"n"`
	Item string `json:"item"`
	Val  string `json:"val"`
	Res  string `json:"res"`
	Out  string `json:"out"`
	Mut  bool   `json:"mut"`
	Want string `json:"want"`
}

func kvClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.ErrNotFound):
		return "notfound"
	case errors.Is(err, io.ErrAlreadyExists):
		return "exists"
	default:
		return "error"
	}
}

// fastDir is a scratch directory, in memory where possible (Bolt syncs every write).
func fastDir() string {
	for _, base := range []string{"/dev/shm", scratch, os.TempDir()} {
		if d, err := os.MkdirTemp(base, "verif-kv-"); err == nil {
			return d
		}
	}
	panic("harness: no scratch directory")
}

type kvSys struct {
	r     *rand.Rand
	p     io.Provider
	items map[string]skey
	vals  *Names
	ev    []any
	held  []heldBuf // results returned earlier: they must not change, and changing them must not matter
}

type heldBuf struct{ b, copy []byte }

func (s *kvSys) do(what, item, val string) KvEv {
	e := KvEv{Op: "call", What: what, N: 1, Item: item, Val: val}
	k := s.items[item]
	idb, idFull := spare([]byte(k.id), s.r.Intn(12))
	idCopy := append([]byte{}, idFull...)
	var db, dFull []byte
	if val != "" {
		db, dFull = spare([]byte(s.vals.val(val)), s.r.Intn(12))
		if len(db) == 0 && s.r.Intn(2) == 0 {
			db = nil
		}
	}
	if len(idb) == 0 && s.r.Intn(2) == 0 {
		idb = nil
	}
	dCopy := append([]byte{}, dFull...)
	ctx := context.Background()
	var err error
	var out []byte
	pan := guarded(func() {
		switch what {
		case "Put":
			err = s.p.Put(ctx, idb, k.dt, db)
		case "Update":
			err = s.p.Update(ctx, idb, k.dt, db)
		case "Get":
			out, err = s.p.Get(ctx, idb, k.dt)
		case "Delete":
			err = s.p.Delete(ctx, idb, k.dt)
		}
	})
	e.Res = kvClass(err)
	if pan != "" {
		e.Res = pan
	}
	if what == "Get" {
		if err == nil {
			pan := guarded(func() { // what was returned must be memory of the caller's own
				e.Out = s.vals.name(string(out))
				if s.r.Intn(2) == 0 {
					for i := range out[:cap(out)] {
						out[:cap(out)][i] ^= 0x5a
					}
				} else {
					s.held = append(s.held, heldBuf{out, append([]byte{}, out...)})
				}
			})
			if pan != "" {
				e.Res, e.Out = pan, ""
			}
		} else if len(out) > 0 {
			e.Out = "?"
		}
	}
	e.Mut = !bytes.Equal(idFull, idCopy) || !bytes.Equal(dFull, dCopy)
	for i := range idFull {
		idFull[i] ^= 0x5a
	}
	for i := range dFull {
		dFull[i] ^= 0x5a
	}
	if len(s.held) > 3 {
		s.held = s.held[1:]
	}
	for _, h := range s.held {
		if guarded(func() { e.Mut = e.Mut || !bytes.Equal(h.b, h.copy) }) != "" {
			e.Mut = true // an earlier result changed under the caller's hands
		}
	}
	s.ev = append(s.ev, e)
	return e
}

type kvProv struct {
	name string
	p    io.Provider
	done func()
}

func providers() []kvProv {
	mem := io.NewMem()
	mem2 := io.NewMem()
	dir := fastDir()
	b1, err := io.NewBolt(filepath.Join(dir, "a.db"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	b2, err := io.NewBolt(filepath.Join(dir, "b.db"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	pm, pb := io.NewProxy(&mem2), io.NewProxy(&b2)
	rm := func() { os.RemoveAll(dir) }
	nop := func() {}
	return []kvProv{{"mem", &mem, nop}, {"bolt", &b1, nop}, {"proxy of mem", &pm, nop}, {"proxy of bolt", &pb, rm}}
}

// some items that are easily confused
func (s *kvSys) makeItems(n int, long int) []string {
	names := numbered("i", n)
	s.items = map[string]skey{}
	base := string(randBytes(s.r, s.r.Intn(24)))
	var first, cand []skey
	if s.r.Intn(2) == 0 { // items that are the same under some way of writing them as one string
		first = s.cluster(n)
	}
	for _, dt := range []io.DataType{0, 1, 2, 3, 4, 5, 6, 255, 256, 257, 0x6161, 65535, 0x100, 0x3030} {
		for _, b := range []string{base, base + "\x00", base + "\x01", base + "\x00\x00", "\x00" + base, base + "\x00\x00\x00", "", "\x01", ":", "a:1", base + ":1", strings.ToUpper(base), fmt.Sprintf("%x", base), fmt.Sprintf("%x:1", base), "object", strings.Repeat("k", 200)} {
			cand = append(cand, skey{b, dt}, skey{b + string(dt.Bytes()), dt}, skey{b + string([]byte{byte(dt), byte(dt >> 8)}), dt}, skey{b + string([]byte{byte(dt)}), dt})
		}
	}
	s.r.Shuffle(len(cand), func(a, b int) { cand[a], cand[b] = cand[b], cand[a] })
	cand = append(first, cand...)
	seen := map[skey]bool{}
	i := 0
	for _, c := range cand {
		if i == n {
			break
		}
		if !seen[c] {
			seen[c] = true
			s.items[names[i]] = c
			i++
		}
	}
	if long > 0 {
		s.items[names[0]] = skey{strings.Repeat("L", long), 1}
	}
	return names
}

// trimZeros leaves out zero bytes at an end, but not all bytes.
func trimZeros(b string, left, right bool) string {
	for left && len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	for right && len(b) > 1 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

// cluster returns items that are one and the same once id and type are joined in some plausible way.
func (s *kvSys) cluster(n int) []skey {
	joins := []func(skey) string{
		func(k skey) string { return k.id + string(k.dt.Bytes()) },
		func(k skey) string { return k.id + string([]byte{byte(k.dt), byte(k.dt >> 8)}) },
		func(k skey) string { return k.id + string([]byte{byte(k.dt >> 8), byte(k.dt)}) },
		func(k skey) string { return k.id + string([]byte{byte(k.dt)}) },
		func(k skey) string { return string([]byte{byte(k.dt)}) + k.id },
		func(k skey) string { return string([]byte{byte(k.dt >> 8), byte(k.dt)}) + k.id },
		func(k skey) string { return string(binary.AppendUvarint([]byte(k.id), uint64(k.dt))) },
		func(k skey) string { return string(binary.AppendUvarint(nil, uint64(k.dt))) + k.id },
		func(k skey) string { return k.id + trimZeros(string(k.dt.Bytes()), true, false) },
		func(k skey) string { return k.id + trimZeros(string(k.dt.Bytes()), false, true) },
		func(k skey) string { return k.id + trimZeros(string([]byte{byte(k.dt >> 8), byte(k.dt)}), true, false) },
		func(k skey) string { return trimZeros(string([]byte{byte(k.dt >> 8), byte(k.dt)}), true, false) + k.id },
		func(k skey) string { return trimZeros(string(k.dt.Bytes()), false, true) + k.id },
		func(k skey) string { return strings.Trim(k.id+string(k.dt.Bytes()), "\x00") },
		func(k skey) string { return fmt.Sprintf("%s%d", k.id, k.dt) },
		func(k skey) string { return fmt.Sprintf("%d%s", k.dt, k.id) },
		func(k skey) string { return fmt.Sprintf("%x%d", k.id, k.dt) },
		func(k skey) string { return fmt.Sprintf("%s%x", k.id, int(k.dt)) },
		func(k skey) string { return fmt.Sprintf("%x%x", k.id, int(k.dt)) },
		func(k skey) string { return fmt.Sprintf("%s:%d", k.id, k.dt) },
		func(k skey) string { return fmt.Sprintf("%s/%d", k.id, k.dt) },
		func(k skey) string { return fmt.Sprintf("%d:%s", k.dt, k.id) },
		func(k skey) string { return k.id },
		func(k skey) string { return strings.ToLower(k.id) + fmt.Sprint(k.dt) },
		func(k skey) string { return strings.TrimSpace(k.id) + fmt.Sprint(k.dt) },
		func(k skey) string { return strings.ToValidUTF8(k.id, "?") + fmt.Sprint(k.dt) },
		func(k skey) string { return strings.TrimRight(k.id, "\x00") + fmt.Sprint(k.dt) },
		func(k skey) string { return fmt.Sprintf("%.64s", k.id) + fmt.Sprint(k.dt) },
		func(k skey) string { return k.id + fmt.Sprint(byte(k.dt)) },
	}
	join := pick(s.r, joins)
	types := []io.DataType{0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 16, 17, 25, 31, 48, 49, 112, 127, 128, 255, 256, 257, 300, 0x3131, 0x6161, 65535}
	base := string(randBytes(s.r, s.r.Intn(16)))
	if s.r.Intn(3) == 0 {
		base = "Ab1" + strings.Repeat("x", pick(s.r, []int{0, 10, 61, 64, 70}))
	}
	ids := []string{base, base + "1", base + "2", base + "11", base + "1\x00", "1" + base, "2" + base, "11" + base, base + ":1", base + "/1", "1:" + base,
		base + "\x00", base + "\x01", base + "\x01\x00", base + "\x00\x01", base + "\x02", "\x01" + base, "\x00" + base, "\x00\x01" + base, "\x01\x00" + base, base + "\x80", base + "\x81", base + "\xfe", base + "\xff", base + "\xac",
		strings.ToLower(base), strings.ToUpper(base), base + " ", " " + base, base + "\n", base + "31", base + "a", base + "y", base + "z", "", "1", "11", "\x01"}
	same := map[string][]skey{}
	for _, dt := range types {
		for _, id := range ids {
			k := skey{id, dt}
			same[join(k)] = append(same[join(k)], k)
		}
	}
	keys := []string{}
	for k, l := range same {
		distinct := map[skey]bool{}
		for _, x := range l {
			distinct[x] = true
		}
		if len(distinct) > 1 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	s.r.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
	out := []skey{}
	for _, k := range keys {
		if len(out) < n {
			out = append(out, same[k]...)
		}
	}
	return out
}

func (s *kvSys) makeVals(extra int) []string {
	s.vals.bind("e", "")
	out := []string{"e"}
	for _, x := range []string{"a", "b"} {
		for {
			b := randBytes(s.r, 1+randSize(s.r))
			if _, dup := s.vals.byVal[string(b)]; !dup {
				s.vals.bind(x, string(b))
				break
			}
		}
		out = append(out, x)
	}
	for i := 0; i < extra; i++ {
		out = append(out, s.vals.add(string(randBytes(s.r, 1+s.r.Intn(50)))))
	}
	return out
}

type KvStep struct {
	Op   string `json:"op"`
	Item string `json:"item"`
	Val  string `json:"val"`
}

func TestKvWalks(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[KvStep](t) {
		for _, p := range providers() {
			s := &kvSys{r: newRand(int64(wi)), p: p.p, vals: newNames("v")}
			s.makeItems(5, 0)
			s.makeVals(0)
			for _, st := range w {
				s.do(st.Op, st.Item, st.Val)
			}
			sink.put("seq", p.name, s.ev)
			p.done()
		}
	}
}

var kvOps = []string{"Put", "Update", "Get", "Delete"}

func TestKvRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(25, 300); k++ {
		for _, p := range providers() {
			s := &kvSys{r: newRand(int64(400000 + k)), p: p.p, vals: newNames("v")}
			long := 0
			if k%5 == 0 {
				long = pick(s.r, []int{255, 1000, 4095, 4096, 32000})
			}
			items := s.makeItems(pick(s.r, []int{2, 5, 40}), long)
			vals := s.makeVals(5)
			for i := 0; i < tier(120, 300); i++ {
				op := pick(s.r, kvOps)
				v := ""
				if op == "Put" || op == "Update" {
					v = pick(s.r, vals)
				}
				s.do(op, pick(s.r, items), v)
			}
			for _, i := range items {
				s.do("Get", i, "")
			}
			sink.put("seq", p.name, s.ev)
			p.done()
		}
	}
	// large values, and many items
	for k, n := range []int{1 << 20, 4<<20 + 1, 9 << 20, tier(17<<20, 70<<20)} {
		for _, p := range providers() {
			s := &kvSys{r: newRand(int64(420000 + k)), p: p.p, vals: newNames("v")}
			items := s.makeItems(3, 0)
			big := func(n int) string {
				b := make([]byte, n)
				s.r.Read(b)
				return s.vals.add(string(b))
			}
			x, y, z := big(n), big(n-1-s.r.Intn(1000)), big(3)
			for _, v := range []string{x, y, z} {
				s.do("Put", items[0], v)
				s.do("Update", items[0], v)
				s.do("Get", items[0], "")
				s.do("Update", items[1], v)
				s.do("Put", items[1], v)
				s.do("Get", items[1], "")
				s.do("Get", items[0], "")
			}
			s.do("Delete", items[0], "")
			s.do("Put", items[0], y)
			for _, i := range items {
				s.do("Get", i, "")
			}
			sink.put("seq", fmt.Sprint(p.name, ", large values"), s.ev)
			p.done()
		}
	}
	for k, n := range []int{300, tier(1100, 5000), tier(600, 12000)} {
		for _, p := range providers() {
			s := &kvSys{r: newRand(int64(430000 + k)), p: p.p, vals: newNames("v")}
			items, vals := numbered("i", n), s.makeVals(5)
			s.items = map[string]skey{}
			for i, x := range items { // counters of several widths under a few types
				s.items[x] = skey{[]string{fmt.Sprintf("%d", i), fmt.Sprintf("%016x", i*2654435761), string([]byte{byte(i), byte(i >> 8)})}[k%3], io.DataType(i % 4)}
			}
			for _, i := range items {
				s.do("Put", i, pick(s.r, vals))
			}
			for j := 0; j < 200; j++ {
				op, v := pick(s.r, kvOps), ""
				if op == "Put" || op == "Update" {
					v = pick(s.r, vals)
				}
				s.do(op, pick(s.r, items), v)
			}
			for _, i := range items {
				s.do("Get", i, "")
			}
			sink.put("seq", fmt.Sprint(p.name, ", many items"), s.ev)
			p.done()
		}
	}
	// a proxy passes on what its functions say, and only that
	for k := 0; k < tier(4, 20); k++ {
		r := newRand(int64(410000 + k))
		mem, other := io.NewMem(), io.NewMem()
		p := io.NewProxy(&mem)
		p.Implementation = &other
		s := &kvSys{r: r, p: &p, vals: newNames("v")}
		items, vals := s.makeItems(4, 0), s.makeVals(2)
		// rename every value on the way: the proxy's own functions decide
		p.GetFunc = func(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
			b, err := mem.Get(ctx, id, dt)
			for i := range b {
				b[i] ^= 0x33
			}
			return b, err
		}
		enc := func(f func(context.Context, []byte, io.DataType, []byte) error) func(context.Context, []byte, io.DataType, []byte) error {
			return func(ctx context.Context, id []byte, dt io.DataType, d []byte) error {
				c := append([]byte{}, d...)
				for i := range c {
					c[i] ^= 0x33
				}
				return f(ctx, id, dt, c)
			}
		}
		p.PutFunc, p.UpdateFunc = enc(mem.Put), enc(mem.Update)
		for i := 0; i < 100; i++ {
			op, v := pick(r, kvOps), ""
			if op == "Put" || op == "Update" {
				v = pick(r, vals)
			}
			s.do(op, pick(r, items), v)
		}
		sink.put("seq", "proxy with own functions", s.ev)
	}
}

// ---- overlapping calls -------------------------------------------------------------------------

type kvCall struct {
	what, val string
}

// round runs the programs of several goroutines at once on one item and returns what was seen, in
// the order of a common counter taken around every call.
func kvRound(p io.Provider, k skey, init string, progs [][]kvCall, value func(string) []byte, name func([]byte) string, yield bool) []KvEv {
	ctx := context.Background()
	id := []byte(k.id)
	ev := []KvEv{}
	one := func(c kvCall) (string, string) {
		var err error
		var out []byte
		seen := ""
		pan := guarded(func() {
			switch c.what {
			case "Put":
				err = p.Put(ctx, id, k.dt, value(c.val))
			case "Update":
				err = p.Update(ctx, id, k.dt, value(c.val))
			case "Get":
				if out, err = p.Get(ctx, id, k.dt); err == nil {
					seen = name(out)
				}
			case "Delete":
				err = p.Delete(ctx, id, k.dt)
			}
		})
		if pan != "" {
			return pan, ""
		}
		if c.what == "Get" && err == nil {
			return "ok", seen
		}
		return kvClass(err), ""
	}
	if init != "" {
		res, out := one(kvCall{"Put", init})
		ev = append(ev, KvEv{Op: "call", What: "Put", N: 0, Item: "i1", Val: init, Res: res, Out: out})
	}
	type stamp struct {
		at int64
		e  KvEv
	}
	var clock atomic.Int64
	var ready atomic.Int32
	var wg sync.WaitGroup
	all := make([][]stamp, len(progs))
	n := 1
	for g, prog := range progs {
		first := n
		n += len(prog)
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := make([]stamp, 0, 2*len(prog))
			ready.Add(1)
			for ready.Load() < int32(len(progs)) {
				runtime.Gosched()
			}
			for j, c := range prog {
				if yield {
					runtime.Gosched()
				}
				mine = append(mine, stamp{clock.Add(1), KvEv{Op: "begin", What: c.what, N: first + j, Item: "i1", Val: c.val}})
				res, out := one(c)
				mine = append(mine, stamp{clock.Add(1), KvEv{Op: "end", What: c.what, N: first + j, Item: "i1", Res: res, Out: out}})
			}
			all[g] = mine
		}()
	}
	wg.Wait()
	var st []stamp
	for _, m := range all {
		st = append(st, m...)
	}
	sort.Slice(st, func(a, b int) bool { return st[a].at < st[b].at })
	for _, x := range st {
		ev = append(ev, x.e)
	}
	res, out := one(kvCall{"Get", ""})
	ev = append(ev, KvEv{Op: "call", What: "Get", N: 0, Item: "i1", Res: res, Out: out})
	one(kvCall{"Delete", ""})
	return ev
}

func TestKvStress(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(420000)
	seen := map[string]bool{}
	rounds := 0
	put := func(note string, ev []KvEv) {
		rounds++
		b, _ := json.Marshal(ev)
		if seen[string(b)] { // exactly the same history again
			return
		}
		seen[string(b)] = true
		xs := make([]any, len(ev))
		for i := range ev {
			xs[i] = ev[i]
		}
		sink.put("conc", note, xs)
	}
	vals := map[string][]byte{"a": []byte("aaaa"), "b": bytes.Repeat([]byte("b"), 3000), "c": {}, "d": []byte("d")}
	name := func(b []byte) string {
		for n, v := range vals {
			if bytes.Equal(b, v) {
				return n
			}
		}
		return "?"
	}
	value := func(n string) []byte { return append([]byte{}, vals[n]...) }
	prog := func(l int) []kvCall {
		out := []kvCall{}
		for i := 0; i < l; i++ {
			c := kvCall{what: pick(r, kvOps)}
			if c.what == "Put" || c.what == "Update" {
				c.val = pick(r, []string{"a", "b", "c", "d"})
			}
			out = append(out, c)
		}
		return out
	}
	ps := providers()
	defer func() {
		for _, p := range ps {
			p.done()
		}
	}()
	limit := time.Now().Add(time.Duration(tier(25, 240)) * time.Second)
	for i := 0; time.Now().Before(limit) && len(seen) < tier(15000, 90000); i++ {
		p := ps[0]
		if i%6 == 5 {
			p = ps[1+r.Intn(3)]
		}
		init := pick(r, []string{"", "a", "b"})
		k := skey{"item", io.DataType(i % 3)}
		yield := r.Intn(2) == 0
		switch r.Intn(6) {
		case 0: // all pairs of single calls, over and over
			for rep := 0; rep < 20; rep++ {
				put(p.name, kvRound(p.p, k, init, [][]kvCall{prog(1), prog(1)}, value, name, yield))
			}
		case 1:
			put(p.name, kvRound(p.p, k, init, [][]kvCall{prog(1), prog(1), prog(1)}, value, name, yield))
		case 2:
			put(p.name, kvRound(p.p, k, init, [][]kvCall{prog(3), prog(3)}, value, name, yield))
		case 3: // many Puts of an absent item
			ps := [][]kvCall{}
			for g := 0; g < 4; g++ {
				ps = append(ps, []kvCall{{"Put", pick(r, []string{"a", "b", "c", "d"})}})
			}
			put(p.name, kvRound(p.p, k, "", ps, value, name, yield))
		case 4: // Update against Delete
			put(p.name, kvRound(p.p, k, "a", [][]kvCall{{{"Delete", ""}, {"Get", ""}}, {{"Update", "b"}}, {{"Update", "d"}, {"Get", ""}}}, value, name, yield))
		case 5:
			put(p.name, kvRound(p.p, k, init, [][]kvCall{prog(2), prog(2), prog(2)}, value, name, yield))
		}
	}
	// longer histories
	for i := 0; i < tier(30, 300); i++ {
		p := ps[0]
		if i%5 == 4 {
			p = ps[1]
		}
		put(p.name, kvRound(p.p, skey{"item", 1}, "", [][]kvCall{prog(15), prog(15), prog(15)}, value, name, true))
	}
	fmt.Printf("COUNT rounds=%d distinct=%d\n", rounds, len(seen))
}

// ---- crashes -----------------------------------------------------------------------------------

// TestKvChild is the process that is killed. It prints one line before and one after every call.
func TestKvChild(t *testing.T) {
	spec := env("VERIF_CHILD", "")
	if spec == "" {
		t.Skip()
	}
	var cfg struct {
		Path  string
		Mode  string // work, dump, hold
		Seed  int64
		Gors  int
		Calls int
		Items int
		Exit  string
	}
	if err := json.Unmarshal([]byte(spec), &cfg); err != nil {
		t.Fatal(err)
	}
	out := os.NewFile(3, "out")
	say := func(e KvEv) {
		b, _ := json.Marshal(e)
		out.Write(append(b, '\n'))
	}
	b, err := io.NewBolt(cfg.Path)
	res := "ok"
	if err != nil {
		res = "error"
	}
	say(KvEv{Op: "open", Res: res})
	if err != nil {
		os.Exit(0)
	}
	ctx := context.Background()
	switch cfg.Mode {
	case "dump":
		for i := 1; i <= cfg.Items; i++ {
			d, err := b.Get(ctx, []byte(fmt.Sprint("item", i)), io.DataType(i%3))
			e := KvEv{Op: "call", What: "Get", N: 1, Item: fmt.Sprint("i", i), Res: kvClass(err)}
			if err == nil {
				e.Out = nameOfCrashVal(d)
			}
			say(e)
		}
		os.Exit(0)
	case "hold":
		time.Sleep(time.Hour)
	case "work":
		var mu sync.Mutex
		var wg sync.WaitGroup
		n := 0
		for g := 0; g < cfg.Gors; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(cfg.Seed + int64(g)*7919))
				for c := 0; c < cfg.Calls; c++ {
					i := 1 + r.Intn(cfg.Items)
					e := KvEv{What: pick(r, []string{"Put", "Put", "Update", "Update", "Delete", "Get"}), Item: fmt.Sprint("i", i)}
					id, dt := []byte(fmt.Sprint("item", i)), io.DataType(i%3)
					var val []byte
					if e.What == "Put" || e.What == "Update" {
						val = crashVal(r)
						e.Val = nameOfCrashVal(val)
					}
					e.Op = "begin"
					mu.Lock()
					n++
					e.N = n
					say(e)
					mu.Unlock()
					var err error
					var d []byte
					switch e.What {
					case "Put":
						err = b.Put(ctx, id, dt, val)
					case "Update":
						err = b.Update(ctx, id, dt, val)
					case "Delete":
						err = b.Delete(ctx, id, dt)
					case "Get":
						d, err = b.Get(ctx, id, dt)
					}
					f := e
					f.Op, f.Val, f.Res = "end", "", kvClass(err)
					if e.What == "Get" && err == nil {
						f.Out = nameOfCrashVal(d)
					}
					mu.Lock()
					say(f)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if cfg.Exit == "exit" {
			os.Exit(0)
		}
	}
}

// values that show whether they are whole: a number, repeated
func crashVal(r *rand.Rand) []byte {
	n := r.Intn(1 << 20)
	return bytes.Repeat([]byte(fmt.Sprintf("%08d", n)), 1+[]int{0, 3, 60, 500, 3000}[r.Intn(5)])
}

func nameOfCrashVal(b []byte) string {
	if len(b) < 8 || len(b)%8 != 0 || !bytes.Equal(b, bytes.Repeat(b[:8], len(b)/8)) {
		return "?"
	}
	return fmt.Sprintf("c%sx%d", b[:8], len(b)/8)
}

// child starts a child and returns its lines; kill decides after which line or time it is killed.
func child(cfg map[string]any, killAfterLines int, killAfter time.Duration) (lines []KvEv, killed bool) {
	b, _ := json.Marshal(cfg)
	rd, wr, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestKvChild$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(b), "VERIF_OUT=")
	cmd.ExtraFiles = []*os.File{wr}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	wr.Close()
	var mu sync.Mutex
	kill := func() {
		mu.Lock()
		defer mu.Unlock()
		if !killed {
			killed = true
			cmd.Process.Kill()
		}
	}
	if killAfter > 0 {
		tm := time.AfterFunc(killAfter, kill)
		defer tm.Stop()
	}
	last := time.AfterFunc(60*time.Second, func() {
		fmt.Printf("VERIF-HANG a Bolt process (%s) did not finish in a minute\n", b)
		kill()
	})
	defer last.Stop()
	sc := bufio.NewScanner(rd)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var e KvEv
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			break // cut short by the kill
		}
		lines = append(lines, e)
		if killAfterLines > 0 && len(lines) >= killAfterLines {
			kill()
		}
	}
	cmd.Wait()
	rd.Close()
	return
}

func TestKvCrash(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	n := tier(60, 600)
	var wg sync.WaitGroup
	work := make(chan int)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range work {
				kvCrash(sink, k)
			}
		}()
	}
	for k := 0; k < n; k++ {
		work <- k
	}
	close(work)
	wg.Wait()
}

func kvCrash(sink *Sink, k int) {
	r := newRand(int64(430000 + k))
	dir := fastDir()
	if k%4 == 3 { // on a disk too
		if d, err := os.MkdirTemp(scratch, "verif-kv-"); err == nil {
			os.RemoveAll(dir)
			dir = d
		}
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "x.db")
	ev := []any{}
	put := func(es ...KvEv) {
		for _, e := range es {
			ev = append(ev, e)
		}
	}
	items := pick(r, []int{1, 3, 8})
	for gen := 0; gen < 3; gen++ {
		cfg := map[string]any{"Path": path, "Mode": "work", "Seed": r.Int63(), "Gors": pick(r, []int{1, 1, 2, 3}), "Calls": pick(r, []int{5, 40, 400}), "Items": items, "Exit": pick(r, []string{"exit", "return"})}
		after, lines := time.Duration(0), 0
		switch r.Intn(4) {
		case 0: // it ends by itself
		case 1:
			after = time.Duration(r.Intn(30000)) * time.Microsecond
		default:
			lines = 1 + r.Intn(60)
		}
		if lines == 0 && after == 0 {
			cfg["Calls"] = pick(r, []int{5, 40})
		}
		ls, killed := child(cfg, lines, after)
		renumber := map[int]int{}
		base := 1000 * (gen + 1)
		for i := range ls {
			if ls[i].Op == "begin" || ls[i].Op == "end" {
				if _, ok := renumber[ls[i].N]; !ok {
					renumber[ls[i].N] = base + len(renumber)
				}
				ls[i].N = renumber[ls[i].N]
			}
			if ls[i].Op == "open" {
				ls[i].Want = "ok"
			}
		}
		put(ls...)
		put(KvEv{Op: "crash"})
		_ = killed
		// while one process has it open, nobody else can open it
		if r.Intn(6) == 0 {
			hold, release := holdOpen(path)
			put(KvEv{Op: "open", Res: hold, Want: "ok"})
			if hold == "ok" {
				d, _ := child(map[string]any{"Path": path, "Mode": "dump", "Items": 0}, 0, 0)
				if len(d) > 0 {
					d[0].Want = "error"
					put(d[0])
				}
				release()
			}
		}
		d, _ := child(map[string]any{"Path": path, "Mode": "dump", "Items": items}, 0, 0)
		if len(d) == 0 {
			d = []KvEv{{Op: "open", Res: "no answer"}}
		}
		d[0].Want = "ok"
		put(d...)
		// nothing else lies around that a restart would have to find
		_ = filepath.WalkDir(dir, func(string, fs.DirEntry, error) error { return nil })
	}
	sink.put("crash", "", ev)
}

// holdOpen starts a process that keeps the file open until released.
func holdOpen(path string) (res string, release func()) {
	b, _ := json.Marshal(map[string]any{"Path": path, "Mode": "hold"})
	rd, wr, _ := os.Pipe()
	cmd := exec.Command(os.Args[0], "-test.run", "^TestKvChild$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(b), "VERIF_OUT=")
	cmd.ExtraFiles = []*os.File{wr}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	wr.Close()
	sc := bufio.NewScanner(rd)
	res = "no answer"
	if sc.Scan() {
		var e KvEv
		if json.Unmarshal(sc.Bytes(), &e) == nil {
			res = e.Res
		}
	}
	return res, func() { cmd.Process.Kill(); cmd.Wait(); rd.Close() }
}
