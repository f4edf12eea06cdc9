package verifharness

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	stdio "io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// Histories that began with an earlier build of the library. TestSystemRecord writes them (it is
// run by hand, with the harness built against the library as it was found, see bin/record_old.sh);
// TestSystemOld continues them with the library at hand, over the storage the earlier build left
// behind. Both halves together have to be one history of System.

type oldItem struct {
	Id   []byte
	DT   uint16
	Data []byte
}

type oldHistory struct {
	Kind      string
	End       int64 // seconds since the start
	Keys      key.Keys
	Conf      id.StandaloneConfig
	Names     map[string]map[string][]byte
	Events    []json.RawMessage
	Items     []oldItem
	File      []byte
	Users     []string
	Groups    []string
	Objs      []string
	Toks      []string
	Sealed    []string
	PwOf      map[string]string
	TokOf     map[string]string
	Kws       []string
	StartUnix int64
}

func (s *wholeSys) allNames() map[string]*Names {
	return map[string]*Names{"ids": s.ids, "logins": s.logins, "pws": s.pws, "oids": s.oids, "pays": s.pays, "kws": s.kws, "its": s.its, "tkns": s.tkns}
}

// populate leaves something of every kind behind.
func (s *wholeSys) populate() {
	for len(s.users) < 4 {
		s.newUser()
	}
	for i := 0; i < 4; i++ {
		if r := s.call(SysEv{Op: "NewGroup", Tok: s.tokOf[s.users[i%2]], Sc: s.scopes()}); r.Res == "ok" {
			s.groups = append(s.groups, r.New)
		}
	}
	for _, n := range []int{0, 1, 15, 16, 100, 1000, 3000} {
		if r := s.call(SysEv{Op: "Encrypt", Tok: s.tokOf[pick(s.r, s.users)], Pay: s.pays.add(string(randBytes(s.r, n))), Gs: subset(s.r, append(append([]string{}, s.groups...), s.users...), 0.4)}); r.Res == "ok" {
			s.objs = append(s.objs, r.New)
		}
	}
	for i := 0; i < 14; i++ {
		s.call(SysEv{Op: "Add", Tok: s.tokOf[pick(s.r, s.users)], Kw: pick(s.r, []string{"k1", "k1", "k2", "k3"}), It: pick(s.r, []string{"e1", "e2", "e3"})})
	}
	for _, n := range []int{0, 1, 40} {
		s.call(SysEv{Op: "CreateToken", Pay: s.pays.add(string(randBytes(s.r, n)))})
	}
}

func TestSystemRecord(t *testing.T) {
	out := os.Getenv("VERIF_RECORD")
	if out == "" {
		t.Skip("VERIF_RECORD is not set")
	}
	sink := newSink(t)
	defer sink.close(t)
	parallel(t, 12, func(t *testing.T, k int) {
		s := newWholeSys(newRand(int64(990000+k)), []string{"map", "bolt"}[k%2])
		defer s.st.done()
		for i, x := range []string{"keyword", "Größe 数", strings.Repeat("long keyword ", 30), fmt.Sprint("kw", k)} {
			s.kws.bind(fmt.Sprint("k", i+1), x)
		}
		for i, x := range []string{"", "identifier", strings.Repeat("<&>\"\\\u2028", 20)} {
			s.its.bind(fmt.Sprint("e", i+1), x)
		}
		s.pays.bind("c1", "first")
		s.plain = true
		s.populate()
		for len(s.ev) < 90+5*k {
			s.step()
		}
		if k%4 < 2 {
			for _, u := range s.users {
				s.login(u)
			}
			s.call(SysEv{Op: "CreateToken", Pay: s.pays.add("at the end")})
		}
		h := oldHistory{Kind: s.st.name, End: int64(time.Since(s.t0) / time.Second), Keys: s.keys, Conf: s.conf, Names: map[string]map[string][]byte{},
			Users: s.users, Groups: s.groups, Objs: s.objs, Toks: s.toks, Sealed: sortedKeys(s.sealed), PwOf: s.pwOf, TokOf: s.tokOf, StartUnix: s.t0.Unix()}
		for kind, n := range s.allNames() {
			h.Names[kind] = map[string][]byte{}
			for name, v := range n.byName {
				h.Names[kind][name] = []byte(v)
			}
		}
		for _, e := range s.ev {
			b, err := json.Marshal(e)
			if err != nil {
				t.Fatal(err)
			}
			h.Events = append(h.Events, b)
		}
		if s.st.path != "" {
			b, err := os.ReadFile(s.st.path)
			if err != nil {
				t.Fatal(err)
			}
			h.File = b
		} else {
			for k, v := range s.st.p.(*FStore).data {
				h.Items = append(h.Items, oldItem{[]byte(k.id), uint16(k.dt), v})
			}
			sort.Slice(h.Items, func(i, j int) bool { return bytes.Compare(h.Items[i].Id, h.Items[j].Id) < 0 })
		}
		b, err := json.Marshal(h)
		if err != nil {
			t.Fatal(err)
		}
		f, err := os.Create(filepath.Join(out, fmt.Sprintf("%02d.json.gz", k)))
		if err != nil {
			t.Fatal(err)
		}
		z := gzip.NewWriter(f)
		z.Write(b)
		if z.Close() != nil || f.Close() != nil {
			t.Fatal("cannot write")
		}
		sink.put("old", s.st.name, s.ev)
	})
}

func loadOld(t *testing.T, file string) *oldHistory {
	f, err := os.Open(file)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	b, err := stdio.ReadAll(z)
	if err != nil {
		t.Fatal(err)
	}
	h := &oldHistory{}
	if err := json.Unmarshal(b, h); err != nil {
		t.Fatal(err)
	}
	return h
}

// resume sets up a system as the recorded history left it.
func (h *oldHistory) resume(k int, kind string) *wholeSys {
	time.Sleep(time.Until(time.Unix(h.StartUnix+h.End, 0)))
	s := &wholeSys{r: newRand(int64(395000 + k)), t0: time.Unix(h.StartUnix, 0), sealed: map[string]data.SealedToken{}, pwOf: h.PwOf, tokOf: h.TokOf,
		ids: newNames("i"), logins: newNames("l"), pws: newNames("p"), oids: newNames("o"), pays: newNames("c"), kws: newNames("k"), its: newNames("e"), tkns: newNames("t"),
		keys: h.Keys, conf: h.Conf, users: h.Users, groups: h.Groups, objs: h.Objs, toks: h.Toks}
	for kind, n := range s.allNames() {
		for name, v := range h.Names[kind] {
			n.bind(name, string(v))
		}
	}
	for _, x := range h.Sealed {
		s.sealed[x] = data.SealedToken{}
	}
	for _, e := range h.Events {
		s.ev = append(s.ev, e)
	}
	if h.File != nil {
		s.st = &sysStore{name: kind, dir: fastDir()}
		s.st.path = filepath.Join(s.st.dir, "0.db")
		if err := os.WriteFile(s.st.path, h.File, 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	} else {
		s.st = newSysStore(kind)
		for _, i := range h.Items {
			if err := s.st.p.Put(context.Background(), i.Id, io.DataType(i.DT), i.Data); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	return s
}

// open makes instances over the old storage.
func (s *wholeSys) open(kind string) error {
	if s.st.p == nil {
		b, err := io.NewBolt(s.st.path)
		if err != nil {
			return err
		}
		s.st.p = &b
		if kind == "proxy of bolt" {
			p := io.NewProxy(&b)
			s.st.p = &p
		}
	}
	p, err := id.NewStandalone(s.conf, s.st.p)
	if err != nil {
		return err
	}
	kp := key.NewStatic(s.keys)
	d, err := d1.New(context.Background(), &kp, s.st.p, &p)
	if err != nil {
		return err
	}
	ix, err := index.NewSecureIndex(context.Background(), &kp, s.st.p, &p)
	if err != nil {
		return err
	}
	s.insts = append(s.insts, sysInst{&p, &d, &ix})
	return nil
}

// observe asks for everything that is stored.
func (s *wholeSys) observe() {
	for _, u := range s.users {
		s.login(u)
	}
	for _, tok := range s.toks {
		s.call(SysEv{Op: "Identity", Tok: tok})
	}
	for _, o := range s.objs {
		for _, u := range s.users {
			if tok, ok := s.tokOf[u]; ok {
				s.call(SysEv{Op: pick(s.r, []string{"Decrypt", "GetAccessGroups"}), Tok: tok, Oid: o})
			}
		}
	}
	for _, kw := range sortedKeys(s.kws.byName) {
		s.call(SysEv{Op: "Search", Tok: s.tokOf[pick(s.r, s.users)], Kw: kw})
	}
	for _, x := range sortedKeys(s.sealed) {
		s.call(SysEv{Op: "OpenToken", Pay: x})
	}
}

func TestSystemOld(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	files, err := filepath.Glob(filepath.Join(os.Getenv("VERIF_OLD"), "*.json.gz"))
	if err != nil || len(files) == 0 {
		t.Fatal("no recorded histories")
	}
	parallel(t, len(files)*tier(3, 24), func(t *testing.T, k int) {
		h := loadOld(t, files[k%len(files)])
		kind := sysKinds[(k+k/len(files))%len(sysKinds)]
		if h.File != nil {
			kind = []string{"bolt", "proxy of bolt"}[k/len(files)%2]
		}
		s := h.resume(k, kind)
		defer s.st.done()
		opened := SysEv{Op: "Restart", Gs: []string{}, Sc: []string{}, Olist: []string{}, Osc: []string{}, Ogr: []GrpOut{}}
		if opened.Res = guarded(func() {
			if err := s.open(kind); err != nil {
				opened.Opay = err.Error()
			}
		}); opened.Res != "" || opened.Opay != "" {
			opened.Res = "error"
		}
		s.ev = append(s.ev, opened)
		if opened.Res != "" {
			sink.put("old", kind, s.ev)
			return
		}
		if s.r.Intn(2) == 0 {
			s.observe()
		}
		for n := len(s.ev) + tier(100, 250); len(s.ev) < n; {
			s.step()
		}
		s.observe()
		sink.put("old", kind, s.ev)
	})
}
