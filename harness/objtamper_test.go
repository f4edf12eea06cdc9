package verifharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/io"
)

// ---- editing stored records --------------------------------------------------------------------

// fieldsOf decodes a stored record into its byte-string fields; ok is false if it has another form.
func fieldsOf(raw []byte) (map[string]any, bool) {
	m := map[string]any{}
	if json.Unmarshal(raw, &m) != nil {
		return nil, false
	}
	return m, true
}

func getField(raw []byte, f string) ([]byte, bool) {
	m, ok := fieldsOf(raw)
	if !ok {
		return nil, false
	}
	v, has := m[f]
	if !has {
		return nil, false
	}
	if v == nil {
		return []byte{}, true
	}
	s, ok := v.(string)
	if !ok {
		return nil, false
	}
	var b []byte
	if json.Unmarshal([]byte(`"`+s+`"`), &b) != nil {
		return nil, false
	}
	return b, true
}

func setField(raw []byte, f string, v []byte) ([]byte, bool) {
	m, ok := fieldsOf(raw)
	if !ok {
		return nil, false
	}
	if _, has := m[f]; !has {
		return nil, false
	}
	m[f] = v
	out, err := json.Marshal(m)
	return out, err == nil
}

// damage returns b with something changed: a bit, a byte more or less, a part missing or exchanged.
func damage(r *rand.Rand, b []byte) []byte {
	for {
		c := append([]byte{}, b...)
		switch r.Intn(8) {
		case 0, 1, 2:
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= 1 << r.Intn(8)
			}
		case 3:
			if len(c) > 0 {
				c = c[:r.Intn(len(c))]
			}
		case 4:
			c = append(c, byte(r.Intn(256)))
		case 5:
			if len(c) > 0 {
				c = c[1+r.Intn(len(c)):]
			}
		case 6:
			x := make([]byte, 8)
			r.Read(x)
			c = append(x[:1+r.Intn(8)], c...)
		case 7:
			if len(c) > 1 {
				i, j := r.Intn(len(c)), r.Intn(len(c))
				c[i], c[j] = c[j], c[i]
			}
		}
		if !bytes.Equal(c, b) {
			return c
		}
	}
}

// hollow returns records like raw with nothing, or nothing meaningful, in the place of what is sealed.
func hollow(raw []byte) [][]byte {
	out := [][]byte{{}, []byte("null"), []byte("{}"), []byte("[]"), []byte(`""`), []byte("0"), []byte(`{"Ciphertext":"","WrappedKey":""}`), []byte(`{"Ciphertext":null,"WrappedKey":null}`)}
	for _, fs := range [][]string{{"Ciphertext"}, {"WrappedKey"}, {"Ciphertext", "WrappedKey"}} {
		for _, v := range []any{"remove", nil, "", []byte{0}, make([]byte, 16), make([]byte, 28), make([]byte, 40), make([]byte, 64), 0, []int{}} {
			m, ok := fieldsOf(raw)
			if !ok {
				continue
			}
			changed := false
			for _, f := range fs {
				if x, has := m[f]; !has || x == nil || x == "" {
					continue
				}
				changed = true
				if m[f] = v; v == "remove" {
					delete(m, f)
				}
			}
			if b, err := json.Marshal(m); err == nil && changed {
				out = append(out, b)
			}
		}
	}
	return out
}

// ---- tampering with object records -------------------------------------------------------------

type objVer struct{ obj, acc []byte }

func (s *ObjSys) key16(oid string) []byte { return []byte(s.oids.val(oid)) }

func (s *ObjSys) save(ver, oid string, vers map[string]objVer) {
	var v objVer
	if o, ok := s.st.raw(s.key16(oid), io.DataTypeSealedObject); ok {
		v.obj = o
	}
	if a, ok := s.st.raw(s.key16(oid), io.DataTypeSealedAccess); ok {
		v.acc = a
	}
	vers[ver] = v
	s.ev = append(s.ev, s.blank("Save", oid, "", ver))
}

func (s *ObjSys) blank(op, oid, field, ver string) ObjEv {
	return ObjEv{Op: op, Ident: Ident{}.norm(), Oid: oid, Gs: []string{}, OGs: []string{}, Field: field, Ver: ver}
}

// tamper edits the stored records of oid; it returns false (and records nothing) if the edit is
// impossible in this state.
func (s *ObjSys) tamper(oid, field string, src objVer, ver string) bool {
	k := s.key16(oid)
	obj, hasO := s.st.raw(k, io.DataTypeSealedObject)
	acc, hasA := s.st.raw(k, io.DataTypeSealedAccess)
	if !hasO {
		obj = nil
	}
	if !hasA {
		acc = nil
	}
	// what an adversary moves may carry either ID in the record itself
	retarget := func(raw []byte) []byte {
		if raw != nil && s.r.Intn(2) == 0 {
			if m, ok := fieldsOf(raw); ok {
				if _, has := m["OID"]; has {
					m["OID"] = uuid.FromBytesOrNil(k).String()
					raw, _ = json.Marshal(m)
				}
			}
		}
		return raw
	}
	move := func(dst *[]byte, from []byte, f string) bool {
		if *dst == nil || from == nil {
			return false
		}
		v, ok := getField(from, f)
		if !ok {
			return false
		}
		n, ok := setField(*dst, f, v)
		*dst = n
		return ok
	}
	// Only values the library itself wrote are damaged, and never into another such value, so that
	// "junk" is junk for certain.
	junk := func(dst *[]byte, f string) bool {
		if *dst == nil {
			return false
		}
		v, ok := getField(*dst, f)
		if !ok || !s.genuine[f+string(v)] {
			return false
		}
		w := damage(s.r, v)
		for s.genuine[f+string(w)] {
			w = damage(s.r, w)
		}
		n, ok := setField(*dst, f, w)
		*dst = n
		return ok
	}
	ok := true
	switch field {
	case "obj":
		obj = retarget(src.obj)
	case "acc":
		acc = retarget(src.acc)
	case "both":
		obj, acc = retarget(src.obj), retarget(src.acc)
	case "obj.ct":
		ok = move(&obj, src.obj, "Ciphertext")
	case "obj.ad":
		ok = move(&obj, src.obj, "AssociatedData")
	case "acc.ct":
		ok = move(&acc, src.acc, "Ciphertext")
	case "acc.wk":
		ok = move(&acc, src.acc, "WrappedKey")
	case "junk obj.ct":
		ok = junk(&obj, "Ciphertext")
	case "junk obj.ad":
		ok = junk(&obj, "AssociatedData")
	case "junk acc.ct":
		ok = junk(&acc, "Ciphertext")
	case "junk acc.wk":
		ok = junk(&acc, "WrappedKey")
	case "raw obj":
		if ok = obj != nil && s.genuine[string(obj)]; ok {
			if s.r.Intn(2) == 0 {
				obj = pick(s.r, hollow(obj))
			} else {
				obj = damage(s.r, obj)
			}
		}
	case "raw acc":
		if ok = acc != nil && s.genuine[string(acc)]; ok {
			if s.r.Intn(2) == 0 {
				acc = pick(s.r, hollow(acc))
			} else {
				acc = damage(s.r, acc)
			}
		}
	case "no obj":
		obj = nil
	case "no acc":
		acc = nil
	}
	if !ok {
		return false
	}
	s.st.setRaw(k, io.DataTypeSealedObject, obj)
	s.st.setRaw(k, io.DataTypeSealedAccess, acc)
	s.ev = append(s.ev, s.blank("Tamper", oid, field, ver))
	return true
}

// put stores given raw records under oid without recording anything (used with a recorded meaning).
func (s *ObjSys) put(oid string, v objVer) {
	s.st.setRaw(s.key16(oid), io.DataTypeSealedObject, v.obj)
	s.st.setRaw(s.key16(oid), io.DataTypeSealedAccess, v.acc)
}

var tamperFields = []string{"obj", "acc", "both", "obj.ct", "obj.ad", "acc.ct", "acc.wk"}
var junkFields = []string{"junk obj.ct", "junk obj.ad", "junk acc.ct", "junk acc.wk", "raw obj", "raw acc", "no obj", "no acc"}

func (s *ObjSys) tamperWorld(nobj int) (oids []string, vers map[string]objVer, names []string) {
	vers = map[string]objVer{}
	pool := []string{"a", "b", "g1", "g2"}
	s.nameIDs(pool)
	sv := func(oid string) {
		n := fmt.Sprintf("v%d", len(vers))
		s.save(n, oid, vers)
		names = append(names, n)
	}
	samePay, sameAd := s.newPay(), s.newAd()
	for i := 0; i < nobj; i++ {
		e := ObjEv{Op: "Encrypt", Ident: s.all(pool[i%2]), Pay: s.newPay(), Ad: s.newAd(), Gs: []string{pool[2+i%2]}}
		if s.r.Intn(2) == 0 { // contents alone must not decide
			e.Ad = sameAd
		}
		if s.r.Intn(4) == 0 {
			e.Pay = samePay
		}
		r := s.call(e)
		oids = append(oids, r.Oid)
		sv(r.Oid)
		s.call(ObjEv{Op: "AddGroupsToAccess", Ident: e.Ident, Oid: r.Oid, Gs: []string{"g1", "g2"}})
		sv(r.Oid)
		ad := e.Ad
		if s.r.Intn(2) == 0 {
			ad = s.newAd()
		}
		s.call(ObjEv{Op: "Update", Ident: e.Ident, Oid: r.Oid, Pay: s.newPay(), Ad: ad})
		sv(r.Oid)
		s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: e.Ident, Oid: r.Oid, Gs: []string{"g2"}})
		sv(r.Oid)
	}
	return
}

func (s *ObjSys) look(oid string) {
	all := []string{"a", "b", "g1", "g2"}
	me := s.all("a", all[1:]...)
	s.call(ObjEv{Op: "Decrypt", Ident: me, Oid: oid})
	s.call(ObjEv{Op: "GetAccessGroups", Ident: me, Oid: oid})
	s.call(ObjEv{Op: "Decrypt", Ident: s.all(pick(s.r, all)), Oid: oid})
	s.call(ObjEv{Op: "AuthorizeIdentity", Ident: s.all(pick(s.r, all)), Oid: oid})
}

func TestObjectsTamper(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)

	// every exchange of a record or field between every pair of saved versions of two objects
	for round := 0; round < tier(1, 6); round++ {
		base := newObjSys(newRand(int64(300 + round)))
		oids, vers, names := base.tamperWorld(2)
		prefix := append([]any{}, base.ev...)
		store := base.st.snapshot()
		for _, dst := range names {
			dstOid := oids[0]
			if idx := indexOf(names, dst); idx >= len(names)/2 {
				dstOid = oids[1]
			}
			s := base
			s.st.restore(store)
			s.ev = append([]any{}, prefix...)
			for _, src := range names {
				for _, f := range tamperFields {
					s.tamper(dstOid, "both", vers[dst], dst)
					if s.tamper(dstOid, f, vers[src], src) {
						s.look(dstOid)
						if s.r.Intn(3) == 0 { // keep working on the edited object
							me := s.all("a", "b", "g1", "g2")
							op := pick(s.r, []string{"Update", "AddGroupsToAccess", "RemoveGroupsFromAccess", "Delete"})
							e := ObjEv{Op: op, Ident: me, Oid: dstOid}
							if op == "Update" {
								e.Pay, e.Ad = s.newPay(), s.newAd()
							} else if op != "Delete" {
								e.Gs = []string{pick(s.r, []string{"a", "b", "g1", "g2"})}
							}
							s.call(e)
							s.look(dstOid)
						}
					}
				}
			}
			sink.put("tamper", "exchange into "+dst, s.ev)
		}
	}

	// every bit of every field of one object
	for round := 0; round < tier(1, 4); round++ {
		s := newObjSys(newRand(int64(4000 + round)))
		s.nameIDs([]string{"a", "b", "g1", "g2"})
		pay, ad := s.pays.add(string(randBytes(s.r, 5+40*round))), s.ads.add(string(randBytes(s.r, 4+9*round)))
		e := s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: pay, Ad: ad, Gs: []string{"g1"}})
		vers := map[string]objVer{}
		s.save("v", e.Oid, vers)
		prefix := append([]any{}, s.ev...)
		type loc struct {
			rec, f, name string
		}
		for _, lc := range []loc{{"obj", "Ciphertext", "junk obj.ct"}, {"obj", "AssociatedData", "junk obj.ad"}, {"acc", "Ciphertext", "junk acc.ct"}, {"acc", "WrappedKey", "junk acc.wk"}} {
			raw := vers["v"].obj
			if lc.rec == "acc" {
				raw = vers["v"].acc
			}
			val, ok := getField(raw, lc.f)
			if !ok {
				continue
			}
			var alts [][]byte
			for i := 0; i < 8*len(val); i++ {
				c := append([]byte{}, val...)
				c[i/8] ^= 1 << (i % 8)
				alts = append(alts, c)
			}
			for i := 0; i < len(val); i++ {
				alts = append(alts, val[:i])
			}
			for i := 0; i < 256; i += 51 {
				alts = append(alts, append(append([]byte{}, val...), byte(i)), append([]byte{byte(i)}, val...))
			}
			for len(alts) > 0 {
				n := min(len(alts), 60)
				s.ev = append([]any{}, prefix...)
				for _, alt := range alts[:n] {
					v := vers["v"]
					if lc.rec == "obj" {
						v.obj, ok = setField(v.obj, lc.f, alt)
					} else {
						v.acc, ok = setField(v.acc, lc.f, alt)
					}
					s.put(e.Oid, vers["v"])
					s.ev = append(s.ev, s.blank("Tamper", e.Oid, "both", "v"))
					s.put(e.Oid, v)
					s.ev = append(s.ev, s.blank("Tamper", e.Oid, lc.name, ""))
					s.call(ObjEv{Op: "Decrypt", Ident: s.all("a"), Oid: e.Oid})
					if lc.rec == "acc" {
						s.call(ObjEv{Op: "GetAccessGroups", Ident: s.all("a"), Oid: e.Oid})
					}
				}
				s.put(e.Oid, vers["v"])
				sink.put("tamper", "every bit of "+lc.name, s.ev)
				alts = alts[n:]
			}
		}
	}

	// large records: single bits, and everything from or up to a place, in every stretch of a field
	for round, n := range []int{70, 270, 530, 1100, 2100, 4200, 9000, 17000, 66000, 140000} {
		s := newObjSys(newRand(int64(4300 + round)))
		pool := append([]string{"a", "b", "g1", "g2"}, numbered("h", min(n/64, 300))...)
		s.nameIDs(pool)
		long := func() string { b := make([]byte, n+s.r.Intn(40)); s.r.Read(b); return string(b) }
		e := s.call(ObjEv{Op: "Encrypt", Ident: s.all("a"), Pay: s.pays.add(long()), Ad: s.ads.add(long()), Gs: append([]string{"g1"}, pool[4:]...)})
		vers := map[string]objVer{}
		s.save("v", e.Oid, vers)
		prefix := append([]any{}, s.ev...)
		for _, lc := range [][3]string{{"obj", "Ciphertext", "junk obj.ct"}, {"obj", "AssociatedData", "junk obj.ad"}, {"acc", "Ciphertext", "junk acc.ct"}} {
			raw := vers["v"].obj
			if lc[0] == "acc" {
				raw = vers["v"].acc
			}
			val, ok := getField(raw, lc[1])
			if !ok || len(val) == 0 {
				continue
			}
			at := []int{0, len(val) - 1, len(val) - 12, len(val) - 13, len(val) - 28, len(val) - 29, len(val) / 2}
			for p := 16; p < len(val); p *= 2 {
				at = append(at, p-1, p, p+s.r.Intn(p))
			}
			for i := 0; i < tier(6, 60); i++ {
				at = append(at, s.r.Intn(len(val)))
			}
			s.ev = append([]any{}, prefix...)
			for _, p := range at {
				if p < 0 || p >= len(val) {
					continue
				}
				alt := append([]byte{}, val...)
				switch s.r.Intn(6) {
				default:
					alt[p] ^= 1 << s.r.Intn(8)
				case 1:
					s.r.Read(alt[p:])
				case 2:
					alt = alt[:p]
				case 3:
					alt = append(alt[:p], val[min(len(val), p+1+s.r.Intn(16)):]...)
				}
				if bytes.Equal(alt, val) {
					continue
				}
				v := vers["v"]
				if lc[0] == "obj" {
					v.obj, ok = setField(v.obj, lc[1], alt)
				} else {
					v.acc, ok = setField(v.acc, lc[1], alt)
				}
				s.put(e.Oid, vers["v"])
				s.ev = append(s.ev, s.blank("Tamper", e.Oid, "both", "v"))
				s.put(e.Oid, v)
				s.ev = append(s.ev, s.blank("Tamper", e.Oid, lc[2], ""))
				s.call(ObjEv{Op: "Decrypt", Ident: s.all("a"), Oid: e.Oid})
				if lc[0] == "acc" {
					s.call(ObjEv{Op: "GetAccessGroups", Ident: s.all("a"), Oid: e.Oid})
				}
			}
			s.put(e.Oid, vers["v"])
			sink.put("tamper", "large "+lc[2], s.ev)
		}
	}

	// records presented under object IDs that differ little from their own
	for round := 0; round < tier(2, 8); round++ {
		s := newObjSys(newRand(int64(4500 + round)))
		oids, vers, names := s.tamperWorld(1)
		own := s.key16(oids[0])
		var alts [][]byte
		for i := 0; i < 128; i++ {
			c := append([]byte{}, own...)
			c[i/8] ^= 1 << (i % 8)
			alts = append(alts, c)
		}
		for i := 0; i < 12; i++ { // one part of the ID only
			c := make([]byte, 16)
			s.r.Read(c)
			n := 1 + s.r.Intn(15)
			if i%2 == 0 {
				copy(c, own[:n])
			} else {
				copy(c[n:], own[n:])
			}
			alts = append(alts, c)
		}
		alts = append(alts, make([]byte, 16))
		prefix := append([]any{}, s.ev...)
		for i, alt := range alts {
			if bytes.Equal(alt, own) {
				continue
			}
			dst := s.oids.add(string(alt))
			src := pick(s.r, names)
			s.st.setRaw(alt, io.DataTypeSealedObject, vers[src].obj)
			s.st.setRaw(alt, io.DataTypeSealedAccess, vers[src].acc)
			s.tamper(dst, "both", vers[src], src)
			s.look(dst)
			if i%8 == 0 {
				s.call(ObjEv{Op: "Update", Ident: s.all("a", "b", "g1", "g2"), Oid: dst, Pay: s.newPay(), Ad: s.newAd()})
				s.call(ObjEv{Op: "Delete", Ident: s.all("a", "b", "g1", "g2"), Oid: dst})
				s.look(dst)
			}
			if i%30 == 29 || i == len(alts)-1 {
				sink.put("tamper", "related IDs", s.ev)
				s.ev = append([]any{}, prefix...)
			}
		}
	}

	// random histories of calls and edits
	for k := 0; k < tier(120, 2500); k++ {
		s := newObjSys(newRand(int64(500000 + k)))
		oids, vers, names := s.tamperWorld(1 + s.r.Intn(3))
		pool := []string{"a", "b", "g1", "g2"}
		for i := 0; i < 40; i++ {
			o := pick(s.r, oids)
			switch s.r.Intn(6) {
			case 0:
				n := fmt.Sprintf("v%d", len(vers))
				s.save(n, o, vers)
				names = append(names, n)
			case 1:
				v := pick(s.r, names)
				s.tamper(o, pick(s.r, tamperFields), vers[v], v)
			case 2:
				f := pick(s.r, junkFields)
				if s.tamper(o, f, objVer{}, "") {
					s.look(o)
					if strings.HasPrefix(f, "raw") {
						v := pick(s.r, names)
						s.tamper(o, "both", vers[v], v)
					}
				}
			case 3:
				v := pick(s.r, names)
				s.tamper(o, "both", vers[v], v)
			default:
				e := s.randStep(pool, oids, objOps)
				if e.Op == "Encrypt" {
					e.Op, e.Oid = "Decrypt", o
					e.Gs = nil
				}
				s.call(e)
			}
		}
		sink.put("tamper", "random edits", s.ev)
	}
}

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
