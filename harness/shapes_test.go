package verifharness

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/data"
)

// Contents that programs like to trim, cut, compress, recognise or re-encode, at sizes where
// programs like to switch to another way of handling them.

var shapeSizes = []int{1, 2, 15, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000, 1024, 1025, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537}
var shapeBig = []int{1<<17 + 3, 1<<18 + 1, 1 << 20, 1<<20 + 1, 1<<21 + 9, 1<<22 + 5}

func shapes(r *rand.Rand, n int) map[string][]byte {
	noise := func() []byte { b := make([]byte, n); r.Read(b); return b }
	out := map[string][]byte{}
	tail := func(name string, t []byte) {
		b := noise()
		if len(t) > n {
			t = t[len(t)-n:]
		}
		copy(b[n-len(t):], t)
		out["ends with "+name] = b
	}
	head := func(name string, t []byte) {
		b := noise()
		copy(b, t)
		out["begins with "+name] = b
	}
	for _, c := range []byte{0, 0xff, ' ', '\n', '=', 0x80, 1} {
		name := fmt.Sprintf("%#x", c)
		tail(name, []byte{c})
		tail("many "+name, bytes.Repeat([]byte{c}, min(n, 40)))
		head(name, bytes.Repeat([]byte{c}, min(n, 1+r.Intn(20))))
		out["only "+name] = bytes.Repeat([]byte{c}, n)
	}
	tail("padding of 16", bytes.Repeat([]byte{16}, 16))
	tail("bit padding", append([]byte{0x80}, make([]byte, 14)...))
	tail("newline", []byte("\r\n"))
	tail("its length", []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	head("its length", []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	head("gzip", []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3})
	head("zlib", []byte{0x78, 0x9c})
	head("zstd", []byte{0x28, 0xb5, 0x2f, 0xfd})
	head("a byte order mark", []byte("\ufeff"))
	head("another byte order mark", []byte{0xff, 0xfe})
	fill := func(name, unit string) {
		out[name] = []byte(strings.Repeat(unit, n/len(unit)+1)[:n])
	}
	fill("text", "the quick brown fox jumps over the lazy dog\r\n")
	fill("JSON", `{"a":[1,2.50,"<&>\u0041",null],"Ciphertext":"AAAA","WrappedKey":""}`)
	fill("spaces", " ")
	fill("invalid UTF-8", "a\xff\xfeb\xed\xa0\x80")
	fill("accents", "e\u0301é")
	fill("escapes", `\n\u0000%41&lt;"'`)
	fill("nulls", "null")
	out["base64"] = []byte(base64.StdEncoding.EncodeToString(noise()))[:n]
	out["hex"] = []byte(hex.EncodeToString(noise()))[:n]
	out["digits"] = []byte(strings.Repeat("0", n))
	half := noise()
	out["two equal halves"] = append(append([]byte{}, half[:n/2]...), append(half[:n/2], half[n-n%2:]...)...)
	out["zeros in the middle"] = func() []byte { b := noise(); copy(b[n/3:2*n/3], make([]byte, n)); return b }()
	out["noise"] = noise()
	return out
}

// eachShape calls f with every shape of the small sizes and some of the big ones.
func eachShape(r *rand.Rand, small []int, big int, f func(name string, b []byte)) {
	sizes := append([]int{}, small...)
	for i := 0; i < big; i++ {
		sizes = append(sizes, shapeBig[(int(seed)+i)%len(shapeBig)])
	}
	for _, n := range sizes {
		all := shapes(r, n)
		names := []string{}
		for name := range all {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			f(fmt.Sprintf("%d bytes, %s", n, name), all[name])
		}
	}
}

func TestObjectsShapes(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(363000)
	k := 0
	eachShape(r, shapeSizes, tier(1, 6), func(name string, b []byte) {
		k++
		s := newObjSys(newRand(int64(363001 + k)))
		s.names.bind("me", "owner")
		pay, ad := s.pays.add(string(b)), s.newAd()
		if len(b) < 1<<17 && k%3 > 0 { // the same as associated data
			ad = s.ads.add(string(b))
		}
		small := s.newPay()
		oid := s.call(ObjEv{Op: "Encrypt", Ident: s.all("me"), Pay: pay, Ad: ad}).Oid
		s.call(ObjEv{Op: "Decrypt", Ident: s.all("me"), Oid: oid})
		s.call(ObjEv{Op: "Update", Ident: s.all("me"), Oid: oid, Pay: small, Ad: s.newAd()})
		s.call(ObjEv{Op: "Decrypt", Ident: s.all("me"), Oid: oid})
		s.call(ObjEv{Op: "Update", Ident: s.all("me"), Oid: oid, Pay: pay, Ad: ad})
		s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("me"), Oid: oid, Gs: []string{"me"}})
		s.call(ObjEv{Op: "Decrypt", Ident: s.all("me"), Oid: oid})
		sink.put("seq", name, s.ev)
	})
}

func TestTokensShapes(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	synctest.Test(t, func(t *testing.T) {
		s := newTokSys(newRand(364000), []string{"k1", "k2"})
		r := newRand(364001)
		n := 0
		eachShape(r, shapeSizes, tier(0, 2), func(name string, b []byte) {
			if len(b) < 1 {
				return
			}
			s.create(s.pays.add(string(b)), "k1", data.TokenValidity)
			n++
			tok := s.toks[n-1]
			s.present(tok.ExpiryTime, n, n, "k1", vias[n%len(vias)])
			if n%4 == 0 {
				s.encode(n)
				time.Sleep(time.Second)
			}
			if n%40 == 0 {
				sink.put("seq", name, s.ev)
				s, n = newTokSys(newRand(int64(364000+len(b))), []string{"k1", "k2"}), 0
			}
		})
		sink.put("seq", "last", s.ev)
	})
}

func TestKvShapes(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	for k, p := range providers() {
		r := newRand(int64(365000 + k))
		s := &kvSys{r: r, p: p.p, vals: newNames("v")}
		items := s.makeItems(3, 0)
		n := 0
		eachShape(r, shapeSizes, tier(0, 2), func(name string, b []byte) {
			n++
			v := s.vals.add(string(b))
			i := items[n%3]
			s.do("Delete", i, "")
			s.do("Put", i, v)
			s.do("Get", i, "")
			s.do("Update", items[(n+1)%3], v)
			s.do("Get", items[(n+1)%3], "")
			s.do("Get", i, "")
			if len(s.ev) > 300 {
				s.do("Delete", items[0], "")
				s.do("Delete", items[1], "")
				s.do("Delete", items[2], "")
				sink.put("seq", p.name, s.ev)
				s = &kvSys{r: r, p: p.p, vals: newNames("v"), items: s.items}
			}
		})
		sink.put("seq", p.name, s.ev)
		p.done()
	}
}

// keywords, identifiers and names of every shape
func TestIndexShapes(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(366000)
	k := 0
	eachShape(r, []int{1, 16, 33, 256, 1025, 4097, 16385, 65537}, tier(0, 1), func(name string, b []byte) {
		k++
		s := newIdxSys(newRand(int64(366001 + k)))
		s.kws.bind("k", "a keyword")
		s.ids.bind("i", "an identifier")
		kw, x := s.kws.add(string(b)), s.ids.add(string(b))
		near := append([]byte{}, b...)
		near[len(near)-1] ^= 1
		kw2, x2 := s.kws.add(string(near)), s.ids.add(string(near))
		for _, c := range [][2]string{{kw, x}, {kw, x2}, {kw2, x}, {kw, "i"}, {"k", x}, {"k", x2}, {kw, x}} {
			s.do("Add", c[0], c[1])
		}
		for _, c := range []string{kw, kw2, "k"} {
			s.do("Search", c, "")
		}
		s.do("Delete", kw, x)
		s.do("Search", kw, "")
		s.do("Delete", "k", x2)
		for _, c := range []string{kw, kw2, "k"} {
			s.do("Search", c, "")
		}
		sink.put("seq", name, s.ev)
	})
}
