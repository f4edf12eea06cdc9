package verifharness

import (
	"bytes"
	stdsha3 "crypto/sha3"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf8"

	jsoniter "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/crypto"
)

// ---- Keccak, written from FIPS 202, as the oracle's only primitive ------------------------------

func keccakF(a *[25]uint64) {
	rotl := func(x uint64, n uint) uint64 { return x<<(n%64) | x>>((64-n%64)%64) }
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rotl(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], rotl(cur, uint((t+1)*(t+2)/2))
		}
		for y := 0; y < 5; y++ {
			var r [5]uint64
			copy(r[:], a[5*y:5*y+5])
			for x := 0; x < 5; x++ {
				a[x+5*y] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		for j := 0; j < 7; j++ {
			bit := lfsr & 1
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
			if bit == 1 {
				a[0] ^= 1 << (1<<uint(j) - 1)
			}
		}
	}
}

func sponge(rate int, domain byte, msg []byte, n int) []byte {
	m := append(append([]byte{}, msg...), domain)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] ^= 0x80
	var a [25]uint64
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate; i++ {
			a[i/8] ^= uint64(m[i]) << (8 * (i % 8))
		}
		keccakF(&a)
	}
	out := []byte{}
	for {
		for i := 0; i < rate; i++ {
			if len(out) == n {
				return out
			}
			out = append(out, byte(a[i/8]>>(8*(i%8))))
		}
		keccakF(&a)
	}
}

func checkSponge() {
	for _, n := range []int{0, 1, 135, 136, 137, 500} {
		m := bytes.Repeat([]byte{0xa3}, n)
		if !bytes.Equal(sponge(136, 0x1f, m, 300), stdsha3.SumSHAKE256(m, 300)) || !bytes.Equal(sponge(168, 0x1f, m, 300), stdsha3.SumSHAKE128(m, 300)) {
			panic("harness: Keccak is wrong")
		}
	}
}

// ---- KMAC --------------------------------------------------------------------------------------

type KmCase struct {
	W    int   `json:"w"`
	KLen int   `json:"klen"`
	SLen int   `json:"slen"`
	Tag  int   `json:"tag"`
	A    []int `json:"a"`
	AZ   int   `json:"az"`
	B    []int `json:"b"`
	BZ   int   `json:"bz"`
	E    []int `json:"e"`
}

type KmEv struct {
	Op   string `json:"op"`
	Fn   string `json:"fn"`
	W    int    `json:"w"`
	SLen int    `json:"slen"`
	Inp  string `json:"inp"`
	Out  string `json:"out"`
	Exp  string `json:"exp"`
	Alt  string `json:"alt"`
	Mut  bool   `json:"mut"`
	C    string `json:"c"`
	Msg  string `json:"msg"`
	N    int    `json:"n"`
	Want int    `json:"want"`
	Bs   int    `json:"bs"`
}

func bytesOf(xs []int) []byte {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte(x)
	}
	return b
}

// expected digest of the string the specification prescribes; extra is for the alternative with a
// superfluous block of padding after the customization string.
func (c KmCase) digest(k, s, x []byte, extra int) []byte {
	if len(k) != c.KLen || len(s) != c.SLen {
		panic("harness: frame for other lengths")
	}
	m := append(bytesOf(c.A), s...)
	m = append(m, make([]byte, c.AZ+extra)...)
	m = append(m, bytesOf(c.B)...)
	m = append(m, k...)
	m = append(m, make([]byte, c.BZ)...)
	m = append(m, x...)
	m = append(m, bytesOf(c.E)...)
	return sponge(c.W, 0x04, m, c.Tag)
}

type kmSys struct {
	r    *rand.Rand
	outs *Names
	ins  *Names
	ev   []any
}

func (s *kmSys) in(w int, k, cs, x []byte, tag int) string {
	return s.ins.add(fmt.Sprintf("%d %x|%x|%x|%d", w, k, cs, x, tag))
}

// split a message into writes
func pieces(r *rand.Rand, x []byte) [][]byte {
	out := [][]byte{}
	for len(x) > 0 {
		n := 1 + r.Intn(len(x))
		switch r.Intn(5) {
		case 0:
			n = 1
		case 1:
			n = min(len(x), 136)
		case 2:
			out = append(out, []byte{})
		}
		out = append(out, x[:n])
		x = x[n:]
	}
	return out
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func (s *kmSys) mac(fn string, w int, k, cs, x []byte, tag int, c *KmCase) {
	kk, ks := spare(k, s.r.Intn(9))
	sk, ss := spare(cs, s.r.Intn(9))
	k0, s0 := clone(ks), clone(ss)
	x0 := clone(x)
	var out []byte
	pan := guarded(func() {
		switch fn {
		case "kdf":
			out = crypto.KMACKDF(tag, kk, sk, pieces(s.r, x)...)
		default:
			var h hash.Hash
			if w == 168 {
				h = crypto.NewKMAC128(kk, tag, sk)
			} else {
				h = crypto.NewKMAC256(kk, tag, sk)
			}
			if s.r.Intn(4) == 0 { // the arguments are the caller's again
				for i := range ks {
					ks[i] ^= 0xff
				}
				copy(k0, ks)
			}
			junk := s.r.Intn(4) == 0
			if junk {
				h.Write([]byte("something else"))
				h.Reset()
			}
			for _, p := range pieces(s.r, x) {
				if n, err := h.Write(p); n != len(p) || err != nil {
					panic("short write")
				}
				if s.r.Intn(6) == 0 {
					h.Sum(nil)
				}
			}
			out = h.Sum(nil)
		}
	})
	e := KmEv{Op: "mac", Fn: fn, W: w, SLen: len(cs), Inp: s.in(w, k, cs, x, tag), Out: s.outs.add(string(out)),
		Mut: !bytes.Equal(ks, k0) || !bytes.Equal(ss, s0) || !bytes.Equal(x, x0)}
	if pan != "" {
		e.Out = pan
	}
	if c != nil {
		e.Exp = s.outs.add(string(c.digest(k, cs, x, 0)))
		e.Alt = s.outs.add(string(c.digest(k, cs, x, w)))
	}
	s.ev = append(s.ev, e)
}

func flipped(r *rand.Rand, b []byte) []byte {
	c := clone(b)
	if len(c) > 0 {
		c[r.Intn(len(c))] ^= 1 << r.Intn(8)
	}
	return c
}

func TestKmacCases(t *testing.T) {
	checkSponge()
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[KmCase](t) {
		s := &kmSys{r: newRand(int64(500000 + wi)), outs: newNames("o"), ins: newNames("i")}
		for i, c := range w {
			k, cs := make([]byte, c.KLen), make([]byte, c.SLen)
			s.r.Read(k)
			if i%7 != 0 {
				s.r.Read(cs)
			}
			x := randBytes(s.r, pick(s.r, []int{0, 1, 8, 31, 135, 136, 137, 167, 168, 169, 272, 500}))
			s.mac("kmac", c.W, k, cs, x, c.Tag, &c)
			if c.W == 136 && i%2 == 0 {
				s.mac("kdf", c.W, k, cs, x, c.Tag, &c)
			}
			if i%6 == 0 && c.KLen < 2000 && c.SLen < 2000 {
				// close relatives: one bit, bytes moved over a border, zero bytes added
				s.mac("kmac", c.W, flipped(s.r, k), cs, x, c.Tag, nil)
				s.mac("kmac", c.W, append(clone(k), 0), cs, x, c.Tag, nil)
				s.mac("kmac", c.W, append(clone(k), x...), cs, nil, c.Tag, nil)
				s.mac("kmac", c.W, k, append(clone(cs), 0), x, c.Tag, nil)
				s.mac("kmac", c.W, k, flipped(s.r, cs), x, c.Tag, nil)
				s.mac("kmac", c.W, k, cs, flipped(s.r, x), c.Tag, nil)
				s.mac("kmac", c.W, k, cs, append(clone(x), 0), c.Tag, nil)
				s.mac("kmac", c.W, k, cs, append(clone(x), byte(c.Tag*8>>8), byte(c.Tag*8), 2), c.Tag, nil)
				s.mac("kmac", c.W, k, cs, x, c.Tag+1, nil)
				s.mac("kmac", c.W, k, nil, append(clone(cs), x...), c.Tag, nil)
				s.mac("kmac", 304-c.W, append(make([]byte, 0), append(clone(k), make([]byte, 32)...)...), cs, x, c.Tag, nil)
				s.mac("kdf", 136, append(clone(k), make([]byte, 32)...), cs, x, c.Tag, nil)
			}
		}
		sink.put("cases", "", s.ev)
	}
}

// the frame the driver builds its expectations with; compared with the specification's by TLC
func kmFrame(w, klen, slen, tag int) *KmCase {
	le := func(n int) []int {
		out := []int{n & 255}
		for n >>= 8; n > 0; n >>= 8 {
			out = append([]int{n & 255}, out...)
		}
		return append([]int{len(out)}, out...)
	}
	a := append(append(append(le(w), le(32)...), 75, 77, 65, 67), le(8*slen)...)
	b := append(le(w), le(8*klen)...)
	e := le(8 * tag)
	e = append(e[1:], e[0])
	return &KmCase{W: w, KLen: klen, SLen: slen, Tag: tag, A: a, AZ: (w - (len(a)+slen)%w) % w, B: b, BZ: (w - (len(b)+klen)%w) % w, E: e}
}

type kmFrameEv struct {
	Op string `json:"op"`
	F  KmCase `json:"f"`
}

type KmStep struct {
	Op string `json:"op"`
	C  string `json:"c"`
}

// every sequence of calls on one MAC object
func TestKmacSeq(t *testing.T) {
	checkSponge()
	sink := newSink(t)
	defer sink.close(t)
	for wi, w := range loadWalks[KmStep](t) {
		for v := 0; v < tier(4, 8); v++ {
			r := newRand(int64(510000 + wi*10 + v))
			c := kmFrame(pick(r, []int{136, 168}), pick(r, []int{32, 33, 64, 200}), pick(r, []int{0, 1, 20, 40}), pick(r, []int{8, 32, 33, 136, 300}))
			k, cs := randBytes(r, c.KLen), randBytes(r, c.SLen)
			outs := newNames("o")
			blocks := map[byte][]byte{'a': randBytes(r, 1), 'b': randBytes(r, pick(r, []int{67, 136, 168})), 'c': randBytes(r, pick(r, []int{135, 137, 400}))}
			cat := func(names string) []byte {
				out := []byte{}
				for i := 0; i < len(names); i++ {
					out = append(out, blocks[names[i]]...)
				}
				return out
			}
			mk := func() hash.Hash {
				if c.W == 168 {
					return crypto.NewKMAC128(k, c.Tag, cs)
				}
				return crypto.NewKMAC256(k, c.Tag, cs)
			}
			h, other := mk(), mk() // another object with the same parameters is used in between
			ev := []any{kmFrameEv{"frame", *c}}
			msg := ""
			for _, st := range w {
				e := KmEv{Op: st.Op, W: c.W, SLen: c.SLen, C: st.C, Want: c.Tag}
				pan := guarded(func() {
					other.Write([]byte{byte(len(ev))})
					switch st.Op {
					case "Write":
						h.Write(cat(st.C))
						msg += st.C
					case "Reset":
						h.Reset()
						msg = ""
					case "Size":
						e.N, e.Bs = h.Size(), h.BlockSize()
					case "Sum":
						var pre, full []byte
						if st.C == "p" {
							pre, full = spare([]byte("prefix"), r.Intn(2)*(c.Tag+r.Intn(9)))
						}
						before := clone(full)
						out := h.Sum(pre)
						e.Msg = msg
						e.Exp = outs.add(string(c.digest(k, cs, cat(msg), 0)))
						e.Mut = !bytes.HasPrefix(out, pre) || (len(full) > 0 && !bytes.Equal(full[:len(pre)], before[:len(pre)]))
						e.Out = outs.add(strings.TrimPrefix(string(out), string(pre)))
					}
				})
				if pan != "" {
					e.Out = pan
				}
				ev = append(ev, e)
			}
			sink.put("seq", "", ev)
		}
	}
}

// a name for the data that only equal data have
func tagInput(d any) string {
	switch x := d.(type) {
	case string:
		return `"` + x + `"`
	case []byte:
		return `"` + base64.StdEncoding.EncodeToString(x) + `"`
	case []string:
		return fmt.Sprintf("%q", x)
	}
	b, err := json.Marshal(d)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// the tagger: KMAC256 with the JSON form of the data as customization string
func TestKmacTagger(t *testing.T) {
	checkSponge()
	sink := newSink(t)
	defer sink.close(t)
	for k := 0; k < tier(20, 200); k++ {
		s := &kmSys{r: newRand(int64(520000 + k)), outs: newNames("o"), ins: newNames("i")}
		keys := [][]byte{}
		for i := 0; i < 3; i++ {
			b := make([]byte, 32)
			s.r.Read(b)
			keys = append(keys, b)
		}
		keys = append(keys, flipped(s.r, keys[0]))
		data := []any{}
		for _, x := range distinctStrings(s.r, 20) {
			data = append(data, x)
		}
		for i := 0; i < 10; i++ {
			data = append(data, randBytes(s.r, randSize(s.r)%300))
		}
		for _, n := range []uint64{0, 1, 2, 10, 255, 256, 65535, 65536, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			data = append(data, n)
		}
		for _, n := range []int{0, 31, 32, 33, 64, 124, 125, 126, 127, 156, 157, 158, 200, 260, 261, 262} {
			if n >= 2 {
				data = append(data, strings.Repeat("q", n-2))
			}
		}
		data = append(data, struct{ A, B string }{"x", "y"}, struct{ A, B string }{"xy", ""}, []string{"a", "b"}, []string{"ab"}, nil, true, -1,
			map[string]int{"a": 1, "b": 2, "c": 3}, map[string]int{"a": 1, "b": 2, "c": 4}, map[string]struct{}{"x": {}, "y": {}, "<": {}}, "\xff", "\xfe", "\xff\xfe", "\ufffd", "<\xff", "<", "\\u003c", "\\ufffd")
		// long data, and relatives of it that differ late
		long := strings.Repeat("long data ", pick(s.r, []int{420, 900, 1700, 3300, 6600, 7000}))
		data = append(data, long, long+"x", long[:len(long)-1], long[:len(long)-1]+"_", []byte(long), []string{long, "a"}, []string{long, "b"})
		names := map[string]bool{}
		uniq := data[:0]
		for _, d := range data {
			if !names[tagInput(d)] {
				names[tagInput(d)] = true
				uniq = append(uniq, d)
			}
		}
		data = uniq
		s.r.Shuffle(len(data), func(a, b int) { data[a], data[b] = data[b], data[a] })
		frames := map[int]*KmCase{}
		for _, key := range keys {
			tg, err := crypto.NewKMAC256Tagger(clone(key))
			if err != nil {
				panic("harness: " + err.Error())
			}
			for round := 0; round < 2; round++ {
				for _, d := range data {
					js, err := jsoniter.Config{EscapeHTML: true, SortMapKeys: true}.Froze().Marshal(d)
					if err != nil {
						panic("harness: " + err.Error())
					}
					var out []byte
					pan := guarded(func() { out, err = tg.Tag(d) })
					e := KmEv{Op: "mac", Fn: "tag", W: 136, SLen: len(js), Inp: s.in(136, key, []byte(tagInput(d)), nil, 32), Out: s.outs.add(string(out))}
					if pan != "" || err != nil {
						e.Out = "failed"
					}
					if utf8.ValidString(tagInput(d)) {
						c := frames[len(js)]
						if c == nil {
							c = kmFrame(136, 32, len(js), 32)
							frames[len(js)] = c
							s.ev = append(s.ev, kmFrameEv{"frame", *c})
						}
						e.Exp = s.outs.add(string(c.digest(key, js, nil, 0)))
						e.Alt = s.outs.add(string(c.digest(key, js, nil, 136)))
					}
					s.ev = append(s.ev, e)
				}
			}
		}
		sink.put("cases", "tagger", s.ev)
	}
}
