package verifharness

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
)

// W and its inverse, written from SP 800-38F (algorithms 1 and 2)
func kwW(b cipher.Block, s []byte) []byte {
	n := len(s) / 8
	a := clone(s[:8])
	r := clone(s[8:])
	buf := make([]byte, 16)
	for t := uint64(1); t <= 6*uint64(n-1); t++ {
		copy(buf, a)
		copy(buf[8:], r[:8])
		b.Encrypt(buf, buf)
		binary.BigEndian.PutUint64(a, binary.BigEndian.Uint64(buf[:8])^t)
		r = append(r[8:], buf[8:]...)
	}
	return append(a, r...)
}

func kwWinv(b cipher.Block, c []byte) []byte {
	n := len(c) / 8
	a := clone(c[:8])
	r := clone(c[8:])
	buf := make([]byte, 16)
	for t := 6 * uint64(n-1); t >= 1; t-- {
		binary.BigEndian.PutUint64(buf, binary.BigEndian.Uint64(a)^t)
		copy(buf[8:], r[len(r)-8:])
		b.Decrypt(buf, buf)
		copy(a, buf[:8])
		copy(r[8:], clone(r[:len(r)-8]))
		copy(r, buf[8:])
	}
	return append(a, r...)
}

type KwCase struct {
	N      int    `json:"n"`
	Len    int    `json:"len"`
	Prefix [2]int `json:"prefix"`
	Mli    [2]int `json:"mli"`
	NZ     int    `json:"nz"`
}

type KwEv struct {
	Op     string `json:"op"`
	Len    int    `json:"len"`
	Prefix [2]int `json:"prefix"`
	Mli    [2]int `json:"mli"`
	NZ     int    `json:"nz"`
	Res    string `json:"res"`
	Same   bool   `json:"same"`
	Mut    bool   `json:"mut"`
	Note   string `json:"note"`
}

type kwSys struct {
	b   cipher.Block
	kwp *crypto.KWP
	ev  []any
}

func newKw(kek []byte) *kwSys {
	b, err := aes.NewCipher(kek)
	if err != nil {
		panic("harness: " + err.Error())
	}
	k, err := crypto.NewKWP(clone(kek))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &kwSys{b: b, kwp: k}
}

func (s *kwSys) unwrap(c []byte, note string) {
	e := KwEv{Op: "unwrap", Len: len(c), Note: note}
	var dec []byte
	if len(c) >= 24 && len(c)%8 == 0 {
		dec = kwWinv(s.b, c)
		half := func(i int) int { return int(dec[i])<<8 | int(dec[i+1]) }
		e.Prefix, e.Mli = [2]int{half(0), half(2)}, [2]int{half(4), half(6)}
		for i, x := range dec[8:] {
			if x != 0 {
				e.NZ = i + 1
			}
		}
	}
	in, full := spare(c, 5)
	before := clone(full)
	var out []byte
	var err error
	if pan := guarded(func() { out, err = s.kwp.Unwrap(in) }); pan != "" {
		e.Res = pan
	} else if err != nil {
		e.Res = "error"
		if len(out) > 0 {
			e.Res = "error with data"
		}
	} else {
		e.Res = "ok"
		n := e.Mli[0]<<16 | e.Mli[1]
		e.Same = dec != nil && n <= len(dec)-8 && bytes.Equal(out, dec[8:8+n])
		for i := range out { // the result is the caller's
			out[i] ^= 0xff
		}
	}
	e.Mut = !bytes.Equal(full, before)
	s.ev = append(s.ev, e)
}

func (s *kwSys) wrap(key []byte) []byte {
	e := KwEv{Op: "wrap", Len: len(key)}
	in, full := spare(key, 9)
	before := clone(full)
	var out []byte
	var err error
	if pan := guarded(func() { out, err = s.kwp.Wrap(in) }); pan != "" {
		e.Res = pan
	} else if err != nil {
		e.Res = "error"
	} else {
		e.Res = "ok"
		p := []byte{0xa6, 0x59, 0x59, 0xa6, 0, 0, byte(len(key) >> 8), byte(len(key))}
		p = append(p, key...)
		for len(p)%8 != 0 {
			p = append(p, 0)
		}
		e.Same = len(p) >= 24 && bytes.Equal(out, kwW(s.b, p))
	}
	e.Mut = !bytes.Equal(full, before)
	s.ev = append(s.ev, e)
	return out
}

// every decoded string the specification lists, encoded with an independent W
func TestKwpCases(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(600000)
	for wi, w := range loadWalks[KwCase](t) {
		kek := make([]byte, 16+16*(wi%2))
		r.Read(kek)
		s := newKw(kek)
		for _, c := range w {
			body := make([]byte, c.Len-8)
			for i := 0; i < c.N && i < len(body); i++ {
				body[i] = byte(1 + r.Intn(255))
			}
			for i := c.N; i < len(body); i++ {
				body[i] = 0
			}
			if c.NZ > 0 {
				body[c.NZ-1] = byte(1) << r.Intn(8)
			}
			p := []byte{byte(c.Prefix[0] >> 8), byte(c.Prefix[0]), byte(c.Prefix[1] >> 8), byte(c.Prefix[1]), byte(c.Mli[0] >> 8), byte(c.Mli[0]), byte(c.Mli[1] >> 8), byte(c.Mli[1])}
			enc := kwW(s.b, append(p, body...))
			s.unwrap(enc, "case")
			// the same length field over a body that is zero from there on
			m := c.Mli[0]<<16 | c.Mli[1]
			if m < len(body) {
				for i := m; i < len(body); i++ {
					body[i] = 0
				}
				s.unwrap(kwW(s.b, append(p, body...)), "case")
			}
		}
		sink.put("kwp", "cases", s.ev)
	}
}

// all key lengths, all bits of short wrapped keys, all lengths of garbage
func TestKwpRandom(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(610000)
	for _, kl := range []int{16, 32} {
		kek := make([]byte, kl)
		r.Read(kek)
		s := newKw(kek)
		step := tier(13, 1)
		for n := 0; n <= 8300; n++ {
			if n > 300 && n < 8180 && n%step != 0 {
				continue
			}
			key := randBytes(r, n)
			out := s.wrap(key)
			if out != nil && (n < 100 || n%29 == 0) {
				s.unwrap(out, "round trip")
				s.unwrap(flipped(r, out), "one bit")
			}
			if len(s.ev) > 400 {
				sink.put("kwp", "lengths", s.ev)
				s.ev = nil
			}
		}
		sink.put("kwp", "lengths", s.ev)
		s.ev = nil
		for _, n := range []int{16, 17, 24, 32, 33, 40} {
			out := s.wrap(randBytes(r, n))
			for i := 0; i < 8*len(out); i++ {
				c := clone(out)
				c[i/8] ^= 1 << (i % 8)
				s.unwrap(c, fmt.Sprintf("bit %d of %d-byte key", i, n))
			}
			for i := 0; i <= len(out); i++ {
				s.unwrap(out[:i], "cut")
				s.unwrap(append(clone(out), make([]byte, i)...), "extended")
				s.unwrap(out[i:], "cut in front")
			}
			other := s.wrap(randBytes(r, n))
			for i := 0; i+8 <= len(out); i += 8 { // exchange blocks
				c := clone(out)
				copy(c[i:i+8], other[i:])
				s.unwrap(c, "block of another")
				c = clone(out)
				copy(c[i:i+8], out[(i+8)%len(out):])
				s.unwrap(c, "block repeated")
			}
			sink.put("kwp", "bits", s.ev)
			s.ev = nil
		}
		for n := 0; n <= 8300; n++ {
			if n > 120 && n < 8190 && n%997 != 0 {
				continue
			}
			s.unwrap(randBytes(r, n), "garbage")
		}
		for k := 0; k < tier(300, 5000); k++ {
			s.unwrap(randBytes(r, 8*(3+r.Intn(6))), "garbage")
		}
		// strings that decode to the right prefix and chance otherwise
		for k := 0; k < tier(300, 5000); k++ {
			p := randBytes(r, 8*(3+r.Intn(4)))
			copy(p, []byte{0xa6, 0x59, 0x59, 0xa6, 0, 0, 0})
			if r.Intn(2) == 0 {
				p[7] = byte(len(p) - 8 - r.Intn(9))
			}
			for i := 0; i < r.Intn(8); i++ {
				p[len(p)-1-i] = 0
			}
			s.unwrap(kwW(s.b, p), "near")
		}
		sink.put("kwp", "garbage", s.ev)
		s.ev = nil
	}
	ev := []any{}
	for n := 0; n <= 70; n++ {
		e := KwEv{Op: "key", Len: n, Res: "ok"}
		var err error
		if pan := guarded(func() { _, err = crypto.NewKWP(make([]byte, n)) }); pan != "" {
			e.Res = pan
		} else if err != nil {
			e.Res = "error"
		}
		ev = append(ev, e)
	}
	sink.put("kwp", "keys", ev)
}
