package verifharness

import (
	"a.tap"
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"fmt"
	"io"
	mrand "math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
)

// recorder stands between the code and the system's randomness and remembers what was read.
type recorder struct {
	mu    sync.Mutex
	src   io.Reader
	all   map[int][]byte // by size of the read
	sizes []int
	at    map[string]int // reads of up to 64 bytes -> offset
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	r.note(p[:n])
	return n, err
}

// note appends to the stream of reads of one size: a buffer that is filled again goes on in its stream.
func (r *recorder) note(p []byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(p) == 0 {
		return
	}
	if r.all[len(p)] == nil {
		r.sizes = append(r.sizes, len(p))
	}
	if len(p) <= 64 {
		r.at[string(p)] = r.base(len(p)) + len(r.all[len(p)])
	}
	r.all[len(p)] = append(r.all[len(p)], p...)
}

const streamRoom = 1 << 26

func (r *recorder) base(size int) int {
	for k, n := range r.sizes {
		if n == size {
			return (k % 30) * streamRoom
		}
	}
	return 0
}

// offset of b in what was read, -1 if it is not there
func (r *recorder) offset(b []byte) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if o, ok := r.at[string(b)]; ok {
		return o
	}
	for _, n := range r.sizes {
		if o := bytes.Index(r.all[n], b); o >= 0 {
			return r.base(n) + o
		}
	}
	return -1
}

func record() (*recorder, func()) {
	old := rand.Reader
	r := &recorder{src: old, all: map[int][]byte{}, at: map[string]int{}}
	if tap.Listen(r.note) {
		return r, func() { tap.Listen(nil) }
	}
	rand.Reader = r
	return r, func() { rand.Reader = old }
}

type PwEv struct {
	Op      string `json:"op"`
	Pw      string `json:"pw"`
	Salt    string `json:"salt"`
	Hash    string `json:"hash"`
	PwOff   int    `json:"pwoff"`
	SaltOff int    `json:"saltoff"`
	Ok      bool   `json:"ok"`
	Mut     bool   `json:"mut"`
	Panic   bool   `json:"panic"`
	Note    string `json:"note"`
}

type pwTry struct {
	pw, salt, hash, note string // how each differs
	p                    string
	h                    []byte
}

func spread(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for g := 0; g < runtime.NumCPU(); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func TestPassword(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	rec, undo := record()
	defer undo()
	const saltLen = 8
	var gen []any
	type made struct {
		pw string
		sh []byte
	}
	var all []made
	newOne := func(h *crypto.PasswordHasher) {
		var m made
		var err error
		e := PwEv{Op: "gen", PwOff: -1, SaltOff: -1}
		pan := guarded(func() { m.pw, m.sh, err = h.GeneratePassword() })
		e.Ok = pan == "" && err == nil && len(m.sh) > saltLen+16
		e.Note = fmt.Sprint(pan, err)
		if e.Ok {
			raw, err := base64.RawURLEncoding.DecodeString(m.pw)
			if err == nil && len(raw) == 32 {
				e.PwOff = rec.offset(raw)
			}
			e.SaltOff = rec.offset(m.sh[:saltLen])
			e.Pw, e.Salt = m.pw, fmt.Sprintf("%x", m.sh[:saltLen])
			all = append(all, m)
		}
		gen = append(gen, e)
	}
	h1, h2 := crypto.NewPasswordHasher(), crypto.NewPasswordHasher()
	for i := 0; i < tier(100, 600); i++ {
		newOne(pick(mrand.New(mrand.NewSource(int64(i))), []*crypto.PasswordHasher{h1, h2, crypto.NewPasswordHasher()}))
	}
	sink.put("gen", "", gen)
	if len(all) < 10 {
		return
	}
	for k := 0; k < tier(4, 20); k++ {
		r := newRand(int64(800000 + k))
		m, other, third := all[3*k], all[3*k+1], all[3*k+2]
		salt, hash := m.sh[:saltLen], m.sh[saltLen:]
		var tries []pwTry
		add := func(p string, s, h []byte, note string) {
			x := pwTry{"same", "same", "same", note, p, append(clone(s), h...)}
			if p != m.pw {
				x.pw = "different"
			}
			if !bytes.Equal(s, salt) {
				x.salt = "different"
			}
			if !bytes.Equal(h, hash) {
				x.hash = "different"
			}
			tries = append(tries, x)
		}
		for i := 0; i < 3; i++ {
			add(m.pw, salt, hash, "itself")
		}
		for i := 0; i <= len(m.pw); i++ {
			add(m.pw[:i], salt, hash, "prefix")
			add(m.pw[i:], salt, hash, "suffix")
		}
		for _, x := range []string{"\x00", "\x00\x00", strings.Repeat("\x00", 93), strings.Repeat("\x00", 136-43), " ", "\n", "=", "a", "\x01", m.pw, "\x00a", "a\x00"} {
			add(m.pw+x, salt, hash, "extension")
			add(x+m.pw, salt, hash, "extension in front")
			add(x, salt, hash, "other")
		}
		add(strings.ToUpper(m.pw), salt, hash, "case")
		add(strings.ToLower(m.pw), salt, hash, "case")
		for i := range m.pw {
			b := []byte(m.pw)
			if c := strings.ToUpper(m.pw[i : i+1]); c != m.pw[i:i+1] {
				b[i] = c[0]
			} else {
				b[i] = strings.ToLower(m.pw[i : i+1])[0]
			}
			add(string(b), salt, hash, "case of one letter")
			b = []byte(m.pw)
			b[i] ^= 1 << r.Intn(8)
			add(string(b), salt, hash, "one bit")
			b[i] = 0
			add(string(b), salt, hash, "zero")
			if i > 0 {
				b = []byte(m.pw)
				b[i], b[i-1] = b[i-1], b[i]
				add(string(b), salt, hash, "exchanged")
			}
		}
		for _, x := range []string{"\xff", "\xc0\x80", "\xed\xa0\x80", "\ufffd", "\u200b", "\ufeff", "\u00ad", "\u0301", " ", "\t", "\r\n", "-", "\x00", "\x1b[0m", "%00", "\\"} {
			i := r.Intn(len(m.pw) + 1)
			add(m.pw[:i]+x+m.pw[i:], salt, hash, "insertion")
		}
		raw, _ := base64.RawURLEncoding.DecodeString(m.pw)
		add(string(raw), salt, hash, "decoded")
		add(base64.StdEncoding.EncodeToString(raw), salt, hash, "re-encoded")
		add(base64.URLEncoding.EncodeToString(raw), salt, hash, "re-encoded")
		add(fmt.Sprintf("%x", raw), salt, hash, "re-encoded")
		add(string(hash), salt, hash, "the hash")
		add(string(m.sh), salt, hash, "salt and hash")
		add(other.pw, salt, hash, "another password")
		add(m.pw, other.sh[:saltLen], hash, "another salt")
		add(m.pw, other.sh[:saltLen], other.sh[saltLen:], "another's hash")
		add(m.pw, salt, other.sh[saltLen:], "another's hash")
		add(other.pw, salt, other.sh[saltLen:], "another password and hash")
		add(third.pw, other.sh[:saltLen], hash, "all different")
		for i := 0; i < 8*saltLen; i++ {
			s := clone(salt)
			s[i/8] ^= 1 << (i % 8)
			add(m.pw, s, hash, "salt bit")
		}
		for i := 0; i < 8*len(hash); i++ {
			if !thorough && k > 0 && i%5 != k%5 {
				continue
			}
			h := clone(hash)
			h[i/8] ^= 1 << (i % 8)
			add(m.pw, salt, h, "hash bit")
		}
		for i := 0; i < len(hash); i++ {
			add(m.pw, salt, hash[:i], "hash cut")
			if i > 0 {
				add(m.pw, salt, hash[i:], "hash cut in front")
			}
		}
		add(m.pw, salt, append(clone(hash), 0), "hash longer")
		add(m.pw, salt, append(clone(hash), hash...), "hash twice")
		add(m.pw, salt, make([]byte, len(hash)), "zero hash")
		add("", salt, nil, "nothing")
		add("", make([]byte, saltLen), make([]byte, len(hash)), "nothing")
		ev := make([]any, len(tries))
		spread(len(tries), func(i int) {
			x := tries[i]
			in, full := spare(x.h, 16)
			before := clone(full)
			e := PwEv{Op: "compare", Pw: x.pw, Salt: x.salt, Hash: x.hash, Note: x.note}
			e.Panic = guarded(func() { e.Ok = h1.Compare(x.p, in) }) != ""
			e.Mut = !bytes.Equal(full, before)
			ev[i] = e
		})
		sink.put("compare", "", ev)
	}
}
