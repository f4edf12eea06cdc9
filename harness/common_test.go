// Package verifharness drives the real d1-lib code and records what it observably does as
// traces, which TLC then judges against the specification in /verif/spec.
package verifharness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// ---- environment -------------------------------------------------------------------------------

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int64) int64 {
	v, err := strconv.ParseInt(env(name, ""), 10, 64)
	if err != nil {
		return def
	}
	return v
}

var (
	outPath  = env("VERIF_OUT", "")
	inPath   = env("VERIF_IN", "")
	seed     = envInt("VERIF_SEED", 1)
	thorough = env("VERIF_TIER", "quick") == "thorough"
	focus    = env("VERIF_PROP", "")
	scratch  = env("VERIF_SCRATCH", os.TempDir())
)

func tier(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

func newRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + salt)) }

// ---- trace output ------------------------------------------------------------------------------

type Trace struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	Note string `json:"note"`
	Ev   []any  `json:"ev"`
}

type Sink struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
	ev int
}

func newSink(t *testing.T) *Sink {
	if outPath == "" {
		t.Skip("driver: VERIF_OUT not set")
	}
	f, err := os.Create(outPath)
	if err != nil {
		t.Fatal(err)
	}
	return &Sink{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (s *Sink) put(kind, note string, ev []any) {
	if len(ev) == 0 {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	s.ev += len(ev)
	b, err := json.Marshal(Trace{s.n, kind, note, ev})
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
}

func (s *Sink) close(t *testing.T) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.w.Flush(); err != nil {
		t.Fatal(err)
	}
	s.f.Close()
	fmt.Printf("DRIVER traces=%d events=%d\n", s.n, s.ev)
}

// ---- running calls of the code under test ------------------------------------------------------

// A call that panics or never returns is an observation about the code, not a harness failure.
const hangLimit = 60 * time.Second

var active sync.Map // running calls -> when they began
var activeN atomic.Int64

// guarded runs f; it reports a panic as "panic". f runs on this goroutine.
func guarded(f func()) (res string) {
	n := activeN.Add(1)
	active.Store(n, realNow())
	defer active.Delete(n)
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true)) // memory that is gone or read-only
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(string); ok && strings.HasPrefix(m, "harness: ") {
				panic(r)
			}
			buf := make([]byte, 4096)
			k := runtime.Stack(buf, false)
			noteMu.Lock()
			if len(panicNotes) < 5 {
				panicNotes = append(panicNotes, fmt.Sprintf("%v\n%s", r, buf[:k]))
			}
			noteMu.Unlock()
			res = "panic"
		}
	}()
	f()
	return ""
}

var noteMu sync.Mutex
var panicNotes []string

// The watchdog ticks in real time (the drivers may run under a simulated clock) and ends the
// process when a call of the library does not return.
var ticks atomic.Int64

func realNow() int64 { return ticks.Load() }

func startWatchdog() {
	go func() {
		for {
			time.Sleep(time.Second)
			now := ticks.Add(1)
			active.Range(func(_, v any) bool {
				if now-v.(int64) > int64(hangLimit/time.Second) {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					if strings.Contains(string(buf), "cybercryptio/d1-lib/v2/") || strings.Contains(string(buf), "/repo/") {
						fmt.Printf("VERIF-HANG a call did not return within %v\n%s\n", hangLimit, buf)
					} else {
						fmt.Printf("the harness is stuck\n%s\n", buf)
					}
					os.Exit(3)
				}
				return true
			})
		}
	}()
}

func TestMain(m *testing.M) {
	startWatchdog()
	os.Exit(m.Run())
}

// ---- names <-> concrete values -----------------------------------------------------------------

// Names gives short abstract names to concrete byte strings; the specification only sees names.
type Names struct {
	prefix string
	byVal  map[string]string
	byName map[string]string
}

func newNames(prefix string) *Names {
	return &Names{prefix, map[string]string{}, map[string]string{}}
}

func (n *Names) add(val string) string {
	if x, ok := n.byVal[val]; ok {
		return x
	}
	x := fmt.Sprintf("%s%d", n.prefix, len(n.byVal)+1)
	n.byVal[val] = x
	n.byName[x] = val
	return x
}

func (n *Names) bind(name, val string) {
	if old, ok := n.byName[name]; ok {
		delete(n.byVal, old)
	}
	if x, ok := n.byVal[val]; ok && x != name {
		panic("harness: two names for one value")
	}
	n.byVal[val] = name
	n.byName[name] = val
}

func (n *Names) name(val string) string {
	if x, ok := n.byVal[val]; ok {
		return x
	}
	return "?"
}

func (n *Names) val(name string) string {
	v, ok := n.byName[name]
	if !ok {
		panic("harness: unknown name " + name)
	}
	return v
}

// ---- value generators --------------------------------------------------------------------------

var sizes = []int{0, 1, 2, 3, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 135, 136, 137, 255, 256, 257, 300, 511, 512, 513, 1000}
var bigSizes = []int{1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000}
var hugeSizes = []int{1<<18 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 70000, 3 << 20}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	switch r.Intn(12) {
	case 0: // all equal
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
	case 1: // text with characters that encoders escape
		const chars = "\"\\/<>&{}[]:,\n\r\t\x00\x01\x7f =+-_abcXYZ0123null"
		for i := range b {
			b[i] = chars[r.Intn(len(chars))]
		}
	case 2, 3: // ends or begins with bytes that programs like to trim
		c := edgeBytes[r.Intn(len(edgeBytes))]
		k := []int{1, 2, 7, 8, 15, 16, 17, 32, 64}[r.Intn(9)]
		for i := 0; i < k && i < n; i++ {
			if r.Intn(4) == 0 {
				b[i] = c
			} else {
				b[n-1-i] = c
			}
		}
	}
	return b
}

var edgeBytes = []byte{0, 0, 0xff, ' ', '\n', '\r', '\t', '=', 0x80, '"', '0', 'A', 'a'}

func randSize(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return bigSizes[r.Intn(len(bigSizes))]
	case 1, 2, 3:
		return r.Intn(80)
	default:
		return sizes[r.Intn(len(sizes))]
	}
}

var weird = []string{"", " ", "a", "A", "a ", " a", "\x00", "a\x00", "\xff", "\xfe", "a\xff", "\xed\xa0\x80", "\u2028", "é", "e\u0301", "\ufffd", "<&>", "\"", "\\", "\n", "null", "{}", "[]", "0", "00", "true",
	"group", "Group", "GROUP", "group1", "group11", "grou", "*", "admin", "user", "%s", "../", "a:b", "a,b", "a;b", "a/b", strings.Repeat("x", 300), strings.Repeat("x", 299), strings.Repeat("é", 70), "😀", "日本語"}

// distinctStrings returns n distinct strings, mixing plain, awkward and long ones.
func distinctStrings(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	out := []string{}
	for len(out) < n {
		var s string
		switch r.Intn(4) {
		case 0:
			s = weird[r.Intn(len(weird))]
		case 1:
			if len(out) > 0 { // close relative of an earlier one
				s = relative(r, out[r.Intn(len(out))])
			} else {
				s = "x"
			}
		case 2:
			s = string(randBytes(r, r.Intn(40)))
		default:
			s = fmt.Sprintf("%08x-%04x-4%03x-%04x-%012x", r.Uint32(), r.Intn(1<<16), r.Intn(1<<12), r.Intn(1<<16), r.Int63n(1<<47))
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func other(r *rand.Rand, o string) string {
	for {
		if s := relative(r, o); s != o {
			return s
		}
	}
}

// relative returns a string that careless comparing, cutting or cleaning takes for o.
func relative(r *rand.Rand, o string) string {
	if len(o) == 0 {
		return pick(r, []string{" ", "\x00", "\n", "-", "0"})
	}
	mid := r.Intn(len(o))
	switch r.Intn(16) {
	case 0:
		return o + string([]byte{byte(r.Intn(256))})
	case 1:
		return o[:len(o)-1]
	case 2:
		return strings.ToUpper(o)
	case 3:
		return o + o
	case 4, 5:
		b := []byte(o)
		b[mid] ^= 1 << r.Intn(8)
		return string(b)
	case 6: // the case of one letter
		b := []byte(o)
		for k := range b {
			i := (mid + k) % len(b)
			if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
				b[i] ^= 0x20
				return string(b)
			}
		}
		return o + "A"
	case 7:
		return o + pick(r, []string{" ", "\n", "\x00", "\t", "\r\n", "\u00a0", "/", ".", ","})
	case 8:
		return pick(r, []string{" ", "\n", "\x00", "\t", "\ufeff", "0", "+", "-"}) + o
	case 9: // the same long beginning
		return o + strings.Repeat("y", pick(r, []int{16, 32, 64, 128, 256})) + string(rune('a'+r.Intn(26)))
	case 10:
		return strings.ReplaceAll(o, "-", "")
	case 11:
		return "{" + o + "}"
	case 12:
		return "urn:uuid:" + o
	case 13: // the same beginning and length, another end
		b := []byte(o)
		b[len(b)-1] ^= byte(1 + r.Intn(255))
		return string(b)
	case 14: // another beginning
		b := []byte(o)
		b[0] ^= byte(1 + r.Intn(255))
		return string(b)
	default: // bytes swapped
		b := []byte(o)
		b[mid], b[0] = b[0], b[mid]
		return string(b)
	}
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func subset[T any](r *rand.Rand, xs []T, p float64) []T {
	out := []T{}
	for _, x := range xs {
		if r.Float64() < p {
			out = append(out, x)
		}
	}
	return out
}
