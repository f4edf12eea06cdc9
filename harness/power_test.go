//go:build boltsync

package verifharness

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
	"go.etcd.io/bbolt"
)

// The machine stops: what has been written since the last fdatasync of the file survives sector by
// sector or not. bbolt is built with a hook around its fdatasync (see check.py), so that the harness
// knows what is on the disk for certain; the rest is decided by chance.

const sector = 512

type disk struct {
	path    string
	durable []byte
	syncs   int
	target  int // the machine stops before (2n) or after (2n+1) the n-th sync
	image   []byte
	how     func(durable, now []byte) []byte
}

var (
	disksMu sync.Mutex
	disks   = map[string]*disk{}
)

func init() {
	bbolt.VerifSync = func(path string, done bool) {
		disksMu.Lock()
		d := disks[path]
		disksMu.Unlock()
		if d == nil {
			return
		}
		if !done {
			if d.target == 2*d.syncs {
				d.image = d.now()
			}
			return
		}
		d.durable = d.read()
		if d.target == 2*d.syncs+1 {
			d.image = d.now()
		}
		d.syncs++
	}
}

func (d *disk) read() []byte {
	b, err := os.ReadFile(d.path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// now is what a machine that stops now finds on its disk later
func (d *disk) now() []byte { return d.how(d.durable, d.read()) }

func newDisk(path string, how func(a, b []byte) []byte) *disk {
	d := &disk{path: path, target: -1, how: how}
	disksMu.Lock()
	disks[path] = d
	disksMu.Unlock()
	return d
}

func TestKvPower(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	lost := 0
	for k := 0; k < tier(120, 1500); k++ {
		r := newRand(int64(440000 + k))
		dir := fastDir()
		s := &kvSys{r: r, vals: newNames("v")}
		items := s.makeItems(pick(r, []int{1, 2, 5, 30}), pick(r, []int{0, 0, 4000, 30000}))
		vals := s.makeVals(4)
		for i := 0; i < 3; i++ {
			vals = append(vals, s.vals.add(string(randBytes(r, 3000+r.Intn(pick(r, []int{30000, 30000, 200000}))))))
		}
		mode := r.Intn(4)
		how := func(durable, now []byte) []byte {
			out := append([]byte{}, now...)
			for at := 0; at < len(now); at += sector {
				end := at + sector
				if end > len(now) {
					end = len(now)
				}
				old := make([]byte, end-at)
				if at < len(durable) {
					copy(old, durable[at:])
				}
				if string(old) == string(now[at:end]) {
					continue
				}
				lose := mode == 0 || mode >= 2 && r.Intn(2) == 0
				if lose {
					lost++
					copy(out[at:end], old)
				}
			}
			return out
		}
		path := filepath.Join(dir, "p0.db")
		d := newDisk(path, how)
		for gen := 0; gen < 4; gen++ {
			var b io.Bolt
			var err error
			if gen > 0 && r.Intn(6) == 0 { // the machine stops while the file is being opened
				d.target = r.Intn(4)
			}
			pan := guarded(func() { b, err = io.NewBolt(path) })
			open := KvEv{Op: "open", Res: kvClass(err), Want: "ok"}
			if pan != "" {
				open.Res = pan
			}
			image := d.image
			if gen == 0 && d.syncs == 0 {
				fmt.Println("NOSYNC the file is not written through bbolt")
				os.RemoveAll(dir)
				return
			}
			if image == nil || open.Res != "ok" {
				s.ev = append(s.ev, open)
				if open.Res != "ok" {
					break
				}
				s.p = &b
				for _, i := range items {
					s.do("Get", i, "")
				}
				n := r.Intn(pick(r, []int{3, 10, 40}))
				for i := 0; i <= n; i++ {
					op, v := pick(r, []string{"Put", "Put", "Update", "Delete", "Get"}), ""
					if op == "Put" || op == "Update" {
						v = pick(r, vals)
					}
					d.image, d.target = nil, -1
					if i == n && r.Intn(3) > 0 {
						d.target = 2*d.syncs + r.Intn(4)
					}
					at := len(s.ev)
					e := s.do(op, pick(r, items), v)
					if i == n && d.image != nil { // it stopped before the call could return
						s.ev = append(s.ev[:at], KvEv{Op: "begin", What: e.What, N: 1, Item: e.Item, Val: e.Val})
					} else if i == n {
						d.image = d.now()
					}
				}
				image = d.image
			}
			s.ev = append(s.ev, KvEv{Op: "crash"})
			s.held = nil
			path = filepath.Join(dir, fmt.Sprint("p", gen+1, ".db"))
			if err := os.WriteFile(path, image, 0600); err != nil {
				panic("harness: " + err.Error())
			}
			d = newDisk(path, how)
			d.durable = image
		}
		sink.put("crash", fmt.Sprint("power loss, mode ", mode), s.ev)
		os.RemoveAll(dir)
	}
	fmt.Printf("COUNT sectors_lost=%d\n", lost)
}
