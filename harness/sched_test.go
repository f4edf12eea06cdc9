package verifharness

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- controlled schedules ----------------------------------------------------------------------

// A schedule decides, at every gate, which of the running calls goes on. Calls run in their own
// goroutines, one at a time; a call stops at every gate. A call that waits for something other than
// a gate (a lock held by a stopped call) is left alone and picked up when it moves again, so code
// that locks is explored too.
type sched struct {
	procs []*sproc
	fine  bool // gates at the identity provider, log lines and randomness too
	ev    chan *sproc
	trail []int // choices made
	width []int // choices there were
}

type sproc struct {
	of     *sched
	n      int
	body   func()
	resume chan struct{}
	goid   int64
	state  string // "new", "stopped", "running", "done"
	gates  int
	ended  bool // set by the goroutine before its last event
}

// goroutine -> *sproc
var schedOf sync.Map

var schedSteps, schedRuns atomic.Int64

func newSched(bodies ...func()) *sched {
	s := &sched{ev: make(chan *sproc, len(bodies))}
	for i, b := range bodies {
		s.procs = append(s.procs, &sproc{of: s, n: i, body: b, resume: make(chan struct{}), state: "new"})
	}
	return s
}

// gate is called by the library's surroundings (storage, identity provider, logger, randomness);
// it stops goroutines that run under a schedule and no others.
func gate() {
	v, ok := schedOf.Load(goid())
	if !ok {
		return
	}
	p := v.(*sproc)
	p.gates++
	p.of.ev <- p
	<-p.resume
}

func fineGate() {
	if v, ok := schedOf.Load(goid()); ok && v.(*sproc).of.fine {
		gate()
	}
}

// waiting reports whether the goroutine is blocked, as opposed to busy.
func waiting(g int64) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	head := []byte(fmt.Sprintf("goroutine %d [", g))
	i := bytes.Index(buf, head)
	if i < 0 {
		return false
	}
	rest := buf[i+len(head):]
	if j := bytes.IndexByte(rest, ']'); j >= 0 {
		st := string(rest[:j])
		return !strings.HasPrefix(st, "running") && !strings.HasPrefix(st, "runnable") && !strings.HasPrefix(st, "syscall") && !strings.HasPrefix(st, "sleep") && !strings.HasPrefix(st, "GC") && !strings.HasPrefix(st, "waiting") && !strings.HasPrefix(st, "preempted")
	}
	return false
}

func (s *sched) note(p *sproc) {
	if p.ended {
		p.state = "done"
	} else {
		p.state = "stopped"
	}
}

// move lets p run to its next gate or its end.
func (s *sched) move(p *sproc) {
	schedSteps.Add(1)
	if p.state == "new" {
		p.state = "running"
		ready := make(chan struct{})
		go func() {
			p.goid = goid()
			schedOf.Store(p.goid, p)
			close(ready)
			p.body()
			schedOf.Delete(p.goid)
			p.ended = true
			s.ev <- p
		}()
		<-ready
	} else {
		p.state = "running"
		p.resume <- struct{}{}
	}
	s.settle(p)
}

// settle waits until p has stopped, ended or got stuck.
func (s *sched) settle(p *sproc) {
	wait := 4 * time.Millisecond
	for p.state == "running" {
		select {
		case q := <-s.ev:
			s.note(q)
			continue
		default:
		}
		t := time.NewTimer(wait)
		select {
		case q := <-s.ev:
			s.note(q)
			t.Stop()
		case <-t.C:
			if waiting(p.goid) {
				select { // it may have arrived at a gate just now
				case q := <-s.ev:
					s.note(q)
				default:
					if p.state == "running" {
						return
					}
				}
			}
		}
	}
}

func (s *sched) run(choose func(width int, procs []*sproc) int) {
	schedRuns.Add(1)
	for {
		var can, stuck []*sproc
		for _, p := range s.procs {
			switch p.state {
			case "new", "stopped":
				can = append(can, p)
			case "running":
				stuck = append(stuck, p)
			}
		}
		if len(can) == 0 {
			if len(stuck) == 0 {
				return
			}
			s.note(<-s.ev) // everything else has ended, so what holds the others up is running too
			continue
		}
		k := choose(len(can), can)
		s.trail = append(s.trail, k)
		s.width = append(s.width, len(can))
		s.move(can[k])
	}
}

// everySchedule runs all schedules (up to a limit) of what mk builds, and reports whether it was all.
func everySchedule(limit int, mk func() *sched) bool {
	var prefix []int
	for n := 0; n < limit; n++ {
		s := mk()
		i := 0
		s.run(func(w int, _ []*sproc) int {
			k := 0
			if i < len(prefix) {
				k = prefix[i]
			}
			i++
			if k >= w {
				k = w - 1
			}
			return k
		})
		j := len(s.trail) - 1
		for j >= 0 && s.trail[j]+1 >= s.width[j] {
			j--
		}
		if j < 0 {
			return true
		}
		prefix = append(append([]int{}, s.trail[:j]...), s.trail[j]+1)
	}
	return false
}

// randomSchedule: mostly keeps going with the same call, switching at a few points.
func randomSchedule(r *rand.Rand, s *sched) {
	cur := -1
	stay := []float64{0, 0.5, 0.8, 0.9}[r.Intn(4)]
	s.run(func(w int, can []*sproc) int {
		for i, p := range can {
			if p.n == cur && r.Float64() < stay {
				return i
			}
		}
		k := r.Intn(w)
		cur = can[k].n
		return k
	})
}

// gatedReader makes every use of randomness a gate.
type gatedReader struct{ src io.Reader }

func (g gatedReader) Read(p []byte) (int, error) {
	fineGate()
	return g.src.Read(p)
}

// gateRandomness is for drivers that run nothing else.
func gateRandomness() func() {
	old := crand.Reader
	crand.Reader = gatedReader{old}
	return func() { crand.Reader = old }
}
