package verifharness

import (
	"context"
	"errors"
	"fmt"
	goio "io"
	"math/rand"
	"os"
	"sync"
	"syscall"

	"github.com/cybercryptio/d1-lib/v2/io"
)

// FStore is the storage provider the drivers give to the library: a correct map, with switches for
// failing chosen calls, observing every call, and gating calls for controlled schedules.
type FStore struct {
	mu   sync.Mutex
	data map[skey][]byte

	// per-operation counters, reset by begin()
	calls   int
	nerr    int // failures so far
	muts    int // mutations attempted
	faults  int // calls failed by the plan
	failMut int // index (1-based) of the first mutation failed by the plan
	failDT  string
	log     []call

	plan    func(n int, kind string, dt io.DataType) fault
	end     func() // ends the caller's context
	onWrite func(id []byte, dt io.DataType, data []byte)
	onRead  func(id []byte, dt io.DataType, data []byte)
	garble  func(n int, v []byte) []byte // what a read returns in place of v
	gate    func(ctx context.Context, kind string)
	after   func(ctx context.Context, kind string) // the operation took effect, its answer is on the way
}

type skey struct {
	id string
	dt io.DataType
}

type call struct {
	kind string
	key  skey
	err  bool
	val  []byte
}

type fault int

const (
	pass fault = iota
	errBefore
	errAfter
	endCtx // the caller's context ends meanwhile, the operation works
)

// failure returns the next of the errors storage may fail with.
func (s *FStore) failure() error {
	s.nerr++
	return storageErrors[(s.nerr*7+len(s.data))%len(storageErrors)]
}

func newFStore() *FStore { return &FStore{data: map[skey][]byte{}} }

func (s *FStore) begin() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls, s.muts, s.faults, s.failMut, s.failDT, s.log = 0, 0, 0, 0, "", nil
}

func dtName(dt io.DataType) string {
	switch dt {
	case io.DataTypeSealedObject:
		return "obj"
	case io.DataTypeSealedAccess:
		return "acc"
	case io.DataTypeSealedNode:
		return "node"
	}
	return "other"
}

func (s *FStore) do(ctx context.Context, kind string, id []byte, dt io.DataType, data []byte) ([]byte, error) {
	if s.gate != nil {
		s.gate(ctx, kind)
	}
	if s.after != nil {
		defer s.after(ctx, kind)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	mut := kind != "get"
	if mut {
		s.muts++
	}
	f := pass
	if s.plan != nil {
		f = s.plan(s.calls, kind, dt)
	}
	if f == endCtx {
		f = pass
		if s.end != nil {
			s.end()
			s.faults++
			if s.failMut == 0 { // what may be left undone
				s.failMut, s.failDT = s.muts+1, "obj"
				if s.muts > 0 {
					s.failDT = "acc"
				}
			}
		}
	}
	k := skey{string(id), dt}
	if mut && s.onWrite != nil {
		s.onWrite(id, dt, data)
	}
	if f != pass {
		s.faults++
		if mut && s.failMut == 0 {
			s.failMut, s.failDT = s.muts, dtName(dt)
		}
	}
	if f == errBefore {
		s.log = append(s.log, call{kind, k, true, nil})
		if old, ok := s.data[k]; ok && !mut && s.nerr%3 == 0 { // bytes together with an error do not count
			return append([]byte{}, old...), s.failure()
		}
		if kind == "put" && s.nerr%4 == 1 { // as storage answers that something is there already
			s.nerr++
			return nil, io.ErrAlreadyExists
		}
		if kind == "update" && dt == io.DataTypeSealedNode && s.nerr%4 == 1 { // or that there is nothing to replace
			s.nerr++
			return nil, io.ErrNotFound
		}
		return nil, s.failure()
	}
	var out []byte
	var err error
	old, ok := s.data[k]
	switch kind {
	case "put":
		if ok {
			err = io.ErrAlreadyExists
		} else {
			s.data[k] = append([]byte{}, data...)
		}
	case "get":
		if !ok {
			err = io.ErrNotFound
		} else {
			out = append([]byte{}, old...)
			if s.garble != nil {
				out = s.garble(s.calls, out)
			}
			if s.onRead != nil {
				s.onRead(id, dt, old)
			}
		}
	case "update":
		if !ok {
			err = io.ErrNotFound
		} else {
			s.data[k] = append([]byte{}, data...)
		}
	case "delete":
		delete(s.data, k)
	}
	s.log = append(s.log, call{kind, k, err != nil, append([]byte{}, data...)})
	if f == errAfter {
		return nil, s.failure()
	}
	return out, err
}

func (s *FStore) Put(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	_, err := s.do(ctx, "put", id, dt, data)
	return err
}
func (s *FStore) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	return s.do(ctx, "get", id, dt, nil)
}
func (s *FStore) Update(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	_, err := s.do(ctx, "update", id, dt, data)
	return err
}
func (s *FStore) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	_, err := s.do(ctx, "delete", id, dt, nil)
	return err
}

func (s *FStore) snapshot() map[skey][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := make(map[skey][]byte, len(s.data))
	for k, v := range s.data {
		m[k] = v // values are never modified in place
	}
	return m
}

func (s *FStore) restore(m map[skey][]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data = make(map[skey][]byte, len(m))
	for k, v := range m {
		s.data[k] = v
	}
}

func (s *FStore) raw(id []byte, dt io.DataType) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.data[skey{string(id), dt}]
	return append([]byte{}, v...), ok
}

func (s *FStore) setRaw(id []byte, dt io.DataType, v []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if v == nil {
		delete(s.data, skey{string(id), dt})
	} else {
		s.data[skey{string(id), dt}] = append([]byte{}, v...)
	}
}

// faultModes: how storage fails from the n-th call of an operation on.
const faultModes = 10

func faultPlan(n, mode int) func(int, string, io.DataType) fault {
	nth := ""
	return func(i int, kind string, _ io.DataType) fault {
		mut := kind != "get"
		if i == n {
			nth = kind
		}
		switch {
		case i < n:
		case mode >= 8: // the context ends; storage goes on working, or stops
			if i == n {
				return endCtx
			}
			if mode == 9 {
				return errBefore
			}
		case mode < 2: // once, without or with effect
			if i == n {
				return fault(1 + mode)
			}
		case mode < 4: // from then on everything
			if i == n {
				return fault(mode - 1)
			}
			return errBefore
		case mode == 4 && mut: // from then on nothing can be written
			return errBefore
		case mode == 5 && mut: // from then on writes take effect without being acknowledged
			return errAfter
		case mode == 6 && kind == nth: // from then on all operations of one kind
			return errBefore
		case mode == 7 && !mut: // from then on nothing can be read
			return errBefore
		}
		return pass
	}
}

// outage is storage of which one kind of operation, perhaps on one type of record, is out of order.
func outage(r *rand.Rand, types ...io.DataType) func(int, string, io.DataType) fault {
	kinds := subset(r, []string{"get", "put", "update", "delete"}, 0.25)
	if len(kinds) == 0 {
		kinds = []string{pick(r, []string{"put", "update", "delete"})}
	}
	only := io.DataType(0)
	if r.Intn(2) == 0 {
		only = pick(r, types)
	}
	f := errBefore
	if r.Intn(4) == 0 {
		f = errAfter
	}
	return func(_ int, kind string, dt io.DataType) fault {
		if only != 0 && dt != only {
			return pass
		}
		for _, k := range kinds {
			if k == kind {
				return f
			}
		}
		return pass
	}
}

// Errors that real storage may fail with; none of them says that the record is missing or present.
type oddError struct{}

func (oddError) Error() string   { return "not found" }
func (oddError) Timeout() bool   { return true }
func (oddError) Temporary() bool { return true }

var storageErrors = []error{
	errors.New("injected storage failure"), context.Canceled, context.DeadlineExceeded, goio.EOF, goio.ErrUnexpectedEOF, os.ErrNotExist, os.ErrExist, os.ErrClosed,
	errors.New(io.ErrNotFound.Error()), errors.New(io.ErrAlreadyExists.Error()), oddError{},
	fmt.Errorf("reading: %w", context.Canceled), fmt.Errorf("writing: %w", os.ErrDeadlineExceeded), fmt.Errorf("get: %v", io.ErrNotFound),
	syscall.ENOENT, syscall.ENOSPC, syscall.EAGAIN, errors.Join(context.Canceled, goio.EOF),
}
