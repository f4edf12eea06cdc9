//go:build !race

// Package tap notes what is read from the system's randomness. The name of its module makes it the first to be
// initialized, so that libraries that keep crypto/rand.Reader are listened to as well.
package tap

import (
	"crypto/rand"
	"io"
	"sync"
)

type reader struct {
	mu   sync.Mutex
	src  io.Reader
	to   func([]byte)
	head []byte
}

const headSize = 1 << 16

var tapped = install()

func install() *reader {
	t := &reader{src: rand.Reader}
	rand.Reader = t
	return t
}

func (t *reader) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n, err := t.src.Read(p)
	if t.to != nil {
		t.to(p[:n])
	} else if len(t.head) < headSize { // what a buffer that was filled early may still hold
		t.head = append(t.head, p[:n]...)
	}
	return n, err
}

// Listen passes what was read at the beginning, and all that will be read, to f.
func Listen(f func([]byte)) (ok bool) {
	tapped.mu.Lock()
	defer tapped.mu.Unlock()
	tapped.to = f
	if f != nil {
		f(tapped.head)
	}
	return true
}
