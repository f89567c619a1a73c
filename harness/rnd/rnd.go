// Package rnd stands between the library and crypto/rand.Reader.  It is
// initialised before the library (packages are initialised in the order of
// their import paths once their imports are), so that a library that keeps its
// own copy of the Reader holds this one.
package rnd

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type source struct {
	real io.Reader
	sub  atomic.Value // *box
}
type box struct{ r io.Reader }

var src = install()

func install() *source {
	s := &source{real: rand.Reader}
	rand.Reader = s
	return s
}

func (s *source) Read(p []byte) (int, error) {
	if b, ok := s.sub.Load().(*box); ok && b != nil {
		return b.r.Read(p)
	}
	return s.real.Read(p)
}

// With runs f while the library's randomness comes from r.
func With(r io.Reader, f func()) {
	src.sub.Store(&box{r})
	defer src.sub.Store((*box)(nil))
	f()
}
