package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"golang.org/x/sys/unix"
)

// memFile is an io.ReadWriteSeeker with the semantics of an ordinary file (writes past
// the end grow it, reads at the end give io.EOF). It counts what is done to it, bounds
// the number of operations so that a runaway loop becomes a deterministic failure, and
// can be told to fail one operation.
type memFile struct {
	buf    []byte
	pos    int64
	ops    int64
	maxOps int64 // 0 = default

	reads, writes, seeks    int64
	bytesRead, bytesWritten int64
	failAt                  int64 // the failAt-th operation from now fails (1-based), 0 = never
	failMask                int   // which kinds may fail: 1 read, 2 write, 4 seek
	failed                  bool
	writeLog                map[int64]bool // offsets of pages written, when non-nil
	shortWriteOnFail        bool

	region       []byte // address space reserved for a file with a leap
	holeAt, hole int64
}

var errInjected = errors.New("injected storage failure")

func (m *memFile) tick(kind int) error {
	m.ops++
	lim := m.maxOps
	if lim == 0 {
		lim = 200_000_000
	}
	if m.ops > lim {
		panic(fmt.Sprintf("storage operation budget of %d exceeded", lim))
	}
	if m.failAt > 0 && m.failMask&kind != 0 {
		m.failAt--
		if m.failAt == 0 {
			m.failed = true
			return errInjected
		}
	}
	return nil
}

func (m *memFile) Read(p []byte) (int, error) {
	if err := m.tick(1); err != nil {
		return 0, err
	}
	m.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= int64(len(m.buf)) {
		return 0, io.EOF
	}
	n := copy(p, m.buf[m.pos:])
	m.pos += int64(n)
	m.bytesRead += int64(n)
	return n, nil
}

func (m *memFile) Write(p []byte) (int, error) {
	if err := m.tick(2); err != nil {
		return 0, err
	}
	m.writes++
	if m.writeLog != nil && len(p) > 0 {
		m.writeLog[m.pos/4096] = true
	}
	end := m.pos + int64(len(p))
	if end > int64(len(m.buf)) {
		if end > int64(cap(m.buf)) {
			nb := make([]byte, end, end*2+4096)
			copy(nb, m.buf)
			m.buf = nb
		} else {
			old := len(m.buf)
			m.buf = m.buf[:end]
			for i := old; i < int(end); i++ {
				m.buf[i] = 0
			}
		}
	}
	copy(m.buf[m.pos:], p)
	m.pos = end
	m.bytesWritten += int64(len(p))
	return len(p), nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	if err := m.tick(4); err != nil {
		return 0, err
	}
	m.seeks++
	var abs int64
	switch whence {
	case io.SeekStart:
		abs = off
	case io.SeekCurrent:
		abs = m.pos + off
	case io.SeekEnd:
		abs = int64(len(m.buf)) + off
	default:
		return 0, errors.New("invalid whence")
	}
	if abs < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = abs
	return abs, nil
}

// snapshot is the content of the file, without the pages leaped over.
func (m *memFile) snapshot() []byte {
	b := append([]byte(nil), m.buf[:m.holeAt]...)
	return append(b, m.buf[m.holeAt+m.hole:]...)
}

// same tells whether the file still has the content of a snapshot.
func (m *memFile) same(snap []byte) bool {
	return int64(len(snap)) == int64(len(m.buf))-m.hole && bytes.Equal(snap[:m.holeAt], m.buf[:m.holeAt]) && bytes.Equal(snap[m.holeAt:], m.buf[m.holeAt+m.hole:])
}

const farRegion = 40 << 30

// reserve returns address space whose pages take memory only once they are written to,
// or nil where there is none to be had.
func reserve() []byte {
	b, err := unix.Mmap(-1, 0, farRegion, unix.PROT_READ|unix.PROT_WRITE, unix.MAP_PRIVATE|unix.MAP_ANONYMOUS|unix.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return b
}

var leaps = []int64{1<<31 - 8*4096, 1 << 31, 1<<32 - 8*4096, 1<<32 - 2*4096, 1 << 32, 1<<33 + 4096, 1 << 35}

// leap makes the file as large as if n bytes of pages had been allocated and never
// written to. It can be done once.
func (m *memFile) leap(n int64) bool {
	if m.hole > 0 {
		return false
	}
	if m.region == nil {
		if m.region = reserve(); m.region == nil {
			return false
		}
		m.buf = m.region[:copy(m.region, m.buf)]
	}
	m.holeAt, m.hole = int64(len(m.buf)), n
	m.buf = m.buf[:m.holeAt+n]
	return true
}

func (m *memFile) release() {
	if m.region != nil {
		unix.Munmap(m.region)
		m.region, m.buf = nil, nil
	}
}

func newMem(b []byte) *memFile { return &memFile{buf: append([]byte(nil), b...)} }

func (m *memFile) resetCounters() {
	m.reads, m.writes, m.seeks, m.bytesRead, m.bytesWritten = 0, 0, 0, 0, 0
}
