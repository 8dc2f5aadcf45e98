package main

// C15: memory-mapped files against a byte-slice model.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/kevmo314/appendable/pkg/mmap"
	"pgregory.net/rapid"
)

type mmOp struct {
	Kind   string `json:"k"`
	Len    int    `json:"len,omitempty"`
	Off    int64  `json:"off,omitempty"` // relative to the size when Rel
	Rel    bool   `json:"rel,omitempty"`
	Whence int    `json:"wh,omitempty"`
	Seed   uint64 `json:"seed,omitempty"`
}

type mmCase struct {
	Init int    `json:"init"`
	Ops  []mmOp `json:"ops"`
}

func genLen(t *rapid.T, what string) int {
	return []int{0, 1, 4095, 4096, 4097, rapid.IntRange(0, 40).Draw(t, what), rapid.IntRange(0, 9000).Draw(t, what),
		65535 + rapid.IntRange(0, 2).Draw(t, what+"64k"), 1<<20 + rapid.IntRange(-1, 5000).Draw(t, what+"1m")}[weighted(t, what+"k", 12, 24, 12, 12, 12, 48, 36, 3, 1)]
}

// farOffsets are positions no file can be written or read at.
var farOffsets = []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 7, math.MaxInt64 - 4096, math.MaxInt64 - 1<<20, math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 4096}

func genMM(t *rapid.T) mmCase {
	c := mmCase{}
	if rapid.Bool().Draw(t, "nonempty") {
		c.Init = genLen(t, "init")
	}
	n := rapid.IntRange(1, 30).Draw(t, "n")
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		op := mmOp{Seed: rapid.Uint64Range(1, 1<<16).Draw(t, "seed")}
		op.Kind = []string{"read", "write", "readat", "writeat", "seek", "reopen", "readonly"}[weighted(t, "kind", 4, 5, 3, 3, 5, 1, 1)]
		op.Len = genLen(t, "len")
		op.Rel = rapid.Bool().Draw(t, "rel")
		op.Off = int64(genLen(t, "off"))
		if rapid.IntRange(0, 3).Draw(t, "neg") == 0 {
			op.Off = -op.Off
		}
		if rapid.IntRange(0, 15).Draw(t, "far") == 0 {
			op.Off, op.Rel = rapid.SampledFrom(farOffsets).Draw(t, "faroff"), false
		}
		op.Whence = rapid.IntRange(0, 2).Draw(t, "whence")
		if rapid.IntRange(0, 25).Draw(t, "badwh") == 0 {
			op.Whence = 3
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func judgeMM(c mmCase, ctx *Ctx) error {
	dir := ctx.Dir()
	path := filepath.Join(dir, "f")
	model := fill(99, c.Init)
	if model == nil {
		model = []byte{}
	}
	if err := os.WriteFile(path, model, 0o644); err != nil {
		panic(harnessError{err})
	}
	m, err := mmap.OpenFile(path, os.O_RDWR, 0o644)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	closed := false
	defer func() {
		if !closed {
			m.Close()
		}
	}()
	pos := int64(0)
	grew, gaps, reopened := 0, 0, false
	put := func(b []byte, off int64) {
		if len(b) == 0 {
			return
		}
		end := off + int64(len(b))
		if end > int64(len(model)) {
			grew++
			if off > int64(len(model)) {
				gaps++
			}
			model = append(model, make([]byte, end-int64(len(model)))...)
		}
		copy(model[off:], b)
	}
	shut := func() error {
		if err := m.Close(); err != nil {
			return fmt.Errorf("close: %v", err)
		}
		closed = true
		if _, err := m.File().Stat(); err == nil {
			return fmt.Errorf("the file is still open after close")
		}
		maps, err := os.ReadFile("/proc/self/maps")
		if err != nil {
			panic(harnessError{err})
		}
		if bytes.Contains(maps, []byte(path)) {
			return fmt.Errorf("the file is still mapped after close")
		}
		return nil
	}
	reopen := func(flag int) error {
		if err := shut(); err != nil {
			return err
		}
		disk, err := os.ReadFile(path)
		if err != nil {
			panic(harnessError{err})
		}
		if !bytes.Equal(disk, model) {
			return fmt.Errorf("after close the file has %d bytes and differs from the %d written", len(disk), len(model))
		}
		m2, err := mmap.OpenFile(path, flag, 0o644)
		if err != nil {
			return fmt.Errorf("reopen: %v", err)
		}
		m, pos, closed, reopened = m2, 0, false, true
		return nil
	}
	for i, op := range c.Ops {
		off := op.Off
		if op.Rel {
			off += int64(len(model))
		}
		err := func() error {
			switch op.Kind {
			case "read":
				b := bytes.Repeat([]byte{0xEE}, op.Len)
				n, err := m.Read(b)
				want := copy(make([]byte, op.Len), model[pos:])
				if n != want {
					return fmt.Errorf("read of %d at %d of %d gave %d bytes (%v)", op.Len, pos, len(model), n, err)
				}
				if !bytes.Equal(b[:n], model[pos:pos+int64(n)]) || !bytes.Equal(b[n:], bytes.Repeat([]byte{0xEE}, op.Len-n)) {
					return fmt.Errorf("read of %d at %d gave wrong bytes", op.Len, pos)
				}
				if err != nil && (err != io.EOF || n == op.Len && n > 0) {
					return fmt.Errorf("read of %d at %d of %d: %v", op.Len, pos, len(model), err)
				}
				if err == nil && n == 0 && op.Len > 0 {
					return fmt.Errorf("read at the end reports neither data nor an error")
				}
				pos += int64(n)
			case "readat":
				b := make([]byte, op.Len)
				n, err := m.ReadAt(b, off)
				if off < 0 {
					if err == nil {
						return fmt.Errorf("read at %d succeeded", off)
					}
					return nil
				}
				want := 0
				if off < int64(len(model)) {
					want = copy(make([]byte, op.Len), model[off:])
				}
				if n != want || want > 0 && !bytes.Equal(b[:n], model[off:off+int64(n)]) {
					return fmt.Errorf("read of %d at %d of %d gave %d bytes or wrong data (%v)", op.Len, off, len(model), n, err)
				}
				if n < op.Len && err == nil {
					return fmt.Errorf("short read of %d of %d without an error", n, op.Len)
				}
				if n == op.Len && n > 0 && err != nil && err != io.EOF {
					return fmt.Errorf("complete read reports %v", err)
				}
			case "write", "writeat":
				b := fill(op.Seed, op.Len)
				cp := append([]byte{}, b...)
				at := off
				var n int
				var err error
				if op.Kind == "write" {
					at = pos
					n, err = m.Write(b)
				} else {
					n, err = m.WriteAt(b, off)
				}
				if !bytes.Equal(b, cp) {
					return fmt.Errorf("writing changed the caller's buffer")
				}
				if at > math.MaxInt64-1<<22 && len(b) > 0 {
					if err == nil || n != 0 {
						return fmt.Errorf("write of %d bytes at %d returned %d, %v", len(b), at, n, err)
					}
					ctx.Label("far-write-refused")
					return nil
				}
				if at < 0 || len(b) == 0 && at > int64(len(model)) {
					if at < 0 && err == nil {
						return fmt.Errorf("write at %d succeeded", at)
					}
					return nil
				}
				if err != nil || n != len(b) {
					return fmt.Errorf("%s of %d at %d of %d returned %d, %v", op.Kind, len(b), at, len(model), n, err)
				}
				put(b, at)
				if op.Kind == "write" {
					pos += int64(n)
				}
			case "seek":
				base := []int64{0, pos, int64(len(model)), 0}[op.Whence]
				o := op.Off
				if op.Whence == 0 {
					o = off
				}
				n, err := m.Seek(o, op.Whence)
				if o > 0 && base > math.MaxInt64-o {
					if err == nil {
						return fmt.Errorf("seek by %d from %d succeeded", o, base)
					}
					return nil
				}
				abs := base + o
				if op.Whence > 2 || abs < 0 {
					if err == nil {
						return fmt.Errorf("seek to %d (whence %d) succeeded", abs, op.Whence)
					}
				} else if abs <= int64(len(model)) {
					if err != nil || n != abs {
						return fmt.Errorf("seek to %d of %d gave %d, %v", abs, len(model), n, err)
					}
					pos = abs
				} else if err == nil { // past the end: refused, or as for an ordinary file
					if n != abs {
						return fmt.Errorf("seek to %d gave %d", abs, n)
					}
					if _, err := m.Seek(0, io.SeekStart); err != nil {
						return err
					}
					pos = 0
				}
			case "reopen":
				return reopen(os.O_RDWR)
			case "readonly":
				if err := reopen(os.O_RDONLY); err != nil {
					return err
				}
				if !bytes.Equal(m.Bytes(), model) {
					return fmt.Errorf("read-only mapping differs")
				}
				b := make([]byte, len(model))
				if n, err := m.ReadAt(b, 0); n != len(model) || len(model) > 0 && err != nil && !errors.Is(err, io.EOF) || !bytes.Equal(b, model) {
					return fmt.Errorf("read-only read gave %d bytes, %v", n, err)
				}
				for _, at := range []int64{0, max(0, off), int64(len(model))} {
					if len(model) > 0 {
						at %= int64(len(model)) + 1
					}
					w := fill(op.Seed, max(op.Len, 1))
					if n, err := m.WriteAt(w, at); err == nil {
						return fmt.Errorf("writing %d bytes at %d of %d of a file opened for reading returned %d and no error", len(w), at, len(model), n)
					}
					if _, err := m.Seek(min(at, int64(len(model))), io.SeekStart); err != nil {
						return fmt.Errorf("seek: %v", err)
					}
					if n, err := m.Write(w); err == nil {
						return fmt.Errorf("writing %d bytes at position %d of %d of a file opened for reading returned %d and no error", len(w), at, len(model), n)
					}
					if p, err := m.Seek(0, io.SeekCurrent); err != nil || p != min(at, int64(len(model))) {
						return fmt.Errorf("a refused write moved the position from %d to %d (%v)", at, p, err)
					}
				}
				if !bytes.Equal(m.Bytes(), model) {
					return fmt.Errorf("a refused write changed the content")
				}
				ctx.Label("refused-writes")
				return reopen(os.O_RDWR)
			}
			return nil
		}()
		if err == nil && !bytes.Equal(m.Bytes(), model) {
			err = fmt.Errorf("content of %d bytes differs from the model's %d bytes", len(m.Bytes()), len(model))
		}
		if err == nil {
			if p, e := m.Seek(0, io.SeekCurrent); e != nil || p != pos {
				err = fmt.Errorf("position is %d (%v), model %d", p, e, pos)
			}
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.Kind, err)
		}
	}
	if err := reopen(os.O_RDWR); err != nil {
		return err
	}
	if !bytes.Equal(m.Bytes(), model) {
		return fmt.Errorf("content differs after the last reopen")
	}
	if err := shut(); err != nil {
		return err
	}
	for _, p := range []string{filepath.Join(dir, "missing"), dir, filepath.Join(path, "below")} {
		if m, err := mmap.OpenFile(p, os.O_RDWR, 0o644); err == nil {
			m.Close()
			return fmt.Errorf("%s, not a file, was opened", p)
		}
	}
	ctx.Labelf(grew > 1, "grew-several-times")
	ctx.Labelf(gaps > 0, "gap")
	ctx.Labelf(reopened, "reopened")
	ctx.NT(grew > 0)
	return nil
}

// ---- files beyond 2 and 4 GiB, nearly all of them holes ----

type mmWideOp struct {
	Kind string `json:"k"` // writeat, readat, write, read, reopen, readonly
	Base int    `json:"base"`
	Off  int64  `json:"off"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
}

type mmWide struct {
	Ops []mmWideOp `json:"ops"`
}

// mmBases are places whose positions need 31, 32 or 33 bits; -1 is the end of the file.
var mmBases = []int64{0, 1 << 31, 1<<32 - 4096, 1 << 32, 1<<32 + 1<<31, -1}

func genMMWide(t *rapid.T) mmWide {
	c := mmWide{}
	for i, n := 0, rapid.IntRange(2, 24).Draw(t, "n"); i < n; i++ {
		if skip(t) {
			continue
		}
		c.Ops = append(c.Ops, mmWideOp{
			Kind: []string{"writeat", "readat", "write", "read", "reopen", "readonly"}[weighted(t, "kind", 6, 4, 4, 3, 1, 1)],
			Base: weighted(t, "base", 2, 4, 3, 4, 3, 6),
			Off:  int64(rapid.IntRange(-6000, 6000).Draw(t, "off")),
			Len:  []int{rapid.IntRange(1, 40).Draw(t, "len"), rapid.IntRange(1, 9000).Draw(t, "long"), 4096}[weighted(t, "lenk", 3, 2, 1)],
			Seed: rapid.Uint64Range(1, 1<<16).Draw(t, "seed"),
		})
	}
	return c
}

func judgeMMWide(c mmWide, ctx *Ctx) error {
	path := filepath.Join(ctx.Dir(), "f")
	writeFile(path, nil)
	if os.Truncate(path, 7<<30) != nil || os.Truncate(path, 0) != nil {
		ctx.Label("no-large-files")
		return nil
	}
	m, err := mmap.OpenFile(path, os.O_RDWR, 0o644)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer func() { m.Close() }()
	size, pos := int64(0), int64(0)
	pages := map[int64][]byte{}
	window := func(off int64, n int) []byte {
		b := make([]byte, n)
		for i := 0; i < n; {
			pg, in := (off+int64(i))/4096, int((off+int64(i))%4096)
			k := min(n-i, 4096-in)
			if p := pages[pg]; p != nil {
				copy(b[i:i+k], p[in:])
			}
			i += k
		}
		return b
	}
	put := func(b []byte, off int64) {
		for i := range b {
			pg, in := (off+int64(i))/4096, (off+int64(i))%4096
			if pages[pg] == nil {
				pages[pg] = make([]byte, 4096)
			}
			pages[pg][in] = b[i]
		}
		size = max(size, off+int64(len(b)))
	}
	seen := []int64{}
	all := func(what string) error {
		if int64(len(m.Bytes())) != size {
			return fmt.Errorf("%s: content has %d bytes, model %d", what, len(m.Bytes()), size)
		}
		for _, off := range seen {
			n := int(min(12000, size-off))
			if !bytes.Equal(m.Bytes()[off:off+int64(n)], window(off, n)) {
				return fmt.Errorf("%s: content near %d of %d differs", what, off, size)
			}
		}
		return nil
	}
	reopen := func(flag int) error {
		if err := m.Close(); err != nil {
			return fmt.Errorf("close: %v", err)
		}
		fi, err := os.Stat(path)
		if err != nil {
			panic(harnessError{err})
		}
		if fi.Size() != size {
			return fmt.Errorf("the closed file has %d bytes, want %d", fi.Size(), size)
		}
		f, err := os.Open(path)
		if err != nil {
			panic(harnessError{err})
		}
		defer f.Close()
		for _, off := range seen {
			b := make([]byte, min(12000, size-off))
			if _, err := f.ReadAt(b, off); err != nil {
				panic(harnessError{err})
			}
			if !bytes.Equal(b, window(off, len(b))) {
				return fmt.Errorf("the closed file differs near %d of %d", off, size)
			}
		}
		m2, err := mmap.OpenFile(path, flag, 0o644)
		if err != nil {
			return fmt.Errorf("reopen: %v", err)
		}
		m, pos = m2, 0
		return all("after reopening")
	}
	for i, op := range c.Ops {
		at := mmBases[op.Base]
		if at < 0 {
			at = size
		}
		at = max(0, at+op.Off)
		switch op.Kind {
		case "writeat", "write":
			b := fill(op.Seed, op.Len)
			var n int
			if op.Kind == "write" {
				at = min(at, size)
				if p, err := m.Seek(at, io.SeekStart); err != nil || p != at {
					return fmt.Errorf("op %d: seek to %d of %d gave %d, %v", i, at, size, p, err)
				}
				n, err = m.Write(b)
				pos = at + int64(len(b))
			} else {
				n, err = m.WriteAt(b, at)
			}
			if err != nil || n != len(b) {
				return fmt.Errorf("op %d: %s of %d at %d of %d returned %d, %v", i, op.Kind, len(b), at, size, n, err)
			}
			put(b, at)
			seen = append(seen, max(0, at-100))
			if p, err := m.Seek(0, io.SeekCurrent); err != nil || p != pos {
				return fmt.Errorf("op %d: position is %d (%v), model %d", i, p, err, pos)
			}
		case "readat", "read":
			b := make([]byte, op.Len)
			var n int
			if op.Kind == "read" {
				at = min(at, size)
				if p, err := m.Seek(at-size, io.SeekEnd); err != nil || p != at {
					return fmt.Errorf("op %d: seek to %d of %d gave %d, %v", i, at, size, p, err)
				}
				n, err = m.Read(b)
			} else {
				n, err = m.ReadAt(b, at)
			}
			want := int(max(0, min(int64(op.Len), size-at)))
			if op.Kind == "read" {
				pos = at + int64(want)
			}
			if n != want || n < op.Len && err == nil || n == op.Len && err != nil && err != io.EOF {
				return fmt.Errorf("op %d: %s of %d at %d of %d gave %d bytes, %v", i, op.Kind, op.Len, at, size, n, err)
			}
			if !bytes.Equal(b[:n], window(at, n)) {
				return fmt.Errorf("op %d: %s of %d at %d of %d gave wrong data", i, op.Kind, op.Len, at, size)
			}
			if p, err := m.Seek(0, io.SeekCurrent); err != nil || p != pos {
				return fmt.Errorf("op %d: position is %d (%v), model %d", i, p, err, pos)
			}
		case "reopen":
			if err := reopen(os.O_RDWR); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		case "readonly":
			if err := reopen(os.O_RDONLY); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			if n, err := m.WriteAt(fill(op.Seed, op.Len), at); err == nil {
				return fmt.Errorf("op %d: writing at %d of %d of a file opened for reading returned %d and no error", i, at, size, n)
			}
			if err := reopen(os.O_RDWR); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
	}
	if err := reopen(os.O_RDWR); err != nil {
		return err
	}
	ctx.Labelf(size > 1<<31, "over-2G")
	ctx.Labelf(size > 1<<32, "over-4G")
	ctx.NT(size > 1<<31 && len(seen) > 1)
	return nil
}

func init() {
	register("C15", "sequences of read, write, positioned read and write, seek, close and reopen (also read-only) with lengths and offsets around page boundaries and the file end, on a real file in a scratch directory, compared after every step with a byte slice; wide: the same beyond 2 and 4 GiB (sparse files); non-trivial = the file grew, in wide beyond 2 GiB with at least two writes",
		sub("model", 6000, 120000, genMM, judgeMM),
		sub("wide", 1600, 40000, genMMWide, judgeMMWide))
}
